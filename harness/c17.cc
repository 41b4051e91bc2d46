// C17: random metadata edit histories replayed against a reference model; full state compared after every operation.
#include "vfx.h"
#include <fimex/CDMconstants.h>
#include <fimex/coordSys/CoordinateSystem.h>
#include <regex>
using namespace vf;

struct MV { CDMDataType t; sv shape; bool data = false; dv val; };
struct Model
{
    std::map<std::string, std::pair<size_t, bool>> dims;
    std::map<std::string, MV> vars;
    std::map<std::string, std::map<std::string, std::string>> atts; // var -> name -> canonical text
    std::map<std::string, std::map<std::string, CDMAttribute>> attv;
    bool inUse(const std::string& d) const
    {
        if (!dims.count(d)) return false;
        for (auto& v : vars) if (std::find(v.second.shape.begin(), v.second.shape.end(), d) != v.second.shape.end()) return true;
        return false;
    }
    std::string str() const
    {
        std::set<std::string> l;
        for (auto& d : dims) { std::ostringstream s; s << "dim " << d.first << ' ' << d.second.first << (d.second.second ? "*" : ""); l.insert(s.str()); }
        for (auto& v : vars) l.insert("var " + v.first + " " + datatype2string(v.second.t) + " " + vstr(v.second.shape));
        for (auto& va : atts) for (auto& a : va.second) l.insert("att " + va.first + " " + a.second);
        std::string o;
        for (auto& x : l) o += x + "\n";
        return o;
    }
};
static const std::string G = "_GLOBAL";
static const sv VN = {"a", "b", "c", "x", "y", "t"};
static const sv DN = {"x", "y", "t", "z"};
static const sv AN = {"units", "standard_name", "_FillValue", "scale_factor", "valid_min", "valid_range", "add_offset", "valid_max", "axis", "note"};

static CDMAttribute randAttr(Rng& r, const std::string& n, CDMDataType vt)
{
    if (n == "units") return CDMAttribute(n, r.pick<std::string>({"m", "degrees_north", "degrees_east", "hours since 2000-01-01 00:00:00", "1"}));
    if (n == "standard_name") return CDMAttribute(n, r.pick<std::string>({"latitude", "longitude", "time", "air_pressure"}));
    if (n == "axis") return CDMAttribute(n, r.pick<std::string>({"X", "Y", "Z", "T"}));
    if (n == "note") return r.chance(0.5) ? CDMAttribute(n, std::string("text ") + std::to_string(r.range(0, 5))) : CDMAttribute(n, mkData(r.pick(numTypes()), dv{(double)r.range(0, 100), (double)r.range(0, 100)}));
    if (n == "valid_range") return CDMAttribute(n, mkData(CDM_DOUBLE, dv{(double)r.range(-10, 0), (double)r.range(1, 10)}));
    if (n == "_FillValue") return CDMAttribute(n, mkData(vt, dv{(double)r.range(0, 100)}));
    return CDMAttribute(n, mkData(CDM_DOUBLE, dv{(double)r.range(1, 50)}));
}
static std::string axes(const CDM& c)
{
    std::string o;
    for (const std::string& v : VN) {
        if (!c.hasVariable(v)) continue;
        o += v + ":" + c.getHorizontalXAxis(v) + "," + c.getHorizontalYAxis(v) + "," + c.getVerticalAxis(v) + "," + c.getTimeAxis(v) + ";";
    }
    return o;
}
static double defFill(CDMDataType t)
{
    switch (t) {
    case CDM_CHAR: return MIFI_FILL_CHAR;
    case CDM_SHORT: return MIFI_FILL_SHORT;
    case CDM_INT: return MIFI_FILL_INT;
    case CDM_FLOAT: return MIFI_FILL_FLOAT;
    case CDM_DOUBLE: return MIFI_FILL_DOUBLE;
    case CDM_UCHAR: return MIFI_FILL_UCHAR;
    case CDM_USHORT: return MIFI_FILL_USHORT;
    case CDM_UINT: return MIFI_FILL_UINT;
    case CDM_INT64: return MIFI_FILL_INT64;
    case CDM_UINT64: return MIFI_FILL_UINT64;
    default: return NAN;
    }
}

static void compare(Ctx& c, const CDM& cdm, const Model& m, const std::string& op)
{
    const std::string got = cdmStr(cdm), want = m.str();
    VCHECK(c, got == want, "state:" + op, firstDiff(want, got));
    VCHECK(c, cdm.getDimensions().size() == m.dims.size() && cdm.getVariables().size() == m.vars.size(), "state:duplicates:" + op, got);
    // look-ups
    for (auto& n : DN) {
        VCHECK(c, cdm.hasDimension(n) == !!m.dims.count(n), "lookup:hasDimension", n);
        VCHECK(c, cdm.testDimensionInUse(n) == m.inUse(n), "lookup:dimensionInUse", n);
        if (m.dims.count(n)) VCHECK(c, cdm.getDimension(n).getLength() == m.dims.at(n).first && cdm.getDimension(n).getName() == n, "lookup:dimension", n);
        else VCHECK(c, throws([&] { cdm.getDimension(n); }), "lookup:missing-dimension", n);
    }
    const CDMDimension* u = cdm.getUnlimitedDim();
    size_t nu = 0;
    for (auto& d : m.dims) nu += d.second.second;
    VCHECK(c, !!u == (nu > 0) && (!u || m.dims.at(u->getName()).second), "lookup:unlimited", (u ? u->getName() : "none"));
    for (auto& n : VN) {
        VCHECK(c, cdm.hasVariable(n) == !!m.vars.count(n), "lookup:hasVariable", n);
        auto ai = m.attv.find(n);
        VCHECK(c, cdm.getAttributes(n).size() == (ai == m.attv.end() ? 0 : ai->second.size()), "lookup:attribute-count", n);
        for (auto& a : AN) {
            const bool have = ai != m.attv.end() && ai->second.count(a);
            VCHECK(c, cdm.hasAttribute(n, a) == have, "lookup:hasAttribute", n << " " << a);
            CDMAttribute at;
            VCHECK(c, cdm.getAttribute(n, a, at) == have && (!have || attrStr(at) == m.atts.at(n).at(a)), "lookup:attribute", n << " " << a);
            if (have) VCHECK(c, attrStr(cdm.getAttribute(n, a)) == m.atts.at(n).at(a), "lookup:attribute", n << " " << a);
            else VCHECK(c, throws([&] { cdm.getAttribute(n, a); }), "lookup:missing-attribute", n << " " << a);
        }
        if (!m.vars.count(n)) { VCHECK(c, throws([&] { cdm.getVariable(n); }), "lookup:missing-variable", n); continue; }
        const MV& mv = m.vars.at(n);
        const CDMVariable& v = cdm.getVariable(n);
        VCHECK(c, v.getName() == n && v.getDataType() == mv.t && v.getShape() == mv.shape, "lookup:variable", n);
        VCHECK(c, v.hasData() == mv.data, "lookup:hasData:" + op, n);
        if (mv.data) expectData(c, "lookup:data:" + op, v.getData(), mv.val, 0, n);
        if (nu == 1) VCHECK(c, cdm.hasUnlimitedDim(v) == (std::find(mv.shape.begin(), mv.shape.end(), u->getName()) != mv.shape.end()), "lookup:hasUnlimited", n);
        auto num = [&](const std::string& a, size_t i, double def) {
            if (ai == m.attv.end() || !ai->second.count(a)) return def;
            return toD(ai->second.at(a).getData())[i];
        };
        auto text = [&](const std::string& a) { return ai == m.attv.end() || !ai->second.count(a) ? std::string() : ai->second.at(a).getStringValue(); };
        VCHECK(c, same(cdm.getScaleFactor(n), num("scale_factor", 0, 1)), "value:scale", n);
        VCHECK(c, same(cdm.getAddOffset(n), num("add_offset", 0, 0)), "value:offset", n);
        VCHECK(c, same(cdm.getValidMin(n), num("valid_min", 0, num("valid_range", 0, NAN))), "value:valid_min", n);
        VCHECK(c, same(cdm.getValidMax(n), num("valid_max", 0, num("valid_range", 1, NAN))), "value:valid_max", n);
        VCHECK(c, cdm.getUnits(n) == text("units"), "value:units", n);
        if (!(ai != m.attv.end() && ai->second.count("_FillValue") && ai->second.at("_FillValue").getDataType() != mv.t))
            VCHECK(c, same(cdm.getFillValue(n), num("_FillValue", 0, defFill(mv.t))), "value:fill", n << " " << cdm.getFillValue(n));
    }
}
static CDM rebuild(const Model& m)
{
    CDM k;
    for (auto& d : m.dims) { CDMDimension x(d.first, d.second.first); x.setUnlimited(d.second.second); k.addDimension(x); }
    for (auto& v : m.vars) { CDMVariable x(v.first, v.second.t, v.second.shape); if (v.second.data) x.setData(mkData(v.second.t, v.second.val)); k.addVariable(x); }
    for (auto& va : m.attv) for (auto& a : va.second) k.addAttribute(va.first, a.second);
    return k;
}

static void history(Ctx& c)
{
    Rng& r = c.r;
    std::vector<std::pair<CDM, Model>> st(1);
    st.reserve(8);
    const int n = r.range(5, 40);
    if (r.chance(0.7)) { // CF start so that coordinate look-ups mean something
        Model& m = st[0].second;
        CDMAttribute a("Conventions", std::string("CF-1.4"));
        st[0].first.addAttribute(G, a);
        m.atts[G]["Conventions"] = attrStr(a);
        m.attv[G]["Conventions"] = a;
    }
    for (int i = 0; i < n; ++i) {
        const size_t w = r.below(st.size());
        CDM& k = st[w].first;
        Model& m = st[w].second;
        const int o = r.below(20);
        std::string op;
        const std::string v = r.pick(VN), v2 = r.pick(VN), d = r.pick(DN), d2 = r.pick(DN), a = r.pick(AN);
        auto info = [&](const std::string& s) { op = s.substr(0, s.find(' ')); c.d << "#" << w << " " << s << "; "; };
        auto expectThrow = [&](bool want, std::function<void()> f) {
            bool th = false;
            try { f(); } catch (CDMException&) { th = true; }
            VCHECK(c, th == want, std::string("exception:") + op, (want ? "no exception thrown" : "unexpected exception"));
        };
        if (o < 4) {
            info("addVariable " + v);
            MV mv{r.pick(numTypes()), {}};
            for (auto& x : DN) if (m.dims.count(x) && r.chance(0.4)) mv.shape.push_back(x);
            CDMVariable x(v, mv.t, mv.shape);
            if (r.chance(0.3)) {
                size_t len = 1;
                for (auto& s : mv.shape) len *= m.dims[s].first;
                for (size_t j = 0; j < len; ++j) mv.val.push_back(r.range(0, 100));
                x.setData(mkData(mv.t, mv.val));
                mv.data = true;
            }
            const bool dup = m.vars.count(v);
            expectThrow(dup, [&] { k.addVariable(x); });
            if (!dup) m.vars[v] = mv;
        } else if (o < 6) {
            info("addDimension " + d);
            bool haveU = false;
            for (auto& x : m.dims) haveU |= x.second.second;
            CDMDimension x(d, r.range(1, 4));
            x.setUnlimited(!haveU && r.chance(0.3));
            const bool dup = m.dims.count(d);
            expectThrow(dup, [&] { k.addDimension(x); });
            if (!dup) m.dims[d] = std::make_pair(x.getLength(), !!x.isUnlimited());
        } else if (o < 10) {
            const std::string t = r.chance(0.1) ? G : v;
            const bool rep = r.chance(0.5), exists = t == G || m.vars.count(t);
            CDMAttribute x = randAttr(r, a, m.vars.count(t) ? m.vars[t].t : CDM_INT);
            info(std::string(rep ? "addOrReplaceAttribute " : "addAttribute ") + t + " " + attrStr(x));
            const bool th = !exists || (!rep && m.atts[t].count(a));
            expectThrow(th, [&] { if (rep) k.addOrReplaceAttribute(t, x); else k.addAttribute(t, x); });
            if (!th) { m.atts[t][a] = attrStr(x); m.attv[t][a] = x; }
        } else if (o < 11) {
            info("removeAttribute " + v + " " + a);
            k.removeAttribute(v, a);
            if (m.atts.count(v)) { m.atts[v].erase(a); m.attv[v].erase(a); }
        } else if (o < 13) {
            info("renameVariable " + v + " " + v2);
            const bool ex = m.vars.count(v);
            VCHECK(c, k.renameVariable(v, v2) == ex, "return:renameVariable", ex);
            if (ex && v != v2) {
                m.vars[v2] = m.vars[v];
                m.vars.erase(v);
                m.atts[v2] = m.atts[v]; m.atts.erase(v);
                m.attv[v2] = m.attv[v]; m.attv.erase(v);
            }
        } else if (o < 14) {
            info("removeVariable " + v);
            k.removeVariable(v);
            m.vars.erase(v); m.atts.erase(v); m.attv.erase(v);
        } else if (o < 16) {
            const bool ign = r.chance(0.3);
            info("renameDimension " + d + " " + d2 + (ign ? " ignoreInUse" : ""));
            const bool ex = m.dims.count(d);
            if (ex && d != d2 && !ign && m.inUse(d2)) expectThrow(true, [&] { k.renameDimension(d, d2); });
            else {
                bool ret = false;
                expectThrow(false, [&] { ret = ign ? k.renameDimension(d, d2, true) : k.renameDimension(d, d2); });
                VCHECK(c, ret == ex, "return:renameDimension", ret);
                if (ex && d != d2) {
                    m.dims[d2] = m.dims[d];
                    m.dims.erase(d);
                    for (auto& x : m.vars) for (auto& s : x.second.shape) if (s == d) s = d2;
                }
            }
        } else if (o < 17) {
            const bool ign = r.chance(0.2);
            info("removeDimension " + d + (ign ? " ignoreInUse" : ""));
            const bool ex = m.dims.count(d), th = !ign && m.inUse(d);
            bool ret = false;
            expectThrow(th, [&] { ret = k.removeDimension(d, ign); });
            if (!th) { VCHECK(c, ret == ex, "return:removeDimension", ret); m.dims.erase(d); }
        } else if (o < 18) {
            if (st.size() < 4) {
                info("copy");
                auto cp = st[w];
                if (r.chance(0.5)) { CDM fresh; fresh = st[w].first; cp.first = fresh; }
                st.push_back(cp);
            } else {
                info("assign");
                const size_t to = r.below(st.size());
                st[to] = st[w];
            }
        } else if (o < 19) {
            info("findVariables " + a);
            const std::string re = r.pick<std::string>({".*", "lat.*", "degrees_.*", "m", "time", "longitude", "T|X"});
            std::map<std::string, std::string> q{{a, re}};
            sv ds;
            if (r.chance(0.5)) ds.push_back(d);
            sv got = ds.empty() ? k.findVariables(a, re) : k.findVariables(q, ds);
            std::set<std::string> want;
            for (auto& x : m.vars) {
                if (!m.attv.count(x.first) || !m.attv[x.first].count(a)) continue;
                const std::string s = m.attv[x.first][a].getStringValue();
                if (!std::regex_match(s, std::regex(re))) continue;
                bool ok = true;
                for (auto& y : ds) if (std::find(x.second.shape.begin(), x.second.shape.end(), y) == x.second.shape.end()) ok = false;
                if (ok) want.insert(x.first);
            }
            VCHECK(c, std::set<std::string>(got.begin(), got.end()) == want && got.size() == want.size(), "findVariables", vstr(got) << " expected " << vstr(sv(want.begin(), want.end())));
        } else {
            if (m.vars.count(v)) {
                info("setVariableType " + v);
                const CDMDataType t = r.pick(numTypes());
                if (m.vars[v].t != t) { m.vars[v].data = false; }
                m.vars[v].t = t;
                k.getVariable(v).setDataType(t);
            } else info("nothing");
        }
        c.cnt("op_" + op);
        // every copy must be in its own state: an edit on one is invisible in the others
        for (size_t j = 0; j < st.size(); ++j) compare(c, st[j].first, st[j].second, (j == w ? op : "other-copy-" + op));
        // cached coordinate look-ups follow the edits
        bool shapesOk = true;
        for (auto& x : m.vars) for (auto& s : x.second.shape) if (!m.dims.count(s)) shapesOk = false;
        if (shapesOk && r.chance(0.25)) {
            const CDM f = rebuild(m);
            std::string ga, gb;
            bool ta = throws([&] { ga = axes(k); }), tb = throws([&] { gb = axes(f); });
            VCHECK(c, ta == tb && ga == gb, "axes-after-edit", "axes after edits " << ga << " freshly built " << gb);
            c.cnt("axis_lookups");
        }
    }
    c.sig(c.d.str());
}
VF_MAIN("C17", "metadata state equals the reference model after every operation of a random history", {"history", history, 3000, 60000})
