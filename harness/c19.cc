// C19: NcML edits vs a reference application of the same edits on the described dataset.
#include "vfx.h"
#include <fimex/NcmlCDMReader.h>
#include <fimex/XMLInputString.h>
using namespace vf;

struct EV { CDMDataType t; sv shape; dv val; double tol = 0; bool physical = false; std::map<std::string, std::string> att; };
struct Exp { std::map<std::string, Dim> dims; std::map<std::string, EV> vars; std::map<std::string, std::string> glob; };

static std::string num(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
static const std::map<CDMDataType, std::string> ncmlType = {{CDM_CHAR, "byte"}, {CDM_SHORT, "short"}, {CDM_INT, "int"}, {CDM_INT64, "long"}, {CDM_FLOAT, "float"}, {CDM_DOUBLE, "double"}};
static const std::vector<CDMDataType> types = {CDM_CHAR, CDM_SHORT, CDM_INT, CDM_INT64, CDM_FLOAT, CDM_DOUBLE};

struct A { std::string name; CDMDataType t; dv v; std::string s; };
static std::string aStr(const A& a) { return attrStr(a.t == CDM_STRING ? CDMAttribute(a.name, a.s) : CDMAttribute(a.name, mkData(a.t, a.v))); }
static A randA(Rng& r, const std::string& n)
{
    A a;
    a.name = n;
    a.t = r.pick({CDM_STRING, CDM_STRING, CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE, CDM_INT64});
    if (a.t == CDM_STRING) a.s = r.pick<std::string>({"m", "hello world", "a,b;c", "x & y <z>", "k = \"v\"", "30", "blåbær"});
    else for (int i = r.range(1, 3); i > 0; --i) a.v.push_back(r.range(0, 1000) / (a.t == CDM_FLOAT || a.t == CDM_DOUBLE ? 4. : 1.));
    return a;
}
static std::string esc(const std::string& s) { std::string o; for (char c : s) { if (c == '&') o += "&amp;"; else if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '"') o += "&quot;"; else o += c; } return o; }
static std::string aXml(Rng& r, const A& a, const std::string& org = "")
{
    std::string x = "<attribute name=\"" + a.name + "\"" + (org.empty() ? "" : " orgName=\"" + org + "\"");
    std::string sep, val;
    if (a.t == CDM_STRING) { if (r.chance(0.5)) x += r.chance(0.5) ? " type=\"string\"" : " type=\"String\""; val = esc(a.s); }
    else {
        x += " type=\"" + ncmlType.at(a.t) + "\"";
        std::string d = " ";
        if (r.chance(0.3)) { d = r.pick<std::string>({";", "|", "#"}); x += " separator=\"" + d + "\""; }
        else d = r.pick<std::string>({" ", ", ", "\t"});
        for (size_t i = 0; i < a.v.size(); ++i) val += (i ? d : "") + num(a.v[i]);
    }
    return r.chance(0.8) ? x + " value=\"" + val + "\"/>" : x + ">" + val + "</attribute>";
}

static void edit(Ctx& c)
{
    Rng& r = c.r;
    Dataset ds = randDataset(r, 4, true);
    if (ds.vars.size() < 2 || r.chance(0.5)) { sv s = ds.vars[0].shape; Var& v = ds.add("w", r.pick(types), s); fillUnique(v, r); }
    for (auto& v : ds.vars) if (v.type == CDM_UCHAR || v.type == CDM_USHORT || v.type == CDM_UINT || v.type == CDM_UINT64) v.type = CDM_INT;
    std::map<std::string, std::vector<A>> atts;
    static const sv an = {"units", "note", "long_name", "k1", "k2"};
    for (auto& v : ds.vars) {
        for (auto& a : an) if (r.chance(0.5)) atts[v.name].push_back(randA(r, a));
        r.shuffle(atts[v.name]);
    }
    for (auto& a : an) if (r.chance(0.5)) atts["_GLOBAL"].push_back(randA(r, a));
    std::map<std::string, double> fill;
    for (auto& v : ds.vars) if (r.chance(0.4)) { fill[v.name] = 119; ds.att(v.name, "_FillValue", v.type, {119}); }
    for (auto& va : atts) for (auto& a : va.second) { if (a.t == CDM_STRING) ds.att(va.first, a.name, a.s); else ds.att(va.first, a.name, a.t, a.v); }
    const bool coordVar = r.chance(0.3);

    Exp e;
    for (auto& d : ds.dims) e.dims[d.name] = d;
    std::ostringstream x;
    std::vector<std::string> elems;
    auto inUse = [&](const std::string& d) { for (auto& v : ds.vars) if (std::find(v.shape.begin(), v.shape.end(), d) != v.shape.end()) return true; return false; };

    // --- removals
    std::set<std::string> removedVars;
    for (auto& v : ds.vars) if (ds.vars.size() > 1 && r.chance(0.1)) { removedVars.insert(v.name); elems.push_back("<remove name=\"" + v.name + "\" type=\"variable\"/>"); }
    auto inUseAfter = [&](const std::string& d) { for (auto& v : ds.vars) if (!removedVars.count(v.name) && std::find(v.shape.begin(), v.shape.end(), d) != v.shape.end()) return true; return false; };
    (void)inUse;
    // removals are processed in document order: variables were put first
    for (auto& d : ds.dims) if (!inUseAfter(d.name) && r.chance(0.3)) { e.dims.erase(d.name); elems.push_back("<remove name=\"" + d.name + "\" type=\"dimension\"/>"); }

    // --- dimensions
    std::map<std::string, std::string> dn; // org -> new
    std::map<std::string, size_t> newLen;
    for (auto& d : ds.dims) {
        dn[d.name] = d.name;
        newLen[d.name] = d.len;
        if (!e.dims.count(d.name)) continue;
        const bool ren = r.chance(0.25);
        std::string el;
        if (ren) { dn[d.name] = d.name + "_new"; el = " orgName=\"" + d.name + "\""; }
        Dim nd = d;
        nd.name = dn[d.name];
        if (r.chance(0.1) && d.len > 1) { nd.len = r.range(1, d.len - 1); el += " length=\"" + std::to_string(nd.len) + "\""; newLen[d.name] = nd.len; }
        if (d.unlim && r.chance(0.2)) { nd.unlim = false; el += " isUnlimited=\"false\""; }
        if (!el.empty()) {
            e.dims.erase(d.name);
            e.dims[nd.name] = nd;
            elems.push_back("<dimension name=\"" + nd.name + "\"" + el + "/>");
        }
    }
    if (r.chance(0.3)) {
        const size_t l = r.range(1, 4);
        e.dims["nd"] = Dim{"nd", l, false};
        elems.push_back("<dimension name=\"nd\" length=\"" + std::to_string(l) + "\"/>");
    }
    // --- existing variables
    std::map<std::string, std::string> vn; // org -> new
    sv live;
    for (auto& v : ds.vars) if (!removedVars.count(v.name)) live.push_back(v.name);
    for (auto& v : live) vn[v] = v;
    const int renameMode = r.below(4);
    if (renameMode == 1) for (auto& v : live) { if (r.chance(0.5)) vn[v] = "r_" + v; }
    if (renameMode == 2 && live.size() >= 2) { // permutation
        sv p = live;
        std::rotate(p.begin(), p.begin() + 1, p.end());
        for (size_t i = 0; i < live.size(); ++i) vn[live[i]] = p[i];
    }
    if (renameMode == 3 && live.size() >= 2) { // replace another variable
        vn[live[0]] = live[1];
        vn.erase(live[1]);
    }
    bool anyType = false;
    for (auto& vv : vn) {
        const Var& v = ds.var(vv.first);
        const std::string nn = vv.second;
        EV ev;
        ev.t = v.type;
        for (auto& s : v.shape) ev.shape.push_back(dn[s]);
        for (auto& a : atts[v.name]) ev.att[a.name] = aStr(a);
        std::vector<szv> idx;
        std::string shapeAttr;
        sv keepShape = ev.shape;
        if (v.shape.size() > 1 && r.chance(0.1)) { // drop one dimension: first index is used
            const size_t k = r.below(v.shape.size());
            keepShape.erase(keepShape.begin() + k);
            shapeAttr = " shape=\"";
            for (size_t i = keepShape.size(); i-- > 0;) shapeAttr += keepShape[i] + (i ? " " : "");
            shapeAttr += "\"";
        }
        for (size_t i = 0; i < v.shape.size(); ++i) {
            if (std::find(keepShape.begin(), keepShape.end(), ev.shape[i]) == keepShape.end()) idx.push_back({0});
            else idx.push_back(iota(newLen[v.shape[i]]));
        }
        ev.shape = keepShape;
        ev.val = gather(v.val, ds.lens(v), idx);
        if (fill.count(v.name)) ev.att["_FillValue"] = aStr(A{"_FillValue", v.type, {119}, ""});
        std::string el, ch;
        if (vn[v.name] != v.name) el += " orgName=\"" + v.name + "\"";
        el += shapeAttr;
        // removed attributes
        for (auto& a : atts[v.name]) if (r.chance(0.15)) { ch += "<remove name=\"" + a.name + "\" type=\"attribute\"/>"; ev.att.erase(a.name); }
        // renamed attributes
        if (r.chance(0.3)) {
            const std::string from = r.pick(an), to = r.chance(0.5) ? r.pick(an) : "renamed";
            ch += "<attribute name=\"" + to + "\" orgName=\"" + from + "\"/>";
            if (ev.att.count(from)) { std::string s = ev.att[from]; ev.att.erase(from); ev.att[to] = to + s.substr(from.size()); }
        }
        // new or replaced attributes
        std::set<std::string> done;
        for (int i = r.range(0, 2); i > 0; --i) {
            A a = randA(r, r.chance(0.5) ? r.pick(an) : "added");
            if (!done.insert(a.name).second) continue;
            ch += aXml(r, a);
            ev.att[a.name] = aStr(a);
        }
        // type change
        const bool values = r.chance(0.15);
        if (r.chance(0.25)) {
            const CDMDataType nt = r.pick(types);
            el += " type=\"" + ncmlType.at(nt) + "\"";
            if (nt != v.type) {
                anyType = true;
                double sc = 1, off = 0, nf = NAN;
                const bool pack = r.chance(0.4);
                if (pack) {
                    sc = r.pick({0.5, 2.0, 10.0});
                    off = r.pick({0.0, 5.0, -20.0});
                    A s{"scale_factor", CDM_DOUBLE, {sc}, ""}, o{"add_offset", CDM_DOUBLE, {off}, ""};
                    ch += aXml(r, s) + aXml(r, o);
                    ev.att["scale_factor"] = aStr(s);
                    ev.att["add_offset"] = aStr(o);
                }
                if (fill.count(v.name) || r.chance(0.3)) {
                    nf = r.pick({-100.0, -120.0});
                    A f{"_FillValue", nt, {nf}, ""};
                    ch += aXml(r, f);
                    ev.att["_FillValue"] = aStr(f);
                }
                if (!values) {
                    double lo, hi;
                    typeLimits(nt, lo, hi);
                    for (double& q : ev.val) {
                        if (fill.count(v.name) && q == 119) q = nf;
                        else { q = (q - off) / sc; if (q < lo || q > hi) throw Skip(); if (q == nf) throw Skip(); }
                    }
                    if (isInt(nt)) ev.tol = 0.5;
                    else ev.tol = nt == CDM_FLOAT ? 1e-3 : 1e-9;
                }
                ev.t = nt;
            }
        }
        if (values) {
            dv nv;
            size_t n = 1;
            for (auto& s : ev.shape) n *= e.dims.at(s).len;
            double lo, hi;
            typeLimits(ev.t, lo, hi);
            if (r.chance(0.4)) {
                const double st = r.range(0, 10), inc = r.range(1, 3);
                for (size_t i = 0; i < n; ++i) nv.push_back(st + inc * i);
                if (nv.back() > hi) throw Skip();
                ch += "<values start=\"" + num(st) + "\" increment=\"" + num(inc) + "\"/>";
            } else {
                const std::string sep = r.chance(0.3) ? ";" : "";
                ch += sep.empty() ? "<values>" : "<values separator=\";\">";
                for (size_t i = 0; i < n; ++i) { nv.push_back(r.range(0, 100)); ch += (i ? (sep.empty() ? r.pick<std::string>({" ", ", ", "\n"}) : sep) : "") + num(nv[i]); }
                ch += "</values>";
            }
            ev.val = nv;
            ev.tol = 0;
        }
        if (!el.empty() || !ch.empty()) elems.push_back("<variable name=\"" + nn + "\"" + el + (ch.empty() ? "/>" : ">" + ch + "</variable>"));
        e.vars[nn] = ev;
    }
    // --- new variable
    if (r.chance(0.4)) {
        EV ev;
        ev.t = r.pick(types);
        sv ad;
        for (auto& d : e.dims) if (!d.second.unlim && r.chance(0.4)) ad.push_back(d.first);
        if (ad.size() > 2) ad.resize(2);
        ev.shape = ad;
        size_t n = 1;
        for (auto& s : ad) n *= e.dims[s].len;
        std::string sh, vals;
        for (size_t i = ad.size(); i-- > 0;) sh += ad[i] + (i ? " " : "");
        for (size_t i = 0; i < n; ++i) { ev.val.push_back(r.range(0, 120)); vals += (i ? " " : "") + num(ev.val[i]); }
        A a = randA(r, "note");
        ev.att["note"] = aStr(a);
        const std::string tn = ncmlType.at(ev.t);
        std::string uns;
        if (isInt(ev.t) && r.chance(0.4)) { // NcML marks unsigned variables by an attribute
            static const std::map<CDMDataType, CDMDataType> U = {{CDM_CHAR, CDM_UCHAR}, {CDM_SHORT, CDM_USHORT}, {CDM_INT, CDM_UINT}, {CDM_INT64, CDM_UINT64}};
            A ua{"_Unsigned", CDM_STRING, {}, "true"};
            ev.t = U.at(ev.t);
            ev.att["_Unsigned"] = aStr(ua);
            uns = "<attribute name=\"_Unsigned\" value=\"true\"/>";
            c.cnt("unsigned");
        }
        const bool withValues = r.chance(0.8);
        elems.push_back("<variable name=\"brandnew\" type=\"" + tn + "\"" + (sh.empty() && r.chance(0.5) ? "" : " shape=\"" + sh + "\"") + ">" + uns + aXml(r, a) + (withValues ? "<values>" + vals + "</values>" : std::string()) + "</variable>");
        if (!withValues) ev.val.clear(); // described, but without any data
        e.vars["brandnew"] = ev;
    }
    // --- global attributes
    for (auto& a : atts["_GLOBAL"]) e.glob[a.name] = aStr(a);
    for (auto& a : an) if (r.chance(0.1)) { elems.push_back("<remove name=\"" + a + "\" type=\"attribute\"/>"); e.glob.erase(a); }
    if (r.chance(0.3)) {
        const std::string from = r.pick(an), to = r.chance(0.5) ? r.pick(an) : "renamed";
        elems.push_back("<attribute name=\"" + to + "\" orgName=\"" + from + "\"/>");
        if (e.glob.count(from)) { std::string s = e.glob[from]; e.glob.erase(from); e.glob[to] = to + s.substr(from.size()); }
    }
    if (r.chance(0.4)) { A a = randA(r, r.pick(an)); elems.push_back(aXml(r, a)); e.glob[a.name] = aStr(a); }

    x << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\">\n";
    for (auto& s : elems) x << s << "\n";
    x << "</netcdf>";
    c.d << ds.str() << " | " << x.str();
    c.sig(c.d.str());
    if (elems.empty()) c.trivial = true;
    auto mem = std::make_shared<MemReader>(ds, r.chance(0.5));
    if (coordVar && vn.empty()) throw Skip();
    const std::string before = cdmStr(mem->getCDM());
    auto rd = std::make_shared<NcmlCDMReader>(mem, XMLInputString(x.str()));
    const CDM& cdm = rd->getCDM();
    // --- compare
    std::set<std::string> wantL;
    for (auto& d : e.dims) { std::ostringstream s; s << "dim " << d.first << ' ' << d.second.len << (d.second.unlim ? "*" : ""); wantL.insert(s.str()); }
    for (auto& v : e.vars) { wantL.insert("var " + v.first + " " + datatype2string(v.second.t) + " " + vstr(v.second.shape)); for (auto& a : v.second.att) wantL.insert("att " + v.first + " " + a.second); }
    for (auto& a : e.glob) wantL.insert("att _GLOBAL " + a.second);
    std::string want;
    for (auto& s : wantL) want += s + "\n";
    VCHECK(c, cdmStr(cdm) == want, "metadata", firstDiff(want, cdmStr(cdm)));
    for (auto& v : e.vars) {
        const EV& ev = v.second;
        szv lens;
        for (auto& s : ev.shape) lens.push_back(e.dims[s].len);
        expectData(c, "data", rd->getData(v.first), ev.val, ev.tol, v.first);
        if (rd->getData(v.first)->getDataType() != ev.t) VCHECK(c, false, "data:type", v.first);
        if (ev.val.empty()) continue;
        SliceBuilder sb(cdm, v.first);
        szv st, sz;
        for (size_t j = 0; j < lens.size(); ++j) { st.push_back(r.below(lens[j])); sz.push_back(r.range(1, lens[j] - st[j])); sb.setStartAndSize(ev.shape[j], st[j], sz[j]); }
        expectData(c, "data:box", rd->getDataSlice(v.first, sb), box(ev.val, lens, st, sz), ev.tol, v.first);
        if (!ev.shape.empty() && e.dims[ev.shape.back()].unlim) {
            const size_t slab = ev.val.size() / lens.back();
            for (size_t p = 0; p < lens.back(); ++p) expectData(c, "data:slab", rd->getDataSlice(v.first, p), dv(ev.val.begin() + p * slab, ev.val.begin() + (p + 1) * slab), ev.tol, v.first);
        }
        c.cnt("variables");
    }
    VCHECK(c, cdmStr(mem->getCDM()) == before, "source-changed", firstDiff(before, cdmStr(mem->getCDM())));
    c.cnt("edits", elems.size());
    if (anyType) c.cnt("type_changes");
    if (renameMode) c.cnt(renameMode == 1 ? "renames" : renameMode == 2 ? "permutations" : "replacements");
}

//! unlimited flag set by configuration, with the coordinate variable named like the (new) dimension
static void unlimited(Ctx& c)
{
    Rng& r = c.r;
    Dataset ds;
    const size_t nx = r.range(1, 3), nt = r.range(1, 4);
    ds.addDim("x", nx);
    ds.addDim("t", nt);
    const bool rename = r.chance(0.5);
    const std::string cv = rename ? "time" : "t";
    dv tv;
    for (size_t i = 0; i < nt; ++i) tv.push_back(10. * i + r.range(0, 5));
    ds.add(cv, CDM_DOUBLE, {"t"}, tv);
    if (rename && r.chance(0.5)) ds.add("t", CDM_INT, {"x"}, dv(nx, 7));
    Var& v = ds.add("v", r.pick(types), {"x", "t"});
    fillUnique(v, r);
    std::ostringstream x;
    x << "<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\"><dimension name=\"" << cv << "\"" << (rename ? " orgName=\"t\"" : "") << " isUnlimited=\"true\"/></netcdf>";
    c.d << ds.str() << x.str();
    c.sig(c.d.str());
    auto rd = std::make_shared<NcmlCDMReader>(std::make_shared<MemReader>(ds, r.chance(0.5)), XMLInputString(x.str()));
    const CDM& cdm = rd->getCDM();
    VCHECK(c, cdm.getUnlimitedDim() && cdm.getUnlimitedDim()->getName() == cv, "unlimited:flag", "");
    expectData(c, "unlimited:coordinate", rd->getData(cv), tv);
    expectData(c, "unlimited:data", rd->getData("v"), ds.var("v").val);
    for (size_t i = 0; i < nt; ++i) {
        expectData(c, "unlimited:coordinate-slab", rd->getDataSlice(cv, i), dv{tv[i]});
        expectData(c, "unlimited:slab", rd->getDataSlice("v", i), dv(ds.var("v").val.begin() + i * nx, ds.var("v").val.begin() + (i + 1) * nx));
    }
    c.cnt("unlimited_set");
}

//! descriptions which cannot be applied are rejected
static void bad(Ctx& c)
{
    static const sv B = {"<remove name=\"v\"/>", "<remove type=\"variable\"/>", "<remove name=\"v\" type=\"foo\"/>", "<remove name=\"x\" type=\"dimension\"/>", "<variable name=\"v\" type=\"foo\"/>", "<variable name=\"v\"><values>1 2</values></variable>", "<variable name=\"v\"><values start=\"1\"/></variable>", "<variable name=\"v\"><values start=\"1\" increment=\"1\">1 2 3</values></variable>", "<variable name=\"v\"><values>1 a 3</values></variable>", "<dimension orgName=\"x\" name=\"y\"/>", "<dimension name=\"x\" isUnlimited=\"maybe\"/>", "<variable name=\"nope\"><attribute name=\"a\" value=\"1\"/></variable>", "<attribute name=\"a\" type=\"foo\" value=\"1\"/>", "<attribute name=\"a\" type=\"int\" value=\"1 x\"/>", "<variable orgName=\"v\"/>", "<dimension name=\"q\" length=\"abc\"/>"};
    const std::string b = B[c.idx % B.size()];
    c.d << b;
    c.sig(b);
    Dataset ds;
    ds.addDim("x", 3);
    ds.addDim("y", 2);
    fillUnique(ds.add("v", CDM_INT, {"x"}), c.r);
    fillUnique(ds.add("w", CDM_INT, {"y"}), c.r);
    bool th = false;
    try { NcmlCDMReader rd(std::make_shared<MemReader>(ds), XMLInputString("<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\">" + b + "</netcdf>")); } catch (std::exception&) { th = true; }
    VCHECK(c, th, "bad-accepted", b);
    c.cnt("rejected");
}
VF_MAIN("C19", "NcML edits equal the reference application of the described edits", {"edit", edit, 4000, 80000}, {"unlimited", unlimited, 200, 2000}, {"bad", bad, 16, 16})
