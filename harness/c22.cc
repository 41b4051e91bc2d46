// C22: quality extraction vs. an element-wise reference mask.
#include "vfx.h"
#include <fimex/CDMFileReaderFactory.h>
#include <fimex/CDMQualityExtractor.h>
#include <fimex/XMLInputString.h>
#include <fstream>
using namespace vf;

struct Rule { std::string var, status, use; dv values; bool hasFill = false; double fill = 0; bool external = false; };

static std::string num(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
static void addStatus(Rng& r, Dataset& ds, const std::string& n, const sv& shape, std::ostream& d)
{
    Var& v = ds.add(n, r.pick({CDM_CHAR, CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE, CDM_UCHAR}), shape);
    const long hi = r.range(1, 7);
    for (double& x : v.val) x = r.range(0, hi);
    if (!isInt(v.type)) for (double& x : v.val) if (r.chance(0.1)) x = r.chance(0.3) ? NAN : x + 0.5;
    const bool fill = r.chance(0.6);
    const double fv = r.pick({0., 1., 3., 99.});
    d << " " << n << ":" << datatype2string(v.type);
    if (fill) {
        ds.att(n, "_FillValue", v.type, {fv});
        for (double& x : v.val) if (r.chance(0.15)) x = fv;
        d << " fill=" << fv;
    }
    if (r.chance(0.3)) { const double m = r.range(0, 2); ds.att(n, "valid_min", v.type, {m}); d << " vmin=" << m; }
    if (r.chance(0.3)) { const double m = r.range(2, 6); ds.att(n, "valid_max", v.type, {m}); d << " vmax=" << m; }
    if (r.chance(0.2)) { const double m = r.range(0, 2), M = m + r.range(0, 4); ds.att(n, "valid_range", v.type, {m, M}); d << " vrange=" << m << "," << M; }
}
static bool attr(const Dataset& ds, const std::string& v, const std::string& a, dv& out)
{
    for (auto& x : ds.attrs) if (x.first == v && x.second.getName() == a) { out = toD(x.second.getData()); return true; }
    return false;
}
//! accepted status values (raw) of one slice
static std::vector<bool> accepted(const Rule& R, const dv& sdIn, const Dataset& sds)
{
    dv sd = sdIn, a;
    std::vector<bool> ok(sd.size());
    if (!R.values.empty()) {
        for (size_t i = 0; i < sd.size(); ++i) ok[i] = std::find(R.values.begin(), R.values.end(), sd[i]) != R.values.end();
        return ok;
    }
    double mn = -INFINITY, mx = INFINITY;
    if (attr(sds, R.status, "valid_min", a)) mn = a[0];
    if (attr(sds, R.status, "valid_max", a)) mx = a[0];
    if (attr(sds, R.status, "valid_range", a)) { mn = a[0]; mx = a[1]; }
    const bool hasFill = attr(sds, R.status, "_FillValue", a);
    const double f = hasFill ? a[0] : NAN;
    double lo = INFINITY, hi = -INFINITY;
    for (size_t i = 0; i < sd.size(); ++i) {
        ok[i] = !std::isnan(sd[i]) && sd[i] >= mn && sd[i] <= mx && !(hasFill && sd[i] == f);
        if (ok[i]) { lo = std::min(lo, sd[i]); hi = std::max(hi, sd[i]); }
    }
    for (size_t i = 0; i < sd.size(); ++i) {
        if (!ok[i]) continue;
        if (R.use == "highest") ok[i] = sd[i] == hi;
        else if (R.use == "lowest") ok[i] = sd[i] == lo;
        else if (R.use.compare(0, 4, "min:") == 0) ok[i] = sd[i] >= atof(R.use.c_str() + 4);
        else if (R.use.compare(0, 4, "max:") == 0) ok[i] = sd[i] <= atof(R.use.c_str() + 4);
    }
    return ok;
}
struct World
{
    Dataset ds, ext;
    std::vector<Rule> rules;
    const Rule* rule(const std::string& v) const { for (auto& x : rules) if (x.var == v) return &x; return 0; }
    static dv raw(const Dataset& d, const std::string& n, size_t t)
    {
        const Var& v = d.var(n);
        szv l = d.lens(v);
        if (l.empty() || !d.dim(v.shape.back()).unlim) return v.val;
        szv st(l.size(), 0), sz = l;
        if (t >= l.back()) return dv();
        st.back() = t;
        sz.back() = 1;
        return box(v.val, l, st, sz);
    }
    dv expect(const std::string& n, size_t t, long* masked = 0) const
    {
        dv v = raw(ds, n, t);
        const Rule* R = rule(n);
        if (!R) return v;
        dv s = R->external ? raw(ext, R->status, t) : R->status == n ? v : expect(R->status, t);
        if (R->external && s.empty()) s = raw(ext, R->status, 0);
        const std::vector<bool> ok = accepted(*R, s, R->external ? ext : ds);
        for (size_t i = 0; i < v.size(); ++i) if (!ok[i % ok.size()]) { v[i] = R->fill; if (masked) ++*masked; }
        return v;
    }
};
static void checkAll(Ctx& c, CDMReader_p rd, CDMReader_p src, const World& w)
{
    VCHECK(c, cdmStr(rd->getCDM()) == cdmStr(src->getCDM()), "metadata", firstDiff(cdmStr(src->getCDM()), cdmStr(rd->getCDM())));
    std::vector<const Var*> vs;
    for (auto& v : w.ds.vars) vs.push_back(&v);
    c.r.shuffle(vs);
    for (int round = 0; round < 2; ++round) for (auto vp : vs) {
        const Var& v = *vp;
        const szv l = w.ds.lens(v);
        const bool u = !l.empty() && w.ds.dim(v.shape.back()).unlim;
        const size_t nt = u ? l.back() : 1;
        dv full;
        long masked = 0;
        for (size_t t = 0; t < nt; ++t) {
            const dv e = w.expect(v.name, t, &masked);
            full.insert(full.end(), e.begin(), e.end());
            DataPtr d = rd->getDataSlice(v.name, t);
            expectData(c, "slice", d, e, 0, v.name + " t=" + num(t));
            VCHECK(c, d->getDataType() == v.type, "type", v.name);
        }
        c.cnt("values", full.size());
        c.cnt("masked", masked);
        if (!w.rule(v.name)) c.cnt("unconfigured_variables");
        expectData(c, "data", rd->getData(v.name), full, 0, v.name);
        if (!l.empty()) {
            SliceBuilder sb(rd->getCDM(), v.name);
            szv st, sz;
            for (size_t i = 0; i < l.size(); ++i) { st.push_back(c.r.below(l[i])); sz.push_back(c.r.range(1, l[i] - st[i])); sb.setStartAndSize(v.shape[i], st[i], sz[i]); }
            expectData(c, "box", rd->getDataSlice(v.name, sb), box(full, l, st, sz), 0, v.name);
        }
        // the underlying reader still has the unmasked data
        expectData(c, "source-changed", src->getData(v.name), v.val, 0, v.name);
    }
}
static void base(Ctx& c, Dataset& ds)
{
    Rng& r = c.r;
    ds.addDim("x", r.range(1, 6));
    ds.addDim("y", r.range(1, 5));
    if (r.chance(0.5)) ds.addDim("z", r.range(1, 3));
    if (r.chance(0.7)) ds.addDim("t", r.range(1, 4), true);
}
static bool has(const Dataset& ds, const std::string& n) { for (auto& d : ds.dims) if (d.name == n) return true; return false; }
static sv shapeOf(Rng& r, const Dataset& ds, bool allowShort)
{
    sv s = {"x", "y"};
    if (has(ds, "z") && !(allowShort && r.chance(0.5))) s.push_back("z");
    if (has(ds, "t") && !(allowShort && r.chance(0.4))) s.push_back("t");
    return s;
}
static double addData(Rng& r, Dataset& ds, const std::string& n, const sv& shape)
{
    Var& v = ds.add(n, r.pick(numTypes()), shape);
    fillUnique(v, r);
    double fv = 125;
    if (r.chance(0.8)) ds.att(n, "_FillValue", v.type, {fv}); else fv = NAN; // NAN: default fill value of the type
    for (double& x : v.val) if (x == fv || r.chance(0.05)) x = std::isnan(fv) ? 7 : fv;
    return fv;
}
static void config(Ctx& c)
{
    Rng& r = c.r;
    World w;
    base(c, w.ds);
    const int nd = r.range(1, 3);
    std::map<std::string, double> fills;
    for (int i = 0; i < nd; ++i) fills["d" + num(i)] = addData(r, w.ds, "d" + num(i), shapeOf(r, w.ds, r.chance(0.3)));
    addData(r, w.ds, "plain", shapeOf(r, w.ds, true));
    const int ns = r.range(1, 2);
    for (int i = 0; i < ns; ++i) addStatus(r, w.ds, "s" + num(i), shapeOf(r, w.ds, r.chance(0.5)), c.d);
    const bool ext = r.chance(0.25);
    const std::string efile = c.file("status" + num(c.idx) + ".nc");
    if (ext) {
        w.ext.dims = w.ds.dims;
        addStatus(r, w.ext, "es", shapeOf(r, w.ext, true), c.d);

        auto er = std::make_shared<MemReader>(w.ext);
        CDMFileReaderFactory::createWriter(er, "nc4", efile);
    }
    std::ostringstream x;
    x << "<?xml version=\"1.0\"?><cdmQualityConfig>";
    auto compatible = [&](const Dataset& sds, const std::string& d, const std::string& s) {
        const sv &a = w.ds.var(d).shape, &b = sds.var(s).shape;
        // the status must have the leading dimensions of the data, and cover whole slices
        if (b.size() > a.size()) return false;
        for (size_t i = 0; i < b.size(); ++i) if (a[i] != b[i]) return false;
        return true;
    };
    sv targets;
    for (int i = 0; i < nd; ++i) targets.push_back("d" + num(i));
    const bool chain = ns == 2 && r.chance(0.4);
    if (chain) targets.push_back("s0");
    r.shuffle(targets);
    for (auto& tn : targets) {
        Rule R;
        R.var = tn;
        R.external = ext && tn != "s0" && r.chance(0.5);
        R.status = R.external ? "es" : tn == "s0" ? "s1" : r.chance(0.15) ? tn : "s" + num(r.below(ns));
        if (!compatible(R.external ? w.ext : w.ds, tn, R.status)) { R.external = false; R.status = tn; }
        if (tn == "s0" && R.status == "s0") continue;
        const CDMDataType t = w.ds.var(tn).type;
        dv a;
        R.fill = attr(w.ds, tn, "_FillValue", a) ? a[0] : NAN;
        R.hasFill = std::isnan(R.fill) || r.chance(0.3);
        if (R.hasFill) R.fill = t == CDM_FLOAT || t == CDM_DOUBLE ? r.pick({-999., 0.25, 50., 0.}) : r.pick({50., 2., 100., 0.});
        x << "<variable name=\"" << tn << "\"" << (R.hasFill ? " fillValue=\"" + num(R.fill) + "\"" : "") << "><status_flag_variable name=\"" << R.status << "\"";
        if (R.external) x << " file=\"" << efile << "\" type=\"netcdf\"";
        x << ">";
        if (r.chance(0.45)) {
            const int kind = r.below(3);
            if (kind == 0) { const int k = r.range(1, 4); for (int i = 0; i < k; ++i) R.values.push_back(r.range(0, 6)); }
            else if (kind == 1) { const long lo = r.range(0, 3), hi = lo + 1 + r.range(1, 4); for (long q = lo; q <= hi; ++q) R.values.push_back(q); }
            else { R.values.push_back(r.range(0, 5) + 0.5); R.values.push_back(r.range(0, 5)); }
            x << "<allowed_values>";
            if (kind == 1) x << R.values[0] << "," << R.values[1] << ",...," << R.values.back();
            else for (size_t i = 0; i < R.values.size(); ++i) x << (i ? "," : "") << R.values[i];
            x << "</allowed_values>";
        } else {
            R.use = r.pick({std::string("all"), std::string("highest"), std::string("lowest"), "min:" + num(r.range(0, 5)), "max:" + num(r.range(0, 5)), std::string("min:2.5"), std::string("max:0.5")});
            x << "<allowed_values use=\"" << R.use << "\" />";
        }
        x << "</status_flag_variable></variable>";
        w.rules.push_back(R);
        c.cnt(R.values.empty() ? "use_" + R.use.substr(0, 3) : "values_rules");
        if (R.external) c.cnt("external_status");
        if (R.status == "s0" && chain) c.cnt("chained_status");
    }
    x << "</cdmQualityConfig>";
    c.d << " | " << x.str() << " | " << w.ds.str();
    c.sig(c.d.str());
    const std::string f = c.file("q" + num(c.idx) + ".xml");
    { std::ofstream o(f); o << x.str(); }
    auto src = std::make_shared<MemReader>(w.ds, r.chance(0.5));
    auto rd = std::make_shared<CDMQualityExtractor>(src, "", f);
    checkAll(c, rd, src, w);
    if (ext) unlink(efile.c_str());
    unlink(f.c_str());
}
//! data held in the metadata model (as e.g. ncml values and coordinate data are) must be masked as well
struct HeldReader : CDMReader
{
    explicit HeldReader(const Dataset& ds) { ds.fillCDM(*cdm_); for (auto& v : ds.vars) cdm_->getVariable(v.name).setData(mkData(v.type, v.val)); }
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const std::string& n, size_t pos) override { return getDataSliceFromMemory(cdm_->getVariable(n), pos); }
};
static void held(Ctx& c)
{
    Rng& r = c.r;
    World w;
    base(c, w.ds);
    const double fv = addData(r, w.ds, "d0", shapeOf(r, w.ds, false));
    addStatus(r, w.ds, "s0", w.ds.var("d0").shape, c.d);
    Rule R;
    R.var = "d0";
    R.status = "s0";
    R.hasFill = std::isnan(fv);
    R.fill = std::isnan(fv) ? 99 : fv;
    if (r.chance(0.5)) R.use = r.pick({std::string("highest"), std::string("min:2"), std::string("all"), std::string("max:3")}); else R.values = {0, 2};
    w.rules.push_back(R);
    const std::string f = c.file("h" + num(c.idx) + ".xml");
    { std::ofstream o(f); o << "<cdmQualityConfig><variable name=\"d0\"" << (R.hasFill ? " fillValue=\"99\"" : "") << "><status_flag_variable name=\"s0\"><allowed_values" << (R.values.empty() ? " use=\"" + R.use + "\"/>" : ">0,2</allowed_values>") << "</status_flag_variable></variable></cdmQualityConfig>"; }
    c.d << " " << w.ds.str() << " use=" << R.use;
    c.sig(c.d.str());
    auto src = std::make_shared<HeldReader>(w.ds);
    checkAll(c, std::make_shared<CDMQualityExtractor>(src, "", f), src, w);
    unlink(f.c_str());
}
static void autoconf(Ctx& c)
{
    Rng& r = c.r;
    World w;
    base(c, w.ds);
    const sv sh = shapeOf(r, w.ds, false);
    const double fv = addData(r, w.ds, "d0", sh);
    if (std::isnan(fv)) throw Skip();
    addData(r, w.ds, "d1", sh);
    w.ds.att("d0", "standard_name", "air_temperature");
    w.ds.att("d1", "standard_name", "wind_speed");
    Var& s = w.ds.add("s0", r.pick({CDM_CHAR, CDM_SHORT, CDM_INT}), sh);
    dv fl;
    for (int i = 0, k = r.range(1, 4), v = r.range(0, 2); i < k; ++i, v += r.range(1, 3)) fl.push_back(v);
    for (double& x : s.val) x = r.chance(0.7) ? r.pick(fl) : r.range(0, 12);
    w.ds.att("s0", "standard_name", r.chance(0.8) ? "air_temperature status_flag" : "sea_water_temperature status_flag");
    w.ds.att("s0", "flag_values", s.type, fl);
    const bool match = w.ds.attrs[w.ds.attrs.size() - 2].second.getStringValue().compare(0, 3, "air") == 0;
    Rule R;
    R.var = "d0";
    R.status = "s0";
    R.fill = fv;
    const std::string mode = r.pick({std::string("all"), std::string("highest"), std::string("lowest"), std::string("values=1,2,...,4"), std::string("values=3")});
    if (mode == "all") R.values = fl;
    else if (mode == "highest") R.values = {fl.back()};
    else if (mode == "lowest") R.values = {fl.front()};
    else if (mode == "values=3") R.values = {3};
    else R.values = {1, 2, 3, 4};
    if (match) w.rules.push_back(R);
    c.d << mode << " flags " << vstr(fl) << " match=" << match << " " << w.ds.str();
    c.sig(c.d.str());
    auto src = std::make_shared<MemReader>(w.ds);
    checkAll(c, std::make_shared<CDMQualityExtractor>(src, mode, ""), src, w);
    c.cnt("mode_" + mode.substr(0, 6));
}
static void bad(Ctx& c)
{
    Rng& r = c.r;
    World w;
    base(c, w.ds);
    const sv sh = shapeOf(r, w.ds, false);
    addData(r, w.ds, "d0", {"x", "y"});
    addStatus(r, w.ds, "s0", {"x", "y"}, c.d);
    w.ds.addDim("q", w.ds.dim("x").len + 1);
    addStatus(r, w.ds, "s1", {"q", "y"}, c.d);
    addStatus(r, w.ds, "s2", {"x", "y", "q"}, c.d);
    const sv X = {"<notQuality/>", "<cdmQualityConfig><variable name=\"d0\"></variable></cdmQualityConfig>",
        "<cdmQualityConfig><variable name=\"d0\"><status_flag_variable name=\"s0\"></status_flag_variable></variable></cdmQualityConfig>",
        "<cdmQualityConfig><variable name=\"d0\"><status_flag_variable name=\"s1\"><allowed_values>1</allowed_values></status_flag_variable></variable></cdmQualityConfig>",
        "<cdmQualityConfig><variable name=\"d0\"><status_flag_variable name=\"s2\"><allowed_values>1</allowed_values></status_flag_variable></variable></cdmQualityConfig>",
        "<cdmQualityConfig><variable name=\"d0\"><status_flag_variable name=\"s0\" type=\"netcdf\"><allowed_values>1</allowed_values></status_flag_variable></variable></cdmQualityConfig>",
        "<cdmQualityConfig><variable name=\"d0\"><status_flag_variable name=\"s0\" file=\"/nonexistent.nc\" type=\"netcdf\"><allowed_values>1</allowed_values></status_flag_variable></variable></cdmQualityConfig>",
        "<cdmQualityConfig><variable name=\"d0\"><status_flag_variable name=\"s0\"><allowed_values use=\"best\"/></status_flag_variable></variable></cdmQualityConfig>",
        "<cdmQualityConfig><variable"};
    const size_t k = c.idx % (X.size() + 2);
    auto src = std::make_shared<MemReader>(w.ds);
    if (k >= X.size()) { const std::string a = k == X.size() ? "best" : "hightest"; c.d << a; VCHECK(c, throws([&] { CDMQualityExtractor q(src, a, ""); q.getDataSlice("d0", 0); }), "bad-auto-accepted", a); return; }
    c.d << X[k];
    c.sig(X[k]);
    const std::string f = c.file("b" + num(c.idx) + ".xml");
    { std::ofstream o(f); o << X[k]; }
    VCHECK(c, throws([&] { CDMQualityExtractor q(src, "", f); q.getDataSlice("d0", 0); }), "bad-accepted", X[k]);
    VCHECK(c, throws([&] { CDMQualityExtractor q(src, "", c.file("nosuch.xml")); }), "bad-accepted", "missing file");
}
VF_MAIN("C22", "masked fields equal the element-wise reference", {"config", config, 1500, 40000}, {"held", held, 300, 5000}, {"autoconf", autoconf, 400, 5000}, {"bad", bad, 22, 22})
