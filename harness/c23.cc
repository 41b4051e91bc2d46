// C23: accumulation / de-accumulation as running sums and differences, in any access order.
#include "vfx.h"
#include <fimex/CDMProcessor.h>
using namespace vf;

struct HeldReader : CDMReader
{
    explicit HeldReader(const Dataset& ds) { ds.fillCDM(*cdm_); for (auto& v : ds.vars) cdm_->getVariable(v.name).setData(mkData(v.type, v.val)); }
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const std::string& n, size_t pos) override { return getDataSliceFromMemory(cdm_->getVariable(n), pos); }
};
//! hands out the very same array on every request, as a caching source does; it must not be changed by its users
struct SharedReader : CDMReader
{
    Dataset ds;
    std::map<std::pair<std::string, size_t>, DataPtr> cache;
    explicit SharedReader(const Dataset& d) : ds(d) { ds.fillCDM(*cdm_); }
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const std::string& n, size_t pos) override
    {
        DataPtr& p = cache[std::make_pair(n, pos)];
        if (!p) p = MemReader(ds).getDataSlice(n, pos);
        return p;
    }
};
enum Op { NONE, ACC, DEACC };
struct S { Dataset ds; std::map<std::string, Op> op; size_t nt; };
static dv slab(const Dataset& ds, const std::string& n, size_t t)
{
    const Var& v = ds.var(n);
    szv l = ds.lens(v);
    if (l.empty() || !ds.dim(v.shape.back()).unlim) return v.val;
    szv st(l.size(), 0), sz = l;
    st.back() = t;
    sz.back() = 1;
    return box(v.val, l, st, sz);
}
static dv expect(const S& s, const std::string& n, size_t t)
{
    dv a = slab(s.ds, n, t);
    const Op o = s.op.at(n);
    const Var& v = s.ds.var(n);
    if (o == NONE || v.shape.empty() || !s.ds.dim(v.shape.back()).unlim || t == 0) return a;
    for (size_t k = o == ACC ? 0 : t - 1; k < t; ++k) {
        const dv b = slab(s.ds, n, k);
        for (size_t i = 0; i < a.size(); ++i) {
            const double q = k == 0 && std::isnan(b[i]) ? 0 : b[i]; // an undefined start counts as zero
            a[i] += o == ACC ? q : -q;
        }
    }
    return a;
}
static double tol(const Var& v, const dv& e)
{
    if (isInt(v.type)) return 0;
    double m = 1;
    for (double x : e) if (!std::isnan(x)) m = std::max(m, std::fabs(x));
    return m * (v.type == CDM_FLOAT ? 1e-6 : 1e-12);
}
static S make(Ctx& c)
{
    Rng& r = c.r;
    S s;
    s.nt = r.range(1, 7);
    s.ds.addDim("x", r.range(1, 5));
    s.ds.addDim("y", r.range(1, 4));
    s.ds.addDim("time", s.nt, true);
    const int nv = r.range(1, 4);
    for (int k = 0; k < nv; ++k) {
        const std::string n = "v" + std::to_string(k);
        sv sh = {"x"};
        if (r.chance(0.6)) sh.push_back("y");
        if (r.chance(0.9)) sh.push_back("time");
        Var& v = s.ds.add(n, r.pick({CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE, CDM_INT64}), sh);
        for (double& x : v.val) x = isInt(v.type) ? r.range(-1000, 1000) : v.type == CDM_FLOAT ? float(r.uni(-100, 100)) : r.uni(-1e3, 1e3);
        if (!isInt(v.type)) { const double p = r.pick({0., 0., 0.1}); const bool first = r.chance(0.3); const size_t per = v.val.size() / (sh.back() == "time" ? s.nt : 1); for (size_t i = 0; i < v.val.size(); ++i) if (r.chance(p) || (first && i < per && r.chance(0.5))) v.val[i] = NAN; }
        if (!isInt(v.type)) s.ds.att(n, "_FillValue", v.type, {NAN});
        if (r.chance(0.3)) s.ds.att(n, "scale_factor", CDM_DOUBLE, {r.pick({0.5, 0.1, 10.})});
        s.op[n] = r.pick({NONE, ACC, ACC, DEACC, DEACC});
        c.d << n << (s.op[n] == ACC ? " acc; " : s.op[n] == DEACC ? " deacc; " : "; ");
    }
    c.d << s.ds.str();
    return s;
}
static CDMReader_p source(Ctx& c, const S& s)
{
    const int k = c.r.below(3);
    c.d << " source " << k;
    if (k == 0) return std::make_shared<HeldReader>(s.ds);
    if (k == 1) return std::make_shared<SharedReader>(s.ds);
    return std::make_shared<MemReader>(s.ds, c.r.chance(0.5));
}
static void history(Ctx& c)
{
    Rng& r = c.r;
    S s = make(c);
    CDMReader_p src = source(c, s);
    auto p = std::make_shared<CDMProcessor>(src);
    for (auto& o : s.op) { if (o.second == ACC) p->accumulate(o.first); if (o.second == DEACC) p->deAccumulate(o.first); }
    VCHECK(c, cdmStr(p->getCDM()) == cdmStr(src->getCDM()), "metadata", firstDiff(cdmStr(src->getCDM()), cdmStr(p->getCDM())));
    const int n = r.range(3, 25);
    std::string hist;
    for (int i = 0; i < n; ++i) {
        const Var& v = s.ds.vars[r.below(s.ds.vars.size())];
        const bool u = s.ds.dim(v.shape.back()).unlim;
        const int kind = r.below(8);
        DataPtr got;
        if (kind < 5) {
            const size_t t = r.below(s.nt);
            hist += " " + v.name + "@" + std::to_string(t);
            const dv e = expect(s, v.name, t);
            got = p->getDataSlice(v.name, t);
            expectData(c, "slice", got, e, tol(v, e), v.name + " history" + hist);
            c.cnt(s.op[v.name] == ACC ? "accumulated_slices" : s.op[v.name] == DEACC ? "deaccumulated_slices" : "plain_slices");
        } else {
            dv full;
            for (size_t t = 0; t < (u ? s.nt : 1); ++t) { const dv e = expect(s, v.name, t); full.insert(full.end(), e.begin(), e.end()); }
            if (kind == 5) {
                hist += " " + v.name + "@all";
                got = p->getData(v.name);
                expectData(c, "data", got, full, tol(v, full), v.name + " history" + hist);
                c.cnt("full_reads");
            } else {
                SliceBuilder sb(p->getCDM(), v.name);
                const szv l = s.ds.lens(v);
                szv st, sz;
                for (size_t d = 0; d < l.size(); ++d) { st.push_back(r.below(l[d])); sz.push_back(r.range(1, l[d] - st[d])); sb.setStartAndSize(v.shape[d], st[d], sz[d]); }
                hist += " " + v.name + "@box";
                got = p->getDataSlice(v.name, sb);
                expectData(c, "box", got, box(full, l, st, sz), tol(v, full), v.name + " history" + hist);
                c.cnt("box_reads");
            }
        }
        // what was returned belongs to the caller (not so for a source which hands out its own arrays)
        if (!dynamic_cast<SharedReader*>(src.get()) && r.chance(0.5)) { for (size_t k = 0; k < got->size(); ++k) got->setValue(k, 77.); c.cnt("scribbled"); hist += "!"; }
        if (r.chance(0.2)) {
            const size_t t = r.below(s.nt);
            expectData(c, "source-changed", src->getDataSlice(v.name, t), slab(s.ds, v.name, t), 0, v.name + " history" + hist);
        }
    }
    c.d << " history" << hist;
    c.sig(c.d.str());
}
//! accumulate(deAccumulate(v)) == v == deAccumulate(accumulate(v)) for series with a defined start
static void inverse(Ctx& c)
{
    Rng& r = c.r;
    S s = make(c);
    for (auto& v : s.ds.vars) for (double& x : v.val) if (std::isnan(x)) x = 1;
    CDMReader_p src = source(c, s);
    auto p = std::make_shared<CDMProcessor>(src), q = std::make_shared<CDMProcessor>(p);
    const bool accFirst = r.chance(0.5);
    for (auto& v : s.ds.vars) { if (accFirst) { p->accumulate(v.name); q->deAccumulate(v.name); } else { p->deAccumulate(v.name); q->accumulate(v.name); } }
    c.d << (accFirst ? " acc,deacc" : " deacc,acc");
    c.sig(c.d.str());
    std::vector<size_t> order = iota(s.nt);
    r.shuffle(order);
    for (auto& v : s.ds.vars) {
        double m = 1;
        for (double x : v.val) m = std::max(m, std::fabs(x));
        const double tl = isInt(v.type) ? 0 : m * s.nt * (v.type == CDM_FLOAT ? 1e-6 : 1e-12);
        for (size_t t : order) { expectData(c, "inverse", q->getDataSlice(v.name, t), slab(s.ds, v.name, t), tl, v.name + " t=" + std::to_string(t)); c.cnt("inverse_slices"); }
        expectData(c, "inverse:data", q->getData(v.name), v.val, tl, v.name);
    }
}
VF_MAIN("C23", "slices equal running sums/differences of the source for any access history", {"history", history, 2500, 60000}, {"inverse", inverse, 800, 20000})
