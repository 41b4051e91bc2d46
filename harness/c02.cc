// C02: index extraction. Oracle: reference gather on the in-memory source.
#include "vfx.h"
#include <fimex/CDMExtractor.h>
using namespace vf;

struct Sel { std::map<std::string, szv> idx; };

static szv randIdx(Rng& r, size_t len, bool allowEmpty)
{
    szv v;
    switch (r.below(4)) {
    case 0: { // contiguous
        size_t s = r.below(len), n = r.range(1, len - s);
        v = iota(n, s);
        break;
    }
    case 1: // sparse
        for (size_t i = 0; i < len; ++i) if (r.chance(0.5)) v.push_back(i);
        break;
    case 2: // ends
        v.push_back(0);
        if (len > 1) v.push_back(len - 1);
        break;
    default:
        v.push_back(r.below(len));
    }
    if (v.empty() && !allowEmpty) v.push_back(r.below(len));
    return v;
}

static void applyTo(Dataset& ref, const std::string& dim, const szv& idx)
{
    for (Var& v : ref.vars) {
        std::vector<szv> g;
        bool used = false;
        for (auto& s : v.shape) {
            if (s == dim) { g.push_back(idx); used = true; }
            else g.push_back(iota(ref.dim(s).len));
        }
        if (used) v.val = gather(v.val, ref.lens(v), g);
    }
    ref.dim(dim).len = idx.size();
}

static void compareAll(Ctx& c, CDMReader_p rd, const Dataset& ref, Rng& r)
{
    const CDM& cdm = rd->getCDM();
    VCHECK(c, cdm.getVariables().size() == ref.vars.size(), "variables", "number of variables " << cdm.getVariables().size() << " expected " << ref.vars.size());
    for (auto& d : ref.dims) {
        VCHECK(c, cdm.hasDimension(d.name), "dimension:missing", d.name);
        VCHECK(c, cdm.getDimension(d.name).getLength() == d.len, "dimension:length", d.name << " " << cdm.getDimension(d.name).getLength() << " expected " << d.len);
        VCHECK(c, cdm.getDimension(d.name).isUnlimited() == d.unlim, "dimension:unlimited", d.name);
    }
    for (auto& v : ref.vars) {
        VCHECK(c, cdm.hasVariable(v.name), "variable:missing", v.name);
        VCHECK(c, cdm.getVariable(v.name).getDataType() == v.type && cdm.getVariable(v.name).getShape() == v.shape, "variable:definition", v.name);
        const szv l = ref.lens(v);
        DataPtr d = rd->getData(v.name);
        VCHECK(c, d && (d->size() == 0 || d->getDataType() == v.type), "type", v.name);
        expectData(c, "full", d, v.val, 0, v.name);
        c.cnt("full_reads");
        if (!l.empty() && ref.dim(v.shape.back()).unlim) {
            for (size_t p = 0; p < l.back(); ++p) {
                szv st(l.size(), 0), sz = l;
                st.back() = p; sz.back() = 1;
                expectData(c, "slice-pos", rd->getDataSlice(v.name, p), box(v.val, l, st, sz), 0, v.name + " pos " + std::to_string(p));
            }
            c.cnt("pos_reads");
        } else {
            expectData(c, "slice-pos", rd->getDataSlice(v.name, 0), v.val, 0, v.name);
        }
        if (!l.empty() && prod(l) > 0)
            for (int k = 0; k < 3; ++k) {
                szv st, sz;
                SliceBuilder sb(cdm, v.name);
                for (size_t i = 0; i < l.size(); ++i) {
                    st.push_back(r.below(l[i]));
                    sz.push_back(r.range(1, l[i] - st[i]));
                    sb.setStartAndSize(v.shape[i], st[i], sz[i]);
                }
                expectData(c, "slab", rd->getDataSlice(v.name, sb), box(v.val, l, st, sz), 0, v.name + " start " + vstr(st) + " size " + vstr(sz));
                c.cnt("slab_reads");
            }
    }
}

static Dataset gen(Ctx& c)
{
    Dataset ds = randDataset(c.r, 6, true, true);
    ds.att("v0", "units", "K");
    ds.att("v0", "num", CDM_INT, {1, 2, 3});
    ds.att(CDM::globalAttributeNS(), "title", "x");
    return ds;
}

static CDMReader_p source(Ctx& c, const Dataset& ds)
{
    auto m = std::make_shared<MemReader>(ds, c.r.chance(0.5));
    for (auto& v : ds.vars) if (c.r.chance(0.25)) { m->inMemory(v.name); c.d << " mem:" << v.name; }
    return m;
}

static void famIndex(Ctx& c)
{
    Dataset ref = gen(c);
    c.d << ref.str();
    CDMReader_p rd = source(c, ref);
    const int stages = c.r.range(1, 2);
    bool gaps = false;
    for (int s = 0; s < stages; ++s) {
        auto ex = std::make_shared<CDMExtractor>(rd);
        std::vector<std::string> dn;
        for (auto& d : ref.dims) if (d.len > 0 && c.r.chance(0.6)) dn.push_back(d.name);
        c.r.shuffle(dn);
        std::map<std::string, szv> sel;
        for (auto& n : dn) {
            const size_t len = ref.dim(n).len;
            szv idx = randIdx(c.r, len, c.r.chance(0.1));
            const int how = c.r.below(3);
            if (how == 2 && c.r.chance(0.3)) { // tail of the dimension: end 0 means full size
                idx.clear();
                for (size_t i = c.r.below(len); i < len; ++i) idx.push_back(i);
            }
            const bool contiguous = !idx.empty() && idx.back() - idx.front() + 1 == idx.size();
            if (contiguous && how == 0)
                ex->reduceDimension(n, idx.front(), idx.size());
            else if (contiguous && how == 1 && idx.back() > 0)
                ex->reduceDimensionStartEnd(n, idx.front(), idx.back());
            else if (contiguous && how == 2 && idx.back() + 1 <= len && idx.front() <= idx.back())
                ex->reduceDimensionStartEnd(n, idx.front(), -(long long)(len - 1 - idx.back()));
            else
                ex->reduceDimension(n, std::set<size_t>(idx.begin(), idx.end()));
            if (!contiguous) gaps = true;
            sel[n] = idx;
            c.d << " | stage" << s << " " << n << vstr(idx) << "h" << how;
        }
        for (auto& kv : sel) applyTo(ref, kv.first, kv.second);
        rd = ex;
        c.cnt(gaps ? "stages_with_gaps" : "stages_contiguous");
    }
    compareAll(c, rd, ref, c.r);
    VCHECK(c, rd->getCDM().getAttribute("v0", "units").getStringValue() == "K", "attribute", "units lost");
    VCHECK(c, toD(rd->getCDM().getAttribute("v0", "num").getData()) == dv({1, 2, 3}), "attribute", "num changed");
    VCHECK(c, rd->getCDM().getAttribute(CDM::globalAttributeNS(), "title").getStringValue() == "x", "attribute", "title lost");
}

static void famReject(Ctx& c)
{
    Dataset ref = gen(c);
    CDMReader_p rd = source(c, ref);
    auto ex = std::make_shared<CDMExtractor>(rd);
    const Dim d = c.r.pick(ref.dims);
    std::set<size_t> s;
    for (size_t i = 0; i < d.len; ++i) if (c.r.chance(0.5)) s.insert(i);
    const size_t bad = d.len + c.r.pick<size_t>({0, 0, 1, 2, 1000, (size_t)-1 - d.len});
    s.insert(bad);
    c.d << ref.str() << " reduce " << d.name << " to " << vstr(s);
    const std::string before = cdmStr(ex->getCDM());
    VCHECK(c, throws([&] { ex->reduceDimension(d.name, s); }), "out-of-range-accepted", "index " << bad << " of " << d.len);
    VCHECK(c, cdmStr(ex->getCDM()) == before, "rejected-but-changed", firstDiff(before, cdmStr(ex->getCDM())));
    VCHECK(c, throws([&] { ex->reduceDimension("nodim", std::set<size_t>{0}); }), "unknown-dimension-accepted", "");
    const size_t st = c.r.below(d.len), n = d.len - st + c.r.range(1, 3);
    if (d.len >= 4) VCHECK(c, throws([&] { ex->reduceDimensionStartEnd(d.name, 3, 1); }), "reversed-range-accepted", d.name);
    VCHECK(c, throws([&] { ex->reduceDimension(d.name, st, n); }), "out-of-range-accepted", "start " << st << " n " << n << " of " << d.len);
    compareAll(c, ex, ref, c.r);
    c.cnt("rejections", 3);
}

static void famSelect(Ctx& c)
{
    Dataset ref = gen(c);
    CDMReader_p rd = source(c, ref);
    auto ex = std::make_shared<CDMExtractor>(rd);
    c.d << ref.str();
    std::set<std::string> keep;
    const bool select = c.r.chance(0.5);
    std::string dim;
    szv idx;
    const bool pre = c.r.chance(0.5);
    const Dim d = c.r.pick(ref.dims);
    idx = randIdx(c.r, d.len, false);
    if (pre) ex->reduceDimension(d.name, std::set<size_t>(idx.begin(), idx.end()));
    for (auto& v : ref.vars) if (c.r.chance(0.5)) keep.insert(v.name);
    c.d << (select ? " select " : " remove others than ") << vstr(keep);
    if (select) {
        auto k = keep;
        if (c.r.chance(0.3)) k.insert("doesnotexist");
        ex->selectVariables(k, false);
    } else
        for (auto& v : ref.vars) if (!keep.count(v.name)) ex->removeVariable(v.name);
    if (!pre) ex->reduceDimension(d.name, std::set<size_t>(idx.begin(), idx.end()));
    c.d << " dim " << d.name << vstr(idx) << (pre ? " before" : " after");
    applyTo(ref, d.name, idx);
    std::vector<Var> nv;
    for (auto& v : ref.vars) {
        if (keep.count(v.name)) nv.push_back(v);
        else VCHECK(c, throws([&] { ex->getData(v.name); }), "removed-still-readable", v.name);
    }
    ref.vars = nv;
    compareAll(c, ex, ref, c.r);
    if (keep.count("v0"))
        VCHECK(c, ex->getCDM().getAttribute("v0", "units").getStringValue() == "K", "attribute", "units lost");
    c.cnt("selections");
}

VF_MAIN("C02", "random datasets (1-5 dimensions, 10 types, unlimited/in-memory variants) through 1-2 extractor stages with random index sets; non-trivial: every case reads all variables by full, position and slab requests and compares each element; distinct by dataset shape + index sets",
        {"index", famIndex, 4000, 120000}, {"reject", famReject, 600, 10000}, {"select", famSelect, 800, 15000})
