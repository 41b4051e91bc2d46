// C01: every hyper-slab of every variable of every view equals the same part of the whole variable.
#include "zoo.h"
#include <fimex/CoordinateSystemSliceBuilder.h>
using namespace vf;

static void checkVar(Ctx& c, const std::string& tag, const CDMReader_p& rd, const std::string& vn, int nslabs)
{
    Rng& r = c.r;
    const CDM& cdm = rd->getCDM();
    const CDMVariable& var = cdm.getVariable(vn);
    const sv shape = var.getShape();
    const szv len = varDims(rd, vn);
    const DataPtr wholeD = rd->getData(vn);
    VCHECK(c, !!wholeD, tag + ":null", vn);
    if (isText(wholeD)) { c.cnt("text variables"); return; }
    const dv whole = toD(wholeD);
    const size_t n = prod(len);
    if (whole.empty() && len.empty()) { // pure attribute container (grid mapping)
        SliceBuilder sb(cdm, vn);
        VCHECK(c, rd->getDataSlice(vn, sb)->size() == 0 && rd->getDataSlice(vn, 0)->size() == 0, tag + ":empty-scalar", vn);
        c.cnt("attribute containers");
        return;
    }
    // a stage may compute a slice in a wider type than the declared one
    auto cast = [&](const DataPtr& d) { return d && d->getDataType() != wholeD->getDataType() && isInt(d->getDataType()) == isInt(wholeD->getDataType()) ? mkData(wholeD->getDataType(), toD(d)) : d; };
    VCHECK(c, whole.size() == n, tag + ":whole-size", vn << " has " << whole.size() << " values, shape " << vstr(len));
    VCHECK(c, rd->getDims(vn) == len, tag + ":getDims", vn);
    const dv scaled = toD(rd->getScaledData(vn));
    VCHECK(c, scaled.size() == n, tag + ":scaled-size", vn);
    double stol = 0; // see cast
    if (wholeD->getDataType() == CDM_FLOAT) for (double v : scaled) if (std::fabs(v) < 1e30) stol = std::max(stol, 1e-6 * (std::fabs(v) + 300));
    // the unlimited dimension, position by position
    size_t up = shape.size();
    for (size_t i = 0; i < shape.size(); ++i) if (cdm.getDimension(shape[i]).isUnlimited()) up = i;
    if (up < shape.size()) {
        VCHECK(c, up + 1 == shape.size(), tag + ":unlimited-not-last", vn);
        szv order = iota(len[up]);
        r.shuffle(order);
        for (size_t p : order) {
            szv st(len.size(), 0), sz = len;
            st[up] = p;
            sz[up] = 1;
            const dv want = box(whole, len, st, sz);
            expectData(c, tag + ":unlim-slice", cast(rd->getDataSlice(vn, p)), want, 0, vn + " position " + std::to_string(p));
            if (r.chance(0.3)) expectData(c, tag + ":unlim-scaled", rd->getScaledDataSlice(vn, p), box(scaled, len, st, sz), stol, vn);
            c.cnt("unlimited positions");
        }
    } else {
        expectData(c, tag + ":no-unlim-slice", cast(rd->getDataSlice(vn, r.pick({0, 0, 1, 5}))), whole, 0, vn);
    }
    // random slabs
    for (int k = 0; k < nslabs; ++k) {
        SliceBuilder sb(cdm, vn, r.chance(0.5));
        szv st(len.size(), 0), sz = len;
        std::ostringstream info;
        info << vn << " [";
        const bool cross = k == 0 && n; // single element
        for (size_t i = 0; i < len.size(); ++i) {
            if (!len[i]) { continue; }
            const int m = cross ? 3 : r.below(5);
            if (m == 0) { sz[i] = len[i]; }
            else if (m == 1) { st[i] = 0; sz[i] = r.range(1, len[i]); }
            else if (m == 2) { st[i] = r.below(len[i]); sz[i] = len[i] - st[i]; }
            else if (m == 3) { st[i] = r.below(len[i]); sz[i] = 1; }
            else { st[i] = r.below(len[i]); sz[i] = r.range(1, len[i] - st[i]); }
            info << " " << shape[i] << ":" << st[i] << "+" << sz[i] << "/" << len[i];
        }
        info << "]";
        szv ord = iota(len.size());
        r.shuffle(ord);
        for (size_t i : ord) {
            if (st[i] == 0 && sz[i] == len[i] && r.chance(0.5)) sb.setAll(shape[i]);
            else sb.setStartAndSize(shape[i], st[i], sz[i]);
        }
        const dv want = box(whole, len, st, sz);
        const int q = r.below(4);
        if (q == 0) expectData(c, tag + ":scaled-slab", rd->getScaledDataSlice(vn, sb), box(scaled, len, st, sz), stol, info.str());
        else expectData(c, tag + ":slab", cast(rd->getDataSlice(vn, sb)), want, 0, info.str());
        if (q == 1) expectData(c, tag + ":scaled-slab", rd->getScaledDataSlice(vn, sb), box(scaled, len, st, sz), stol, info.str());
        c.cnt("slabs");
        if (sz != len) c.cnt("proper slabs");
    }
    if (r.chance(0.3)) {
        const std::string u = cdm.getUnits(vn);
        const std::string u2 = u == "K" ? "degC" : u == "degC" ? "K" : u == "m/s" ? "km/h" : u == "hPa" ? "Pa" : u == "m" ? "km" : "";
        if (!u2.empty()) {
            const dv inu = toD(rd->getScaledDataInUnit(vn, u2));
            SliceBuilder sb(cdm, vn);
            szv st(len.size(), 0), sz = len;
            for (size_t i = 0; i < len.size(); ++i) if (len[i]) { st[i] = r.below(len[i]); sz[i] = r.range(1, len[i] - st[i]); sb.setStartAndSize(shape[i], st[i], sz[i]); }
            expectData(c, tag + ":unit-slab", rd->getScaledDataSliceInUnit(vn, u2, sb), box(inu, len, st, sz), stol, vn);
            if (up < shape.size() && len[up]) {
                szv s2(len.size(), 0), z2 = len;
                s2[up] = r.below(len[up]);
                z2[up] = 1;
                expectData(c, tag + ":unit-unlim", rd->getScaledDataSliceInUnit(vn, u2, s2[up]), box(inu, len, s2, z2), stol, vn);
            }
            c.cnt("unit slabs");
        }
    }
}
static std::string last(const std::string& d) { const size_t p = d.rfind('|'); return p == std::string::npos ? d : d.substr(p + 1); }
static void famZoo(Ctx& c)
{
    const uint64_t seed = c.r.u64();
    Zoo z = zooBuild(seed, c.file("z" + std::to_string(c.idx)), 3, zooStages()[c.idx % zooStages().size()]);
    c.d << z.desc << " " << z.ds.str();
    c.sig(z.desc);
    for (auto& v : z.rd->getCDM().getVariables()) checkVar(c, last(z.desc), z.rd, v.getName(), c.thorough ? 12 : 5);
    c.cnt("views");
    std::istringstream is(z.desc);
    for (std::string s; std::getline(is, s, '|');) c.cnt("stage " + s);
}
static void famFile(Ctx& c)
{
    // files of all types and shapes
    Dataset ds = randDataset(c.r, 6, true, true);
    const std::string type = c.r.pick({"nc3", "nc4", "nc4c"});
    if (type != "nc4") for (auto& v : ds.vars) if (v.type == CDM_UCHAR || v.type == CDM_USHORT || v.type == CDM_UINT || v.type == CDM_INT64 || v.type == CDM_UINT64) v.type = CDM_DOUBLE;
    Zoo z;
    z.path = c.file("f" + std::to_string(c.idx));
    CDMReader_p rd = zooWrite(z, ds, type, ".nc");
    c.d << type << " " << ds.str();
    c.sig("file " + type + ds.str());
    for (auto& v : ds.vars) {
        checkVar(c, "file", rd, v.name, c.thorough ? 30 : 12);
        expectData(c, "file:whole", rd->getData(v.name), v.val, 0, v.name);
    }
    c.cnt("files");
}
//! positions without data read as fill values, whichever way they are read
static void famEmpty(Ctx& c)
{
    Rng& r = c.r;
    Dataset ds;
    ds.addDim("x", r.range(1, 4));
    ds.addDim("t", r.range(1, 5), true);
    const size_t nx = ds.dim("x").len, nt = ds.dim("t").len;
    const CDMDataType ty = r.pick({CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE, CDM_CHAR, CDM_USHORT});
    const bool flat = r.chance(0.2);
    fillUnique(ds.add("v", ty, flat ? sv{"t"} : sv{"x", "t"}), r);
    const double fill = r.pick({99., 7., 120.});
    ds.att("v", "_FillValue", ty, {fill});
    for (double& x : ds.var("v").val) if (x == fill) x = 1;
    auto rd = std::make_shared<MemReader>(ds);
    for (size_t p = 0; p < nt; ++p) if (r.chance(0.4)) rd->missing.insert({"v", p});
    const dv want = rd->withMissing("v", fill);
    c.d << "missing";
    for (auto& m : rd->missing) c.d << " " << m.second;
    c.d << " fill " << fill << " " << ds.str();
    c.sig(c.d.str());
    expectData(c, "nodata:getData", rd->getData("v"), want);
    for (int k = 0; k < 4; ++k) {
        SliceBuilder sb(rd->getCDM(), "v");
        szv l = ds.lens(ds.var("v")), st(l.size()), sz(l.size());
        for (size_t i = 0; i < l.size(); ++i) { st[i] = r.below(l[i]); sz[i] = r.range(1, l[i] - st[i]); sb.setStartAndSize(ds.var("v").shape[i], st[i], sz[i]); }
        expectData(c, "nodata:slab", rd->getDataSlice("v", sb), box(want, l, st, sz));
    }
    const dv s = toD(rd->getScaledData("v"));
    for (size_t i = 0; i < want.size(); ++i) VCHECK(c, want[i] == fill ? std::isnan(s[i]) : s[i] == want[i], "nodata:scaled", "at " << i << " got " << s[i]);
    (void)nx;
    c.cnt("positions without data", rd->missing.size());
}
static void famBad(Ctx& c)
{
    // requests outside the variable are refused or empty; nothing is invented
    Zoo z = zooBuild(c.r.u64(), c.file("b" + std::to_string(c.idx)), 2);
    c.d << z.desc;
    c.sig("bad " + z.desc);
    for (auto& v : z.rd->getCDM().getVariables()) {
        const szv len = varDims(z.rd, v.getName());
        if (len.empty() || v.getDataType() == CDM_STRING) continue;
        const size_t i = c.r.below(len.size());
        const std::string dn = v.getShape()[i];
        SliceBuilder sb(z.rd->getCDM(), v.getName());
        const size_t st = c.r.pick({len[i], len[i] + 1, size_t(0), size_t(-1), len[i] / 2}), sz = c.r.pick({len[i] + 1, size_t(-1), len[i] * 2 + 1});
        VCHECK(c, throws([&] { sb.setStartAndSize(dn, st, sz); }), "slab-outside-accepted", v.getName() << " " << dn << " start " << st << " size " << sz << " of " << len[i]);
        VCHECK(c, throws([&] { sb.setStartAndSize("no_such_dimension", 0, 1); }), "unknown-dimension-accepted", v.getName());
        // after a refused request the builder is unchanged
        expectData(c, "after-refusal", z.rd->getDataSlice(v.getName(), sb), toD(z.rd->getData(v.getName())), 0, v.getName());
        c.cnt("refused slabs");
    }
    VCHECK(c, throws([&] { z.rd->getData("no_such_variable"); }) && throws([&] { z.rd->getDataSlice("no_such_variable", 0); }) && throws([&] { z.rd->getScaledData("no_such_variable"); }), "unknown-variable-accepted", "");
}
VF_MAIN("C01", "Each case builds a dataset view (source and a chain of processing stages) and compares every slab, unlimited-dimension slice, scaled and unit-converted read with the same part of the whole variable.",
        {"zoo", famZoo, 400, 12000}, {"file", famFile, 150, 4000}, {"empty", famEmpty, 400, 10000}, {"bad", famBad, 60, 2000})
