// C05: type/scale/offset/fill conversion. Oracle: long double evaluation of (scale*raw+offset), missing-value bookkeeping.
#include "vfx.h"
#include <fimex/CDMFileReaderFactory.h>
#include <fimex/CDMReaderWriter.h>
#include <fimex/DataUtils.h>
#include <fimex/Units.h>
#include <fimex/UnitsConverter.h>
#include <fimex/XMLInputString.h>
using namespace vf;
typedef long double ld;

static bool is64(CDMDataType t) { return t == CDM_INT64 || t == CDM_UINT64; }
static double randFill(Rng& r, CDMDataType t)
{
    double lo, hi;
    typeLimits(t, lo, hi);
    switch (t) {
    case CDM_FLOAT: return r.pick({-999., 1e20, -32767., (double)9.96921e+36f, 0.});
    case CDM_DOUBLE: return r.pick({-999., 1e20, -32767., 9.96921e36, 0.});
    case CDM_CHAR: return r.pick({-127., -128., 127., 0.});
    case CDM_UCHAR: return r.pick({255., 0.});
    case CDM_USHORT: return r.pick({65535., 0.});
    case CDM_UINT: return r.pick({4294967295., 0., 99999.});
    case CDM_UINT64: return r.pick({1e15, 0., 99999.});
    case CDM_SHORT: return r.pick({-32767., -32768., -999., 32767.});
    default: return r.pick({-32767., -2147483647., -999.});
    }
}
static double randScale(Rng& r) { return r.pick({1., 1., 1., 0.1, 0.01, 0.5, 2., 100., -0.25, 0.003}); }
static double randOffset(Rng& r) { return r.pick({0., 0., 0., 273.15, -50., 1000.5, 7.}); }
//! raw value in the type, mostly moderate
static double randRaw(Rng& r, CDMDataType t)
{
    double lo, hi;
    typeLimits(t, lo, hi);
    switch (r.below(6)) {
    case 0: return isInt(t) ? std::max(lo, std::min(hi, (double)r.range(-3, 3))) : r.uni(-3, 3);
    case 1: lo = std::max(lo, -120.); hi = std::min(hi, 120.); break;
    case 2: lo = std::max(lo, -30000.); hi = std::min(hi, 30000.); break;
    case 3: lo = std::max(lo, -3e9); hi = std::min(hi, 4.2e9); break;
    case 4: if (isInt(t)) return r.chance(0.5) ? lo : hi; lo = -1e6; hi = 1e6; break;
    default: lo = std::max(lo, -1e13); hi = std::min(hi, 1e13);
    }
    double v = r.uni(lo, hi);
    if (isInt(t)) v = std::floor(v);
    else if (r.chance(0.3)) v = std::floor(v) + r.pick({0., 0.5, -0.5});
    if (t == CDM_FLOAT) v = (float)v;
    return v;
}
static bool representable(CDMDataType t, ld x)
{
    double lo, hi;
    typeLimits(t, lo, hi);
    return x >= lo - 0.4999L && x <= hi + 0.4999L;
}
//! compare one converted value
static void one(Ctx& c, const std::string& key, CDMDataType ot, double raw, bool missing, ld want, CDMDataType nt, double got, double newFill, const std::string& info)
{
    if (nt == CDM_FLOAT) newFill = (float)newFill;
    const bool gotMissing = got == newFill || std::isnan(got);
    if (missing) {
        VCHECK(c, gotMissing, key + ":missing-lost", info << " raw " << raw << " -> " << got << " expected fill " << newFill);
        if (isInt(nt)) VCHECK(c, got == newFill, key + ":missing-not-fill", info << " " << got);
        c.cnt("missing");
        return;
    }
    if (!representable(nt, want)) { c.cnt("unrepresentable_skipped"); return; }
    const ld eps = 1e-15L * (std::fabs((double)want) + std::fabs(raw) + 2000) * 64;
    const ld tol = isInt(nt) ? 0.5L + eps : (nt == CDM_FLOAT ? std::fabs((double)want) * 6.1e-8L + eps + 1e-38L : eps + std::fabs((double)want) * 4e-16L);
    if (std::fabs((double)(want - newFill)) <= (isInt(nt) ? 0.6 : (double)tol * 2)) { c.cnt("collides_with_fill_skipped"); return; }
    VCHECK(c, !gotMissing, key + ":valid-became-missing", info << " raw " << raw << " expected " << (double)want << " got " << got);
    VCHECK(c, std::fabs((double)(got - want)) <= (double)tol, key + ":value", info << " raw " << raw << " expected " << (double)want << " got " << got);
    c.cnt("valid");
}
//! element by element read-out that does not pass through double for 64 bit types
static double at(const DataPtr& d, size_t i)
{
    if (d->getDataType() == CDM_INT64) return (double)d->asInt64()[i];
    if (d->getDataType() == CDM_UINT64) return (double)d->asUInt64()[i];
    if (d->getDataType() == CDM_FLOAT) return d->asFloat()[i];
    return d->asDouble()[i];
}

static void famApi(Ctx& c)
{
    const CDMDataType ot = c.r.pick(numTypes()), nt = c.r.pick(numTypes());
    double of = randFill(c.r, ot), nf = randFill(c.r, nt);
    double os = randScale(c.r), oo = randOffset(c.r), ns = randScale(c.r), no = randOffset(c.r);
    if (c.r.chance(0.3)) { ns = os; no = oo; }
    if (c.r.chance(0.3)) { double lo, hi; typeLimits(nt, lo, hi); if (of >= lo && of <= hi) nf = of; }
    const bool nanFill = !isInt(ot) && c.r.chance(0.2);
    if (nanFill) of = NAN;
    if (!isInt(nt) && c.r.chance(0.2)) nf = NAN;
    const size_t n = c.r.range(0, 40);
    dv raw(n);
    std::vector<char> miss(n);
    for (size_t i = 0; i < n; ++i) {
        raw[i] = c.r.chance(0.2) ? of : randRaw(c.r, ot);
        if (!isInt(ot) && c.r.chance(0.1)) raw[i] = NAN;
        miss[i] = std::isnan(raw[i]) || raw[i] == of || (ot == CDM_FLOAT && (float)raw[i] == (float)of);
    }
    UnitsConverter_p uc;
    const int ukind = c.r.chance(0.3) ? c.r.range(1, 3) : 0;
    if (ukind == 1) uc = Units().getConverter("K", "celsius");
    if (ukind == 2) uc = Units().getConverter("km", "m");
    if (ukind == 3) uc = Units().getConverter("lg(re 1 m)", "m"); // x -> 10^x
    c.d << datatype2string(ot) << "(fill " << of << " scale " << os << " offset " << oo << ") -> " << datatype2string(nt) << "(fill " << nf << " scale " << ns << " offset " << no << ") unit " << ukind << " n " << n;
    c.sig(ot).sig(nt).sig(of).sig(nf).sig(os).sig(oo).sig(ns).sig(no).sig(ukind).sig(vstr(raw));
    c.trivial = n == 0;
    DataPtr in = mkData(ot, raw);
    for (size_t i = 0; i < n; ++i) raw[i] = at(in, i);
    const dv before = toD(in);
    DataPtr out = ukind ? in->convertDataType(of, os, oo, uc, nt, nf, ns, no) : in->convertDataType(of, os, oo, nt, nf, ns, no);
    VCHECK(c, out && out->size() == n, "api:size", "");
    VCHECK(c, out->getDataType() == nt, "api:type", datatype2string(out->getDataType()));
    for (size_t i = 0; i < n; ++i) {
        ld p = (ld)os * raw[i] + oo;
        if (ukind == 1) p -= 273.15L;
        if (ukind == 2) p *= 1000;
        if (ukind == 3) { if (p > 15 || p < -15) continue; p = powl(10.L, p); }
        one(c, "api", ot, raw[i], miss[i], (p - no) / ns, nt, at(out, i), nf, c.d.str());
    }
    // input untouched
    expectVals(c, "api:input-modified", toD(in), before, 0);
    c.cnt(std::string("pair_") + datatype2string(ot) + "_" + datatype2string(nt));
}

static void famCast(Ctx& c)
{
    const CDMDataType ot = c.r.pick(numTypes()), nt = c.r.pick(numTypes());
    const size_t n = c.r.range(1, 40);
    dv raw(n);
    for (auto& x : raw) x = randRaw(c.r, ot);
    DataPtr in = mkData(ot, raw);
    for (size_t i = 0; i < n; ++i) raw[i] = at(in, i);
    c.d << datatype2string(ot) << " -> " << datatype2string(nt) << " " << vstr(raw);
    DataPtr out = convertValues(*in, nt);
    VCHECK(c, out->getDataType() == nt && out->size() == n, "cast:type", "");
    for (size_t i = 0; i < n; ++i) {
        if (!representable(nt, raw[i])) continue;
        // round half away from zero / exact
        double want = isInt(nt) ? std::round(raw[i]) : nt == CDM_FLOAT ? (double)(float)raw[i] : raw[i];
        if (!representable(nt, want)) continue;
        VCHECK(c, at(out, i) == want || (std::fabs(raw[i] - std::floor(raw[i]) - 0.5) < 1e-12 && std::fabs(at(out, i) - raw[i]) <= 0.5), "cast:value", "raw " << raw[i] << " got " << at(out, i) << " expected " << want);
        c.cnt("values");
    }
    // createData with a fill and setValue/setAllValues
    const double f = randFill(c.r, nt);
    DataPtr filled = createData(nt, size_t(3), f);
    for (int i = 0; i < 3; ++i) VCHECK(c, at(filled, i) == (nt == CDM_FLOAT ? (double)(float)f : f), "cast:create", f << " -> " << at(filled, i));
    double lo, hi;
    typeLimits(nt, lo, hi);
    const double v = isInt(nt) ? std::floor(c.r.uni(std::max(lo, -1e12), std::min(hi, 1e12))) : c.r.range(-1000, 1000) * 0.25;
    filled->setValue(1, v);
    VCHECK(c, at(filled, 1) == v && at(filled, 0) == at(filled, 2), "cast:setValue", v << " -> " << at(filled, 1));
    VCHECK(c, filled->getDouble(1) == v, "cast:getDouble", filled->getDouble(1));
    VCHECK(c, !isInt(nt) || (double)filled->getLongLong(1) == v, "cast:getLongLong", filled->getLongLong(1));
}

//! change of type/scale/offset/fill by the NetCDF writer configuration
static void famWriter(Ctx& c)
{
    Dataset ds;
    ds.addDim("x", c.r.range(1, 6));
    const bool unlim = c.r.chance(0.5);
    if (unlim) { ds.addDim("t", c.r.range(1, 4), true); ds.add("t", CDM_INT, {"t"}); }
    const CDMDataType ot = c.r.pick({CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE, CDM_CHAR}), nt0 = c.r.pick({CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE});
    // any subset of the properties may change
    const bool chType = c.r.chance(0.7), chFill = chType || c.r.chance(0.6), chScale = c.r.chance(0.7), chOff = c.r.chance(0.7);
    const CDMDataType nt = chType ? nt0 : ot;
    const double of = randFill(c.r, ot), nf = chFill ? randFill(c.r, nt) : of;
    const bool oldScaled = c.r.chance(0.5);
    const double os = randScale(c.r), oo = randOffset(c.r), ns = chScale ? randScale(c.r) : oldScaled ? os : 1, no = chOff ? randOffset(c.r) : oldScaled ? oo : 0;
    Var& v = ds.add("v", ot, unlim ? sv{"x", "t"} : sv{"x"});
    std::vector<char> miss(v.val.size());
    for (size_t i = 0; i < v.val.size(); ++i) {
        v.val[i] = c.r.chance(0.2) ? of : randRaw(c.r, ot);
        if (!isInt(ot) && c.r.chance(0.1)) v.val[i] = NAN;
        miss[i] = std::isnan(v.val[i]) || v.val[i] == of || (ot == CDM_FLOAT && (float)v.val[i] == (float)of);
    }
    if (oldScaled) { ds.att("v", "scale_factor", CDM_DOUBLE, {os}); ds.att("v", "add_offset", CDM_DOUBLE, {oo}); }
    ds.att("v", "_FillValue", ot, {of});
    const int ukind = c.r.chance(0.4) ? 1 : 0;
    ds.att("v", "units", std::string(ukind ? "K" : "m"));
    std::ostringstream x;
    x.precision(17);
    const std::string tn = datatype2string(nt);
    x << "<?xml version=\"1.0\"?><cdm_ncwriter_config><variable name=\"v\"";
    if (chType) x << " type=\"" << tn << "\"";
    x << ">";
    if (chFill) x << "<attribute name=\"_FillValue\" type=\"" << tn << "\" value=\"" << nf << "\"/>";
    if (chScale) x << "<attribute name=\"scale_factor\" type=\"double\" value=\"" << ns << "\"/>";
    if (chOff) x << "<attribute name=\"add_offset\" type=\"double\" value=\"" << no << "\"/>";
    if (ukind) x << "<attribute name=\"units\" type=\"string\" value=\"celsius\"/>";
    x << "</variable></cdm_ncwriter_config>";
    const std::string fmt = c.r.pick({"nc3", "nc4", "nc4c"});
    c.d << ds.str() << " " << fmt << " " << datatype2string(ot) << "(fill " << of << ") -> " << tn << " " << x.str();
    const std::string f = c.file("w.nc");
    auto rd = std::make_shared<MemReader>(ds);
    if (unlim && c.r.chance(0.4)) { // positions the source has no data for are written as undefined
        const size_t len = ds.dim("t").len, nx = ds.dim("x").len, p = c.r.below(len);
        rd->missing.insert({"v", p});
        for (size_t i = 0; i < nx; ++i) miss[p * nx + i] = 1;
        c.d << " no data at " << p;
        c.cnt("positions_without_data");
    }
    CDMFileReaderFactory::createWriter(rd, fmt, f, XMLInputString(x.str()));
    CDMReader_p back = CDMFileReaderFactory::create("netcdf", f);
    DataPtr out = back->getData("v");
    VCHECK(c, out && out->size() == v.val.size(), "writer:size", "");
    VCHECK(c, out->getDataType() == nt, "writer:type", datatype2string(out->getDataType()));
    DataPtr in = mkData(ot, v.val);
    for (size_t i = 0; i < v.val.size(); ++i) {
        const double raw = at(in, i);
        ld p = oldScaled ? (ld)os * raw + oo : (ld)raw;
        if (ukind) p -= 273.15L;
        one(c, "writer", ot, raw, miss[i], (p - no) / ns, nt, at(out, i), nf, c.d.str());
    }
    unlink(f.c_str());
}

//! scaled writing (unscaling) through CDMReaderWriter
class MemRW : public CDMReaderWriter
{
public:
    Dataset ds;
    std::map<std::string, DataPtr> last;
    explicit MemRW(const Dataset& d) : ds(d) { ds.fillCDM(*cdm_); }
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const std::string& n, size_t) override { return last[n]; }
    void sync() override {}
    void putDataSlice(const std::string& n, size_t, const DataPtr data) override { last[n] = data; }
    void putDataSlice(const std::string& n, const SliceBuilder&, const DataPtr data) override { last[n] = data; }
};
static void famPut(Ctx& c)
{
    const CDMDataType nt = c.r.pick(numTypes());
    const double nf = randFill(c.r, nt), ns = randScale(c.r), no = randOffset(c.r);
    const size_t n = c.r.range(1, 12);
    Dataset ds;
    ds.addDim("x", n);
    ds.add("v", nt, {"x"});
    ds.att("v", "_FillValue", nt, {nf});
    const bool sc = c.r.chance(0.7);
    if (sc) { ds.att("v", "scale_factor", CDM_DOUBLE, {ns}); ds.att("v", "add_offset", CDM_DOUBLE, {no}); }
    const int uk = c.r.below(4);
    ds.att("v", "units", std::string(uk == 1 ? "celsius" : uk == 2 ? "hPa" : "m"));
    MemRW rw(ds);
    dv in(n);
    for (auto& x : in) {
        double lo, hi;
        typeLimits(nt, lo, hi);
        x = c.r.uni(std::max(lo, -1e5), std::min(hi, 1e5)) * (sc ? ns : 1) + (sc ? no : 0);
        if (c.r.chance(0.2)) x = NAN;
    }
    c.d << datatype2string(nt) << " fill " << nf << " scale " << ns << " offset " << no << " scaled " << sc << " unit " << uk << " in " << vstr(in);
    const DataPtr din = createData(CDM_DOUBLE, in.begin(), in.end());
    SliceBuilder sb(rw.getCDM(), "v");
    const bool bySb = c.r.chance(0.5);
    const std::string unit = uk == 1 ? "K" : uk == 2 ? "Pa" : "lg(re 1 m)";
    if (uk == 0) { if (bySb) rw.putScaledDataSlice("v", sb, din); else rw.putScaledDataSlice("v", 0, din); }
    else { if (bySb) rw.putScaledDataSliceInUnit("v", unit, sb, din); else rw.putScaledDataSliceInUnit("v", unit, 0, din); }
    DataPtr out = rw.last["v"];
    VCHECK(c, out && out->size() == n && out->getDataType() == nt, "put:type", "");
    for (size_t i = 0; i < n; ++i) {
        ld p = in[i];
        if (uk == 1) p -= 273.15L;
        if (uk == 2) p /= 100;
        if (uk == 3) { if (std::fabs(in[i]) > 15) continue; p = powl(10.L, p); }
        if (sc) p = (p - no) / ns;
        one(c, "put", CDM_DOUBLE, in[i], std::isnan(in[i]), p, nt, at(out, i), nf, c.d.str());
    }
}

//! default fill values (no _FillValue attribute), zero must stay valid
static void famDefaultFill(Ctx& c)
{
    const CDMDataType t = numTypes()[c.idx % numTypes().size()];
    const CDMDataType u = c.r.pick(numTypes());
    Dataset ds;
    ds.addDim("x", 4);
    ds.add("v", t, {"x"});
    ds.add("w", u, {"x"});
    MemReader rd(ds);
    const double ft = rd.getCDM().getFillValue("v"), fu = rd.getCDM().getFillValue("w");
    c.d << datatype2string(t) << " default fill " << ft << " -> " << datatype2string(u) << " " << fu;
    DataPtr d = createData(t, size_t(4), 0.);
    d->setValue(1, 1);
    d->setValue(3, 100);
    // one explicit default fill element in its own type
    switch (t) {
    case CDM_INT64: reinterpret_cast<long long*>(d->getDataPtr())[2] = -9223372036854775806LL; break;
    case CDM_UINT64: reinterpret_cast<unsigned long long*>(d->getDataPtr())[2] = 18446744073709551614ULL; break;
    default: d->setValue(2, ft);
    }
    DataPtr o = d->convertDataType(ft, 1, 0, u, fu, 0.5, 0);
    VCHECK(c, at(o, 0) == 0 && at(o, 1) == 2, "default-fill:valid", vstr(toD(o)));
    VCHECK(c, u == CDM_CHAR || at(o, 3) == 200, "default-fill:valid", vstr(toD(o)));
    VCHECK(c, (u == CDM_FLOAT ? at(o, 2) == (double)(float)fu : at(o, 2) == fu), "default-fill:missing", vstr(toD(o)) << " expected fill " << fu);
    DataPtr s = d->convertDataType(ft, 2, 1, CDM_DOUBLE, NAN, 1, 0);
    expectData(c, "default-fill:scaled", s, {1, 3, NAN, 201});
}

VF_MAIN("C05", "a case converts one array between two (type,scale,offset,fill) encodings by API, writer config or scaled put; non-trivial: at least one element; distinct by all parameters and values",
        {"api", famApi, 20000, 1000000}, {"cast", famCast, 6000, 300000}, {"put", famPut, 6000, 200000}, {"writer", famWriter, 1200, 40000}, {"default_fill", famDefaultFill, 200, 2000})
