// C06: scaled and unit-converted reads. Oracle: long double formula, own table of unit definitions and direct UDUNITS calls.
#include "vfx.h"
#include <fimex/Units.h>
#include <fimex/UnitsConverter.h>
#include <udunits2.h>
using namespace vf;
typedef long double ld;

struct UD { const char* name; ld a, b; int log; int kind; }; // base = a*x+b ; log: base = ref*base^x
static const UD UNITS[] = {
    {"K", 1, 0, 0, 0}, {"celsius", 1, 273.15L, 0, 0}, {"degC", 1, 273.15L, 0, 0}, {"fahrenheit", 5.L / 9, 459.67L * 5 / 9, 0, 0}, {"0.1 K", 0.1L, 0, 0, 0},
    {"Pa", 1, 0, 0, 1}, {"hPa", 100, 0, 0, 1}, {"kPa", 1000, 0, 0, 1}, {"mbar", 100, 0, 0, 1}, {"lg(re 1 Pa)", 1, 0, 10, 1}, {"ln(re 1 Pa)", 1, 0, 1, 1},
    {"m", 1, 0, 0, 2}, {"km", 1000, 0, 0, 2}, {"mm", 0.001L, 0, 0, 2}, {"feet", 0.3048L, 0, 0, 2}, {"cm", 0.01L, 0, 0, 2}, {"um", 1e-6L, 0, 0, 2}, {"lb(re 1 m)", 1, 0, 2, 2},
    {"m/s", 1, 0, 0, 3}, {"km/h", 1 / 3.6L, 0, 0, 3}, {"knot", 1852.L / 3600, 0, 0, 3}, {"cm s-1", 0.01L, 0, 0, 3},
    {"1", 1, 0, 0, 4}, {"%", 0.01L, 0, 0, 4}, {"0.001", 0.001L, 0, 0, 4},
    {"hours since 2000-01-01 00:00:00", 3600, 0, 0, 5}, {"seconds since 2000-01-01 00:00:00", 1, 0, 0, 5}, {"days since 2000-01-02 12:00:00", 86400, 129600, 0, 5}, {"minutes since 1999-12-31 00:00:00", 60, -86400, 0, 5},
};
static const int NU = sizeof UNITS / sizeof *UNITS;
static ld toBase(const UD& u, ld x)
{
    switch (u.log) {
    case 10: return powl(10.L, x);
    case 1: return expl(x);
    case 2: return exp2l(x);
    }
    return u.a * x + u.b;
}
static ld fromBase(const UD& u, ld y)
{
    switch (u.log) {
    case 10: return y > 0 ? log10l(y) : NAN;
    case 1: return y > 0 ? logl(y) : NAN;
    case 2: return y > 0 ? log2l(y) : NAN;
    }
    return (y - u.b) / u.a;
}
static ld conv(const UD& f, const UD& t, ld x) { return fromBase(t, toBase(f, x)); }
static const UD& pickUnit(Rng& r, int kind = -1)
{
    for (;;) {
        const UD& u = UNITS[r.below(NU)];
        if (kind < 0 || u.kind == kind) return u;
    }
}
//! amount by which rounding of intermediate doubles may change the result
static double convTol(const UD& f, const UD& t, ld x)
{
    const ld b = toBase(f, x), y = fromBase(t, b);
    ld m = std::fabs((double)y) + std::fabs((double)(b / t.a)) + std::fabs((double)(t.b / t.a)) + std::fabs((double)(f.b / t.a)) + std::fabs((double)(f.a * x / t.a));
    if (t.log) m = std::fabs((double)y) + 1;
    if (f.log) m = std::fabs((double)y) * (1 + std::fabs((double)x) * 3);
    if (f.log && t.log) m = std::fabs((double)y) + std::fabs((double)x) + 1;
    if (f.kind == 5) m += 4e8 / (double)t.a; // udunits encodes times relative to 2001
    return (double)m * 4e-15 + 1e-300;
}

static void famScaled(Ctx& c)
{
    Dataset ds = randDataset(c.r, 4);
    struct E { double fill, scale, off; int fillKind; const UD* u; };
    std::map<std::string, E> en;
    for (auto& v : ds.vars) {
        E e;
        e.u = &pickUnit(c.r);
        e.scale = c.r.chance(0.6) ? c.r.pick({0.1, 0.01, 2., -0.5, 1e-3, 10.}) : 1;
        e.off = c.r.chance(0.6) ? c.r.pick({273.15, -10., 5.5, 1000.}) : 0;
        double lo, hi;
        typeLimits(v.type, lo, hi);
        e.fillKind = c.r.below(4); // 0 none(default) 1 _FillValue 2 missing_value 3 both
        e.fill = isInt(v.type) ? (lo < 0 ? c.r.pick({-32., -99., -127., 0.}) : c.r.pick({255., 77., 0.})) : c.r.pick({-999., 1e20, 0., -32767.});
        if (v.type == CDM_FLOAT) e.fill = (float)e.fill;
        if (e.scale != 1 || c.r.chance(0.3)) { if (c.r.chance(0.8)) ds.att(v.name, "scale_factor", CDM_DOUBLE, {e.scale}); else { ds.att(v.name, "scale_factor", CDM_FLOAT, {e.scale}); e.scale = (float)e.scale; } }
        if (e.off != 0 || c.r.chance(0.3)) { if (c.r.chance(0.8)) ds.att(v.name, "add_offset", CDM_DOUBLE, {e.off}); else { ds.att(v.name, "add_offset", CDM_FLOAT, {e.off}); e.off = (float)e.off; } }
        if (e.fillKind & 1) ds.att(v.name, "_FillValue", v.type, {e.fill});
        if (e.fillKind == 2) ds.att(v.name, "missing_value", v.type, {e.fill});
        if (e.fillKind == 3) ds.att(v.name, "missing_value", v.type, {e.fill + (isInt(v.type) && e.fill + 1 <= hi ? 1 : 0)}); // _FillValue has precedence
        ds.att(v.name, "units", std::string(e.u->name));
        for (auto& x : v.val) {
            x = isInt(v.type) ? (double)c.r.range((long)std::max(lo, -100.), (long)std::min(hi, 20000.)) : c.r.uni(-100, 1000);
            if (c.r.chance(0.05)) x = 0;
            if (v.type == CDM_FLOAT) x = (float)x;
            if (e.fillKind && c.r.chance(0.2)) x = e.fill;
            if (!isInt(v.type) && c.r.chance(0.05)) x = NAN;
        }
        en[v.name] = e;
    }
    MemReader rd(ds, c.r.chance(0.5));
    if (c.r.chance(0.3)) for (auto& v : ds.vars) rd.inMemory(v.name);
    c.d << ds.str();
    const Var& v = c.r.pick(ds.vars);
    E e = en[v.name];
    if (e.fillKind == 0) e.fill = rd.getCDM().getFillValue(v.name);
    const szv lens = ds.lens(v);
    const bool inUnit = c.r.chance(0.6);
    const UD& tu = pickUnit(c.r, e.u->kind);
    // request
    const int mode = c.r.below(3);
    szv st(lens.size(), 0), sz = lens;
    const bool ul = !v.shape.empty() && ds.dim(v.shape.back()).unlim;
    size_t pos = 0;
    DataPtr got;
    if (mode == 0) got = inUnit ? rd.getScaledDataInUnit(v.name, tu.name) : rd.getScaledData(v.name);
    else if (mode == 1) {
        if (ul) { pos = c.r.below(lens.back()); st.back() = pos; sz.back() = 1; }
        got = inUnit ? rd.getScaledDataSliceInUnit(v.name, tu.name, pos) : rd.getScaledDataSlice(v.name, pos);
    } else {
        SliceBuilder sb(rd.getCDM(), v.name);
        for (size_t i = 0; i < lens.size(); ++i) {
            st[i] = c.r.below(lens[i]);
            sz[i] = c.r.range(1, lens[i] - st[i]);
            sb.setStartAndSize(v.shape[i], st[i], sz[i]);
        }
        got = inUnit ? rd.getScaledDataSliceInUnit(v.name, tu.name, sb) : rd.getScaledDataSlice(v.name, sb);
    }
    c.d << " var " << v.name << " mode " << mode << " scale " << e.scale << " off " << e.off << " fill " << e.fill << " unit " << e.u->name << (inUnit ? std::string(" -> ") + tu.name : "") << " start " << vstr(st) << " size " << vstr(sz);
    VCHECK(c, !!got && got->getDataType() == CDM_DOUBLE, "scaled:type", "");
    const dv raw = box(v.val, lens, st, sz);
    const dv o = toD(got);
    VCHECK(c, o.size() == raw.size(), "scaled:size", o.size() << " vs " << raw.size());
    for (size_t i = 0; i < raw.size(); ++i) {
        const bool miss = std::isnan(raw[i]) || raw[i] == e.fill;
        if (miss) { VCHECK(c, std::isnan(o[i]), "scaled:missing", "raw " << raw[i] << " gave " << o[i]); c.cnt("missing"); continue; }
        const ld p = (ld)e.scale * raw[i] + e.off;
        ld want = p;
        double tol = (std::fabs((double)p) + std::fabs(e.off)) * 1e-15;
        if (inUnit) {
            want = conv(*e.u, tu, p);
            if (e.u->log && std::fabs((double)p) > 200) continue; // overflow range of the exponential
            if (tu.log && !e.u->log && std::fabs((double)toBase(*e.u, p)) <= 1e-9 * std::fabs((double)(e.u->a * (std::fabs(e.off) + std::fabs((double)p))))) continue; // cancellation
            if (std::isnan((double)want)) continue;       // logarithm of a non-positive value: left to udunits
            const double dp = (std::fabs((double)p) + std::fabs(e.off)) * 1e-15 + 1e-300;
            tol = convTol(*e.u, tu, p) + 8 * std::max(std::fabs((double)(conv(*e.u, tu, p + dp) - want)), std::isnan((double)conv(*e.u, tu, p - dp)) ? 1e-9 : std::fabs((double)(conv(*e.u, tu, p - dp) - want)));
            // slope estimated from differences
            tol += std::fabs((double)want) * 1e-13;
            if (tu.log) tol += 1e-12;
        }
        VCHECK(c, std::fabs((double)(o[i] - want)) <= tol, inUnit ? "scaled:unit-value" : "scaled:value", "raw " << raw[i] << " got " << o[i] << " expected " << (double)want << " tol " << tol);
        c.cnt(inUnit ? "unit_values" : "values");
    }
}

static void famUnits(Ctx& c)
{
    const UD& f = pickUnit(c.r);
    const UD& t = c.r.chance(0.75) ? pickUnit(c.r, f.kind) : pickUnit(c.r);
    c.d << f.name << " -> " << t.name;
    Units units;
    const bool want = f.kind == t.kind;
    VCHECK(c, units.areConvertible(f.name, t.name) == want, "units:convertible", "");
    VCHECK(c, units.isTime(f.name) == (f.kind == 5), "units:isTime", "");
    static ut_system* sys = 0;
    if (!sys) { ut_set_error_message_handler(&ut_ignore); sys = ut_read_xml(0); }
    if (!want) {
        VCHECK(c, throws([&] { units.getConverter(f.name, t.name); }), "units:inconvertible-accepted", "");
        double a, b;
        VCHECK(c, throws([&] { units.convert(f.name, t.name, a, b); }), "units:inconvertible-convert", "");
        return;
    }
    ut_unit* uf = ut_parse(sys, f.name, UT_UTF8);
    ut_unit* ut = ut_parse(sys, t.name, UT_UTF8);
    cv_converter* cv = ut_get_converter(uf, ut);
    UnitsConverter_p u = units.getConverter(f.name, t.name), inv = units.getConverter(t.name, f.name);
    const bool linear = std::string(f.name) == t.name || (!f.log && !t.log);
    VCHECK(c, u->isLinear() == linear, "units:isLinear", u->isLinear());
    double a = 0, b = 0;
    if (linear) units.convert(f.name, t.name, a, b);
    else VCHECK(c, throws([&] { units.convert(f.name, t.name, a, b); }), "units:nonlinear-convert", "");
    for (int i = 0; i < 8; ++i) {
        double x = f.log ? c.r.uni(-5, 5) : t.log ? c.r.uni(1e-3, 1e5) : c.r.uni(-1e4, 1e4);
        if (i == 0 && !t.log) x = 0;
        const ld w = conv(f, t, x);
        if (std::isnan((double)w)) continue;
        const double tol = convTol(f, t, x) + std::fabs((double)w) * 1e-14;
        VCHECK(c, std::fabs((double)(u->convert(x) - w)) <= tol, "units:value", x << " gave " << u->convert(x) << " expected " << (double)w << " tol " << tol);
        VCHECK(c, u->operator()(x) == u->convert(x), "units:functor", "");
        VCHECK(c, std::fabs(u->convert(x) - cv_convert_double(cv, x)) <= tol, "units:udunits", x);
        const double ftol = std::fabs((double)w) * 1e-6 + std::fabs((double)(t.b / t.a)) * 1e-6 + std::fabs((double)(f.b / t.a)) * 1e-6 + std::fabs((double)(toBase(f, x) / t.a)) * 1e-6 * (f.log ? 10 : 1) + (t.log ? 1e-5 : 0) + (f.kind == 5 ? 100 / (double)t.a : 0) + 1e-30;
        const float xf = (float)x;
        VCHECK(c, std::fabs((double)(u->convert(xf) - conv(f, t, xf))) <= ftol, "units:float", xf << " gave " << u->convert(xf) << " expected " << (double)conv(f, t, xf));
        const double back = inv->convert(u->convert(x));
        const ld slope = std::fabs((double)((conv(t, f, w * (1 + 1e-6L) + 1e-6L) - x) / (w * 1e-6L + 1e-6L)));
        VCHECK(c, std::fabs(back - x) <= convTol(t, f, w) + (std::isfinite((double)slope) ? (double)slope * tol * 4 : 1e-6) + std::fabs(x) * 1e-12, "units:inverse", x << " -> " << u->convert(x) << " -> " << back);
        if (linear) VCHECK(c, std::fabs(a * x + b - (double)w) <= tol * 4 + std::fabs((double)(f.a / t.a)) * std::fabs(x) * 1e-10, "units:slope-offset", x << " gave " << a * x + b << " expected " << (double)w);
        c.cnt("values");
    }
    cv_free(cv);
    ut_free(uf);
    ut_free(ut);
}
static void famBadUnits(Ctx& c)
{
    static const std::vector<std::string> bad = {"foo", "m per", "K^", "(", "hours since", "kg m-2 )", "blubb since 2000-01-01", "\xff\xfe"};
    const std::string b = bad[c.idx % bad.size()];
    c.d << "unit '" << b << "'";
    Units u;
    VCHECK(c, throws([&] { u.getConverter(b, "m"); }) && throws([&] { u.getConverter("m", b); }), "badunits:accepted", b);
    VCHECK(c, !u.areConvertible(b, "m") && !u.areConvertible("m", b) && !u.isTime(b), "badunits:convertible", b);
    Dataset ds;
    ds.addDim("x", 2);
    ds.add("v", CDM_FLOAT, {"x"}, {1, 2});
    ds.att("v", "units", std::string(c.idx % 2 ? "K" : b));
    MemReader rd(ds);
    VCHECK(c, throws([&] { rd.getScaledDataInUnit("v", "m"); }), "badunits:read", b);
    VCHECK(c, throws([&] { rd.getScaledDataSliceInUnit("v", c.idx % 2 ? b : "m", 0); }), "badunits:slice", b);
    expectData(c, "badunits:plain-still-works", rd.getScaledData("v"), {1, 2});
}
VF_MAIN("C06", "a case is one scaled/unit read of a random variable or one unit pair with sampled values; non-trivial: all; distinct by dataset, variable, request and unit",
        {"scaled", famScaled, 12000, 500000}, {"units", famUnits, 4000, 100000}, {"badunits", famBadUnits, 32, 64})
