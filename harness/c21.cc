// C21: merging (border smoothing, overlay, merger) vs a pointwise reference on lat/lon grids.
#include "vfx.h"
#include <fimex/CDMBorderSmoothing.h>
#include <fimex/CDMBorderSmoothing_Linear.h>
#include <fimex/CDMMerger.h>
#include <fimex/CDMOverlay.h>
using namespace vf;

typedef std::vector<double> dvec;
//! the documented linear transition: weight of the outer value, NAN if the zones of opposite sides overlap here
static double alphaRef(size_t x, size_t y, size_t nx, size_t ny, size_t T, size_t B)
{
    auto zone = [&](long p, long n, bool& both) { // >=1 outside or at the border, 0 interior
        const long lo1 = B, lo2 = B + T, hi2 = n - (long)B, hi1 = hi2 - (long)T;
        if (p < lo1 || p >= hi2) return 2.0;
        if (p < lo2 && p >= hi1) both = true;
        if (p < lo2) return double(lo2 - p) / T;
        if (p >= hi1) return double(p - hi1) / T;
        return 0.0;
    };
    bool both = false;
    const double ax = zone(x, nx, both), ay = zone(y, ny, both);
    if (ax > 1 || ay > 1) return 1;
    if (both) return NAN;
    return std::min(1.0, std::hypot(ax, ay));
}
static void functor(Ctx& c)
{
    Rng& r = c.r;
    const size_t T = r.range(1, 6), B = r.range(0, 4), nx = r.range(1, 24), ny = r.range(1, 24);
    c.d << "T=" << T << " B=" << B << " nx=" << nx << " ny=" << ny;
    c.sig(c.d.str());
    CDMBorderSmoothing::SmoothingFactory_p f;
    if (r.chance(0.5)) f = std::make_shared<CDMBorderSmoothing_LinearFactory>(T, B);
    else f = createSmoothingFactory("LINEAR(" + std::to_string(T) + "," + std::to_string(B) + ")");
    auto s = (*f)("v");
    s->setHorizontalSizes(nx, ny);
    for (size_t y = 0; y < ny; ++y) for (size_t x = 0; x < nx; ++x) {
        const double I = r.range(-100, 100), O = r.range(-100, 100);
        const double g = (*s)(x, y, I, O), a = alphaRef(x, y, nx, ny, T, B);
        if (std::isnan(a)) { VCHECK(c, g >= std::min(I, O) - 1e-9 && g <= std::max(I, O) + 1e-9, "functor:convex", x << "," << y << " got " << g << " I=" << I << " O=" << O); c.cnt("overlapping_zone"); }
        else {
            VCHECK(c, close(g, I + a * (O - I), 1e-9), "functor", x << "," << y << " got " << g << " expected " << I + a * (O - I) << " I=" << I << " O=" << O);
            c.cnt(a == 0 ? "interior" : a == 1 ? "border" : "transition");
        }
    }
}
static void badspec(Ctx& c)
{
    static const sv B = {"", "LINEAR", "LINEAR()", "LINEAR(1)", "LINEAR(1,2,3)", "LINEAR(a,2)", "LINEAR(0,2)", "linear(1,2)", "LINEAR(1,2", "QUAD(1,2)", "LINEAR(1.5,2)"};
    const std::string b = B[c.idx % B.size()];
    c.d << b;
    c.sig(b);
    VCHECK(c, throws([&] { createSmoothingFactory(b); }), "badspec-accepted", b);
}

// ---------------------------------------------------------------- datasets
struct Pack { CDMDataType t; double sc, off, fill; std::string unit; }; //!< physical(in K) = raw*sc+off (+273.15 if celsius)
static double toK(double v, const std::string& u) { return u == "celsius" ? v + 273.15 : v; }
struct Field { Pack p; dvec phys; }; //!< physical values in K, NAN = undefined
struct G
{
    dvec lon, lat;
    size_t nz, nt;
    std::map<std::string, Field> f;
    Dataset ds;
    double at(const std::string& v, size_t x, size_t y, size_t z, size_t t) const { return f.at(v).phys[x + lon.size() * (y + lat.size() * (z + nz * t))]; }
};
static Pack rndPack(Rng& r, bool collide)
{
    Pack p;
    p.t = r.pick({CDM_FLOAT, CDM_DOUBLE, CDM_SHORT, CDM_INT});
    p.unit = r.chance(0.3) ? "celsius" : "K";
    if (p.t == CDM_SHORT || p.t == CDM_INT) { p.sc = r.pick({0.01, 0.02, 0.05}); p.off = p.unit == "K" ? r.pick({270., 300.}) : r.pick({0., 20.}); p.fill = r.pick({-32767., -9999.}); }
    else { p.sc = 1; p.off = 0; if (r.chance(0.3)) { p.sc = r.pick({0.5, 2.}); p.off = r.pick({0., 10., 250.}); } p.fill = collide ? r.pick({-999., 1e10, -1.}) : r.pick({-999., 1e10, -7777.}); }
    return p;
}
static void build(Rng& r, G& g, const sv& names, const std::map<std::string, Pack>& packs, double nanP, bool extra, bool scalarTime, bool collide)
{
    Dataset& ds = g.ds;
    const size_t nx = g.lon.size(), ny = g.lat.size();
    ds.addDim("lon", nx);
    ds.addDim("lat", ny);
    if (g.nz > 1) ds.addDim("lev", g.nz);
    ds.addDim("time", g.nt, true);
    ds.add("lon", CDM_DOUBLE, {"lon"}, g.lon);
    ds.att("lon", "units", "degrees_east");
    ds.att("lon", "standard_name", "longitude");
    ds.add("lat", CDM_DOUBLE, {"lat"}, g.lat);
    ds.att("lat", "units", "degrees_north");
    ds.att("lat", "standard_name", "latitude");
    if (g.nz > 1) {
        dv l;
        for (size_t i = 0; i < g.nz; ++i) l.push_back(1000 - 100. * i);
        ds.add("lev", CDM_DOUBLE, {"lev"}, l);
        ds.att("lev", "units", "hPa");
        ds.att("lev", "standard_name", "air_pressure");
    }
    dv tv;
    for (size_t i = 0; i < g.nt; ++i) tv.push_back(6. * i);
    ds.add("time", CDM_DOUBLE, {"time"}, tv);
    ds.att("time", "units", "hours since 2020-01-01 00:00:00");
    ds.att("_GLOBAL", "Conventions", "CF-1.4");
    for (auto& n : names) {
        Field f;
        f.p = packs.at(n);
        sv sh = {"lon", "lat"};
        if (g.nz > 1) sh.push_back("lev");
        sh.push_back("time");
        Var& v = ds.add(n, f.p.t, sh);
        f.phys.resize(v.val.size());
        const double ph = r.uni(0, 6), lo = r.uni(0.1, 1.0);
        for (size_t t = 0, i = 0; t < g.nt; ++t) for (size_t z = 0; z < g.nz; ++z) for (size_t y = 0; y < ny; ++y) for (size_t x = 0; x < nx; ++x, ++i) {
            double k = 283 + 7 * std::sin(ph + lo * g.lon[x]) + 5 * std::cos(ph + 1.3 * lo * g.lat[y]) + z + 2 * (double)t;
            double raw = (f.p.unit == "celsius" ? k - 273.15 : k);
            raw = (raw - f.p.off) / f.p.sc;
            if (isInt(f.p.t)) raw = std::round(raw);
            else if (f.p.t == CDM_FLOAT) raw = float(raw);
            if (collide && r.chance(0.02) && f.p.fill != -1 && !isInt(f.p.t)) raw = -1; // a valid value which is the fill value of other packings
            if (raw == f.p.fill) raw += 1;
            if (r.chance(nanP)) { raw = f.p.fill; f.phys[i] = NAN; }
            else f.phys[i] = toK(raw * f.p.sc + f.p.off, f.p.unit);
            v.val[i] = raw;
        }
        ds.att(n, "units", f.p.unit);
        ds.att(n, "_FillValue", f.p.t, {f.p.fill});
        if (isInt(f.p.t) || f.p.sc != 1 || f.p.off != 0) { ds.att(n, "scale_factor", CDM_DOUBLE, {f.p.sc}); ds.att(n, "add_offset", CDM_DOUBLE, {f.p.off}); }
        g.f[n] = f;
    }
    if (extra && g.nz > 1) { // level-dependent and scalar variables, which have no horizontal axes
        Var& a = ds.add("ap", CDM_DOUBLE, {"lev"});
        for (size_t i = 0; i < g.nz; ++i) a.val[i] = 10. * i + (nanP > 0 ? 0 : 3);
        ds.att("ap", "units", "Pa");
    }
    if (extra) { ds.add("sc0", CDM_INT, {}, {double(r.range(1, 100))}); }
    if (scalarTime) { Var& a = ds.add("ft", CDM_SHORT, {"time"}); for (size_t i = 0; i < g.nt; ++i) a.val[i] = r.range(0, 100); ds.att("ft", "scale_factor", CDM_DOUBLE, {0.5}); ds.att("ft", "units", "1"); }
}
//! acceptable physical values of bilinear/nearest interpolation of a field at a position in degrees
struct Acc
{
    dvec v;
    bool nan = false, any = false;
    void add(double x) { if (std::isnan(x)) nan = true; else v.push_back(x); }
};
static Acc interp(const G& g, const std::string& n, double lon, double lat, size_t z, size_t t, int method)
{
    Acc a;
    const double dx = g.lon[1] - g.lon[0], dy = g.lat[1] - g.lat[0];
    const double fx = (lon - g.lon[0]) / dx, fy = (lat - g.lat[0]) / dy;
    const long nx = g.lon.size(), ny = g.lat.size();
    const double E = 1e-5;
    if (fx < -0.5 - E || fy < -0.5 - E || fx > nx - 0.5 + E || fy > ny - 0.5 + E) { a.nan = true; return a; }
    if (fx < -E || fy < -E || fx > nx - 1 + E || fy > ny - 1 + E) { a.any = true; return a; } // half a cell outside: edge rule, see C07/C08
    if (method == MIFI_INTERPOL_NEAREST_NEIGHBOR) {
        for (long i : {std::lround(fx - E), std::lround(fx + E)}) for (long j : {std::lround(fy - E), std::lround(fy + E)})
            if (i >= 0 && j >= 0 && i < nx && j < ny) a.add(g.at(n, i, j, z, t));
        return a;
    }
    const double cx = std::min(std::max(fx, 0.), nx - 1.), cy = std::min(std::max(fy, 0.), ny - 1.);
    const bool nearX = std::fabs(cx - std::round(cx)) < E, nearY = std::fabs(cy - std::round(cy)) < E;
    // candidate cells on both sides of a grid line; a corner with (nearly) no weight may make the result undefined
    const long x0 = std::min((long)std::floor(cx), nx - 2), y0 = std::min((long)std::floor(cy), ny - 2);
    double s = 0;
    const double wx = cx - x0, wy = cy - y0;
    bool heavyNan = false, lightNan = false;
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
        const double w = (i ? wx : 1 - wx) * (j ? wy : 1 - wy), q = g.at(n, x0 + i, y0 + j, z, t);
        if (std::isnan(q)) { (w > E ? heavyNan : lightNan) = true; continue; }
        s += w * q;
    }
    if (nearX || nearY) { // neighbours reached by rounding
        for (long i = std::lround(cx) - 1; i <= std::lround(cx) + 1; ++i) for (long j = std::lround(cy) - 1; j <= std::lround(cy) + 1; ++j)
            if (i >= 0 && j >= 0 && i < nx && j < ny && std::isnan(g.at(n, i, j, z, t))) lightNan = true;
    }
    if (heavyNan) { a.nan = true; return a; }
    if (lightNan) a.nan = true;
    a.v.push_back(s);
    const Pack& p = g.f.at(n).p; // interpolated values of packed fields are packed again, possibly as the field's own fill value
    if (std::fabs(s - toK(p.fill * p.sc + p.off, p.unit)) <= p.sc * (isInt(p.t) ? 0.51 : 0) + 2e-3) a.nan = true;
    return a;
}
static bool accept(const Acc& a, double got, double tol)
{
    if (a.any) return true;
    if (std::isnan(got)) return a.nan;
    for (double x : a.v) if (std::fabs(got - x) <= tol) return true;
    return false;
}
//! a value which happens to be encoded as the result's fill value reads as undefined
static Acc enc(Acc a, const Pack& p, double tol)
{
    const double f = toK(p.fill * p.sc + p.off, p.unit);
    for (double x : a.v) if (std::fabs(x - f) <= tol) a.nan = true;
    return a;
}
static std::string str(const Acc& a) { std::ostringstream o; o << (a.any ? "any " : "") << (a.nan ? "nan " : "") << vstr(a.v); return o.str(); }

//! physical values (K) of one slice of the result, decoded from its own metadata
static dvec decode(Ctx& c, CDMReader_p rd, const std::string& n, size_t t, const Pack& p)
{
    DataPtr d = rd->getDataSlice(n, t);
    VCHECK(c, d && d->getDataType() == p.t, "type", n << " " << datatype2string(d->getDataType()));
    VCHECK(c, rd->getCDM().getUnits(n) == p.unit && rd->getCDM().getFillValue(n) == p.fill, "attributes", n);
    dvec v = toD(d);
    for (double& x : v) x = (x == p.fill || std::isnan(x)) ? NAN : toK(x * p.sc + p.off, p.unit);
    return v;
}
struct Setup { G I, O; size_t T, B; bool useOuter; int method; };
static double quantum(const Pack& p) { return isInt(p.t) ? p.sc * 0.5 : 0; }
static void prepare(Ctx& c, Setup& s, bool mustMethod)
{
    Rng& r = c.r;
    const double ox = r.range(-20, 20), oy = r.range(30, 50), od = r.pick({1.0, 0.5, 2.0});
    const size_t onx = r.range(8, 14), ony = r.range(8, 14);
    const bool odesc = r.chance(0.3), idesc = r.chance(0.3);
    for (size_t i = 0; i < onx; ++i) s.O.lon.push_back(ox + i * od);
    for (size_t i = 0; i < ony; ++i) s.O.lat.push_back(oy + i * od);
    const int ratio = r.range(1, 4);
    const double idd = od / ratio;
    const double shift = r.chance(0.5) ? 0 : idd * r.uni(0.05, 0.95);
    const size_t sx = r.range(1, 3), sy = r.range(1, 3);
    const size_t inx = r.range(4, std::min(20l, (long)((onx - 1 - sx - 1) * ratio))), iny = r.range(4, std::min(20l, (long)((ony - 1 - sy - 1) * ratio)));
    for (size_t i = 0; i < inx; ++i) s.I.lon.push_back(ox + sx * od + shift + i * idd);
    for (size_t i = 0; i < iny; ++i) s.I.lat.push_back(oy + sy * od + shift + i * idd);
    if (odesc) std::reverse(s.O.lat.begin(), s.O.lat.end());
    if (idesc) std::reverse(s.I.lat.begin(), s.I.lat.end());
    s.I.nz = s.O.nz = r.range(1, 3);
    s.I.nt = s.O.nt = r.range(1, 3);
    std::map<std::string, Pack> pi, po;
    for (auto n : {"v0", "v1", "onlyI"}) pi[n] = rndPack(r, !mustMethod);
    for (auto n : {"v0", "v1", "onlyO"}) po[n] = rndPack(r, !mustMethod);
    if (r.chance(0.5)) po["v0"] = pi["v0"];
    else if (r.chance(0.5)) { po["v0"] = pi["v0"]; if (r.chance(0.4)) po["v0"].off += r.pick({-10., 5.}); else po["v0"].fill = mustMethod ? r.pick({-20000., -12345., 1e4}) : r.pick({-999., -1., 1e4}); }
    const bool extra = r.chance(0.5), st = r.chance(0.3);
    const double np = r.pick({0.0, 0.05, 0.2});
    build(r, s.I, {"v0", "v1", "onlyI"}, pi, np, extra, st, !mustMethod);
    build(r, s.O, {"v0", "v1", "onlyO"}, po, r.pick({0.0, 0.03}), extra, st, !mustMethod);
    s.T = r.range(1, 5);
    s.B = r.range(0, 3);
    s.useOuter = r.chance(0.7);
    s.method = mustMethod ? MIFI_INTERPOL_BILINEAR : r.pick({MIFI_INTERPOL_BILINEAR, MIFI_INTERPOL_BILINEAR, MIFI_INTERPOL_NEAREST_NEIGHBOR});
    c.d << "O " << onx << "x" << ony << " d=" << od << " at " << ox << "," << oy << (odesc ? " desc" : "") << "; I " << inx << "x" << iny << " d=" << idd << " shift=" << shift << (idesc ? " desc" : "") << " nz=" << s.I.nz << " nt=" << s.I.nt << " T=" << s.T << " B=" << s.B << " useOuter=" << s.useOuter << " method=" << s.method << " | " << s.I.ds.str() << " | fills " << pi["v0"].fill << "," << po["v0"].fill << " " << pi["v0"].unit << "," << po["v0"].unit;
    c.sig(c.d.str());
}
static double tolOf(const Setup& s, const std::string& n) { return 2e-3 + quantum(s.I.f.at(n).p) + quantum(s.O.f.at(n).p) * 1.01; }

static void others(Ctx& c, CDMReader_p rd, const Setup& s, const std::string& what)
{
    // coordinates and variables without horizontal axes come unchanged from the inner dataset
    for (auto n : {"lon", "lat", "time", "lev", "ap", "sc0", "ft"}) {
        if (!rd->getCDM().hasVariable(n) || !s.I.ds.hasVar(n)) continue;
        DataPtr d = rd->getData(n);
        VCHECK(c, d && d->getDataType() == rd->getCDM().getVariable(n).getDataType(), what + ":other-type", n);
        expectData(c, what + ":other", d, s.I.ds.var(n).val, 0, n);
        c.cnt("passed_through");
    }
    VCHECK(c, !rd->getCDM().hasVariable("onlyI"), what + ":onlyI", "variable without counterpart kept");
    VCHECK(c, rd->getCDM().hasVariable("v0") && rd->getCDM().hasVariable("v1"), what + ":vars", "");
}
static Acc smoothed(const Setup& s, const std::string& n, size_t x, size_t y, size_t z, size_t t, int method)
{
    const double I = s.I.at(n, x, y, z, t);
    Acc o = interp(s.O, n, s.I.lon[x], s.I.lat[y], z, t, method), a;
    if (std::isnan(I)) { if (!s.useOuter) { a.nan = true; return a; } return o; }
    if (o.any) { a.any = true; return a; }
    if (o.nan) a.v.push_back(I);
    const double al = alphaRef(x, y, s.I.lon.size(), s.I.lat.size(), s.T, s.B);
    for (double O : o.v) if (std::isnan(al)) { for (int k = 0; k <= 200; ++k) a.v.push_back(I + (O - I) * k / 200.); } else a.v.push_back(I + al * (O - I));
    return a;
}
static double spread(const Acc& a) { if (a.v.size() < 200) return 0; return std::fabs(a.v.back() - a.v.front()) / 200; }

static void border(Ctx& c)
{
    Setup s;
    prepare(c, s, false);
    auto rd = std::make_shared<CDMBorderSmoothing>(std::make_shared<MemReader>(s.I.ds), std::make_shared<MemReader>(s.O.ds), s.method);
    rd->setSmoothing(std::make_shared<CDMBorderSmoothing_LinearFactory>(s.T, s.B));
    rd->setUseOuterIfInnerUndefined(s.useOuter);
    others(c, rd, s, "border");
    for (auto n : {"v0", "v1"}) for (size_t t = 0; t < s.I.nt; ++t) {
        const dvec g = decode(c, rd, n, t, s.I.f[n].p);
        size_t i = 0;
        for (size_t z = 0; z < s.I.nz; ++z) for (size_t y = 0; y < s.I.lat.size(); ++y) for (size_t x = 0; x < s.I.lon.size(); ++x, ++i) {
            const Acc a = smoothed(s, n, x, y, z, t, s.method);
            VCHECK(c, accept(enc(a, s.I.f[n].p, tolOf(s, n) + spread(a)), g.at(i), tolOf(s, n) + spread(a)), "border", n << " x=" << x << " y=" << y << " z=" << z << " t=" << t << " got " << g[i] << " expected " << str(a) << " I=" << s.I.at(n, x, y, z, t));
            c.cnt(std::isnan(s.I.at(n, x, y, z, t)) ? "inner_undefined" : "inner_defined");
        }
        VCHECK(c, i == g.size(), "border:size", g.size());
    }
}
static void overlay(Ctx& c)
{
    Setup s;
    prepare(c, s, false);
    const bool keep = c.r.chance(0.4);
    auto rd = std::make_shared<CDMOverlay>(std::make_shared<MemReader>(s.O.ds), std::make_shared<MemReader>(s.I.ds), s.method, keep);
    others(c, rd, s, "overlay");
    VCHECK(c, rd->getCDM().hasVariable("onlyO") == keep, "overlay:keep-outer", "");
    sv names = {"v0", "v1"};
    if (keep) names.push_back("onlyO");
    for (auto& n : names) for (size_t t = 0; t < s.I.nt; ++t) {
        const Pack& p = n == "onlyO" ? s.O.f[n].p : s.I.f[n].p;
        const dvec g = decode(c, rd, n, t, p);
        size_t i = 0;
        for (size_t z = 0; z < s.I.nz; ++z) for (size_t y = 0; y < s.I.lat.size(); ++y) for (size_t x = 0; x < s.I.lon.size(); ++x, ++i) {
            Acc a;
            const double I = n == "onlyO" ? NAN : s.I.at(n, x, y, z, t);
            if (!std::isnan(I)) a.v.push_back(I); else a = enc(interp(s.O, n, s.I.lon[x], s.I.lat[y], z, t, s.method), p, 3e-3 + quantum(p) + quantum(s.O.f[n].p) * 1.01);
            const double tol = std::isnan(I) ? 2e-3 + quantum(p) + quantum(s.O.f[n].p) * 1.01 : 1e-9 + quantum(p) * 0.01 + (p.t == CDM_FLOAT ? 1e-4 : 0);
            VCHECK(c, accept(a, g.at(i), tol), "overlay", n << " x=" << x << " y=" << y << " z=" << z << " t=" << t << " got " << g[i] << " expected " << str(a) << " I=" << I);
            c.cnt(std::isnan(I) ? "base_used" : "top_used");
        }
        VCHECK(c, i == g.size(), "overlay:size", g.size());
    }
}
static void merger(Ctx& c)
{
    Setup s;
    prepare(c, s, true);
    Rng& r = c.r;
    auto rd = std::make_shared<CDMMerger>(std::make_shared<MemReader>(s.I.ds), std::make_shared<MemReader>(s.O.ds));
    rd->setSmoothing(std::make_shared<CDMBorderSmoothing_LinearFactory>(s.T, s.B));
    const bool keep = r.chance(0.4), fromInner = r.chance(0.6);
    rd->setKeepOuterVariables(keep);
    rd->setGridInterpolationMethod(MIFI_INTERPOL_BILINEAR);
    const bool late = r.chance(0.3); // the choice holds whether made before or after the target grid
    if (!late && (!s.useOuter || r.chance(0.5))) rd->setUseOuterIfInnerUndefined(s.useOuter);
    VCHECK(c, throws([&] { rd->getDataSlice("v0", 0); }), "merger:no-grid", "data without target grid");
    dvec tx, ty;
    const double di = s.I.lon[1] - s.I.lon[0], dj = s.I.lat[1] - s.I.lat[0];
    if (fromInner) {
        auto ext = [](const dvec& I, const dvec& O) {
            const double st = I[1] - I[0], lo = std::min(O.front(), O.back()), hi = std::max(O.front(), O.back());
            dvec e;
            const long a = -200, b = 400;
            for (long k = a; k < b; ++k) { const double v = I[0] + k * st; if (v >= lo - 1e-9 && v <= hi + 1e-9) e.push_back(v); }
            return e;
        };
        tx = ext(s.I.lon, s.O.lon);
        ty = ext(s.I.lat, s.O.lat);
        rd->setTargetGridFromInner();
    } else {
        for (double v = s.O.lon.front() + 0.01; v < s.O.lon.back(); v += di * 1.37) tx.push_back(v);
        const double lo = std::min(s.O.lat.front(), s.O.lat.back()), hi = std::max(s.O.lat.front(), s.O.lat.back());
        for (double v = lo + 0.01; v < hi; v += std::fabs(dj) * 1.21) ty.push_back(v);
        rd->setTargetGrid("+proj=latlong +a=6371000 +e=0 +no_defs", tx, ty, "degrees_east", "degrees_north", CDM_DOUBLE, CDM_DOUBLE);
    }
    if (late) rd->setUseOuterIfInnerUndefined(s.useOuter);
    c.d << " target " << tx.size() << "x" << ty.size() << (fromInner ? " from inner" : "");
    const CDM& cdm = rd->getCDM();
    dvec gx = toD(rd->getData("lon")), gy = toD(rd->getData("lat"));
    // a target point at the very border of the outer grid may be lost by rounding
    auto sameAxis = [&](const dvec& g, const dvec& w) {
        if (g.size() > w.size() || g.size() + 2 < w.size()) return false;
        for (size_t off = 0; off + g.size() <= w.size(); ++off) { bool ok = true; for (size_t i = 0; i < g.size(); ++i) if (std::fabs(g[i] - w[i + off]) > 1e-6) ok = false; if (ok) return true; }
        return false;
    };
    VCHECK(c, sameAxis(gx, tx) && sameAxis(gy, ty), "merger:grid", "lon " << vstr(gx) << " expected " << vstr(tx) << " lat " << vstr(gy) << " expected " << vstr(ty));
    VCHECK(c, cdm.getDimension("lon").getLength() == gx.size() && cdm.getDimension("lat").getLength() == gy.size(), "merger:dim", "");
    VCHECK(c, !cdm.hasVariable("onlyI") && cdm.hasVariable("onlyO") == keep, "merger:vars", "");
    sv names = {"v0", "v1"};
    if (keep) names.push_back("onlyO");
    for (auto& n : names) for (size_t t = 0; t < s.I.nt; ++t) {
        const Pack& p = n == "onlyO" ? s.O.f[n].p : s.I.f[n].p;
        const dvec g = decode(c, rd, n, t, p);
        VCHECK(c, g.size() == gx.size() * gy.size() * s.I.nz, "merger:size", g.size());
        size_t i = 0;
        for (size_t z = 0; z < s.I.nz; ++z) for (size_t y = 0; y < gy.size(); ++y) for (size_t x = 0; x < gx.size(); ++x, ++i) {
            const Acc o = enc(interp(s.O, n, gx[x], gy[y], z, t, MIFI_INTERPOL_BILINEAR), p, n == "onlyO" ? 0 : tolOf(s, n));
            if (n == "onlyO") { VCHECK(c, accept(o, g[i], 2e-3 + quantum(p) * 2.02), "merger:outer-variable", n << " got " << g[i] << " expected " << str(o)); c.cnt("outer_only_variable"); continue; }
            const double fx = (gx[x] - s.I.lon[0]) / di, fy = (gy[y] - s.I.lat[0]) / dj, E = 1e-5;
            const long nx = s.I.lon.size(), ny = s.I.lat.size();
            if (fx < -0.5 - E || fy < -0.5 - E || fx > nx - 0.5 + E || fy > ny - 0.5 + E) {
                VCHECK(c, accept(o, g[i], tolOf(s, n)), "merger:outside", n << " lon=" << gx[x] << " lat=" << gy[y] << " got " << g[i] << " expected " << str(o));
                c.cnt("outside");
                continue;
            }
            if (fx < -E || fy < -E || fx > nx - 1 + E || fy > ny - 1 + E) continue;
            const bool grid = std::fabs(fx - std::round(fx)) < E && std::fabs(fy - std::round(fy)) < E;
            // inside: between the smoothed values of the surrounding inner points; undefined surroundings fall back to the outer
            double lo = INFINITY, hi = -INFINITY, wsum = 0;
            bool und = false, any = false, lost = false;
            for (long j = std::max(0l, (long)std::floor(fy - E)); j <= std::min(ny - 1, (long)std::floor(fy + E) + 1); ++j) for (long k = std::max(0l, (long)std::floor(fx - E)); k <= std::min(nx - 1, (long)std::floor(fx + E) + 1); ++k) {
                const Acc a = smoothed(s, n, k, j, z, t, MIFI_INTERPOL_BILINEAR);
                if (a.any) any = true;
                if (a.nan) und = true;
                const double w = std::max(0., 1 - std::fabs(fx - k)) * std::max(0., 1 - std::fabs(fy - j));
                if (a.v.size() == 1) wsum += w * a.v[0]; else wsum = NAN;
                if (w > 1e-3 && a.nan && a.v.empty() && !a.any) lost = true; // no value at all there
                if (w > E || !grid) for (double v : a.v) { lo = std::min(lo, v); hi = std::max(hi, v); }
            }
            const double tol = tolOf(s, n) + quantum(p) + 2e-3;
            bool ok = any || (g[i] >= lo - tol && g[i] <= hi + tol);
            if (!und && !any && !std::isnan(wsum)) { ok = std::fabs(g[i] - wsum) <= tol; c.cnt("inside_exact"); } else c.cnt("inside_range");
            const double fv = toK(p.fill * p.sc + p.off, p.unit);
            if (std::isnan(g[i]) && fv >= lo - tol && fv <= hi + tol) continue; // encoded as the result's fill value
            if (lost && !o.any) { ok = accept(o, g[i], tol); c.cnt(s.useOuter ? "inside_lost" : "inside_lost_no_outer"); }
            if (und && accept(o, g[i], tol)) ok = true;
            VCHECK(c, ok, "merger:inside", n << " lon=" << gx[x] << " lat=" << gy[y] << " z=" << z << " t=" << t << " got " << g[i] << " expected " << wsum << " in [" << lo << "," << hi << "]" << (und ? " or outer " + str(o) : "") << " I " << s.I.at(n, std::lround(fx), std::lround(fy), z, t) << " outer there " << str(interp(s.O, n, gx[x], gy[y], z, t, MIFI_INTERPOL_BILINEAR)) << " x=" << fx << " y=" << fy << " fills " << s.I.f[n].p.fill << " " << s.O.f[n].p.fill << s.I.f[n].p.unit << s.O.f[n].p.unit << datatype2string(s.O.f[n].p.t));
        }
    }
}
VF_MAIN("C21", "merged fields equal the pointwise reference", {"functor", functor, 600, 6000}, {"badspec", badspec, 11, 11}, {"border", border, 400, 6000}, {"overlay", overlay, 400, 6000}, {"merger", merger, 300, 5000})
