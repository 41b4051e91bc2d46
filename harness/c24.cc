// C24: derived variables (theta2T, specific2relative, omega2vwind, 4D pressure, geopotential height, vertical velocity) vs long double formulas.
#include "vert.h"
#include <fimex/CDMPressureConversions.h>
#include <fimex/CDMProcessor.h>
#include <fimex/interpolation.h>
using namespace vf;
typedef long double ld;

struct Pk { CDMDataType t; double sc, off, fill; };
static Pk rndPk(Rng& r, double mid, double res)
{
    Pk p{r.pick({CDM_FLOAT, CDM_DOUBLE, CDM_SHORT, CDM_INT}), 1, 0, -32767};
    if (isInt(p.t)) { p.sc = res; p.off = r.chance(0.7) ? mid : 0; if (p.off == 0) p.t = CDM_INT; }
    else p.fill = (double)1e20f;
    return p;
}
//! add a 4-D variable with these physical values (NAN = missing), rounded to what the packing can hold; returns the values held
static dv addPacked(Dataset& ds, const std::string& n, const sv& shape, dv phys, const Pk& p, const std::string& unit, const std::string& std)
{
    Var& v = ds.add(n, p.t, shape);
    for (size_t i = 0; i < phys.size(); ++i) {
        if (std::isnan(phys[i])) { v.val[i] = p.fill; continue; }
        double raw = (phys[i] - p.off) / p.sc;
        raw = isInt(p.t) ? std::round(raw) : p.t == CDM_FLOAT ? (double)(float)raw : raw;
        if (raw == p.fill) raw += 1;
        v.val[i] = raw;
        phys[i] = raw * p.sc + p.off;
    }
    if (isInt(p.t)) { ds.att(n, "scale_factor", CDM_DOUBLE, {p.sc}); ds.att(n, "add_offset", CDM_DOUBLE, {p.off}); }
    ds.att(n, "_FillValue", p.t, {p.fill});
    ds.att(n, "units", unit);
    ds.att(n, "standard_name", std);
    return phys;
}
//! pressure in hPa at every element of a variable of the given shape
static std::vector<ld> pressureOn(const VertSet& s, const sv& shape)
{
    static const char* nm[] = {"lon", "lat", "lev", "ens", "time"};
    szv l;
    for (auto& d : shape) l.push_back(s.ds.dim(d).len);
    std::vector<ld> w(prod(l));
    szv p(l.size(), 0);
    for (size_t k = 0; k < w.size(); ++k) {
        szv ix(5, 0);
        for (size_t d = 0; d < l.size(); ++d) for (int j = 0; j < 5; ++j) if (shape[d] == nm[j]) ix[j] = p[d];
        w[k] = s.pressure(ix[0], ix[1], ix[2], ix[4]);
        for (size_t d = 0; d < l.size(); ++d) { if (++p[d] < l[d]) break; p[d] = 0; }
    }
    return w;
}
static dv rnd(Rng& r, size_t n, double lo, double hi, double nanP) { dv v(n); for (auto& x : v) x = r.chance(nanP) ? NAN : r.uni(lo, hi); return v; }

//! compare every read variant of a derived variable with the expected physical values
static void compare(Ctx& c, const std::string& key, CDMReader_p rd, const std::string& n, const std::vector<ld>& want, double rel, double abs)
{
    VCHECK(c, rd->getCDM().hasVariable(n), key + ":missing", n);
    const sv shape = rd->getCDM().getVariable(n).getShape();
    szv l;
    for (auto& d : shape) l.push_back(rd->getCDM().getDimension(d).getLength());
    VCHECK(c, prod(l) == want.size(), key + ":shape", vstr(shape));
    auto cmp = [&](const std::string& k, const dv& g, const dv& w) {
        VCHECK(c, g.size() == w.size(), k + ":size", g.size() << " expected " << w.size());
        for (size_t i = 0; i < g.size(); ++i)
            VCHECK(c, std::isnan(w[i]) ? std::isnan(g[i]) : std::fabs(g[i] - w[i]) <= rel * std::fabs(w[i]) + abs, k, "at " << i << " got " << g[i] << " expected " << w[i] << " got " << vstr(g) << " expected " << vstr(w));
        c.cnt("values", g.size());
    };
    dv w(want.begin(), want.end());
    const bool u = !shape.empty() && rd->getCDM().getDimension(shape.back()).isUnlimited();
    szv order = iota(u ? l.back() : 1);
    c.r.shuffle(order);
    const size_t per = u ? w.size() / l.back() : w.size();
    for (size_t t : order) {
        cmp(key + ":slice", toD(rd->getScaledDataSlice(n, t)), dv(w.begin() + t * per, w.begin() + (t + 1) * per));
        VCHECK(c, rd->getDataSlice(n, t)->getDataType() == rd->getCDM().getVariable(n).getDataType() || !isInt(rd->getCDM().getVariable(n).getDataType()), key + ":type", datatype2string(rd->getDataSlice(n, t)->getDataType()));
    }
    cmp(key + ":data", toD(rd->getScaledData(n)), w);
    SliceBuilder sb(rd->getCDM(), n);
    szv st, sz;
    for (size_t d = 0; d < l.size(); ++d) { st.push_back(c.r.below(l[d])); sz.push_back(c.r.range(1, l[d] - st[d])); sb.setStartAndSize(shape[d], st[d], sz[d]); }
    cmp(key + ":box", toD(rd->getScaledDataSlice(n, sb)), box(w, l, st, sz));
}
static VertSet pset(Ctx& c)
{
    VertOpt o;
    static const int K[] = {VK_P, VK_SIGMA, VK_HYB1, VK_HYB2, VK_LNP};
    o.kind = K[c.r.below(5)];
    return makeVert(c, o);
}
static void others(Ctx& c, CDMReader_p rd, const Dataset& ds, const sv& gone)
{
    for (auto& v : ds.vars) {
        if (std::count(gone.begin(), gone.end(), v.name)) continue;
        VCHECK(c, rd->getCDM().hasVariable(v.name), "others:missing", v.name);
        expectData(c, "others", rd->getData(v.name), v.val, 0, v.name);
    }
}
static void theta(Ctx& c)
{
    Rng& r = c.r;
    VertSet s = pset(c);
    Dataset ds = s.ds;
    for (auto it = ds.vars.begin(); it != ds.vars.end();) { if (it->name == "air_temperature" || it->name == "specific_humidity") it = ds.vars.erase(it); else ++it; }
    for (auto it = ds.attrs.begin(); it != ds.attrs.end();) { if (it->first == "air_temperature" || it->first == "specific_humidity") it = ds.attrs.erase(it); else ++it; }
    const Pk p = rndPk(r, 300, r.pick({0.01, 0.05}));
    const dv th = addPacked(ds, "th", s.shape4, rnd(r, prod(ds.lens(Var{"", CDM_INT, s.shape4, {}})), 200, 400, r.pick({0., 0.1})), p, "K", "air_potential_temperature");
    c.d << datatype2string(p.t) << " " << p.sc << " " << p.off;
    c.sig(c.d.str());
    auto src = std::make_shared<MemReader>(ds);
    const std::string name = r.chance(0.3) ? "tt" : "air_temperature";
    auto rd = std::make_shared<CDMPressureConversions>(src, sv{name == "tt" ? "theta2T;air_temperature=tt" : "theta2T"});
    const std::vector<ld> pr = pressureOn(s, s.shape4);
    std::vector<ld> w(th.size());
    const ld kappa = R_ / M_ / 1004;
    for (size_t i = 0; i < w.size(); ++i) w[i] = th[i] * powl(pr[i] / 1000, kappa);
    compare(c, "theta", rd, name, w, 3e-6, (isInt(p.t) ? p.sc * 0.51 : 0) + 1e-4);
    VCHECK(c, rd->getCDM().getAttribute(name, "standard_name").getStringValue() == "air_temperature" && rd->getCDM().getUnits(name) == "K", "theta:attributes", "");
    others(c, rd, ds, {"th"});
}
static void humidity(Ctx& c)
{
    Rng& r = c.r;
    VertSet s = pset(c);
    Dataset ds = s.ds;
    for (auto it = ds.vars.begin(); it != ds.vars.end();) { if (it->name == "air_temperature" || it->name == "specific_humidity") it = ds.vars.erase(it); else ++it; }
    for (auto it = ds.attrs.begin(); it != ds.attrs.end();) { if (it->first == "air_temperature" || it->first == "specific_humidity") it = ds.attrs.erase(it); else ++it; }
    const size_t n = prod(ds.lens(Var{"", CDM_INT, s.shape4, {}}));
    const double np = r.pick({0., 0.1});
    const bool two = r.chance(0.3);
    if (two) { ds.add("t_surface", CDM_DOUBLE, {"lon", "lat"}); ds.att("t_surface", "standard_name", "air_temperature"); ds.att("t_surface", "units", "K"); }
    const dv t = addPacked(ds, "ta", s.shape4, rnd(r, n, 220, 310, np), rndPk(r, 280, 0.01), "K", "air_temperature");
    const bool gkg = r.chance(0.3);
    Pk pq = rndPk(r, 0.01, 1e-6);
    if (gkg) { pq.sc *= isInt(pq.t) ? 1000 : 1; pq.off *= 1000; }
    const dv q = addPacked(ds, "hus", s.shape4, rnd(r, n, 0, gkg ? 25 : 0.025, np), pq, gkg ? "1e-3" : "1", "specific_humidity");
    c.d << " two=" << two << " gkg=" << gkg;
    c.sig(c.d.str());
    auto rd = std::make_shared<CDMPressureConversions>(std::make_shared<MemReader>(ds), sv{"specific2relative"});
    const std::vector<ld> pr = pressureOn(s, s.shape4);
    std::vector<ld> w(n);
    for (size_t i = 0; i < n; ++i) {
        const ld es = 610.78L * expl(17.269L * (t[i] - 273.16L) / (t[i] - 35.86L));
        const ld x = q[i] * (gkg ? 1e-3L : 1) * pr[i] * 100 / (es * 0.622L);
        w[i] = std::isnan((double)x) ? x : std::min<ld>(1, std::max<ld>(0, x));
        c.cnt(std::isnan((double)x) ? "missing" : x > 1 ? "supersaturated" : "unsaturated");
    }
    compare(c, "humidity", rd, "relative_humidity", w, 5e-4, 2.5e-5);
    others(c, rd, ds, {});
}
static void omega(Ctx& c)
{
    Rng& r = c.r;
    VertSet s = pset(c);
    Dataset ds = s.ds;
    for (auto it = ds.vars.begin(); it != ds.vars.end();) { if (it->name == "air_temperature" || it->name == "specific_humidity") it = ds.vars.erase(it); else ++it; }
    for (auto it = ds.attrs.begin(); it != ds.attrs.end();) { if (it->first == "air_temperature" || it->first == "specific_humidity") it = ds.attrs.erase(it); else ++it; }
    const size_t n = prod(ds.lens(Var{"", CDM_INT, s.shape4, {}}));
    const double np = r.pick({0., 0.1});
    const dv t = addPacked(ds, "ta", s.shape4, rnd(r, n, 220, 310, np), rndPk(r, 280, 0.01), "K", "air_temperature");
    const bool hpa = r.chance(0.4);
    const dv o = addPacked(ds, "om", s.shape4, rnd(r, n, hpa ? -0.5 : -50, hpa ? 0.5 : 50, np), rndPk(r, 0, hpa ? 1e-5 : 1e-3), hpa ? "hPa/s" : "Pa/s", r.pick({std::string("omega"), std::string("lagrangian_tendency_of_air_pressure"), std::string("vertical_air_velocity_expressed_as_tendency_of_pressure")}));
    c.sig(c.d.str());
    auto rd = std::make_shared<CDMPressureConversions>(std::make_shared<MemReader>(ds), sv{"omega2vwind"});
    const std::vector<ld> pr = pressureOn(s, s.shape4);
    std::vector<ld> w(n);
    for (size_t i = 0; i < n; ++i) w[i] = -(ld)o[i] * (hpa ? 1 : 0.01L) * BARO * t[i] / pr[i];
    compare(c, "omega", rd, "upward_air_velocity", w, 1e-5, 1e-6);
    VCHECK(c, rd->getCDM().getUnits("upward_air_velocity") == "m/s", "omega:attributes", "");
    others(c, rd, ds, {"om"});
}
static void p4d(Ctx& c)
{
    VertOpt o;
    static const int K[] = {VK_P, VK_SIGMA, VK_HYB1, VK_HYB2, VK_LNP};
    o.kind = K[c.r.below(5)];
    o.forceTime = true;
    VertSet s = makeVert(c, o);
    Dataset ds = s.ds;
    ds.add("f", CDM_FLOAT, s.shape4);
    c.sig(c.d.str());
    const std::string name = c.r.chance(0.3) ? "pp" : "air_pressure4D";
    auto rd = std::make_shared<CDMPressureConversions>(std::make_shared<MemReader>(ds), sv{name == "pp" ? "add4Dpressure;air_pressure4D=pp" : "add4Dpressure"});
    VCHECK(c, rd->getCDM().hasVariable(name), "p4d:missing", "");
    const sv shape = rd->getCDM().getVariable(name).getShape();
    VCHECK(c, (shape == sv{"lon", "lat", "lev", "time"}), "p4d:shape", vstr(shape));
    compare(c, "p4d", rd, name, pressureOn(s, shape), 1e-6, 1e-4);
    VCHECK(c, rd->getCDM().getUnits(name) == "hPa", "p4d:units", "");
    others(c, rd, ds, {});
}
static void gph(Ctx& c)
{
    VertOpt o;
    static const int K[] = {VK_P, VK_SIGMA, VK_HYB1, VK_HYB2, VK_LNP};
    o.kind = K[c.r.below(5)];
    VertSet s = makeVert(c, o);
    Dataset ds = s.ds;
    if (!s.hasTemp) { ds.add("air_temperature", CDM_DOUBLE, s.shape4, rnd(c.r, prod(ds.lens(Var{"", CDM_INT, s.shape4, {}})), 220, 310, 0)); ds.att("air_temperature", "units", "K"); ds.att("air_temperature", "standard_name", "air_temperature"); s.temp.resize(s.nx * s.ny * s.nz * s.ne * s.nt); }
    const bool addedTemp = !s.hasTemp;
    if (addedTemp && s.hasSap && s.hasSurfGeopot) throw Skip();
    c.sig(c.d.str());
    auto rd = std::make_shared<CDMProcessor>(std::make_shared<MemReader>(ds, c.r.chance(0.5)));
    rd->addGeopotentialHeight();
    VCHECK(c, rd->getCDM().hasVariable("geopotential_height"), "gph:missing", "");
    static const char* nm[] = {"lon", "lat", "lev", "ens", "time"};
    szv l;
    for (auto& d : s.shape4) l.push_back(ds.dim(d).len);
    std::vector<ld> w(prod(l));
    szv p(l.size(), 0);
    for (size_t k = 0; k < w.size(); ++k) {
        szv ix(5, 0);
        for (size_t d = 0; d < l.size(); ++d) for (int j = 0; j < 5; ++j) if (s.shape4[d] == nm[j]) ix[j] = p[d];
        w[k] = s.altitude(ix[0], ix[1], ix[2], ix[3], ix[4]);
        for (size_t d = 0; d < l.size(); ++d) { if (++p[d] < l[d]) break; p[d] = 0; }
    }
    c.cnt(s.integrates() ? "integrated" : "standard_atmosphere");
    compare(c, "gph", rd, "geopotential_height", w, 1e-6, s.tol(Q_A));
    VCHECK(c, rd->getCDM().getUnits("geopotential_height") == "m", "gph:units", "");
    others(c, rd, ds, {});
}
// ---------------------------------------------------------------- grid distance and vertical velocity
static ld gc(ld lat0, ld lon0, ld lat1, ld lon1)
{
    const ld D = acosl(-1.0L) / 180;
    const ld a = sinl((lat1 - lat0) * D / 2), b = sinl((lon1 - lon0) * D / 2);
    return 2 * asinl(std::min<ld>(1, sqrtl(a * a + cosl(lat0 * D) * cosl(lat1 * D) * b * b)));
}
static void refDist(size_t nx, size_t ny, const dv& lon, const dv& lat, std::vector<ld>& dx, std::vector<ld>& dy)
{
    const ld Re = 6371000;
    dx.assign(nx * ny, 0);
    dy.assign(nx * ny, 0);
    for (size_t j = 0; j < ny; ++j) for (size_t i = 0; i < nx; ++i) {
        const size_t q = std::min(i, nx - 2), k = std::min(j, ny - 2), p = q + nx * k;
        dx[i + nx * j] = Re * gc(lat[p], lon[p], lat[p + 1], lon[p + 1]);
        dy[i + nx * j] = Re * gc(lat[p], lon[p], lat[p + nx], lon[p + nx]);
    }
}
static void griddist(Ctx& c)
{
    Rng& r = c.r;
    const size_t nx = r.range(2, 9), ny = r.range(2, 9);
    dv lon(nx * ny), lat(nx * ny);
    const double d = r.pick({0.1, 0.5, 2.0, 10.0}), lo = r.uni(-180, 180), la = r.uni(-85, 85 - d * (ny - 1)), sk = r.uni(-0.3, 0.3);
    for (size_t j = 0; j < ny; ++j) for (size_t i = 0; i < nx; ++i) { lon[i + nx * j] = lo + d * i + sk * d * j; lat[i + nx * j] = std::min(89.9, la + d * j + sk * d * i); }
    c.d << nx << "x" << ny << " d=" << d << " lon0=" << lo << " lat0=" << la;
    c.sig(c.d.str());
    std::unique_ptr<float[]> gx(new float[nx * ny]), gy(new float[nx * ny]);
    VCHECK(c, mifi_griddistance(nx, ny, lon.data(), lat.data(), gx.get(), gy.get()) == MIFI_OK, "griddist:status", "");
    std::vector<ld> dx, dy;
    refDist(nx, ny, lon, lat, dx, dy);
    for (size_t i = 0; i < nx * ny; ++i)
        VCHECK(c, fabsl(gx[i] - dx[i]) <= 1e-4 * dx[i] + 1 && fabsl(gy[i] - dy[i]) <= 1e-4 * dy[i] + 1, "griddist", i << " got " << gx[i] << "," << gy[i] << " expected " << (double)dx[i] << "," << (double)dy[i]);
    // a single row or column has one undefined spacing: refused, or the other spacing is right
    const size_t n = r.range(2, 9);
    const bool row = r.chance(0.5);
    dv l1(n), l2(n);
    for (size_t i = 0; i < n; ++i) { l1[i] = lo + d * i; l2[i] = r.uni(-80, 80); }
    std::unique_ptr<float[]> sx(new float[n]), sy(new float[n]);
    if (mifi_griddistance(row ? n : 1, row ? 1 : n, l1.data(), l2.data(), sx.get(), sy.get()) == MIFI_OK) {
        c.cnt("single_rows");
        const float* g = row ? sx.get() : sy.get();
        for (size_t i = 0; i + 1 < n; ++i) {
            const ld w = 6371000 * gc(l2[i], l1[i], l2[i + 1], l1[i + 1]);
            VCHECK(c, fabsl(g[i] - w) <= 1e-4 * w + 1, "griddist:row", i << " got " << g[i] << " expected " << (double)w);
        }
    }
}
static std::vector<ld> refW(size_t nx, size_t ny, size_t nz, ld dx, ld dy, const std::vector<ld>& gx, const std::vector<ld>& gy, const dv& ap, const dv& b, const dv& zs, const dv& ps, const dv& u, const dv& v, const dv& t)
{
    const ld R = R_ / M_, g = G_;
    std::vector<ld> ah(nz + 1), bh(nz + 1), w(nx * ny * nz, 0);
    ah[nz] = 0; bh[nz] = 1;
    for (size_t k = nz - 1; k > 0; --k) { ah[k] = 2 * (ld)ap[k] - ah[k + 1]; bh[k] = 2 * (ld)b[k] - bh[k + 1]; }
    ah[0] = bh[0] = 0;
    auto P = [&](size_t k, size_t ij) { return ah[k] + bh[k] * ps[ij]; };
    const size_t n2 = nx * ny;
    // geopotential of full levels
    std::vector<ld> phi(n2 * nz);
    for (size_t ij = 0; ij < n2; ++ij) {
        ld s = zs[ij] * g;
        for (size_t kk = nz; kk-- > 0;) {
            const ld dlnp = kk == 0 ? 0 : logl(P(kk + 1, ij) / P(kk, ij));
            const ld alfa = kk == 0 ? logl(2) : 1 - P(kk, ij) * dlnp / (P(kk + 1, ij) - P(kk, ij));
            phi[ij + n2 * kk] = s + R * t[ij + n2 * kk] * alfa;
            s += R * t[ij + n2 * kk] * dlnp;
        }
    }
    for (size_t j = 1; j + 1 < ny; ++j) for (size_t i = 1; i + 1 < nx; ++i) {
        ld sum = 0;
        const size_t ij = i + nx * j;
        for (size_t k = 1; k < nz; ++k) {
            auto DP = [&](size_t q) { return P(k + 1, q) - P(k, q); };
            auto U = [&](size_t q) { return gy[q] / dy * u[q + n2 * k] * DP(q); };
            auto V = [&](size_t q) { return gx[q] / dx * v[q + n2 * k] * DP(q); };
            const ld hx = gx[ij] / dx, hy = gy[ij] / dy;
            const ld div = ((U(ij + 1) - U(ij - 1)) / (2 * dx) + (V(ij + nx) - V(ij - nx)) / (2 * dy)) / (hx * hy);
            const ld dlnp = logl(P(k + 1, ij) / P(k, ij)), alfa = 1 - P(k, ij) * dlnp / DP(ij);
            const ld w1 = R * t[ij + n2 * k] * (dlnp * sum + alfa * div) / DP(ij);
            const ld* z = &phi[n2 * k];
            const ld w2 = (z[ij + 1] - z[ij - 1]) / (2 * dx * hx) + (z[ij + nx] - z[ij - nx]) / (2 * dy * hy);
            w[ij + n2 * k] = (w1 + w2) / g;
            sum += div;
        }
    }
    for (size_t k = 1; k < nz; ++k) for (size_t j = 0; j < ny; ++j) for (size_t i = 0; i < nx; ++i) {
        const size_t q = std::min(std::max<size_t>(i, 1), nx - 2), y = std::min(std::max<size_t>(j, 1), ny - 2);
        w[i + nx * (j + ny * k)] = w[q + nx * (y + ny * k)];
    }
    return w;
}
static dv fl(dv v) { for (auto& x : v) x = (float)x; return v; }
static void velocity(Ctx& c)
{
    Rng& r = c.r;
    const bool viaReader = r.chance(0.6);
    const bool tiny = r.chance(0.1);
    const size_t nx = tiny ? r.range(1, 3) : r.range(3, 7), ny = tiny && nx == 3 ? r.range(1, 2) : tiny ? r.range(1, 3) : r.range(3, 6), nz = r.range(2, 6), nt = viaReader ? r.range(1, 3) : 1;
    dv ap(nz), b(nz);
    for (size_t k = 0; k < nz; ++k) { const double e0 = double(k) / nz, e1 = double(k + 1) / nz, h0 = k ? e0 * e0 : 0, h1 = e1 * e1; const double a0 = k ? 100000 * (e0 - e0 * e0) : 0, a1 = 100000 * (e1 - e1 * e1); ap[k] = 0.5 * (a0 + a1); b[k] = 0.5 * (h0 + h1); }
    const size_t n2 = nx * ny, n3 = n2 * nz;
    const double um = r.pick({20., 20., 1., 0.05}); // weak winds: the slope of the geopotential dominates
    const dv zs = fl(rnd(r, n2, 0, 800, 0)), ps = fl(rnd(r, n2 * nt, 95000, 103000, 0)), u = fl(rnd(r, n3 * nt, -um, um, 0)), v = fl(rnd(r, n3 * nt, -um, um, 0)), t = fl(rnd(r, n3 * nt, 220, 300, 0));
    const double d = r.pick({0.1, 0.5}), lo = r.uni(-20, 20), la = r.uni(30, 70);
    dv lon(nx), lat(ny), lon2(n2), lat2(n2);
    for (size_t i = 0; i < nx; ++i) lon[i] = lo + d * i;
    for (size_t j = 0; j < ny; ++j) lat[j] = la + d * j;
    for (size_t j = 0; j < ny; ++j) for (size_t i = 0; i < nx; ++i) { lon2[i + nx * j] = lon[i]; lat2[i + nx * j] = lat[j]; }
    std::vector<ld> gx, gy;
    if (tiny) { gx.assign(n2, 1000); gy.assign(n2, 1000); } else refDist(nx, ny, lon2, lat2, gx, gy);
    c.d << nx << "x" << ny << "x" << nz << " nt=" << nt << (viaReader ? " reader" : "") << " d=" << d << " " << lo << "," << la;
    c.sig(c.d.str());
    auto sub = [&](const dv& x, size_t n, size_t k) { return dv(x.begin() + n * k, x.begin() + n * (k + 1)); };
    auto tolerant = [&](const std::string& k, const dv& g, const std::vector<ld>& w) {
        VCHECK(c, g.size() == w.size(), k + ":size", g.size());
        ld m = 1e-3L;
        for (ld x : w) m = std::max(m, fabsl(x));
        for (size_t i = 0; i < g.size(); ++i) VCHECK(c, fabsl(g[i] - w[i]) <= (k == "velocity:kernel" ? 2e-5L : 2e-4L) * m, k, "at " << i << " got " << g[i] << " expected " << (double)w[i] << " range " << (double)m);
        c.cnt("vertical_velocities", g.size());
    };
    if (!viaReader) {
        std::unique_ptr<float[]> fgx(new float[n2]), fgy(new float[n2]), w(new float[n3]);
        for (size_t i = 0; i < n2; ++i) { fgx[i] = gx[i]; fgy[i] = gy[i]; }
        auto F = [](const dv& x) { std::vector<float> f(x.begin(), x.end()); return f; };
        if (tiny) {
            VCHECK(c, mifi_compute_vertical_velocity(nx, ny, nz, d, d, fgx.get(), fgy.get(), ap.data(), b.data(), F(zs).data(), F(ps).data(), F(u).data(), F(v).data(), F(t).data(), w.get()) != MIFI_OK, "velocity:tiny-accepted", "");
            return;
        }
        VCHECK(c, mifi_compute_vertical_velocity(nx, ny, nz, d, d, fgx.get(), fgy.get(), ap.data(), b.data(), F(zs).data(), F(ps).data(), F(u).data(), F(v).data(), F(t).data(), w.get()) == MIFI_OK, "velocity:status", "");
        tolerant("velocity:kernel", dv(w.get(), w.get() + n3), refW(nx, ny, nz, d, d, gx, gy, ap, b, zs, ps, u, v, t));
        return;
    }
    Dataset ds;
    ds.addDim("lon", nx); ds.addDim("lat", ny); ds.addDim("lev", nz); ds.addDim("time", nt, true);
    ds.add("lon", CDM_DOUBLE, {"lon"}, lon); ds.att("lon", "units", "degrees_east"); ds.att("lon", "standard_name", "longitude");
    ds.add("lat", CDM_DOUBLE, {"lat"}, lat); ds.att("lat", "units", "degrees_north"); ds.att("lat", "standard_name", "latitude");
    dv lev(nz), tm(nt);
    for (size_t k = 0; k < nz; ++k) lev[k] = ap[k] / 100000 + b[k];
    for (size_t k = 0; k < nt; ++k) tm[k] = 6 * k;
    ds.add("lev", CDM_DOUBLE, {"lev"}, lev); ds.att("lev", "units", "1"); ds.att("lev", "standard_name", "atmosphere_hybrid_sigma_pressure_coordinate"); ds.att("lev", "formula_terms", "ap: ap b: b ps: ps");
    ds.add("time", CDM_DOUBLE, {"time"}, tm); ds.att("time", "units", "hours since 2000-01-01 00:00:00"); ds.att("time", "standard_name", "time");
    ds.att("_GLOBAL", "Conventions", "CF-1.4");
    ds.add("ap", CDM_DOUBLE, {"lev"}, ap); ds.att("ap", "units", "Pa");
    ds.add("b", CDM_DOUBLE, {"lev"}, b); ds.att("b", "units", "1");
    dv psu = ps;
    const bool hpa = r.chance(0.5);
    if (hpa) for (auto& x : psu) x /= 100;
    ds.add("ps", CDM_DOUBLE, {"lon", "lat", "time"}, psu); ds.att("ps", "units", hpa ? "hPa" : "Pa"); ds.att("ps", "standard_name", "surface_air_pressure");
    const sv s4 = {"lon", "lat", "lev", "time"};
    const std::string xn = r.chance(0.5) ? "x_wind" : "grid_eastward_wind", yn = xn == "x_wind" ? "y_wind" : "grid_northward_wind";
    // the inputs may come in other units
    auto inUnit = [&](const std::string& nm, const dv& x, const std::string& base, const std::string& alt, double f, double o) {
        const bool b = r.chance(0.6);
        dv y = x;
        if (!b) for (auto& z : y) z = z * f + o;
        ds.add(nm, b ? CDM_FLOAT : CDM_DOUBLE, s4, y); ds.att(nm, "units", b ? base : alt); 
    };
    inUnit(xn, u, "m/s", "km/h", 3.6, 0); ds.att(xn, "standard_name", xn);
    inUnit(yn, v, "m/s", "km/h", 3.6, 0); ds.att(yn, "standard_name", yn);
    inUnit("ta", t, "K", "degC", 1, -273.15); ds.att("ta", "standard_name", "air_temperature");
    const int gt = r.below(3);
    dv zz = zs;
    if (gt == 0) for (auto& x : zz) x *= 9.81;
    ds.add("orog", CDM_DOUBLE, {"lon", "lat"}, zz);
    ds.att("orog", "units", gt == 0 ? "m^2/s^2" : "m");
    ds.att("orog", "standard_name", gt == 0 ? "surface_geopotential" : gt == 1 ? "surface_altitude" : "altitude");
    auto src = std::make_shared<MemReader>(ds);
    auto rd = std::make_shared<CDMProcessor>(src);
    rd->addVerticalVelocity();
    const std::string n = "upward_air_velocity_ml";
    if (tiny) { VCHECK(c, !rd->getCDM().hasVariable(n) || throws([&] { rd->getDataSlice(n, 0); }), "velocity:tiny-accepted", ""); return; }
    VCHECK(c, rd->getCDM().hasVariable(n), "velocity:missing", xn);
    VCHECK(c, rd->getCDM().getVariable(n).getShape() == s4 && rd->getCDM().getUnits(n) == "m/s", "velocity:shape", "");
    for (size_t k = 0; k < nt; ++k)
        tolerant("velocity:reader", toD(rd->getScaledDataSlice(n, k)), refW(nx, ny, nz, d, d, gx, gy, ap, b, zs, sub(ps, n2, k), sub(u, n3, k), sub(v, n3, k), sub(t, n3, k)));
    others(c, rd, ds, {});
}
static void bad(Ctx& c)
{
    VertOpt o;
    o.kind = VK_HYB1;
    VertSet s = makeVert(c, o);
    auto src = std::make_shared<MemReader>(s.ds);
    VCHECK(c, throws([&] { CDMPressureConversions p(src, sv{"nonsense"}); }), "bad-accepted", "unknown operation");
    VertSet s2 = makeVert(c, o);
    c.sig(c.idx);
    Dataset ds;
    ds.addDim("x", 2);
    ds.add("v", CDM_INT, {"x"});
    VCHECK(c, throws([&] { CDMPressureConversions p(std::make_shared<MemReader>(ds), sv{"add4Dpressure"}); }), "bad-accepted", "no coordinate system");
}
VF_MAIN("C24", "derived fields equal the reference formula on every point, level and time", {"theta", theta, 600, 12000}, {"humidity", humidity, 600, 12000}, {"omega", omega, 500, 12000}, {"p4d", p4d, 400, 8000},
        {"gph", gph, 400, 8000}, {"griddist", griddist, 400, 10000}, {"velocity", velocity, 400, 10000}, {"bad", bad, 10, 10})
