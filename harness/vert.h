// CF datasets with every supported vertical coordinate and an independent reference for the vertical quantities.
#ifndef VERT_H_
#define VERT_H_
#include "vfx.h"

namespace vf {

static const long double G_ = 9.80665L, M_ = 0.0289644L, R_ = 8.31432L;
static const long double BARO = R_ / (G_ * M_);

enum VKind { VK_P, VK_H, VK_A, VK_D, VK_SIGMA, VK_HYB1, VK_HYB2, VK_LNP, VK_OS1, VK_OS2, VK_HH, VK_N };
static const char* vkName[] = {"pressure", "height", "altitude", "depth", "sigma", "hybrid_ap", "hybrid_a_p0", "ln_pressure", "ocean_s_g1", "ocean_s_g2", "hybrid_height"};
enum VQuant { Q_P, Q_H, Q_A, Q_D };

struct VertSet
{
    Dataset ds;
    int kind;
    size_t nx, ny, nz, ne, nt;
    bool unlim, hasE, timeVar;
    sv shape4;           //!< shape of the data variables
    // raw parameters in base units (hPa, m, K, 1)
    dv lev, a, b, C, ps, topo, eta, depth, temp, shum;
    double p0 = 1000, ptop = 10, depth_c = 20;
    bool hasTopo = false, topoGeopot = false, hasTemp = false, hasSap = false, hasShum = false, hasSurfGeopot = false, hasEta = false, hasGPH = false;
    bool pHighFirst = false;

    size_t i2(size_t x, size_t y) const { return x + nx * y; }
    size_t i3(size_t x, size_t y, size_t t) const { return x + nx * (y + ny * t); }
    size_t i4(size_t x, size_t y, size_t z, size_t e, size_t t) const { return x + nx * (y + ny * (z + nz * (e + ne * t))); }

    long double pressure(size_t x, size_t y, size_t z, size_t t) const
    {
        switch (kind) {
        case VK_P: return lev[z];
        case VK_SIGMA: return (long double)ptop + (long double)lev[z] * ((long double)ps[i3(x, y, t)] - ptop);
        case VK_HYB1: return (long double)a[z] + (long double)b[z] * ps[i3(x, y, t)];
        case VK_HYB2: return (long double)a[z] * p0 + (long double)b[z] * ps[i3(x, y, t)];
        case VK_LNP: return (long double)p0 * expl(-(long double)lev[z]);
        default: return NAN;
        }
    }
    bool pkind() const { return kind == VK_P || kind == VK_SIGMA || kind == VK_HYB1 || kind == VK_HYB2 || kind == VK_LNP; }
    bool integrates() const { return hasTemp && hasSap && hasSurfGeopot && ne == 1; } // surface fields without the ensemble dimension are not used for an ensemble
    long double altitude(size_t x, size_t y, size_t z, size_t e, size_t t) const
    {
        if (kind == VK_A) return lev[z];
        if (kind == VK_H) return hasTopo ? (long double)lev[z] + topo[i2(x, y)] : NAN;
        if (kind == VK_HH) return (long double)a[z] + (long double)b[z] * topo[i2(x, y)];
        if (!pkind()) return NAN;
        if (!integrates()) return -BARO * 288.15L * logl(pressure(x, y, z, t) / 1013.25L);
        // hypsometric integration from the surface upwards
        const bool up = pressure(0, 0, 0, 0) > pressure(0, 0, nz - 1, 0);
        long double alt = topo[i2(x, y)], pl = ps[i3(x, y, t)];
        for (size_t k = 0; k < nz; ++k) {
            const size_t zz = up ? k : nz - 1 - k;
            const long double ph = pressure(x, y, zz, t);
            long double T = temp[i4(x, y, zz, e, t)];
            if (hasShum) T *= 1 + (1 / 0.622L - 1) * shum[i4(x, y, zz, e, t)];
            alt += logl(pl / ph) * T * BARO;
            pl = ph;
            if (zz == z) break;
        }
        return alt;
    }
    long double quantity(int q, size_t x, size_t y, size_t z, size_t e, size_t t) const
    {
        switch (q) {
        case Q_P: return pressure(x, y, z, t);
        case Q_A: return altitude(x, y, z, e, t);
        case Q_H:
            if (kind == VK_H) return lev[z];
            return hasTopo ? altitude(x, y, z, e, t) - topo[i2(x, y)] : NAN;
        default: {
            if (kind == VK_D) return lev[z];
            const long double h = depth.empty() ? 0 : depth[i2(x, y)], zeta = hasEta ? eta[i3(x, y, t)] : 0, hc = depth_c;
            if (kind == VK_OS1) {
                const long double S = hc * lev[z] + (h - hc) * C[z];
                return -(S + zeta * (1 + S / h));
            }
            if (kind == VK_OS2) {
                const long double S = (hc * lev[z] + h * C[z]) / (h + hc);
                return -(zeta + (zeta + h) * S);
            }
            return NAN;
        }
        }
    }
    bool available(int q) const { return !std::isnan((double)quantity(q, 0, 0, 0, 0, 0)); }
    double tol(int q) const { return q == Q_P ? 2e-4 : (integrates() || hasTopo) ? 0.05 : 2e-3; } // float arithmetic inside the library
    dv as4(const dv& x4) const // x4 in (x,y,z,e,t) order -> order of shape4
    {
        const szv full = {nx, ny, nz, ne, nt};
        static const char* nm[] = {"lon", "lat", "lev", "ens", "time"};
        szv l;
        for (auto& s : shape4) l.push_back(ds.dim(s).len);
        dv out(prod(l));
        szv p(l.size(), 0);
        for (size_t o = 0; o < out.size(); ++o) {
            szv ix(5, 0);
            for (size_t d = 0; d < l.size(); ++d)
                for (int k = 0; k < 5; ++k)
                    if (shape4[d] == nm[k]) ix[k] = p[d];
            out[o] = x4[i4(ix[0], ix[1], ix[2], ix[3], ix[4])];
            for (size_t d = 0; d < l.size(); ++d) { if (++p[d] < l[d]) break; p[d] = 0; }
        }
        return out;
    }
};

struct VertOpt
{
    int kind = -1;
    bool allowShuffle = true, wantE = true;
    size_t minz = 2, maxz = 7, minxy = 1;
    bool forceTime = false;
};

inline void sortedRandom(Rng& r, dv& v, double lo, double hi, double mingap, bool desc)
{
    // strictly monotone values with a gap of at least mingap
    const size_t n = v.size();
    double slack = (hi - lo) - mingap * (n > 1 ? n - 1 : 0);
    dv u(n);
    for (auto& x : u) x = r.uni(0, slack);
    std::sort(u.begin(), u.end());
    for (size_t i = 0; i < n; ++i) v[i] = std::round((lo + u[i] + mingap * i) * 1024) / 1024;
    if (desc) std::reverse(v.begin(), v.end());
}

inline VertSet makeVert(Ctx& c, const VertOpt& o)
{
    Rng& r = c.r;
    VertSet s;
    s.kind = o.kind >= 0 ? o.kind : (int)r.below(VK_N);
    s.nx = r.range(o.minxy, 4); s.ny = r.range(o.minxy, 3); s.nz = r.range(o.minz, o.maxz); s.nt = r.range(1, 3);
    s.hasE = o.wantE && r.chance(0.25); s.ne = s.hasE ? r.range(1, 2) : 1;
    s.timeVar = o.forceTime || r.chance(0.85);
    if (!s.timeVar) s.nt = 1;
    s.unlim = s.timeVar && r.chance(0.6);
    Dataset& ds = s.ds;
    ds.addDim("lon", s.nx); ds.addDim("lat", s.ny); ds.addDim("lev", s.nz);
    if (s.hasE) ds.addDim("ens", s.ne);
    if (s.timeVar) ds.addDim("time", s.nt, s.unlim);
    dv v(s.nx); for (size_t i = 0; i < s.nx; ++i) v[i] = 5 + 0.5 * i;
    ds.add("lon", CDM_DOUBLE, {"lon"}, v);
    v.resize(s.ny); for (size_t i = 0; i < s.ny; ++i) v[i] = 60 + 0.25 * i;
    ds.add("lat", CDM_DOUBLE, {"lat"}, v);
    ds.att("lon", "units", "degrees_east"); ds.att("lon", "standard_name", "longitude");
    ds.att("lat", "units", "degrees_north"); ds.att("lat", "standard_name", "latitude");
    ds.att("_GLOBAL", "Conventions", "CF-1.4");
    if (s.timeVar) {
        v.resize(s.nt); for (size_t i = 0; i < s.nt; ++i) v[i] = 6. * i;
        ds.add("time", CDM_DOUBLE, {"time"}, v);
        ds.att("time", "units", "hours since 2000-01-01 00:00:00"); ds.att("time", "standard_name", "time");
    }
    if (s.hasE) {
        v.resize(s.ne); for (size_t i = 0; i < s.ne; ++i) v[i] = i;
        ds.add("ens", CDM_INT, {"ens"}, v);
        ds.att("ens", "standard_name", "realization"); ds.att("ens", "units", "1");
    }
    s.shape4 = {"lon", "lat", "lev"};
    if (s.hasE) s.shape4.push_back("ens");
    if (o.allowShuffle && r.chance(0.2)) r.shuffle(s.shape4);
    if (s.timeVar) s.shape4.push_back("time");

    const size_t n2 = s.nx * s.ny, n3 = n2 * s.nt, n4 = n2 * s.nz * s.ne * s.nt;
    const bool desc = r.chance(0.5);
    s.ps.resize(n3); for (auto& x : s.ps) x = r.uni(950, 1050);
    s.topo.resize(n2); for (auto& x : s.topo) x = r.uni(-20, 900);
    s.eta.resize(n3); for (auto& x : s.eta) x = r.uni(-2, 2);
    s.depth.resize(n2); for (auto& x : s.depth) x = r.uni(60, 500);
    s.lev.resize(s.nz); s.a.resize(s.nz); s.b.resize(s.nz); s.C.resize(s.nz);
    s.p0 = r.uni(900, 1100); s.ptop = r.uni(1, 50); s.depth_c = r.uni(5, 50);
    s.hasTopo = r.chance(0.6); s.topoGeopot = r.chance(0.5);
    sv shape3 = {"lon", "lat"}; if (s.timeVar) shape3.push_back("time");
    const sv shape2 = {"lon", "lat"};
    auto addIn = [&](const std::string& nm, const sv& sh, const dv& base, const std::string& u1, const std::string& u2, double f) {
        // base unit u1, or the same stored in u2 = base * f
        const bool alt = !u2.empty() && r.chance(0.5);
        dv w = base;
        if (alt) for (auto& x : w) x *= f;
        ds.add(nm, CDM_DOUBLE, sh, w);
        ds.att(nm, "units", alt ? u2 : u1);
    };
    bool psAdded = false;
    auto addPs = [&] { addIn("ps", shape3, s.ps, "hPa", "Pa", 100); ds.att("ps", "standard_name", "surface_air_pressure"); psAdded = true; };
    switch (s.kind) {
    case VK_P:
        sortedRandom(r, s.lev, 100, 920, 12, desc);
        addIn("lev", {"lev"}, s.lev, "hPa", "Pa", 100);
        break;
    case VK_H:
        sortedRandom(r, s.lev, 1, 3000, 20, desc);
        addIn("lev", {"lev"}, s.lev, "m", "km", 1e-3);
        ds.att("lev", "positive", "up"); ds.att("lev", "standard_name", "height");
        break;
    case VK_A:
        sortedRandom(r, s.lev, 1, 3000, 20, desc);
        addIn("lev", {"lev"}, s.lev, "m", "km", 1e-3);
        ds.att("lev", "positive", "up"); ds.att("lev", "standard_name", "altitude");
        break;
    case VK_D:
        sortedRandom(r, s.lev, 0, 300, 3, desc);
        addIn("lev", {"lev"}, s.lev, "m", "km", 1e-3);
        ds.att("lev", "positive", "down"); ds.att("lev", "standard_name", "depth");
        break;
    case VK_SIGMA:
        sortedRandom(r, s.lev, 0.05, 0.98, 0.02, desc);
        addIn("lev", {"lev"}, s.lev, "1", "", 1);
        ds.att("lev", "standard_name", "atmosphere_sigma_coordinate"); ds.att("lev", "formula_terms", "sigma: lev ps: ps ptop: ptop");
        addPs();
        addIn("ptop", {}, dv{s.ptop}, "hPa", "Pa", 100);
        break;
    case VK_HYB1:
    case VK_HYB2: {
        dv eta(s.nz);
        sortedRandom(r, eta, 0.1, 0.97, 0.03, desc);
        for (size_t i = 0; i < s.nz; ++i) {
            s.b[i] = eta[i] * eta[i];
            s.a[i] = (s.kind == VK_HYB1 ? 1000. : 1.) * (eta[i] - eta[i] * eta[i]);
            s.lev[i] = eta[i];
        }
        if (s.kind == VK_HYB2) s.p0 = r.uni(990, 1060);
        ds.add("lev", CDM_DOUBLE, {"lev"}, s.lev);
        ds.att("lev", "units", "1"); ds.att("lev", "standard_name", "atmosphere_hybrid_sigma_pressure_coordinate");
        ds.add("b", CDM_DOUBLE, {"lev"}, s.b); ds.att("b", "units", "1");
        addPs();
        if (s.kind == VK_HYB1) {
            addIn("ap", {"lev"}, s.a, "hPa", "Pa", 100);
            ds.att("lev", "formula_terms", "ap: ap b: b ps: ps");
        } else {
            ds.add("a", CDM_DOUBLE, {"lev"}, s.a); ds.att("a", "units", "1");
            addIn("p0", {}, dv{s.p0}, "hPa", "Pa", 100);
            ds.att("lev", "formula_terms", "a: a b: b ps: ps p0: p0");
        }
        break;
    }
    case VK_LNP:
        sortedRandom(r, s.lev, 0.1, 2.2, 0.03, desc);
        ds.add("lev", CDM_DOUBLE, {"lev"}, s.lev); ds.att("lev", "units", "1"); ds.att("lev", "positive", "up");
        ds.att("lev", "standard_name", "atmosphere_ln_pressure_coordinate"); ds.att("lev", "formula_terms", "p0: p0 lev: lev");
        addIn("p0", {}, dv{s.p0}, "hPa", "Pa", 100);
        break;
    case VK_OS1:
    case VK_OS2: {
        sortedRandom(r, s.lev, -0.99, -0.01, 0.02, desc);
        for (size_t i = 0; i < s.nz; ++i) s.C[i] = -s.lev[i] * s.lev[i] * (0.3 + 0.7 * -s.lev[i]); // monotone
        ds.add("lev", CDM_DOUBLE, {"lev"}, s.lev); ds.att("lev", "units", "1");
        ds.att("lev", "standard_name", s.kind == VK_OS1 ? "ocean_s_coordinate_g1" : "ocean_s_coordinate_g2");
        ds.add("Cs", CDM_DOUBLE, {"lev"}, s.C); ds.att("Cs", "units", "1");
        addIn("h", shape2, s.depth, "m", "km", 1e-3);
        addIn("hc", {}, dv{s.depth_c}, "m", "", 1);
        s.hasEta = r.chance(0.7);
        if (s.hasEta) addIn("zeta", shape3, s.eta, "m", "cm", 100);
        ds.att("lev", "formula_terms", std::string("s: lev C: Cs depth: h depth_c: hc") + (s.hasEta ? " eta: zeta" : ""));
        break;
    }
    case VK_HH:
        sortedRandom(r, s.a, 5, 3000, 25, desc);
        for (size_t i = 0; i < s.nz; ++i) { s.b[i] = r.uni(0, 1) * 0 + (1 - s.a[i] / 4000); s.lev[i] = i + 1; }
        for (auto& x : s.topo) x = std::fabs(x);
        ds.add("lev", CDM_DOUBLE, {"lev"}, s.lev); ds.att("lev", "units", "1");
        ds.att("lev", "standard_name", "atmosphere_hybrid_height_coordinate"); ds.att("lev", "formula_terms", "a: a b: b orog: orog");
        addIn("a", {"lev"}, s.a, "m", "km", 1e-3);
        ds.add("b", CDM_DOUBLE, {"lev"}, s.b); ds.att("b", "units", "1");
        addIn("orog", shape2, s.topo, "m", "", 1);
        s.hasTopo = r.chance(0.6);
        if (s.hasTopo) ds.att("orog", "standard_name", "surface_altitude");
        break;
    }
    if (s.kind != VK_HH && s.kind != VK_D && s.kind != VK_OS1 && s.kind != VK_OS2 && s.hasTopo) {
        if (s.topoGeopot) {
            dv w = s.topo; for (auto& x : w) x *= 9.80665;
            ds.add("topo", CDM_DOUBLE, shape2, w); ds.att("topo", "units", "m^2/s^2"); ds.att("topo", "standard_name", "surface_geopotential");
            s.hasSurfGeopot = true;
        } else {
            addIn("topo", shape2, s.topo, "m", "", 1); ds.att("topo", "standard_name", "surface_altitude");
        }
    } else if (s.kind == VK_D || s.kind == VK_OS1 || s.kind == VK_OS2)
        s.hasTopo = false;
    if (s.pkind()) {
        if (s.kind == VK_P && r.chance(0.5)) addPs();
        if (s.kind == VK_LNP && r.chance(0.5)) addPs();
        s.hasSap = psAdded;
        if (r.chance(0.5)) {
            s.hasTemp = true;
            s.temp.resize(n4); for (auto& x : s.temp) x = r.uni(200, 310);
            ds.add("air_temperature", CDM_DOUBLE, s.shape4, s.as4(s.temp)); ds.att("air_temperature", "units", "K"); ds.att("air_temperature", "standard_name", "air_temperature");
            if (r.chance(0.5)) {
                s.hasShum = true;
                s.shum.resize(n4); for (auto& x : s.shum) x = r.uni(0, 0.02);
                ds.add("specific_humidity", CDM_DOUBLE, s.shape4, s.as4(s.shum)); ds.att("specific_humidity", "units", "1"); ds.att("specific_humidity", "standard_name", "specific_humidity");
            }
        }
    }
    c.d << vkName[s.kind] << " nx=" << s.nx << " ny=" << s.ny << " nz=" << s.nz << " ne=" << s.ne << (s.hasE ? "" : "-") << " nt=" << s.nt << (s.unlim ? "*" : "")
        << (s.timeVar ? "" : " notime") << (desc ? " desc" : "") << " topo=" << s.hasTopo << s.topoGeopot << " integ=" << s.integrates() << s.hasShum << " shape=" << vstr(s.shape4) << " ";
    return s;
}

} // namespace vf
#endif
