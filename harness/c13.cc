// C13: vertical coordinate transformations: C functions and dataset converters vs long double formulas.
#include "vert.h"
#include <fimex/coordSys/CoordinateSystem.h>
#include <fimex/coordSys/verticalTransform/ToVLevelConverter.h>
#include <fimex/coordSys/verticalTransform/VerticalConverter.h>
#include <fimex/coordSys/verticalTransform/VerticalTransformation.h>
#include <fimex/coordSys/verticalTransform/VerticalTransformationUtils.h>
#include <fimex/vertical_coordinate_transformations.h>
using namespace vf;
typedef long double ld;

static dv rv(Rng& r, size_t n, double lo, double hi) { dv v(n); for (auto& x : v) x = r.uni(lo, hi); return v; }
static void cmp(Ctx& c, const char* key, const std::unique_ptr<double[]>& got, const std::vector<ld>& want)
{
    for (size_t i = 0; i < want.size(); ++i) {
        const ld tol = 1e-9L * (fabsl(want[i]) + 1);
        VCHECK(c, fabsl((ld)got[i] - want[i]) <= tol, key, "at " << i << " got " << got[i] << " expected " << (double)want[i]);
    }
}
static std::unique_ptr<double[]> heap(const dv& v) { std::unique_ptr<double[]> p(new double[v.size()]); std::copy(v.begin(), v.end(), p.get()); return p; }

static void formulas(Ctx& c)
{
    Rng& r = c.r;
    const int f = r.below(11);
    const size_t n = r.pick({1, 2, 3, 7, 16, 33});
    c.d << "formula " << f << " n=" << n;
    auto out = std::unique_ptr<double[]>(new double[n]);
    auto out2 = std::unique_ptr<double[]>(new double[n]);
    std::vector<ld> w(n);
    int rc = MIFI_OK;
    switch (f) {
    case 0: {
        const double p0 = r.uni(500, 110000); auto l = heap(rv(r, n, -1, 8));
        rc = mifi_atmosphere_ln_pressure(n, p0, l.get(), out.get());
        for (size_t i = 0; i < n; ++i) w[i] = (ld)p0 * expl(-(ld)l[i]);
        cmp(c, "ln_pressure", out, w);
        break;
    }
    case 1: {
        const double pt = r.uni(0, 100), ps = r.uni(500, 1100); auto s = heap(rv(r, n, -0.2, 1.2));
        rc = mifi_atmosphere_sigma_pressure(n, pt, ps, s.get(), out.get());
        for (size_t i = 0; i < n; ++i) w[i] = pt + (ld)s[i] * ((ld)ps - pt);
        cmp(c, "sigma_pressure", out, w);
        VCHECK(c, mifi_atmosphere_pressure_sigma(n, pt, ps, out.get(), out2.get()) == MIFI_OK, "status", "");
        for (size_t i = 0; i < n; ++i) w[i] = s[i];
        cmp(c, "sigma-inverse", out2, w);
        break;
    }
    case 2: {
        const double pt = r.uni(0, 100), ps = r.uni(500, 1100); auto p = heap(rv(r, n, 1, 1100));
        rc = mifi_atmosphere_pressure_sigma(n, pt, ps, p.get(), out.get());
        for (size_t i = 0; i < n; ++i) w[i] = ((ld)p[i] - pt) / ((ld)ps - pt);
        cmp(c, "pressure_sigma", out, w);
        break;
    }
    case 3: {
        const double p0 = r.uni(500, 1100), ps = r.uni(500, 1100); auto a = heap(rv(r, n, 0, 1)), b = heap(rv(r, n, 0, 1));
        rc = mifi_atmosphere_hybrid_sigma_pressure(n, p0, ps, a.get(), b.get(), out.get());
        for (size_t i = 0; i < n; ++i) w[i] = (ld)a[i] * p0 + (ld)b[i] * ps;
        cmp(c, "hybrid_sigma_pressure", out, w);
        break;
    }
    case 4: {
        const double ps = r.uni(500, 1100); auto a = heap(rv(r, n, 0, 500)), b = heap(rv(r, n, 0, 1));
        rc = mifi_atmosphere_hybrid_sigma_ap_pressure(n, ps, a.get(), b.get(), out.get());
        for (size_t i = 0; i < n; ++i) w[i] = (ld)a[i] + (ld)b[i] * ps;
        cmp(c, "hybrid_sigma_ap_pressure", out, w);
        break;
    }
    case 5: {
        const double o = r.uni(-100, 5000); auto a = heap(rv(r, n, 0, 40000)), b = heap(rv(r, n, 0, 1));
        rc = mifi_atmosphere_hybrid_height(n, o, a.get(), b.get(), out.get());
        for (size_t i = 0; i < n; ++i) w[i] = (ld)a[i] + (ld)b[i] * o;
        cmp(c, "hybrid_height", out, w);
        break;
    }
    case 6: {
        const bool std = r.chance(0.4);
        const double pb = std ? 1013.25 : r.uni(500, 110000), tb = std ? 288.15 : r.uni(180, 330); auto h = heap(rv(r, n, -500, 30000));
        rc = std ? mifi_barometric_standard_pressure(n, h.get(), out.get()) : mifi_barometric_pressure(n, pb, h.get(), tb, out.get());
        for (size_t i = 0; i < n; ++i) w[i] = (ld)pb * expl(-G_ * M_ / R_ * h[i] / tb);
        cmp(c, std ? "barometric_standard_pressure" : "barometric_pressure", out, w);
        int rc2 = std ? mifi_barometric_standard_altitude(n, out.get(), out2.get()) : mifi_barometric_height(n, pb, out.get(), tb, out2.get());
        VCHECK(c, rc2 == MIFI_OK, "status", "");
        for (size_t i = 0; i < n; ++i) w[i] = h[i];
        cmp(c, std ? "barometric-standard-inverse" : "barometric-inverse", out2, w);
        break;
    }
    case 7: {
        const bool std = r.chance(0.4);
        const double pb = std ? 1013.25 : r.uni(500, 110000), tb = std ? 288.15 : r.uni(180, 330); auto p = heap(rv(r, n, 1, 120000));
        rc = std ? mifi_barometric_standard_altitude(n, p.get(), out.get()) : mifi_barometric_height(n, pb, p.get(), tb, out.get());
        for (size_t i = 0; i < n; ++i) w[i] = -R_ * tb / (G_ * M_) * logl((ld)p[i] / pb);
        cmp(c, std ? "barometric_standard_altitude" : "barometric_height", out, w);
        break;
    }
    case 8: {
        const double h = r.uni(1, 6000), hc = r.uni(0.1, 300), ze = r.uni(-3, 3); auto s = heap(rv(r, n, -1, 0)), C = heap(rv(r, n, -1, 0));
        const bool g1 = r.chance(0.5);
        rc = (g1 ? mifi_ocean_s_g1_z : mifi_ocean_s_g2_z)(n, h, hc, ze, s.get(), C.get(), out.get());
        for (size_t i = 0; i < n; ++i) {
            if (g1) { const ld S = (ld)hc * s[i] + ((ld)h - hc) * C[i]; w[i] = S + ze * (1 + S / h); }
            else { const ld S = ((ld)hc * s[i] + (ld)h * C[i]) / ((ld)h + hc); w[i] = ze + ((ld)ze + h) * S; }
        }
        cmp(c, g1 ? "ocean_s_g1" : "ocean_s_g2", out, w);
        break;
    }
    case 9: {
        auto om = heap(rv(r, n, -50, 50)), p = heap(rv(r, n, 100, 110000)), t = heap(rv(r, n, 180, 330));
        rc = mifi_omega_to_vertical_wind(n, om.get(), p.get(), t.get(), out.get());
        for (size_t i = 0; i < n; ++i) w[i] = -(ld)om[i] * BARO * t[i] / p[i];
        cmp(c, "omega_to_vertical_wind", out, w);
        VCHECK(c, mifi_vertical_wind_to_omega(n, out.get(), p.get(), t.get(), out2.get()) == MIFI_OK, "status", "");
        for (size_t i = 0; i < n; ++i) w[i] = om[i];
        cmp(c, "vertical-wind-inverse", out2, w);
        std::unique_ptr<float[]> fo(new float[n]), fp(new float[n]), ft(new float[n]), fw(new float[n]);
        for (size_t i = 0; i < n; ++i) { fo[i] = om[i]; fp[i] = p[i]; ft[i] = t[i]; }
        VCHECK(c, mifi_omega_to_vertical_wind_f(n, fo.get(), fp.get(), ft.get(), fw.get()) == MIFI_OK, "status", "");
        for (size_t i = 0; i < n; ++i) {
            const ld ww = -(ld)fo[i] * BARO * ft[i] / fp[i];
            VCHECK(c, fabsl(fw[i] - ww) <= 1e-5L * (fabsl(ww) + 1e-6L), "omega_to_vertical_wind_f", "got " << fw[i] << " expected " << (double)ww);
        }
        break;
    }
    case 10:
        for (size_t i = 0; i < n; ++i) {
            const float t = r.uni(200, 320), p = r.uni(5000, 105000), rh = r.uni(-20, 130), sh = r.uni(-0.001, 0.03), dew = t - r.uni(-2, 40);
            const ld es = 610.78L * expl(17.269L * (t - 273.16L) / (t - 35.86L));
            auto rel = [&](const char* k, double got, ld want) { VCHECK(c, fabsl(got - want) <= 3e-4L * (fabsl(want) + 1e-9L), k, "t=" << t << " p=" << p << " rh=" << rh << " sh=" << sh << " dew=" << dew << " got " << got << " expected " << (double)want); };
            rel("virtual_temperature", mifi_virtual_temperature(sh, t), t * (1 + (1 / 0.622L - 1) * sh));
            rel("relative_to_specific", mifi_relative_to_specific_humidity(rh, t, p), std::max<ld>(0, rh * 0.01L * es * 0.622L / p));
            rel("specific_to_relative", mifi_specific_to_relative_humidity(sh, t, p), std::min<ld>(100, std::max<ld>(0, 100 * (ld)sh * p / (es * 0.622L))));
            rel("dewpoint_to_relative", mifi_dewpoint_to_relative_humidity(dew, t),
                std::min<ld>(100, 100 * expl(17.625L * (dew - 273.15L) / (243.04L + dew - 273.15L) - 17.625L * (t - 273.15L) / (243.04L + t - 273.15L))));
            const float rh2 = r.uni(1, 99);
            rel("humidity-inverse", mifi_specific_to_relative_humidity(mifi_relative_to_specific_humidity(rh2, t, p), t, p), rh2);
            const float p1 = r.uni(100, 1050), p2 = p1 * r.uni(0.1, 0.95);
            rel("layer_thickness", mifi_barometric_layer_thickness(p1, p2, t), logl((ld)p1 / p2) * t * BARO);
        }
        break;
    }
    VCHECK(c, rc == MIFI_OK, "status", "rc " << rc);
    c.sig(f).sig(n).sig(out[0]);
}

static CoordinateSystem_cp csFor(Ctx& c, CDMReader_p rd, const std::string& v)
{
    const CoordinateSystem_cp_v all = listCoordinateSystems(rd);
    CoordinateSystem_cp cs = findCompleteCoordinateSystemFor(all, v);
    VCHECK(c, !!cs, "dataset:no-coordinate-system", "for " << v);
    return cs;
}

static void datasets(Ctx& c)
{
    Rng& r = c.r;
    VertOpt o;
    o.minz = 2;
    VertSet s = makeVert(c, o);
    Dataset ds = s.ds;
    ds.add("f", CDM_FLOAT, s.shape4);
    auto rd = std::make_shared<MemReader>(ds, r.chance(0.5));
    CoordinateSystem_cp cs = csFor(c, rd, "f");
    VerticalTransformation_cp vt = cs->getVerticalTransformation();
    VCHECK(c, !!vt, "dataset:no-vertical-transformation", vkName[s.kind]);
    VCHECK(c, vt->isComplete(), "dataset:incomplete", vkName[s.kind]);
    static const char* expName[] = {"pressure", "height", "altitude", "depth", "atmosphere_sigma_coordinate", "HybridSigmaPressure1", "HybridSigmaPressure2", "atmosphere_ln_pressure_coordinate", "ocean_s_coordinate_g1", "ocean_s_coordinate_g2", "atmosphere_hybrid_height_coordinate"};
    c.cnt(std::string("kind-") + expName[s.kind]);
    static const int VT[] = {MIFI_VINT_PRESSURE, MIFI_VINT_HEIGHT, MIFI_VINT_ALTITUDE, MIFI_VINT_DEPTH};
    for (int q = 0; q < 4; ++q) {
        VerticalConverter_p vc;
        try { vc = vt->getConverter(rd, cs, VT[q]); } catch (CDMException&) {}
        const std::string key = std::string(vkName[s.kind]) + "-to-" + vkName[q];
        VCHECK(c, !!vc == s.available(q), key + ":availability", "converter " << !!vc << " expected " << s.available(q));
        if (!vc) continue;
        c.cnt("converter-" + key);
        const sv shape = vc->getShape();
        SliceBuilder sb = createSliceBuilder(rd->getCDM(), vc);
        auto expect = [&](const szv& st, const szv& sz) {
            dv w(prod(sz));
            szv p(sz.size(), 0);
            static const char* nm[] = {"lon", "lat", "lev", "ens", "time"};
            for (size_t k = 0; k < w.size(); ++k) {
                szv ix(5, 0);
                for (size_t d = 0; d < shape.size(); ++d) for (int j = 0; j < 5; ++j) if (shape[d] == nm[j]) ix[j] = st[d] + p[d];
                w[k] = (double)s.quantity(q, ix[0], ix[1], ix[2], ix[3], ix[4]);
                for (size_t d = 0; d < sz.size(); ++d) { if (++p[d] < sz[d]) break; p[d] = 0; }
            }
            return w;
        };
        szv full; for (auto& d : shape) full.push_back(ds.dim(d).len);
        if (s.nz > 1) VCHECK(c, std::count(shape.begin(), shape.end(), "lev") == 1, key + ":shape", vstr(shape));
        const double tol = s.tol(q);
        expectData(c, key + ":full", vc->getDataSlice(sb), expect(szv(full.size(), 0), full), tol, vstr(shape));
        for (int k = 0; k < 3; ++k) {
            SliceBuilder s2 = createSliceBuilder(rd->getCDM(), vc);
            szv st(full.size()), sz(full.size());
            for (size_t d = 0; d < full.size(); ++d) { st[d] = r.below(full[d]); sz[d] = r.range(1, full[d] - st[d]); s2.setStartAndSize(shape[d], st[d], sz[d]); }
            expectData(c, key + ":slice", vc->getDataSlice(s2), expect(st, sz), tol, vstr(shape) + " start=" + vstr(st) + " size=" + vstr(sz));
        }
        // per unlimited position
        const size_t t = r.below(s.nt);
        szv st(full.size(), 0), sz = full;
        if (s.unlim) for (size_t d = 0; d < full.size(); ++d) if (shape[d] == "time") { st[d] = t; sz[d] = 1; }
        expectData(c, key + ":unlimited-position", verticalData4D(cs, rd, t, VT[q]), expect(st, sz), tol, vstr(shape));
        // the column interface
        if (!s.hasE) {
            ToVLevelConverter_p col = vt->getConverter(rd, VT[q], t, cs);
            VCHECK(c, !!col, key + ":column", "no column converter");
            const size_t x = r.below(s.nx), y = r.below(s.ny);
            dv got = col->values(x, y, t), w(got.size());
            VCHECK(c, got.size() == s.nz, key + ":column-size", got.size());
            for (size_t z = 0; z < w.size(); ++z) w[z] = (double)s.quantity(q, x, y, z, 0, t);
            expectVals(c, key + ":column", got, w, tol);
        }
    }
    c.sig(c.d.str());
}

VF_MAIN("C13", "distinct non-trivial = distinct (formula, size, parameters) / (dataset kind, sizes, axis order, available surface fields)", {"formulas", formulas, 6000, 200000},
        {"datasets", datasets, 1500, 60000})
