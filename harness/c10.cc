// C10: vector reprojection vs the rotation between the grids' axes found by differentiating PROJ.
#include "regrid.h"
#include <fimex/CDMProcessor.h>
#include <fimex/mifi_constants.h>
#include <fimex/reproject.h>

static const double D2R = M_PI / 180;
//! clockwise angle from true north of a grid's y-axis at a geographical point; NAN if unknown
static double yBearing(const Proj& p, double lon, double lat)
{
    if (p.kind == Proj::LATLON) return 0;
    double x, y, lo1, la1, lo2, la2;
    if (!p.fwd(lon, lat, x, y)) return NAN;
    const double d = p.deg() ? 1e-3 : 100;
    if (!p.inv(x, y - d, lo1, la1) || !p.inv(x, y + d, lo2, la2)) return NAN;
    return std::atan2(std::remainder(lo2 - lo1, 360.) * std::cos(lat * D2R), la2 - la1);
}
//! counter-clockwise rotation (radian) to be applied to components along src's axes to get those along dst's axes
static double rotation(const Proj& src, const Proj& dst, double lon, double lat)
{
    // src-y points to bearing b1; expressed in dst axes its bearing is b1-b2 clockwise from dst-y
    return -(yBearing(src, lon, lat) - yBearing(dst, lon, lat));
}
static bool singular(const Proj& p, double lon, double lat)
{
    if (std::fabs(lat) > 87) return true;
    if (p.kind == Proj::ROTATED) { double x, y; p.fwd(lon, lat, x, y); if (std::fabs(y) > 80) return true; }
    return false;
}
//! acceptable error of a rotation angle
static double angTol(const Proj& a, const Proj& b, double lat, double stepkm, bool wrap)
{
    double t = 2e-4 + 2 * (stepkm * 1e-3 / 6371) / std::cos(lat * D2R);
    if (a.earth == 2 || b.earth == 2) t += 5e-3; // spherical reference on an ellipsoid
    if (wrap) t += 8e-3 / std::cos(lat * D2R);   // finite-difference step enlarged by the date line
    return t;
}
struct UV { dv u, v; };
static UV rndUV(Rng& r, size_t n, double nan)
{
    UV w;
    for (size_t i = 0; i < n; ++i) {
        double a = r.uni(-30, 30), b = r.uni(-30, 30);
        if (r.chance(0.1)) { a = 0; b = r.pick({0., 10., -10.}); }
        if (r.chance(nan)) { if (r.chance(0.5)) a = NAN; else b = NAN; }
        w.u.push_back(double(float(a)));
        w.v.push_back(double(float(b)));
    }
    return w;
}
static void cmpUV(Ctx& c, const std::string& key, double u, double v, double gu, double gv, double phi, double tol, double quant, const std::string& info)
{
    if (std::isnan(u) || std::isnan(v)) {
        VCHECK(c, std::isnan(gu) && std::isnan(gv), key + ":undefined", info << " got " << gu << "," << gv << " from " << u << "," << v);
        c.cnt("undefined_vectors");
        return;
    }
    const double len = std::hypot(u, v), glen = std::hypot(gu, gv);
    VCHECK(c, std::fabs(len - glen) <= 1e-4 + 1e-5 * len + 2 * quant, key + ":speed", info << " got " << gu << "," << gv << " length " << glen << " from " << u << "," << v << " length " << len);
    const double eu = u * std::cos(phi) - v * std::sin(phi), ev = u * std::sin(phi) + v * std::cos(phi);
    VCHECK(c, std::hypot(gu - eu, gv - ev) <= tol * len + 1e-4 + 2 * quant, key + ":direction", info << " got " << gu << "," << gv << " expected " << eu << "," << ev << " rotation " << phi / D2R << " deg, tolerance " << tol);
    c.cnt(std::fabs(std::remainder(phi, 2 * M_PI)) > 0.1 ? "turned_vectors" : "hardly_turned_vectors");
}
//! do the points' x coordinates in a projection jump by 360 degrees (date line)?
static bool wraps(const Grid& tg, const Proj& src)
{
    if (!src.deg()) return false;
    double lo = 1e9, hi = -1e9;
    for (size_t j = 0; j < tg.ny(); ++j) for (size_t i = 0; i < tg.nx(); ++i) {
        double lon, lat, x, y;
        tg.lonlat(i, j, lon, lat);
        lon = std::remainder(lon, 360.);
        src.fwd(lon, lat, x, y);
        lo = std::min(lo, x);
        hi = std::max(hi, x);
    }
    return hi - lo > 180;
}
static double stepKm(const Grid& g)
{
    double d = 0;
    for (auto a : {&g.x.v, &g.y.v}) for (size_t i = 0; i + 1 < a->size(); ++i) d = std::max(d, std::fabs((*a)[i + 1] - (*a)[i]));
    if (g.nx() == 1 && g.ny() == 1) return 10000;
    return g.p.deg() ? d * 111 * 3 : d / 1000 * 3;
}
static void setup2(Rng& r, Proj& src, Grid& tg, double& clon, double& clat, double& dkm)
{
    clon = r.chance(0.3) ? r.pick({180., -179., 0., 90.}) : r.uni(-180, 180);
    clat = r.pick({r.uni(-70, 70), r.uni(40, 75), r.uni(-20, 20)});
    dkm = r.pick({5., 20., 50., 150.});
    src = rndProj(r, clon + (r.chance(0.3) ? r.uni(-180, 180) : 0), clat);
    if (src.kind == Proj::STERE && r.chance(0.4)) { src.lon0 = std::round(clon + r.pick({180., 90., -90., 170., -170.})); while (src.lon0 > 180) src.lon0 -= 360; while (src.lon0 < -180) src.lon0 += 360; src.init(); }
    tg = rndGrid(r, clon, clat, dkm, -1, 1, r.chance(0.5) ? 3 : 8, false);
    if (tg.p.kind == Proj::STERE && r.chance(0.4)) { Proj& p = tg.p; p.lon0 = std::round(clon + r.pick({180., 90., -90.})); while (p.lon0 > 180) p.lon0 -= 360; while (p.lon0 < -180) p.lon0 += 360; p.init();
        double cx, cy; p.fwd(clon, clat, cx, cy); const double ox = tg.x.v[tg.nx() / 2], oy = tg.y.v[tg.ny() / 2]; for (double& v : tg.x.v) v += std::round(cx - ox); for (double& v : tg.y.v) v += std::round(cy - oy); }
    if (r.chance(0.15) && !tg.p.deg()) { // a grid containing the line where the rotation is exactly 180 degrees / the central meridian
        const double o = tg.x.v[tg.nx() / 2];
        for (double& v : tg.x.v) v -= o;
    }
}
static void matrix(Ctx& c)
{
    Rng& r = c.r;
    Proj src;
    Grid tg;
    double clon, clat, dkm;
    setup2(r, src, tg, clon, clat, dkm);
    const int way = r.below(3);
    const size_t nx = tg.nx(), ny = tg.ny(), n = nx * ny, nz = r.range(1, 3);
    c.d << "way " << way << " src " << src.str() << " grid " << tg.str() << " nz " << nz;
    c.sig(way).sig(src.kind).sig(tg.p.kind).sig(nx).sig(ny).sig(clon).sig(clat);
    reproject::Matrix_cp m;
    const Target t = targetOf(tg);
    Proj from = src, to = tg.p;
    dv X, Y;
    for (size_t j = 0; j < ny; ++j) for (size_t i = 0; i < nx; ++i) { X.push_back(tg.x.v[i]); Y.push_back(tg.y.v[j]); }
    if (way == 0) m = reproject::get_vector_reproject_matrix(src.str(), tg.p.str(), tg.x.v.data(), tg.y.v.data(), tg.p.deg() ? MIFI_LONGITUDE : MIFI_PROJ_AXIS, tg.p.deg() ? MIFI_LATITUDE : MIFI_PROJ_AXIS, nx, ny);
    else if (way == 1) m = reproject::get_vector_reproject_matrix_points(src.str(), tg.p.str(), src.deg() ? 0 : 1, X.data(), Y.data(), nx, ny);
    else { m = reproject::get_vector_reproject_matrix_field(tg.p.str(), src.str(), X.data(), Y.data(), nx, ny); from = tg.p; to = src; }
    VCHECK(c, size_t(m->size_x) == nx && size_t(m->size_y) == ny, "matrix:size", "");
    const UV w = rndUV(r, n * nz, r.pick({0., 0.1}));
    std::vector<float> u(w.u.begin(), w.u.end()), v(w.v.begin(), w.v.end()), dir;
    for (size_t i = 0; i < n * nz; ++i) { const double d = std::atan2(w.u[i], w.v[i]) / D2R; dir.push_back(std::isnan(d) ? d : d < 0 ? d + 360 : d); }
    reproject::vector_reproject_values_by_matrix_f(m, u.data(), v.data(), nz);
    reproject::vector_reproject_direction_by_matrix_f(m, dir.data(), nz);
    const bool wr = wraps(tg, src) || wraps(tg, tg.p);
    for (size_t i = 0; i < n * nz; ++i) {
        const double lon = t.lon[i % n], lat = t.lat[i % n];
        if (std::isnan(lon) || singular(src, lon, lat) || singular(tg.p, lon, lat)) { c.cnt("singular_skipped"); continue; }
        const double phi = rotation(from, to, lon, lat);
        if (std::isnan(phi)) { c.cnt("outside_projection"); continue; }
        const double tol = angTol(from, to, lat, stepKm(tg), wr);
        std::ostringstream o;
        o << "point " << i % n << " (" << lon << "," << lat << ") layer " << i / n;
        cmpUV(c, "matrix", w.u[i], w.v[i], u[i], v[i], phi, tol, 0, o.str());
        if (std::isnan(w.u[i] + w.v[i])) { VCHECK(c, std::isnan(dir[i]), "matrix:direction-undefined", dir[i]); continue; }
        VCHECK(c, dir[i] >= 0 && dir[i] <= 360, "matrix:direction-range", o.str() << " direction " << dir[i]);
        if (std::hypot(w.u[i], w.v[i]) > 1e-3) {
            const double d = std::atan2(double(u[i]), double(v[i])) / D2R, e = std::remainder(d - dir[i], 360.);
            VCHECK(c, std::fabs(e) < 1e-2, "matrix:direction-vs-vector", o.str() << " direction " << dir[i] << " rotated vector points to " << d);
        }
        c.cnt("rotations");
    }
    // there and back, for the matrices of the same points
    if (way == 1) {
        dv X2 = X, Y2 = Y;
        reproject::reproject_values(tg.p.str(), src.str(), X2.data(), Y2.data(), n);
        auto back = reproject::get_vector_reproject_matrix_points(tg.p.str(), src.str(), tg.p.deg() ? 0 : 1, X2.data(), Y2.data(), nx, ny);
        reproject::vector_reproject_values_by_matrix_f(back, u.data(), v.data(), nz);
        for (size_t i = 0; i < n * nz; ++i) {
            const double lon = t.lon[i % n], lat = t.lat[i % n];
            if (std::isnan(w.u[i] + w.v[i]) || std::isnan(lon) || singular(src, lon, lat) || singular(tg.p, lon, lat)) continue;
            const double tol = 2 * angTol(from, to, lat, 1, false), len = std::hypot(w.u[i], w.v[i]);
            VCHECK(c, std::hypot(u[i] - w.u[i], v[i] - w.v[i]) <= tol * len + 1e-4, "matrix:back", "point " << i % n << " got " << u[i] << "," << v[i] << " expected " << w.u[i] << "," << w.v[i]);
            c.cnt("there_and_back");
        }
    }
}
struct Pack { double sc = 1, off = 0, fill = -999; CDMDataType t = CDM_FLOAT; };
static Pack rndPack(Rng& r)
{
    Pack p;
    switch (r.below(4)) {
    case 0: p.t = CDM_SHORT; p.sc = r.pick({0.01, 0.002, 0.05}); p.off = r.pick({0., 0., 5., -10.}); p.fill = -32767; break;
    case 1: p.t = CDM_DOUBLE; break;
    default: break;
    }
    return p;
}
static Var& addComp(Dataset& ds, const std::string& name, const std::string& sn, const Pack& p, const sv& sh, dv& val)
{
    Var& v = ds.add(name, p.t, sh);
    for (size_t i = 0; i < v.val.size(); ++i) {
        if (isInt(p.t) && !std::isnan(val[i])) val[i] = std::round((val[i] - p.off) / p.sc) * p.sc + p.off;
        v.val[i] = std::isnan(val[i]) ? p.fill : isInt(p.t) ? std::round((val[i] - p.off) / p.sc) : val[i];
    }
    ds.att(name, "_FillValue", p.t, {p.fill});
    if (p.sc != 1) { ds.att(name, "scale_factor", CDM_DOUBLE, {p.sc}); ds.att(name, "add_offset", CDM_DOUBLE, {p.off}); }
    if (!sn.empty()) ds.att(name, "standard_name", sn);
    ds.att(name, "units", "m/s");
    return v;
}
static const char* VEC[][2] = {{"x_wind", "y_wind"}, {"grid_eastward_wind", "grid_northward_wind"}, {"sea_water_x_velocity", "sea_water_y_velocity"}, {"sea_ice_x_velocity", "sea_ice_y_velocity"}};
//! a source with u/v along the grid axes (or east/north)
struct VSrc { Grid g; Src s; UV w; Pack pu, pv; sv sh; size_t n = 0, nz = 1; dv scal; };
static void mkV(Ctx& c, VSrc& q, double clon, double clat, double dkm, size_t nmin, size_t nmax, bool eastnorth, bool samePack, int kind = -1)
{
    Rng& r = c.r;
    q.g = rndGrid(r, clon, clat, dkm, kind, nmin, nmax, false);
    Dataset& ds = q.s.ds;
    q.s.g.push_back(q.g);
    q.s.ll2 = r.chance(0.5);
    q.s.xy.push_back(addGrid(ds, q.g, r, "", q.s.ll2));
    const size_t nt = r.range(1, 3);
    ds.addDim("time", nt, true);
    dv tv;
    for (size_t i = 0; i < nt; ++i) tv.push_back(i);
    ds.add("time", CDM_DOUBLE, {"time"}, tv);
    ds.att("time", "units", "hours since 2020-01-01 00:00:00");
    ds.att("_GLOBAL", "Conventions", "CF-1.4");
    q.sh = {q.s.xy[0].first, q.s.xy[0].second};
    q.n = q.g.nx() * q.g.ny();
    if (r.chance(0.7)) { q.sh.push_back("time"); q.nz = nt; }
    q.w = rndUV(r, q.n * q.nz, r.pick({0., 0., 0.1}));
    q.pu = rndPack(r);
    q.pv = samePack ? q.pu : rndPack(r);
    const char** nm = VEC[r.below(4)];
    const bool order = r.chance(0.3); // y component first in the file
    for (int k = 0; k < 2; ++k) {
        if ((k == 0) != order) addComp(ds, "u", eastnorth ? "eastward_wind" : nm[0], q.pu, q.sh, q.w.u);
        else addComp(ds, "v", eastnorth ? "northward_wind" : nm[1], q.pv, q.sh, q.w.v);
    }
    gridAtts(ds, q.g, "u", "", q.s.ll2);
    gridAtts(ds, q.g, "v", "", q.s.ll2);
    dv dummy(q.n, 0.);
    for (double& d : dummy) d = r.range(0, 100);
    q.scal = dummy;
    addComp(ds, "t2m", "air_temperature", Pack(), {q.sh[0], q.sh[1]}, q.scal);
    gridAtts(ds, q.g, "t2m", "", q.s.ll2);
}
//! x -> x + a for defined points, b for undefined ones
struct PrePlus : InterpolatorProcess2d
{
    float a, b;
    PrePlus(float a, float b) : a(a), b(b) {}
    void operator()(float* f, size_t nx, size_t ny) override { for (size_t i = 0; i < nx * ny; ++i) f[i] = std::isnan(f[i]) ? b : f[i] + a; }
};
static double quant(const Pack& p) { return isInt(p.t) ? 0.55 * p.sc : 0; }
static void interp(Ctx& c)
{
    Rng& r = c.r;
    double clon, clat;
    center(r, clon, clat);
    if (std::fabs(clat) > 80) clat = 70;
    const double dkm = r.pick({5., 50., 150.});
    VSrc q;
    mkV(c, q, clon, clat, dkm, 2, r.chance(0.5) ? 6 : 12, false, r.chance(0.6));
    Grid tg = rndGrid(r, clon, clat, dkm * r.pick({0.3, 1.}), -1, 1, r.chance(0.5) ? 3 : 8, false);
    const bool pts = r.chance(0.3);
    c.d << (pts ? "points " : "") << "src " << q.g.str() << " -> " << tg.str() << " pack " << q.pu.sc << "," << q.pu.off << " / " << q.pv.sc << "," << q.pv.off << " " << q.s.ds.str();
    c.sig(pts).sig(q.g.p.kind).sig(tg.p.kind).sig(q.pu.sc != 1).sig(q.pv.off).sig(q.s.ds.str());
    auto src = mkReader(r, q.s);
    if (r.chance(0.3)) { src->inMemory("u"); if (r.chance(0.5)) src->inMemory("v"); }
    auto ip = std::make_shared<CDMInterpolator>(src);
    Target t = targetOf(tg);
    Proj to = tg.p;
    if (r.chance(0.3)) { // pre-processes work on the stored numbers of both components
        const float a = r.pick({0.f, 4.f, -6.f}), b = r.pick({0.f, 9.f});
        ip->addPreprocess(std::make_shared<PrePlus>(a, b));
        c.d << " pre " << a << "," << b;
        auto pre = [&](dv& w, const Pack& p) { for (double& x : w) x = std::isnan(x) ? b * p.sc + p.off : x + a * p.sc; };
        pre(q.w.u, q.pu);
        pre(q.w.v, q.pv);
        for (double& x : q.scal) x = std::isnan(x) ? b : x + a;
        c.cnt("preprocessed_vectors");
    }
    if (r.chance(0.3)) { // an earlier change of projection must leave no traces
        Grid o = rndGrid(r, clon, clat, dkm, -1, 2, 5);
        try { ip->changeProjection(MIFI_INTERPOL_BILINEAR, o.p.str(), o.x.v, o.y.v, o.p.deg() ? "degree" : "m", o.p.deg() ? "degree" : "m"); ip->getData("u"); } catch (CDMException&) {}
        c.cnt("reprojected_twice");
    }
    if (pts) {
        for (double v : t.lon) if (std::isnan(v)) throw Skip();
        ip->changeProjection(MIFI_INTERPOL_NEAREST_NEIGHBOR, t.lon, t.lat);
        to = Proj();
    } else
        ip->changeProjection(MIFI_INTERPOL_NEAREST_NEIGHBOR, tg.p.str(), tg.x.v, tg.y.v, tg.p.deg() ? "degree" : "m", tg.p.deg() ? "degree" : "m");
    const size_t on = t.nx * t.ny;
    std::vector<dv> got;
    for (const char* n : {"u", "v"}) {
        dv full = toD(ip->getScaledData(n)), byslice;
        const bool unlim = q.sh.size() > 2;
        for (size_t z = 0; z < (unlim ? q.nz : 1); ++z) { dv s = toD(ip->getScaledDataSlice(n, z)); byslice.insert(byslice.end(), s.begin(), s.end()); }
        VCHECK(c, full.size() == on * q.nz, "interp:size", n << " " << full.size());
        expectVals(c, "interp:slices", byslice, full, 1e-9, n);
        got.push_back(full);
    }
    const bool wr = wraps(tg, q.g.p);
    const double eps = 2e-6;
    for (size_t o = 0; o < on; ++o) {
        const double lon = t.lon[o], lat = t.lat[o];
        double px = NAN, py = NAN;
        if (std::isnan(lon) || singular(q.g.p, lon, lat) || singular(to, lon, lat)) { c.cnt("singular_skipped"); continue; }
        q.g.position(lon, lat, px, py);
        if (std::isnan(px) || std::isnan(py)) continue;
        if (std::fabs(px - std::floor(px) - 0.5) < eps || std::fabs(py - std::floor(py) - 0.5) < eps) { c.cnt("ambiguous_skipped"); continue; }
        const double rx = std::floor(px + 0.5), ry = std::floor(py + 0.5);
        const bool in = rx >= 0 && ry >= 0 && rx < q.g.nx() && ry < q.g.ny();
        const double phi = rotation(q.g.p, to, lon, lat), tol = angTol(q.g.p, to, lat, stepKm(tg), wr);
        if (std::isnan(phi)) continue;
        for (size_t z = 0; z < q.nz; ++z) {
            const size_t i = in ? z * q.n + size_t(ry) * q.g.nx() + size_t(rx) : 0;
            const double u = in ? q.w.u[i] : NAN, v = in ? q.w.v[i] : NAN;
            std::ostringstream s;
            s << "output " << o << " (" << lon << "," << lat << ") layer " << z << " rotation " << phi / D2R;
            cmpUV(c, "interp", u, v, got[0][z * on + o], got[1][z * on + o], phi, tol, std::max(quant(q.pu), quant(q.pv)), s.str());
        }
    }
    // other variables are not turned
    if (!pts) {
        CDMInterpolator plain(std::make_shared<MemReader>(q.s.ds, true));
        plain.changeProjection(MIFI_INTERPOL_NEAREST_NEIGHBOR, tg.p.str(), tg.x.v, tg.y.v, tg.p.deg() ? "degree" : "m", tg.p.deg() ? "degree" : "m");
        Fld f;
        f.name = "t2m"; f.t = CDM_FLOAT; f.sc = 1; f.off = 0; f.fill = -999; f.g = 0; f.raw = q.scal;
        cmpField(c, "interp:scalar", f, expectField(q.s, f, t, NN, eps), toD(ip->getData("t2m")), iota(on), false, "");
    }
}
static void processor(Ctx& c)
{
    Rng& r = c.r;
    double clon, clat;
    center(r, clon, clat);
    if (std::fabs(clat) > 80) clat = 70;
    const double dkm = r.pick({5., 50., 150.});
    const bool toLL = r.chance(0.6);
    VSrc q;
    mkV(c, q, clon, clat, dkm, 1, r.chance(0.5) ? 3 : 9, !toLL, r.chance(0.6));
    // a direction (clockwise from the grid's y-axis, or from north) and a second pair rotated the other way
    Pack pd = r.chance(0.5) ? Pack() : Pack{0.5, r.pick({0., 10., 180.}), -32767, CDM_SHORT};
    dv dir;
    for (size_t i = 0; i < q.n; ++i) dir.push_back(r.chance(0.1) ? double(NAN) : isInt(pd.t) ? double(r.range(0, 360)) : double(float(r.uni(0, 360))));
    addComp(q.s.ds, "dd", "", pd, {q.sh[0], q.sh[1]}, dir);
    gridAtts(q.s.ds, q.g, "dd", "", q.s.ll2);
    const bool other = r.chance(0.3);
    UV w2 = rndUV(r, q.n, 0);
    if (other) {
        addComp(q.s.ds, "u2", "", Pack(), {q.sh[0], q.sh[1]}, w2.u);
        addComp(q.s.ds, "v2", "", Pack(), {q.sh[0], q.sh[1]}, w2.v);
        gridAtts(q.s.ds, q.g, "u2", "", q.s.ll2);
        gridAtts(q.s.ds, q.g, "v2", "", q.s.ll2);
    }
    const bool all = r.chance(0.4), doDir = r.chance(0.6);
    c.d << (toLL ? "to" : "from") << " latlon" << (all ? " all" : "") << (other ? " +other way" : "") << " src " << q.g.str() << " pack " << q.pu.sc << "," << q.pu.off << " / " << q.pv.sc << "," << q.pv.off << " " << q.s.ds.str();
    c.sig(toLL).sig(all).sig(other).sig(doDir).sig(q.g.p.kind).sig(q.g.nx()).sig(q.g.ny()).sig(q.pu.sc).sig(q.s.ds.str());
    auto src = mkReader(r, q.s);
    const bool mem = r.chance(0.3);
    if (mem) for (const char* n : {"u", "v", "dd"}) src->inMemory(n);
    auto pr = std::make_shared<CDMProcessor>(src);
    auto rot = [&] {
        if (all) pr->rotateAllVectorsToLatLon(toLL);
        else pr->rotateVectorToLatLon(toLL, {"u"}, {"v"}, {"new_x"}, {"new_y"});
    };
    const bool otherFirst = r.chance(0.5) && !all; // (all rotatable vectors would include it)
    if (other && otherFirst) pr->rotateVectorToLatLon(!toLL, {"u2"}, {"v2"});
    if (doDir && r.chance(0.5)) { pr->rotateDirectionToLatLon(toLL, {"dd"}); rot(); }
    else { rot(); if (doDir) pr->rotateDirectionToLatLon(toLL, {"dd"}); }
    if (other && !otherFirst) pr->rotateVectorToLatLon(!toLL, {"u2"}, {"v2"});
    if (!all) VCHECK(c, pr->getCDM().getAttribute("u", "standard_name").getStringValue() == "new_x" && pr->getCDM().getAttribute("v", "standard_name").getStringValue() == "new_y", "processor:standard_name", "");
    const Target t = targetOf(q.g);
    std::vector<dv> got;
    for (const char* n : {"u", "v", "dd", "u2", "v2"}) {
        if (!pr->getCDM().hasVariable(n)) { got.push_back({}); continue; }
        dv full = toD(pr->getScaledData(n)), byslice;
        const size_t ns = pr->getCDM().hasUnlimitedDim(pr->getCDM().getVariable(n)) ? q.nz : 1;
        for (size_t z = 0; z < ns; ++z) { dv s = toD(pr->getScaledDataSlice(n, z)); byslice.insert(byslice.end(), s.begin(), s.end()); }
        expectVals(c, "processor:slices", byslice, full, 1e-9, n);
        got.push_back(full);
    }
    Proj ll;
    ll.earth = q.g.p.earth;
    for (size_t o = 0; o < q.n; ++o) {
        const double lon = t.lon[o], lat = t.lat[o];
        if (std::isnan(lon) || singular(q.g.p, lon, lat)) { c.cnt("singular_skipped"); continue; }
        double phi = rotation(q.g.p, ll, lon, lat);
        const double tol = angTol(q.g.p, ll, lat, stepKm(q.g), wraps(q.g, ll));
        if (std::isnan(phi)) continue;
        if (!toLL) phi = -phi;
        std::ostringstream s;
        s << "point " << o << " (" << lon << "," << lat << ") rotation " << phi / D2R << " deg";
        for (size_t z = 0; z < q.nz; ++z) cmpUV(c, "processor", q.w.u[z * q.n + o], q.w.v[z * q.n + o], got[0][z * q.n + o], got[1][z * q.n + o], phi, tol, std::max(quant(q.pu), quant(q.pv)), s.str());
        if (other) cmpUV(c, "processor:other-way", w2.u[o], w2.v[o], got[3][o], got[4][o], -phi, tol, 0, s.str());
        if (doDir) {
            if (std::isnan(dir[o])) VCHECK(c, std::isnan(got[2][o]), "processor:direction-undefined", s.str() << " " << got[2][o]);
            else {
                const double e = std::remainder(got[2][o] - (dir[o] - phi / D2R), 360.);
                VCHECK(c, std::fabs(e) <= tol / D2R + 1e-3 + quant(pd), "processor:direction", s.str() << " direction " << dir[o] << " became " << got[2][o]);
                VCHECK(c, got[2][o] >= -quant(pd) && got[2][o] <= 360 + quant(pd), "processor:direction-range", s.str() << " " << got[2][o]);
            }
            c.cnt("directions");
        }
    }
}
VF_MAIN("C10", "non-trivial: at least one vector compared with the rotation between the axes' directions", {"matrix", matrix, 300, 4000}, {"interp", interp, 200, 2500}, {"processor", processor, 200, 2500})
