// Horizontal grids and projections for the regridding monitors; the reference mapping is the PROJ library used directly
// (or the explicit rotation formula for rotated poles), never fimex' projection code.
#ifndef VF_GRID_H_
#define VF_GRID_H_
#include "vfx.h"
#include <proj.h>

namespace vf {
struct Proj
{
    enum Kind { LATLON, ROTATED, STERE, LCC, MERC } kind = LATLON;
    double lon0 = 0, lat0 = 0, lat1 = 0, latp = 90, lonp = 180; // latp/lonp: rotated pole
    int earth = 0;                                              // 0 default sphere, 1 other radius, 2 WGS84 ellipsoid
    std::shared_ptr<PJ> pj;
    bool deg() const { return kind == LATLON || kind == ROTATED; }
    std::string earthStr() const { return earth == 0 ? " +a=6371000 +e=0" : earth == 1 ? " +a=6371229 +e=0" : earth == 3 ? " +a=6367470 +e=0" : " +a=6378137 +rf=298.257223563"; }
    std::string str() const
    {
        std::ostringstream o;
        o.precision(12);
        switch (kind) {
        case LATLON: o << "+proj=latlong"; break;
        case ROTATED: o << "+proj=ob_tran +o_proj=longlat +lon_0=" << lonp - 180 << " +o_lat_p=" << latp; break;
        case STERE: o << "+proj=stere +lat_0=" << lat0 << " +lon_0=" << lon0 << " +lat_ts=" << lat1; break;
        case LCC: o << "+proj=lcc +lat_1=" << lat1 << " +lat_2=" << lat1 << " +lon_0=" << lon0 << " +lat_0=" << lat0; break;
        case MERC: o << "+proj=merc +lon_0=" << lon0 << " +lat_ts=" << lat1; break;
        }
        o << earthStr() << " +no_defs";
        return o.str();
    }
    void init()
    {
        if (kind == LATLON || kind == ROTATED) return;
        PJ_CONTEXT* ctx = proj_context_create(); // of its own: datasets are also made in threads
        pj.reset(proj_create(ctx, str().c_str()), [ctx](PJ* p) { proj_destroy(p); proj_context_destroy(ctx); });
        if (!pj) throw std::logic_error("harness: proj_create " + str());
    }
    //! geographic degrees -> axis units (degrees or m); false if undefined
    bool fwd(double lon, double lat, double& x, double& y) const
    {
        const double D = M_PI / 180;
        if (kind == LATLON) { x = lon; y = lat; return true; }
        if (kind == ROTATED) {
            const double l = (lon - (lonp - 180)) * D, p = lat * D, P = latp * D;
            const double X = std::cos(p) * std::cos(l), Y = std::cos(p) * std::sin(l), Z = std::sin(p);
            const double X2 = std::sin(P) * X + std::cos(P) * Z, Z2 = -std::cos(P) * X + std::sin(P) * Z;
            x = std::atan2(Y, X2) / D;
            y = std::asin(std::max(-1.0, std::min(1.0, Z2))) / D;
            return true;
        }
        PJ_COORD q = proj_coord(lon * D, lat * D, 0, 0);
        q = proj_trans(pj.get(), PJ_FWD, q);
        x = q.xy.x;
        y = q.xy.y;
        return std::isfinite(x) && std::isfinite(y);
    }
    bool inv(double x, double y, double& lon, double& lat) const
    {
        const double D = M_PI / 180;
        if (kind == LATLON) { lon = x; lat = y; return true; }
        if (kind == ROTATED) {
            const double l = x * D, p = y * D, P = latp * D;
            const double X2 = std::cos(p) * std::cos(l), Y = std::cos(p) * std::sin(l), Z2 = std::sin(p);
            const double X = std::sin(P) * X2 - std::cos(P) * Z2, Z = std::cos(P) * X2 + std::sin(P) * Z2;
            lon = std::atan2(Y, X) / D + (lonp - 180);
            lat = std::asin(std::max(-1.0, std::min(1.0, Z))) / D;
            while (lon > 180) lon -= 360;
            while (lon < -180) lon += 360;
            return true;
        }
        PJ_COORD q = proj_coord(x, y, 0, 0);
        q = proj_trans(pj.get(), PJ_INV, q);
        lon = q.lp.lam / D;
        lat = q.lp.phi / D;
        return std::isfinite(lon) && std::isfinite(lat);
    }
};
inline Proj rndProj(Rng& r, double clon, double clat, int kind = -1)
{
    Proj p;
    if (kind < 0) kind = r.below(5);
    if (kind == Proj::MERC && std::fabs(clat) > 65) kind = Proj::STERE;
    p.kind = Proj::Kind(kind);
    p.earth = r.below(3);
    switch (p.kind) {
    case Proj::ROTATED: // the rotated equator passes near the centre
        p.lonp = std::round(clon + r.uni(-20, 20)) + 180;
        while (p.lonp > 180) p.lonp -= 360;
        p.latp = std::round(90 - clat * r.uni(0.5, 1.0));
        if (p.latp > 90) p.latp = 180 - p.latp; // pole on the near side of the sphere
        if (p.latp < 5) p.latp = 5;
        break;
    case Proj::STERE: p.lat0 = clat >= 0 ? 90 : -90; p.lat1 = (clat >= 0 ? 1 : -1) * r.range(50, 70); p.lon0 = std::round(clon + r.uni(-40, 40)); break;
    case Proj::LCC: p.lat1 = std::round(clat + r.uni(-5, 5)); if (std::fabs(p.lat1) < 10) p.lat1 = p.lat1 < 0 ? -10 : 10; if (std::fabs(p.lat1) > 80) p.lat1 = p.lat1 < 0 ? -80 : 80; p.lat0 = p.lat1; p.lon0 = std::round(clon + r.uni(-20, 20)); break;
    case Proj::MERC: p.lat1 = 0; p.lon0 = std::round(clon); break;
    default: break;
    }
    while (p.lon0 > 180) p.lon0 -= 360;
    while (p.lon0 < -180) p.lon0 += 360;
    p.init();
    return p;
}

//! fractional index of v on a strictly monotone axis (end intervals extrapolated); cyclic longitudes wrap
struct Axis
{
    dv v;
    bool lon = false, cyclic = false;
    double pos1(double q) const
    {
        const size_t n = v.size();
        if (n == 1) return q == v[0] ? 0 : -999;
        const bool asc = v[1] > v[0];
        size_t i = 1;
        while (i < n - 1 && (asc ? v[i] < q : v[i] > q)) ++i;
        return (i - 1) + (q - v[i - 1]) / (v[i] - v[i - 1]);
    }
    //! position; NAN if q is not finite
    double pos(double q) const
    {
        if (!std::isfinite(q)) return NAN;
        if (!lon) return pos1(q);
        // the representative of q modulo 360 which is on (or closest to) the axis
        const double n = v.size();
        double best = NAN, bd = 1e300;
        for (int k = -3; k <= 3; ++k) {
            const double p = pos1(q + 360. * k), out = p < 0 ? -p : p > n - 1 ? p - (n - 1) : 0;
            if (out < bd - 1e-9) { bd = out; best = p; }
        }
        return best;
    }
};
struct Grid
{
    Proj p;
    Axis x, y;
    std::string xUnit, yUnit;  //!< unit of the axis variables
    double ufac = 1;           //!< axis values (m or degree) = stored values * ufac
    size_t nx() const { return x.v.size(); }
    size_t ny() const { return y.v.size(); }
    //! fractional position in this grid of a geographical point
    bool position(double lon, double lat, double& px, double& py) const
    {
        double X, Y;
        if (!p.fwd(lon, lat, X, Y)) { px = py = NAN; return false; }
        px = x.pos(X);
        py = y.pos(Y);
        return std::isfinite(px) && std::isfinite(py);
    }
    void lonlat(size_t i, size_t j, double& lon, double& lat) const { p.inv(x.v[i], y.v[j], lon, lat); }
    std::string str() const
    {
        std::ostringstream o;
        o.precision(8);
        o << p.str() << " x=" << vstr(x.v, 4) << "..(" << nx() << (x.cyclic ? " cyclic" : "") << ") y=" << vstr(y.v, 4) << "..(" << ny() << ") unit " << xUnit;
        return o.str();
    }
};
//! a grid of about n x m points around a centre; spacing around dkm kilometres
inline Grid rndGrid(Rng& r, double clon, double clat, double dkm, int kind, size_t nmin, size_t nmax, bool allowCyclic = true)
{
    Grid g;
    g.p = rndProj(r, clon, clat, kind);
    const size_t nx = r.range(nmin, nmax), ny = r.range(nmin, nmax);
    double cx, cy;
    g.p.fwd(clon, clat, cx, cy);
    double dx, dy;
    if (g.p.deg()) { dx = dkm / 111.; dy = dkm / 111.; if (g.p.kind == Proj::LATLON) dx /= std::max(0.2, std::cos(clat * M_PI / 180)); }
    else { dx = dy = dkm * 1000; }
    dx *= r.uni(0.7, 1.3);
    dy *= r.uni(0.7, 1.3);
    // rounded numbers: axes are typically given with few digits
    const double q = g.p.deg() ? 64. : 1 / 500.;
    dx = std::max(1., std::round(dx * q)) / q;
    dy = std::max(1., std::round(dy * q)) / q;
    const double sx = std::round((cx - dx * (nx - 1) / 2 + r.uni(-0.5, 0.5) * dx) * q) / q, sy = std::round((cy - dy * (ny - 1) / 2 + r.uni(-0.5, 0.5) * dy) * q) / q;
    for (size_t i = 0; i < nx; ++i) g.x.v.push_back(sx + i * dx);
    for (size_t i = 0; i < ny; ++i) g.y.v.push_back(sy + i * dy);
    if (g.p.kind == Proj::LATLON || g.p.kind == Proj::ROTATED) {
        // latitudes stay on the sphere
        dv yy;
        for (double v : g.y.v) if (v >= -90 && v <= 90) yy.push_back(v);
        if (yy.size() < 2) yy = {clat > 0 ? 60. : -70., clat > 0 ? 70. : -60.};
        g.y.v = yy;
        g.x.lon = true;
        if (g.p.kind == Proj::LATLON) {
            if (allowCyclic && r.chance(0.35)) {
                static const size_t N[] = {8, 12, 18, 24, 36};
                const size_t n = N[r.below(5)];
                const double d = 360. / n, s = r.pick({-180., 0., -180. + d / 2, d / 2, -d, 20.});
                g.x.v.clear();
                for (size_t i = 0; i < n; ++i) g.x.v.push_back(s + i * d);
                g.x.cyclic = true;
            } else {
                // any 360-degree convention
                double lo = g.x.v.front(), hi = g.x.v.back(), sh = 0;
                if (hi - lo > 350) { dv t(g.x.v.begin(), g.x.v.begin() + 2); g.x.v = t; lo = t[0]; hi = t[1]; }
                switch (r.below(3)) {
                case 0: while (lo + sh < -180) sh += 360; while (lo + sh >= 180) sh -= 360; break; // starts in [-180,180)
                case 1: while (lo + sh < 0) sh += 360; while (lo + sh >= 360) sh -= 360; break;    // starts in [0,360)
                default: while (hi + sh > 180) sh -= 360; while (hi + sh <= -180) sh += 360; break; // ends in (-180,180]
                }
                for (double& v : g.x.v) v += sh;
            }
        }
    }
    if (r.chance(0.2) && !g.x.cyclic) std::reverse(g.x.v.begin(), g.x.v.end());
    else if (g.x.cyclic && r.chance(0.15)) std::reverse(g.x.v.begin(), g.x.v.end());
    if (r.chance(0.3)) std::reverse(g.y.v.begin(), g.y.v.end());
    if (g.p.kind == Proj::LATLON) { g.xUnit = "degrees_east"; g.yUnit = "degrees_north"; }
    else if (g.p.deg()) g.xUnit = g.yUnit = "degrees";
    else if (r.chance(0.3)) { g.xUnit = g.yUnit = "km"; g.ufac = 1000; }
    else g.xUnit = g.yUnit = "m";
    return g;
}
//! add axes, grid mapping and (optionally) 2-dimensional lon/lat to a dataset; returns the names of the horizontal dimensions
inline std::pair<std::string, std::string> addGrid(Dataset& ds, const Grid& g, Rng& r, const std::string& sfx, bool lonlat2d)
{
    const bool ll = g.p.kind == Proj::LATLON;
    std::string xn = (ll ? r.pick(sv{"lon", "longitude", "x"}) : g.p.deg() ? r.pick(sv{"rlon", "x"}) : r.pick(sv{"x", "xc", "Xc"})) + sfx;
    std::string yn = (xn == "lon" + sfx ? "lat" : xn == "longitude" + sfx ? "latitude" : xn == "rlon" + sfx ? "rlat" : xn == "x" + sfx ? "y" : xn == "xc" + sfx ? "yc" : "Yc") + sfx;
    ds.addDim(xn, g.nx());
    ds.addDim(yn, g.ny());
    dv xs = g.x.v, ys = g.y.v;
    for (double& v : xs) v /= g.ufac;
    for (double& v : ys) v /= g.ufac;
    ds.add(xn, CDM_DOUBLE, {xn}, xs);
    ds.add(yn, CDM_DOUBLE, {yn}, ys);
    ds.att(xn, "units", g.xUnit);
    ds.att(yn, "units", g.yUnit);
    ds.att(xn, "standard_name", ll ? "longitude" : g.p.deg() ? "grid_longitude" : "projection_x_coordinate");
    ds.att(yn, "standard_name", ll ? "latitude" : g.p.deg() ? "grid_latitude" : "projection_y_coordinate");
    if (!ll) {
        const std::string gm = "crs" + sfx;
        ds.add(gm, CDM_INT, {}, {0.});
        auto a = [&](const char* n, double v) { ds.att(gm, n, CDM_DOUBLE, {v}); };
        switch (g.p.kind) {
        case Proj::ROTATED: ds.att(gm, "grid_mapping_name", "rotated_latitude_longitude"); a("grid_north_pole_longitude", g.p.lonp); a("grid_north_pole_latitude", g.p.latp); break;
        case Proj::STERE: ds.att(gm, "grid_mapping_name", "polar_stereographic"); a("straight_vertical_longitude_from_pole", g.p.lon0); a("latitude_of_projection_origin", g.p.lat0); a("standard_parallel", g.p.lat1); break;
        case Proj::LCC: ds.att(gm, "grid_mapping_name", "lambert_conformal_conic"); a("standard_parallel", g.p.lat1); a("longitude_of_central_meridian", g.p.lon0); a("latitude_of_projection_origin", g.p.lat0); break;
        case Proj::MERC: ds.att(gm, "grid_mapping_name", "mercator"); a("longitude_of_projection_origin", g.p.lon0); a("standard_parallel", g.p.lat1); break;
        default: break;
        }
        if (g.p.earth == 1) a("earth_radius", 6371229);
        if (g.p.earth == 3) a("earth_radius", 6367470);
        if (g.p.earth == 2) { a("semi_major_axis", 6378137); a("inverse_flattening", 298.257223563); }
        if (lonlat2d) {
            dv lo, la;
            for (size_t j = 0; j < g.ny(); ++j) for (size_t i = 0; i < g.nx(); ++i) { double a, b; g.lonlat(i, j, a, b); lo.push_back(a); la.push_back(b); }
            ds.add("glon" + sfx, CDM_DOUBLE, {xn, yn}, lo);
            ds.add("glat" + sfx, CDM_DOUBLE, {xn, yn}, la);
            ds.att("glon" + sfx, "units", "degrees_east");
            ds.att("glat" + sfx, "units", "degrees_north");
            ds.att("glon" + sfx, "standard_name", "longitude");
            ds.att("glat" + sfx, "standard_name", "latitude");
        }
    }
    return {xn, yn};
}
inline void gridAtts(Dataset& ds, const Grid& g, const std::string& var, const std::string& sfx, bool lonlat2d)
{
    if (g.p.kind == Proj::LATLON) return;
    ds.att(var, "grid_mapping", "crs" + sfx);
    if (lonlat2d) ds.att(var, "coordinates", "glon" + sfx + " glat" + sfx);
}

//! acceptable values of an interpolation at a position: the reference value for the positions within +-eps (NAN = undefined)
struct Cands
{
    dv c;
    bool between = false; //!< c = {lower, upper}: anything in between is acceptable
    bool ok(double got, double tol) const
    {
        for (double v : c) if (std::isnan(v) ? std::isnan(got) : std::fabs(v - got) <= tol) return true;
        return between && c.size() == 2 && got >= c[0] - tol && got <= c[1] + tol;
    }
};
enum Method { NN, BILIN, BICUB };
inline double kernel(const std::function<double(long, long)>& f, long nx, long ny, double x, double y, Method m)
{
    if (std::isnan(x) || std::isnan(y)) return NAN;
    const long rx = std::lround(std::max(-1e6, std::min(1e6, x))), ry = std::lround(std::max(-1e6, std::min(1e6, y)));
    if (m == NN) return (rx >= 0 && rx < nx && ry >= 0 && ry < ny) ? f(rx, ry) : NAN;
    if (std::fabs(x) > 1e6 || std::fabs(y) > 1e6) return NAN;
    const long x0 = std::floor(x), y0 = std::floor(y);
    const double fx = x - x0, fy = y - y0;
    if (m == BICUB) {
        if (x0 < 1 || x0 + 2 >= nx || y0 < 1 || y0 + 2 >= ny) return NAN;
        auto w = [](double t, double* o) {
            o[0] = 0.5 * (-t + 2 * t * t - t * t * t);
            o[1] = 0.5 * (2 - 5 * t * t + 3 * t * t * t);
            o[2] = 0.5 * (t + 4 * t * t - 3 * t * t * t);
            o[3] = 0.5 * (-t * t + t * t * t);
        };
        double wx[4], wy[4], s = 0;
        w(fx, wx);
        w(fy, wy);
        for (int j = 0; j < 4; ++j) for (int i = 0; i < 4; ++i) s += wx[i] * wy[j] * f(x0 - 1 + i, y0 - 1 + j);
        return s;
    }
    const bool inx = x0 >= 0 && x0 + 1 < nx, iny = y0 >= 0 && y0 + 1 < ny;
    if ((!inx && (rx < 0 || rx >= nx)) || (!iny && (ry < 0 || ry >= ny))) return NAN;
    const long ax = inx ? x0 : rx, bx = inx ? x0 + 1 : rx, ay = iny ? y0 : ry, by = iny ? y0 + 1 : ry;
    const double px = inx ? fx : 0, py = iny ? fy : 0;
    return (1 - py) * ((1 - px) * f(ax, ay) + px * f(bx, ay)) + py * ((1 - px) * f(ax, by) + px * f(bx, by));
}
inline Cands candidates(const std::function<double(long, long)>& f, const Grid& g, double px, double py, Method m, double eps)
{
    Cands c;
    if (std::isnan(px) || std::isnan(py)) { c.c.push_back(NAN); return c; }
    for (double ex : {0., -eps, eps}) for (double ey : {0., -eps, eps}) {
        std::vector<double> xs = {px + ex};
        if (g.x.cyclic) { // the seam: both ends of the axis are neighbours
            const double n = g.nx();
            xs[0] -= n * std::floor((xs[0] + 0.5) / n);
            if (xs[0] == -0.5) xs = {0., n - 1.};
        }
        for (double x : xs) {
            const double v = kernel(f, g.nx(), g.ny(), x, py + ey, m);
            bool have = false;
            for (double o : c.c) if (o == v || (std::isnan(o) && std::isnan(v))) have = true;
            if (!have) c.c.push_back(v);
        }
    }
    return c;
}
} // namespace vf
#endif
