// C28: CF grid mappings <-> proj strings. Oracle: the PROJ library applied to an independently written definition
// (explicit rotation formula for rotated poles); fimex' own projection classes are only the observed side.
#include "vfx.h"
#include <fimex/coordSys/Projection.h>
#include <proj.h>
using namespace vf;

static std::string num(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
static double norm180(double l) { while (l > 180) l -= 360; while (l < -180) l += 360; return l; }

//! reference mapping
struct Ref
{
    std::shared_ptr<PJ> pj;
    bool rot = false, latlon = false;
    double latp = 90, lonp = 180, nglon = 0;
    bool fwd(double lon, double lat, double& x, double& y) const
    {
        const double D = M_PI / 180;
        if (latlon) { x = lon; y = lat; return true; }
        if (rot) {
            const double l = (lon - (lonp - 180)) * D, p = lat * D, P = latp * D;
            const double X = std::cos(p) * std::cos(l), Y = std::cos(p) * std::sin(l), Z = std::sin(p);
            const double X2 = std::sin(P) * X + std::cos(P) * Z, Z2 = -std::cos(P) * X + std::sin(P) * Z;
            x = norm180(std::atan2(Y, X2) / D + nglon);
            y = std::asin(std::max(-1.0, std::min(1.0, Z2))) / D;
            return true;
        }
        PJ_COORD q = proj_coord(lon * D, lat * D, 0, 0);
        q = proj_trans(pj.get(), PJ_FWD, q);
        x = q.xy.x;
        y = q.xy.y;
        return std::isfinite(x) && std::isfinite(y) && std::fabs(x) < 1e15;
    }
};
static Ref refOf(const std::string& s)
{
    Ref r;
    r.pj.reset(proj_create(PJ_DEFAULT_CTX, s.c_str()), proj_destroy);
    if (!r.pj) throw std::logic_error("harness: proj_create " + s + " " + std::to_string(proj_context_errno(PJ_DEFAULT_CTX)));
    return r;
}

struct Earth { std::string proj; std::vector<CDMAttribute> cf; double tol = 1e-3; bool sphere = false; };
static Earth rndEarth(Rng& r, bool forCF, bool ellipsoidal)
{
    Earth e;
    const int k = forCF ? r.below(ellipsoidal ? 3 : 6) : r.below(ellipsoidal ? 6 : 10);
    const double a = r.chance(0.3) ? 6378137.0 : r.chance(0.3) ? 6378388.125 : std::round(r.uni(6.36e6, 6.39e6) * 1000) / 1000;
    const double rf = r.chance(0.5) ? 298.257223563 : r.uni(290, 305);
    auto A = [&](const char* n, double v) { e.cf.push_back(CDMAttribute(n, v)); };
    switch (k) {
    case 0: e.proj = "+a=" + num(a) + " +rf=" + num(rf); A("semi_major_axis", a); A("inverse_flattening", rf); break;
    case 1: { const double b = a * (1 - 1 / rf); e.proj = "+a=" + num(a) + " +b=" + num(b); A("semi_major_axis", a); A("semi_minor_axis", b); break; }
    case 2:
        if (forCF) { const double b = a * (1 - 1 / rf); e.proj = "+a=" + num(a) + " +b=" + num(b); A("semi_major_axis", a); A("semi_minor_axis", b); A("inverse_flattening", rf); r.shuffle(e.cf); }
        else { const double f = 1 / rf; e.proj = "+a=" + num(a) + " +e=" + num(std::sqrt(f * (2 - f))); }
        break;
    case 3:
        if (forCF) { e.proj = "+a=" + num(a) + " +b=" + num(a); A("earth_radius", a); e.sphere = true; break; }
        e.proj = "+ellps=" + std::string(r.pick({"WGS84", "GRS80", "bessel", "intl", "WGS72", "clrk66", "krass", "airy", "clrk80", "helmert"}));
        break;
    case 4:
        if (forCF) { e.proj = "+a=" + num(a) + " +b=" + num(a); A("semi_major_axis", a); if (r.chance(0.5)) A("inverse_flattening", 0.0); e.sphere = true; break; }
        e.proj = "+datum=" + std::string(r.pick({"WGS84", "NAD83", "GGRS87"}));
        e.tol = 0.5;
        break;
    case 5:
        if (forCF) { e.proj = "+a=6371000 +b=6371000"; e.sphere = true; break; } // documented default earth
        e.proj = "+ellps=" + std::string(r.pick({"WGS84", "bessel", "intl"})) + " +towgs84=" + r.pick({"0,0,0", "582,105,414,1.04,0.35,-3.08,8.3", "-87,-98,-121"});
        break;
    case 6: e.proj = "+R=" + num(a); e.sphere = true; break;
    case 7: e.proj = "+a=" + num(a) + " +e=0"; e.sphere = true; break;
    case 8: e.proj = "+a=" + num(a) + " +b=" + num(a); e.sphere = true; break;
    case 9: e.proj = "+ellps=sphere"; if (r.chance(0.6)) e.proj += " +a=" + num(a) + " +e=0"; e.sphere = true; break;
    }
    return e;
}

//! a projection described three ways
struct P
{
    std::string name, kind, proj; //!< proj: reference definition without earth
    std::vector<std::string> parts; //!< user proj definition without earth
    std::vector<CDMAttribute> cf;
    double clon = 0, clat = 0, rlon = 20, rlat = 15; //!< region of test points
    Ref rot;
    bool isRot = false, latlon = false, needEll = false, deg = false, unknown = false;
};
static double rl(Rng& r, double lo, double hi)
{
    const int k = r.below(4);
    const double v = r.uni(lo, hi);
    return k == 0 ? std::round(v) : k == 1 ? std::round(v * 1000) / 1000 : v; // full precision doubles too
}
static P rndP(Rng& r, bool forCF)
{
    P p;
    const double lon0 = rl(r, -179, 179), lat0 = rl(r, -80, 80);
    const double x0 = r.pick({0.0, 500000.0, -2212345.678, 1e7 + 0.125}), y0 = r.pick({0.0, 10000000.0, -350297.0625});
    const bool fe = r.chance(0.5);
    std::string ref;
    auto A = [&](const char* n, double v) { p.cf.push_back(r.chance(0.15) ? CDMAttribute(n, (float)v) : CDMAttribute(n, v)); return p.cf.back().getData()->asDouble()[0]; };
    auto K = [&](const char* n, double v) { p.parts.push_back(std::string("+") + n + "=" + num(v)); };
    auto R = [&](const char* n, double v) { ref += std::string(" +") + n + "=" + num(v); };
    auto both = [&](const char* cfn, const char* pn, double v) { // same value in both descriptions
        if (forCF) { v = A(cfn, v); } else K(pn, v);
        R(pn, v);
        return v;
    };
    auto scale = [&](const char* cfn) {
        const double k = r.pick({0.9996, 0.999912345678, 1.0, 0.95});
        if (forCF) R("k_0", A(cfn, k));
        else { K(r.chance(0.5) ? "k" : "k_0", k); R("k_0", k); }
    };
    auto parallels = [&](bool aea) {
        double l1 = rl(r, 15, 70) * (r.chance(0.3) ? -1 : 1), l2 = l1 + (l1 > 0 ? 1 : -1) * rl(r, 0.5, 15);
        const bool two = r.chance(0.6);
        if (forCF) {
            if (two) { p.cf.push_back(CDMAttribute("standard_parallel", mkData(CDM_DOUBLE, dv{l1, l2}))); R("lat_1", l1); R("lat_2", l2); }
            else { l1 = A("standard_parallel", l1); R("lat_1", l1); R("lat_2", l1); }
        } else {
            K("lat_1", l1); R("lat_1", l1);
            if (two) { K("lat_2", l2); R("lat_2", l2); } // otherwise the default of the proj library
        }
        (void)aea;
        p.clat = l1;
        p.rlat = 12;
    };
    p.clon = lon0;
    p.clat = lat0;
    p.kind = r.pick({"aea", "aeqd", "geos", "laea", "lcc", "cea", "latlong", "merc", "omerc", "ortho", "polar", "rotated", "sinu", "stere", "tmerc", "nsper", "utm", "other"});
    if (forCF && (p.kind == "utm" || p.kind == "other")) p.kind = "tmerc";
    const bool dflt = !forCF && r.chance(0.15); // leave the longitude out
    auto lon = [&](const char* cfn) { if (dflt) p.clon = 0; else p.clon = both(cfn, "lon_0", lon0); };
    if (p.kind == "aea" || p.kind == "lcc") {
        p.name = p.kind == "aea" ? "albers_conical_equal_area" : "lambert_conformal_conic";
        ref = "+proj=" + p.kind;
        parallels(p.kind == "aea");
        lon("longitude_of_central_meridian");
        if (forCF || r.chance(0.7)) both("latitude_of_projection_origin", "lat_0", r.chance(0.4) ? p.clat : rl(r, -60, 60));
    } else if (p.kind == "aeqd" || p.kind == "laea" || p.kind == "ortho" || p.kind == "stere" || p.kind == "nsper") {
        p.name = p.kind == "aeqd" ? "azimuthal_equidistant" : p.kind == "laea" ? "lambert_azimuthal_equal_area" : p.kind == "ortho" ? "orthographic" : p.kind == "stere" ? "stereographic" : "vertical_perspective";
        ref = "+proj=" + p.kind;
        lon("longitude_of_projection_origin");
        if (!forCF && r.chance(0.15)) p.clat = 0;
        else p.clat = both("latitude_of_projection_origin", "lat_0", lat0);
        if (p.kind == "stere" && r.chance(0.5)) scale("scale_factor_at_projection_origin");
        if (p.kind == "nsper") both("perspective_point_height", "h", rl(r, 5e6, 4e7));
    } else if (p.kind == "geos") {
        p.name = "geostationary";
        ref = "+proj=geos";
        lon("longitude_of_projection_origin");
        p.clat = 0;
        if (forCF) A("latitude_of_projection_origin", 0);
        both("perspective_point_height", "h", r.chance(0.5) ? 35785831.0 : rl(r, 3.4e7, 3.7e7));
        if (forCF || r.chance(0.6)) {
            const std::string s = r.pick({"x", "y"});
            if (forCF) p.cf.push_back(CDMAttribute("sweep_angle_axis", s)); else p.parts.push_back("+sweep=" + s);
            ref += " +sweep=" + s;
        }
    } else if (p.kind == "cea" || p.kind == "merc") {
        p.name = p.kind == "cea" ? "lambert_cylindrical_equal_area" : "mercator";
        ref = "+proj=" + p.kind;
        lon(p.kind == "cea" ? "longitude_of_central_meridian" : "longitude_of_projection_origin");
        if (r.chance(0.5)) both("standard_parallel", "lat_ts", rl(r, -60, 60));
        else if (r.chance(0.6)) scale("scale_factor_at_projection_origin");
        p.clat = r.uni(-60, 60);
    } else if (p.kind == "latlong") {
        p.name = "latitude_longitude";
        p.latlon = p.deg = true;
        if (!forCF && r.chance(0.5)) p.kind = "longlat";
        p.clat = r.uni(-60, 60);
    } else if (p.kind == "omerc") {
        p.name = "oblique_mercator";
        ref = "+proj=omerc";
        p.clon = both("longitude_of_projection_origin", "lonc", lon0);
        p.clat = both("latitude_of_projection_origin", "lat_0", rl(r, 5, 70) * (r.chance(0.3) ? -1 : 1));
        both("azimuth_of_central_line", "alpha", rl(r, 5, 80));
        if (!forCF && r.chance(0.4)) both("gamma", "gamma", rl(r, 5, 80));
        if (r.chance(0.5)) scale("scale_factor_at_projection_origin");
        if (r.chance(0.3)) { if (forCF) p.cf.push_back(CDMAttribute("no_rotation", "")); else p.parts.push_back("+no_rot"); ref += " +no_rot"; }
        p.rlon = 8;
        p.rlat = 6;
    } else if (p.kind == "polar") {
        p.name = "polar_stereographic";
        ref = "+proj=stere";
        const double s = r.chance(0.7) ? 1 : -1;
        both("latitude_of_projection_origin", "lat_0", 90 * s);
        lon("straight_vertical_longitude_from_pole");
        if (r.chance(0.6)) both("standard_parallel", "lat_ts", s * rl(r, 45, 89));
        else if (r.chance(0.7)) scale("scale_factor_at_projection_origin");
        p.clat = s * 65;
        p.rlon = 170;
        p.rlat = 24;
    } else if (p.kind == "rotated") {
        p.name = "rotated_latitude_longitude";
        p.isRot = p.deg = true;
        double pl = rl(r, 5, 90), po = lon0, ng = r.chance(0.5) ? 0 : rl(r, -179, 179);
        if (forCF) {
            pl = A("grid_north_pole_latitude", pl);
            po = A("grid_north_pole_longitude", po);
            if (ng != 0 || r.chance(0.3)) ng = A("north_pole_grid_longitude", ng);
        } else {
            p.parts.push_back(std::string("+o_proj=") + r.pick({"longlat", "latlong"}));
            K("o_lat_p", pl);
            if (ng != 0 || r.chance(0.3)) K("o_lon_p", ng);
            if (dflt) po = 180; else { K("lon_0", lon0); po = lon0 + 180; }
        }
        p.rot.rot = true;
        p.rot.latp = pl;
        p.rot.lonp = po;
        p.rot.nglon = ng;
        p.clon = r.uni(-180, 180);
        p.clat = r.uni(-60, 60);
    } else if (p.kind == "sinu") {
        p.name = "sinusoidal";
        ref = "+proj=sinu";
        lon("longitude_of_projection_origin");
        p.clat = r.uni(-60, 60);
    } else if (p.kind == "tmerc") {
        p.name = "transverse_mercator";
        p.needEll = false;
        lon("longitude_of_central_meridian");
        if (forCF || r.chance(0.6)) both("latitude_of_projection_origin", "lat_0", lat0);
        if (r.chance(0.7)) scale("scale_factor_at_central_meridian");
        if (!forCF && r.chance(0.4)) { p.kind = "etmerc"; p.needEll = true; }
        ref = "+proj=" + p.kind + ref;
        p.clat = r.uni(-70, 70);
        p.rlon = 4;
    } else if (p.kind == "utm") {
        p.name = "transverse_mercator";
        ref = "+proj=utm";
        p.needEll = true;
        const int zone = r.range(1, 60);
        p.clon = zone * 6 - 183;
        if (r.chance(0.7)) { p.parts.push_back("+zone=" + std::to_string(zone)); if (r.chance(0.2)) p.parts.push_back("+lon_0=" + num(norm180(p.clon + 12))); ref += " +zone=" + std::to_string(zone); }
        else { const double l = p.clon + r.pick({0.0, 0.0, 1.5, -2.75}); K("lon_0", l); R("lon_0", l); }
        if (r.chance(0.3)) { p.parts.push_back("+south"); ref += " +south"; }
        p.clat = r.uni(-70, 70);
        p.rlon = 3;
    } else { // no CF name: the string itself has to be kept
        p.unknown = true;
        p.name = "unknown_to_fgdc";
        p.kind = r.pick({"robin", "moll", "eqc", "gnom", "cass"});
        ref = "+proj=" + p.kind;
        lon("");
        if (p.kind == "gnom" || p.kind == "cass") p.clat = both("", "lat_0", lat0); else p.clat = r.uni(-60, 60);
        if (p.kind == "cass") { p.rlon = 4; }
    }
    if (!p.deg && p.kind != "utm" && fe) { both("false_easting", "x_0", x0); both("false_northing", "y_0", y0); }
    p.proj = ref;
    p.clat = std::max(-75.0, std::min(75.0, p.clat));
    return p;
}
static void points(Rng& r, const P& p, dv& lon, dv& lat)
{
    const int n = r.range(1, 12);
    for (int i = 0; i < n; ++i) {
        lon.push_back(norm180(p.clon + r.uni(-p.rlon, p.rlon)));
        lat.push_back(std::max(-89.0, std::min(89.0, p.clat + r.uni(-p.rlat, p.rlat))));
    }
}
static void sameMapping(Ctx& c, const std::string& what, const Projection& pr, const Ref& ref, const dv& lon, const dv& lat, bool deg, double tol)
{
    dv x(lon), y(lat), wx, wy;
    pr.convertFromLonLat(x, y);
    const double t = deg ? 1e-7 : tol;
    for (size_t i = 0; i < lon.size(); ++i) {
        double a, b;
        if (!ref.fwd(lon[i], lat[i], a, b)) throw Skip();
        wx.push_back(a);
        wy.push_back(b);
        const double dx = deg ? std::fabs(norm180(x[i] - a)) * std::cos(b * M_PI / 180) : std::fabs(x[i] - a), dy = std::fabs(y[i] - b);
        VCHECK(c, dx <= t && dy <= t, what + ":from-lonlat",
               "(" << num(lon[i]) << "," << num(lat[i]) << ") maps to (" << num(x[i]) << "," << num(y[i]) << ") instead of (" << num(a) << "," << num(b) << ") with " << pr.getProj4String());
        c.cnt("points mapped");
    }
    // inverse of the reference position is the point itself
    pr.convertToLonLat(wx, wy);
    const double td = deg ? 1e-7 : std::max(2e-8, tol / 1e5);
    for (size_t i = 0; i < lon.size(); ++i) {
        const double dl = std::fabs(norm180(wx[i] - lon[i])) * std::cos(lat[i] * M_PI / 180), dp = std::fabs(wy[i] - lat[i]);
        VCHECK(c, dl <= td && dp <= td, what + ":to-lonlat",
               "position of (" << num(lon[i]) << "," << num(lat[i]) << ") is converted back to (" << num(wx[i]) << "," << num(wy[i]) << ") with " << pr.getProj4String());
        c.cnt("points inverted");
    }
    // and fimex' own forward/inverse pair
    pr.convertToLonLat(x, y);
    for (size_t i = 0; i < lon.size(); ++i)
        VCHECK(c, std::fabs(norm180(x[i] - lon[i])) * std::cos(lat[i] * M_PI / 180) <= td && std::fabs(y[i] - lat[i]) <= td, what + ":round-trip", "(" << num(lon[i]) << "," << num(lat[i]) << ") -> (" << num(x[i]) << "," << num(y[i]) << ")");
}
static void allForms(Ctx& c, Projection_p pr, const P& p, const Ref& ref, double tol)
{
    dv lon, lat;
    points(c.r, p, lon, lat);
    VCHECK(c, pr->getName() == p.name, "name", "got " << pr->getName() << " want " << p.name);
    VCHECK(c, pr->isDegree() == p.deg, "isDegree", pr->isDegree());
    sameMapping(c, "direct", *pr, ref, lon, lat, p.deg, tol);
    // attributes -> projection
    const std::vector<CDMAttribute> par = pr->getParameters();
    bool hasName = false;
    for (const auto& a : par) hasName |= a.getName() == "grid_mapping_name";
    if (hasName) {
        Projection_p q = Projection::create(par);
        sameMapping(c, "via-attributes", *q, ref, lon, lat, p.deg, tol);
    }
    // proj string -> projection
    Projection_p q2 = Projection::createByProj4(pr->getProj4String());
    sameMapping(c, "via-proj", *q2, ref, lon, lat, p.deg, tol);
    VCHECK(c, q2->getName() == p.name, "via-proj:name", "got " << q2->getName() << " want " << p.name << " from " << pr->getProj4String());
    Projection_p q3 = Projection::create(q2->getParameters());
    sameMapping(c, "via-both", *q3, ref, lon, lat, p.deg, tol);
    c.cnt("projection " + p.name);
}
static Ref mkRef(const P& p, const Earth& e)
{
    if (p.isRot) return p.rot;
    if (p.latlon) { Ref r; r.latlon = true; return r; }
    // datum shifts do not enter the mapping on one datum
    std::string es = e.proj;
    const size_t t = es.find(" +towgs84");
    if (t != std::string::npos) es = es.substr(0, t);
    if (es.find("+datum=") == 0) es = es == "+datum=WGS84" ? "+ellps=WGS84" : "+ellps=GRS80";
    // an explicit size and shape replaces the named ellipsoid
    if (es.find("+a=") != std::string::npos && es.find("+ellps=sphere ") == 0) es = es.substr(14);
    return refOf(p.proj + " " + es);
}
static void famCF(Ctx& c)
{
    P p = rndP(c.r, true);
    Earth e = rndEarth(c.r, true, p.needEll);
    std::vector<CDMAttribute> at(p.cf);
    at.insert(at.end(), e.cf.begin(), e.cf.end());
    at.push_back(CDMAttribute("grid_mapping_name", p.name));
    if (c.r.chance(0.3)) at.push_back(CDMAttribute("long_name", "some grid mapping"));
    c.r.shuffle(at);
    for (const auto& a : at) c.d << attrStr(a) << "; ";
    c.d << "ref " << p.proj << " " << e.proj;
    c.sig("cf " + p.kind + " " + std::to_string(e.cf.size()) + (e.sphere ? "s" : "e"));
    const Ref ref = mkRef(p, e);
    Projection_p pr = Projection::create(at);
    allForms(c, pr, p, ref, e.tol);
}
static void famProj(Ctx& c)
{
    P p = rndP(c.r, false);
    Earth e = rndEarth(c.r, false, p.needEll);
    if (p.unknown) // used verbatim; the proj library's CRS parser knows no +e
        while (e.proj.find("+e=") != std::string::npos || e.proj.find("+datum") != std::string::npos) e = rndEarth(c.r, false, p.needEll);
    std::vector<std::string> parts(p.parts);
    const std::string pn = p.name == "polar_stereographic" ? "stere" : p.name == "rotated_latitude_longitude" ? "ob_tran" : p.kind;
    parts.push_back("+proj=" + pn);
    std::istringstream is(e.proj);
    for (std::string s; is >> s;) parts.push_back(s);
    if (c.r.chance(0.5)) parts.push_back("+no_defs");
    if (c.r.chance(0.6) && !p.unknown) c.r.shuffle(parts); // (the proj library wants +proj first)
    else std::rotate(parts.begin(), std::find(parts.begin(), parts.end(), "+proj=" + pn), parts.end());
    std::string s;
    for (const auto& q : parts) s += (s.empty() ? "" : c.r.chance(0.1) ? "  " : " ") + q;
    c.d << s;
    c.sig("proj " + p.kind + " " + e.proj.substr(0, 6) + std::to_string(parts.size()));
    const Ref ref = mkRef(p, e);
    allForms(c, Projection::createByProj4(s), p, ref, e.tol);
}
// replacing the earth figure changes the earth and nothing else
static void famEarth(Ctx& c)
{
    P p = rndP(c.r, false);
    if (p.deg || p.needEll || p.unknown) throw Skip();
    Earth e = rndEarth(c.r, false, false), n = rndEarth(c.r, false, false);
    const std::string pn = p.name == "polar_stereographic" ? "stere" : p.kind;
    std::string s = "+proj=" + pn;
    for (const auto& q : p.parts) s += " " + q;
    s += " " + e.proj;
    for (Earth* q : {&e, &n}) if (q->proj.find("towgs84") != std::string::npos) throw Skip();
    c.d << s << " -> " << n.proj;
    c.sig("earth " + e.proj.substr(0, 6) + " " + n.proj.substr(0, 6));
    const std::string got = replaceProj4Earthfigure(s, n.proj);
    VCHECK(c, replaceProj4Earthfigure(s, "") == s, "empty", "an empty figure changes the string");
    const Ref ref = refOf(p.proj + " " + n.proj);
    dv lon, lat;
    points(c.r, p, lon, lat);
    Ref g = refOf(got);
    for (size_t i = 0; i < lon.size(); ++i) {
        double a, b, x, y;
        if (!ref.fwd(lon[i], lat[i], a, b)) throw Skip();
        const bool ok = g.fwd(lon[i], lat[i], x, y);
        VCHECK(c, ok && std::fabs(x - a) < 1e-3 && std::fabs(y - b) < 1e-3, "replace-earth", got << " maps to (" << num(x) << "," << num(y) << ") instead of (" << num(a) << "," << num(b) << ")");
        c.cnt("points with replaced earth");
    }
}
// what cannot be understood is refused, never silently turned into another mapping
static void famBad(Ctx& c)
{
    const int k = c.r.below(6);
    if (k == 0) {
        const std::string s = c.r.pick({"", "+a=6371000", "stere", "+lat_0=90 +lon_0=0", "proj", " "});
        c.d << "'" << s << "'";
        VCHECK(c, throws([&] { Projection::createByProj4(s); }), "bad-accepted", "'" << s << "'");
    } else if (k == 1) {
        const std::string n = c.r.pick({"stere", "lambert", "", "LATITUDE_LONGITUDE", "mercator "});
        c.d << n;
        VCHECK(c, throws([&] { Projection::create({CDMAttribute("grid_mapping_name", n)}); }), "bad-accepted", n);
    } else if (k == 2) { // sexagesimal angles: the proj library understands them; fimex may refuse but not misread them
        P p;
        const std::string kind = c.r.pick({"stere", "laea", "lcc", "merc", "tmerc"});
        const std::string lon = c.r.pick({"70W", "10d30'E", "12dW", "5dE"});
        std::string s = "+proj=" + kind + " +lon_0=" + lon + (kind == "lcc" ? " +lat_1=60 +lat_0=60" : kind == "merc" ? "" : " +lat_0=60") + " +a=6371000 +b=6371000";
        c.d << s;
        Projection_p q;
        try { q = Projection::createByProj4(s); } catch (std::exception&) { c.cnt("refused"); return; }
        p.clon = lon[0] == '7' ? -70 : lon == "12dW" ? -12 : 8;
        p.clat = 60;
        p.rlon = 2;
        dv lo, la;
        points(c.r, p, lo, la);
        sameMapping(c, "sexagesimal", *q, refOf(s), lo, la, false, 1e-3);
    } else if (k == 3) { // no attributes: geographic
        Projection_p q = Projection::create({});
        VCHECK(c, q->isDegree() && q->getName() == "latitude_longitude", "default", q->getName());
    } else if (k == 4) {
        Projection_p q = Projection::createByProj4("+proj=stere +lat_0=90 +lon_0=10 +a=6371000 +e=0");
        dv x{1, 2}, y{1};
        VCHECK(c, throws([&] { q->convertToLonLat(x, y); }) && throws([&] { q->convertFromLonLat(x, y); }), "size-mismatch", "accepted");
        dv e1, e2;
        q->convertToLonLat(e1, e2);
        q->convertFromLonLat(e1, e2);
    } else {
        Projection_p a = Projection::createByProj4("+proj=stere +lat_0=90 +lon_0=10 +a=6371000 +e=0"), b = Projection::createByProj4("+proj=stere +lat_0=90 +lon_0=10.0000001 +a=6371000 +e=0");
        VCHECK(c, !(*a == *b) && *a == *Projection::createByProj4("+proj=stere +lat_0=90 +lon_0=10 +a=6371000 +e=0"), "equality", "");
    }
    c.cnt("refusals and edge cases");
    c.sig("bad " + std::to_string(k));
}
VF_MAIN("C28", "The mapping lon/lat <-> projection coordinates of every projection built from CF attributes or a proj string, directly and after conversion to the other description and back, is compared point by point with the PROJ library on an independently written definition; replaced earth figures and refusals are checked.",
        {"cf", famCF, 500, 15000}, {"proj", famProj, 700, 20000}, {"earth", famEarth, 200, 5000}, {"bad", famBad, 100, 2000})
