// GRIB files written directly with ecCodes, together with what they contain (the expected dataset).
#ifndef VF_GRIBGEN_H_
#define VF_GRIBGEN_H_
#include "grid.h"
#include "vfx.h"
#include <fimex/CDMFileReaderFactory.h>
#include <fimex/XMLInputString.h>
#include <eccodes.h>
#include <array>
#include <cstring>
#include <fstream>

namespace vf {
struct GribErr : std::runtime_error { using std::runtime_error::runtime_error; };
inline void gck(int e, const std::string& what) { if (e) throw GribErr("harness: ecCodes " + what + ": " + codes_get_error_message(e)); }
struct GH
{
    std::shared_ptr<codes_handle> h;
    explicit GH(codes_handle* p) : h(p, codes_handle_delete) { if (!p) throw GribErr("harness: no grib handle"); }
    void L(const char* k, long v) { gck(codes_set_long(h.get(), k, v), std::string("set ") + k); }
    void D(const char* k, double v) { gck(codes_set_double(h.get(), k, v), std::string("set ") + k); }
    void S(const char* k, const std::string& v) { size_t n = v.size(); gck(codes_set_string(h.get(), k, v.c_str(), &n), std::string("set ") + k); }
    long l(const char* k) const { long v = 0; gck(codes_get_long(h.get(), k, &v), std::string("get ") + k); return v; }
    double d(const char* k) const { double v = 0; gck(codes_get_double(h.get(), k, &v), std::string("get ") + k); return v; }
    std::string s(const char* k) const { char b[500]; size_t n = sizeof(b); gck(codes_get_string(h.get(), k, b, &n), std::string("get ") + k); return b; }
    bool has(const char* k) const { return codes_is_defined(h.get(), k); }
    void values(const dv& v) { gck(codes_set_double_array(h.get(), "values", v.data(), v.size()), "set values"); }
    dv values() const { size_t n = 0; gck(codes_get_size(h.get(), "values", &n), "size"); dv v(n); gck(codes_get_double_array(h.get(), "values", v.data(), &n), "get values"); v.resize(n); return v; }
    std::string msg() const { const void* b; size_t n; gck(codes_get_message(h.get(), &b, &n), "message"); return std::string((const char*)b, n); }
    void lonlat(dv& lon, dv& lat) const
    {
        int e = 0;
        codes_iterator* it = codes_grib_iterator_new(h.get(), 0, &e);
        gck(e, "iterator");
        double la, lo, v;
        while (codes_grib_iterator_next(it, &la, &lo, &v)) { lon.push_back(lo); lat.push_back(la); }
        codes_grib_iterator_delete(it);
    }
};
inline std::vector<GH> gribMessages(const std::string& file)
{
    std::vector<GH> r;
    FILE* f = fopen(file.c_str(), "rb");
    if (!f) throw GribErr("harness: cannot open " + file);
    std::shared_ptr<FILE> ff(f, fclose);
    int e = 0;
    while (codes_handle* h = codes_handle_new_from_file(nullptr, f, PRODUCT_GRIB, &e)) r.push_back(GH(h));
    gck(e, "reading " + file);
    return r;
}
inline long long civilDays(long y, int m, int d)
{
    y -= m <= 2;
    const long era = (y >= 0 ? y : y - 399) / 400;
    const unsigned yoe = unsigned(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097LL + (long long)doe - 719468;
}
struct GTime { long y; int mo, d, h, mi; long unit, step;
    long long ref() const { return civilDays(y, mo, d) * 86400 + h * 3600 + mi * 60; }
    long long valid() const
    {
        switch (unit) {
        case 0: return ref() + step * 60;
        case 1: return ref() + step * 3600;
        case 2: return ref() + step * 86400;
        case 3: { long m = mo - 1 + step; return civilDays(y + m / 12, m % 12 + 1, d) * 86400 + h * 3600 + mi * 60; }
        case 4: return civilDays(y + step, mo, d) * 86400 + h * 3600 + mi * 60;
        case 10: return ref() + step * 3 * 3600;
        case 11: return ref() + step * 6 * 3600;
        case 12: return ref() + step * 12 * 3600;
        case 13: return ref() + step;
        }
        throw std::logic_error("harness: unit");
    }
};
//! one horizontal grid as GRIB keys plus the expected coordinates
struct GGrid
{
    std::string type; // typeOfGrid
    long nx, ny;
    int scan = 0; // 1 i negative, 2 j positive, 4 j consecutive, 8 alternating
    std::vector<std::pair<const char*, double>> keys;
    long shape = 0; // grib2 code table 3.2 (grib1: 0 sphere, 2 oblate)
    double ra = 0, rb = 0; // custom axes in metres
    dv lon, lat;    // expected, [i + nx*j], i,j counted from the first grid point
    std::string str() const { std::ostringstream o; o.precision(9); o << type << ' ' << nx << 'x' << ny << " scan " << scan << " shape " << shape << ' ' << ra << ' ' << rb; for (auto& k : keys) o << ' ' << k.first << '=' << k.second; return o.str(); }
    std::string earth(int ed) const
    {
        std::ostringstream o;
        o.precision(15);
        if (ed == 1) return shape ? "+a=6378160 +b=6356775" : "+a=6367470 +e=0";
        switch (shape) {
        case 0: return "+a=6367470 +e=0";
        case 1: o << "+a=" << ra << " +e=0"; return o.str();
        case 2: return "+a=6378160 +b=6356775";
        case 3: case 7: o << "+a=" << ra << " +b=" << rb; return o.str();
        case 4: return "+a=6378137 +rf=298.257222101";
        case 5: return "+a=6378137 +rf=298.257223563";
        case 6: return "+a=6371229 +e=0";
        case 8: return "+a=6371200 +e=0";
        }
        throw std::logic_error("harness: shape");
    }
    void apply(GH& g, int ed) const
    {
        g.S("gridType", type);
        if (ed == 2) {
            g.L("shapeOfTheEarth", shape);
            // r = scaled * 10^-factor
            if (shape == 1) { g.L("scaleFactorOfRadiusOfSphericalEarth", 1); g.L("scaledValueOfRadiusOfSphericalEarth", std::lround(ra * 10)); }
            if (shape == 3) { g.L("scaleFactorOfEarthMajorAxis", 3); g.L("scaledValueOfEarthMajorAxis", std::lround(ra)); g.L("scaleFactorOfEarthMinorAxis", 4); g.L("scaledValueOfEarthMinorAxis", std::lround(rb * 10)); }
            if (shape == 7) { g.L("scaleFactorOfEarthMajorAxis", 0); g.L("scaledValueOfEarthMajorAxis", std::lround(ra)); g.L("scaleFactorOfEarthMinorAxis", 2); g.L("scaledValueOfEarthMinorAxis", std::lround(rb * 100)); }
        } else
            g.L("earthIsOblate", shape ? 1 : 0);
        g.L("Ni", nx);
        g.L("Nj", ny);
        for (auto& k : keys) if (strstr(k.first, "Flag") || strstr(k.first, "Given")) g.L(k.first, std::lround(k.second)); else g.D(k.first, k.second);
        g.L("iScansNegatively", scan & 1 ? 1 : 0);
        g.L("jScansPositively", scan & 2 ? 1 : 0);
        g.L("jPointsAreConsecutive", scan & 4 ? 1 : 0);
        if (ed == 2) g.L("alternativeRowScanning", scan & 8 ? 1 : 0);
    }
    //! file order -> grid order
    dv order(const dv& v) const
    {
        dv o(v.size());
        size_t k = 0;
        const long no = scan & 4 ? nx : ny, ni = scan & 4 ? ny : nx;
        for (long a = 0; a < no; ++a) for (long b = 0; b < ni; ++b) {
            const long bb = b; // alternating rows are already undone by ecCodes
            const long i = scan & 4 ? a : bb, j = scan & 4 ? bb : a;
            o[i + nx * j] = v[k++];
        }
        return o;
    }
};
inline GGrid rndGGrid(Rng& r, int ed, bool fancyScan)
{
    GGrid g;
    static const sv T = {"regular_ll", "rotated_ll", "polar_stereographic", "lambert", "mercator"};
    g.type = T[r.below(ed == 1 ? 4 : 5)];
    const bool metric = g.type[0] == 'p' || g.type[0] == 'l' || g.type[0] == 'm';
    g.nx = r.range(2, 6);
    g.ny = r.range(2, 6);
    g.scan = (r.chance(0.25) ? 1 : 0) | (r.chance(0.6) ? 2 : 0);
    if (fancyScan && r.chance(0.25)) g.scan |= 4;
    if (ed == 1) g.shape = r.chance(0.3) ? 2 : 0;
    else g.shape = r.below(9);
    if (g.shape == 1) g.ra = 6370000 + r.below(20000) / 10.;
    if (g.shape == 3 || g.shape == 7) { g.ra = 6378000 + r.below(200); g.rb = 6356000 + r.below(900); }
    const double q = ed == 1 ? 1000 : 1e6;
    auto rq = [&](double lo, double hi) { return std::round(r.uni(lo, hi) * q) / q; };
    auto wrap = [](double l) { while (l < 0) l += 360; while (l >= 360) l -= 360; return l; };
    const double D = M_PI / 180;
    auto K = [&](const char* k, double v) { g.keys.push_back(std::make_pair(k, v)); };
    g.lon.resize(g.nx * g.ny);
    g.lat.resize(g.nx * g.ny);
    if (!metric) {
        const double dx = rq(0.05, 3), dy = rq(0.05, 3);
        double lon0 = r.chance(0.3) ? rq(-8, 8) : rq(-180, 180), lat0 = rq(-60, 60);
        if (g.type == "rotated_ll") lat0 = rq(-20, 20);
        const double sx = g.scan & 1 ? -dx : dx, sy = g.scan & 2 ? dy : -dy;
        const bool incr = r.chance(0.8);
        K("longitudeOfFirstGridPointInDegrees", wrap(lon0));
        K("latitudeOfFirstGridPointInDegrees", lat0);
        K("longitudeOfLastGridPointInDegrees", wrap(lon0 + sx * (g.nx - 1)));
        K("latitudeOfLastGridPointInDegrees", lat0 + sy * (g.ny - 1));
        if (ed == 1) K("ijDirectionIncrementGiven", incr ? 1 : 0);
        else K("resolutionAndComponentFlags", incr ? 48 : 0);
        if (incr) { K("iDirectionIncrementInDegrees", dx); K("jDirectionIncrementInDegrees", dy); }
        double latp = 90, lonp = 180;
        if (g.type == "rotated_ll") {
            const double sp = rq(-85, -20), sl = rq(0, 359);
            K("latitudeOfSouthernPoleInDegrees", sp);
            K("longitudeOfSouthernPoleInDegrees", sl);
            latp = -sp;
            lonp = sl + 180;
        }
        Proj p;
        p.kind = g.type == "rotated_ll" ? Proj::ROTATED : Proj::LATLON;
        p.latp = latp;
        p.lonp = lonp;
        for (long j = 0; j < g.ny; ++j) for (long i = 0; i < g.nx; ++i) p.inv(lon0 + sx * i, lat0 + sy * j, g.lon[i + g.nx * j], g.lat[i + g.nx * j]);
    } else {
        const double dx = std::round(r.uni(5000, 80000)), dy = std::round(r.uni(5000, 80000));
        std::ostringstream ps;
        ps.precision(12);
        double lon1 = rq(-179, 179), lat1;
        if (g.type == "polar_stereographic") {
            const bool south = r.chance(0.3);
            const double ts = ed == 1 ? 60 : rq(50, 89), or_ = rq(-179, 179);
            lat1 = south ? rq(-80, -40) : rq(40, 80);
            K(ed == 1 ? "projectionCenterFlag" : "projectionCentreFlag", south ? 128 : 0);
            K("orientationOfTheGridInDegrees", wrap(or_));
            if (ed == 2) K("latitudeWhereDxAndDyAreSpecifiedInDegrees", south ? -ts : ts);
            ps << "+proj=stere +lat_0=" << (south ? -90 : 90) << " +lat_ts=" << (south ? -ts : ts) << " +lon_0=" << or_;
        } else if (g.type == "lambert") {
            const bool south = r.chance(0.2);
            const double a = rq(20, 60), b = r.chance(0.5) ? a : a + rq(0, 20), lov = rq(-179, 179), s = south ? -1 : 1;
            lat1 = s * rq(20, 75);
            lon1 = lov + rq(-60, 60);
            K("LoVInDegrees", wrap(lov));
            K("Latin1InDegrees", s * a);
            K("Latin2InDegrees", s * b);
            if (south) K(ed == 1 ? "projectionCenterFlag" : "projectionCentreFlag", 128);
            ps << "+proj=lcc +lat_1=" << s * a << " +lat_2=" << s * b << " +lat_0=" << s * a << " +lon_0=" << lov;
        } else {
            const double ts = rq(0, 40);
            lat1 = rq(-60, 60);
            lon1 = rq(-150, 150);
            K("LaDInDegrees", ts);
            ps << "+proj=merc +lat_ts=" << ts << " +lon_0=0";
        }
        K("longitudeOfFirstGridPointInDegrees", wrap(lon1));
        K("latitudeOfFirstGridPointInDegrees", lat1);
        if (g.type == "mercator") { K("DiInMetres", dx); K("DjInMetres", dy); K("orientationOfTheGridInDegrees", 0); }
        else { K("DxInMetres", dx); K("DyInMetres", dy); }
        ps << ' ' << g.earth(ed) << " +no_defs";
        std::shared_ptr<PJ> pj(proj_create(PJ_DEFAULT_CTX, ps.str().c_str()), proj_destroy);
        if (!pj) throw std::logic_error("harness: proj_create " + ps.str());
        const PJ_COORD o = proj_trans(pj.get(), PJ_FWD, proj_coord(lon1 * D, lat1 * D, 0, 0));
        for (long j = 0; j < g.ny; ++j) for (long i = 0; i < g.nx; ++i) {
            const PJ_COORD q2 = proj_trans(pj.get(), PJ_INV, proj_coord(o.xy.x + (g.scan & 1 ? -dx : dx) * i, o.xy.y + (g.scan & 2 ? dy : -dy) * j, 0, 0));
            g.lon[i + g.nx * j] = q2.lp.lam / D;
            g.lat[i + g.nx * j] = q2.lp.phi / D;
        }
    }
    return g;
}
struct GVar
{
    std::string name;
    long p0, p1, p2;     // grib1: parameter, table, centre; grib2: number, category, discipline
    long ltype;          // level type
    std::vector<long> levels;
    size_t nens = 0;     // 0: no ensemble
    bool constTime = false;
    CDMDataType type = CDM_DOUBLE;
    double scale = 0, offset = 0; // precision element if scale != 0
    size_t grid = 0;
    std::map<std::array<long long, 3>, dv> fields; // (valid time, level, member) -> values, NAN missing
};
struct GSet
{
    int ed;
    std::vector<GGrid> grids;
    std::vector<GVar> vars;
    std::vector<long long> times; // ascending
    long long ref = 0;
    std::vector<std::string> files;
    std::string str() const
    {
        std::ostringstream o;
        o << "grib" << ed;
        for (auto& g : grids) o << " {" << g.str() << "}";
        for (auto& v : vars) { o << ' ' << v.name << '(' << v.p0 << ',' << v.p1 << ',' << v.p2 << " lev " << v.ltype << ':' << v.levels.size() << " ens " << v.nens << (v.constTime ? " const" : "") << ' ' << datatype2string(v.type) << " grid " << v.grid << " n=" << v.fields.size() << ')'; }
        o << " times " << times.size() << " files " << files.size();
        return o.str();
    }
};
inline const char* levelName(int ed, long lt) { return lt == 100 ? "pressure" : (ed == 1 && lt == 105) || (ed == 2 && lt == 103) ? "height" : "surface"; }
inline std::string gribReaderConfig(const GSet& s, bool definedOnly = false)
{
    std::ostringstream o;
    o.precision(17);
    o << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<cdmGribReaderConfig xmlns=\"http://www.met.no/schema/fimex/cdmGribReaderConfig\">\n";
    o << "<processOptions><option name=\"selectParameters\" value=\"" << (definedOnly ? "definedOnly" : "all") << "\" /></processOptions>\n";
    o << "<global_attributes><attribute name=\"Conventions\" value=\"CF-1.0\" type=\"string\"/><attribute name=\"history\" value=\"none\" type=\"string\"/></global_attributes>\n<axes>\n";
    auto A = [](const std::string& n, const std::string& v) { return "<attribute name=\"" + n + "\" value=\"" + v + "\" type=\"string\"/>"; };
    o << "<time id=\"time\" name=\"time\" type=\"double\">" << A("standard_name", "time") << A("units", "seconds since 1970-01-01 00:00:00 +00:00") << "</time>\n";
    for (const char* t : {"lambert", "mercator", "polar_stereographic"})
        for (const char* ax : {"x", "y"})
            o << "<spatial_axis typeOfGrid=\"" << t << "\" id=\"" << ax << "\" name=\"" << ax << "\" type=\"double\">" << A("standard_name", std::string("projection_") + ax + "_coordinate") << A("units", "m") << "</spatial_axis>\n";
    o << "<spatial_axis typeOfGrid=\"regular_ll\" id=\"x\" name=\"longitude\" type=\"double\">" << A("units", "degrees_east") << "</spatial_axis>\n";
    o << "<spatial_axis typeOfGrid=\"regular_ll\" id=\"y\" name=\"latitude\" type=\"double\">" << A("units", "degrees_north") << "</spatial_axis>\n";
    o << "<spatial_axis typeOfGrid=\"rotated_ll\" id=\"x\" name=\"rlon\" type=\"double\">" << A("standard_name", "grid_longitude") << A("units", "degrees") << "</spatial_axis>\n";
    o << "<spatial_axis typeOfGrid=\"rotated_ll\" id=\"y\" name=\"rlat\" type=\"double\">" << A("standard_name", "grid_latitude") << A("units", "degrees") << "</spatial_axis>\n";
    o << "<spatial_axis id=\"longitude\" name=\"longitude\">" << A("units", "degree_east") << "</spatial_axis><spatial_axis id=\"latitude\" name=\"latitude\">" << A("units", "degree_north") << "</spatial_axis>\n";
    o << "<vertical_axis id=\"surface\" name=\"surface\" grib1_id=\"1\" grib2_id=\"1\" type=\"short\">" << A("units", "m") << "</vertical_axis>\n";
    o << "<vertical_axis id=\"pressure\" name=\"pressure\" grib1_id=\"100\" grib2_id=\"100\" type=\"float\">" << A("units", "hPa") << "</vertical_axis>\n";
    o << "<vertical_axis id=\"height\" name=\"height\" grib1_id=\"105\" grib2_id=\"103\" type=\"float\">" << A("units", "m") << "</vertical_axis>\n";
    o << "</axes>\n<variables>\n";
    for (auto& v : s.vars) {
        o << "<parameter name=\"" << v.name << "\" type=\"" << datatype2string(v.type) << "\"" << (v.constTime ? " constantTime=\"true\"" : "") << ">";
        if (s.ed == 1) o << "<grib1 indicatorOfParameter=\"" << v.p0 << "\" gribTablesVersionNo=\"" << v.p1 << "\" identificationOfOriginatingGeneratingCentre=\"" << v.p2 << "\" typeOfLevel=\"" << v.ltype << "\"/>";
        else o << "<grib2 parameterNumber=\"" << v.p0 << "\" parameterCategory=\"" << v.p1 << "\" discipline=\"" << v.p2 << "\" typeOfLevel=\"" << v.ltype << "\"/>";
        if (v.scale != 0) o << "<precision scale_factor=\"" << v.scale << "\" add_offset=\"" << v.offset << "\"/>";
        if (v.type != CDM_DOUBLE) o << "<attribute name=\"_FillValue\" value=\"" << (v.type == CDM_SHORT ? -32767 : v.type == CDM_INT ? -99999 : -9999) << "\" type=\"" << datatype2string(v.type) << "\"/>";
        o << "</parameter>\n";
    }
    o << "</variables>\n</cdmGribReaderConfig>\n";
    return o.str();
}
//! generate a message set and write it to files
inline GSet rndGSet1(Ctx& c, const std::string& base, bool fancyScan, bool multiFile)
{
    Rng& r = c.r;
    GSet s;
    s.ed = r.chance(0.5) ? 1 : 2;
    const size_t ng = r.chance(0.2) ? 2 : 1;
    for (size_t i = 0; i < ng; ++i) s.grids.push_back(rndGGrid(r, s.ed, fancyScan));
    if (ng == 2 && (s.grids[1].type == s.grids[0].type && s.grids[1].lon == s.grids[0].lon)) s.grids.pop_back();
    // times: one reference time, one step unit; steps ascending
    GTime t0;
    t0.y = r.range(1950, 2090); t0.mo = r.range(1, 12); t0.d = r.range(1, 28); t0.h = r.below(24); t0.mi = r.chance(0.3) ? r.below(60) : 0;
    t0.unit = r.pick(s.ed == 1 ? std::vector<long>{0, 1, 1, 2, 3, 4, 10, 11, 12} : std::vector<long>{0, 1, 1, 2, 3, 4, 10, 11, 12, 13});
    t0.step = r.chance(0.5) ? 0 : r.below(20);
    const size_t nt = r.range(1, 4);
    std::vector<GTime> ts;
    for (size_t i = 0; i < nt; ++i) { GTime t = t0; ts.push_back(t); t0.step += r.range(1, 9); }
    s.ref = ts[0].ref();
    const size_t nv = r.range(1, 3);
    const size_t nens = r.chance(0.35) ? r.range(2, 4) : 0;
    std::set<long> used;
    for (size_t i = 0; i < nv; ++i) {
        GVar v;
        v.name = "v" + std::to_string(i);
        do v.p0 = s.ed == 1 ? r.range(1, 130) : r.range(0, 20); while (!used.insert(v.p0).second);
        v.p1 = s.ed == 1 ? 2 : r.below(4);
        v.p2 = s.ed == 1 ? 98 : 0;
        v.ltype = r.pick(s.ed == 1 ? std::vector<long>{1, 100, 105} : std::vector<long>{1, 100, 103});
        std::set<long> lv;
        if (v.ltype == 1) lv.insert(0);
        else for (size_t k = 0, n = r.range(1, 4); k < n; ++k) lv.insert(v.ltype == 100 ? r.pick(std::vector<long>{1000, 925, 850, 700, 500, 300, 100, 50, 10, 1}) : r.range(0, 300));
        v.levels.assign(lv.begin(), lv.end());
        v.nens = r.chance(0.7) ? nens : 0;
        v.constTime = r.chance(0.12);
        v.grid = r.below(s.grids.size());
        switch (r.below(5)) {
        case 0: v.type = CDM_FLOAT; break;
        case 1: v.type = CDM_SHORT; v.scale = 0.05; v.offset = r.chance(0.5) ? 20 : 0; break;
        case 2: v.type = CDM_INT; v.scale = 0.002; v.offset = 0; break;
        case 3: if (r.chance(0.5)) { v.type = CDM_FLOAT; v.scale = 0.25; } break;
        default: break;
        }
        s.vars.push_back(v);
    }
    std::vector<std::pair<std::string, bool>> msgs;
    for (auto& v : s.vars) {
        const GGrid& g = s.grids[v.grid];
        const double base0 = r.uni(-500, 500), amp = std::exp(r.uni(0, 6));
        for (size_t ti = 0; ti < (v.constTime ? 1 : ts.size()); ++ti)
            for (long lv : v.levels)
                for (size_t e = 0; e < std::max<size_t>(1, v.nens); ++e) {
                    const bool first = v.fields.empty();
                    if (!first && r.chance(0.15)) continue; // absent message
                    GH h(codes_grib_handle_new_from_samples(nullptr, s.ed == 1 ? "GRIB1" : "GRIB2"));
                    if (s.ed == 2 && v.nens) h.L("productDefinitionTemplateNumber", 1);
                    g.apply(h, s.ed);
                    if (s.ed == 1) {
                        h.L("centre", v.p2);
                        h.L("gribTablesVersionNo", v.p1);
                        h.L("indicatorOfParameter", v.p0);
                        if (v.nens) { h.L("setLocalDefinition", 1); h.L("localDefinitionNumber", 1); h.L("perturbationNumber", e); h.L("numberOfForecastsInEnsemble", v.nens); }
                        h.L("indicatorOfTypeOfLevel", v.ltype);
                        h.L("level", lv);
                    } else {
                        if (v.nens) { h.L("perturbationNumber", e); h.L("numberOfForecastsInEnsemble", v.nens); }
                        h.L("discipline", v.p2);
                        h.L("parameterCategory", v.p1);
                        h.L("parameterNumber", v.p0);
                        h.L("typeOfFirstFixedSurface", v.ltype);
                        h.L("scaleFactorOfFirstFixedSurface", 0);
                        h.L("scaledValueOfFirstFixedSurface", v.ltype == 100 ? lv * 100 : lv);
                    }
                    const GTime& t = ts[ti];
                    h.L("dataDate", t.y * 10000 + t.mo * 100 + t.d);
                    h.L("dataTime", t.h * 100 + t.mi);
                    h.L("indicatorOfUnitOfTimeRange", t.unit);
                    if (s.ed == 1) { h.L("timeRangeIndicator", 0); h.L("P1", t.step); }
                    else h.L("forecastTime", t.step);
                    dv val(g.nx * g.ny);
                    for (double& x : val) x = base0 + r.uni(-amp, amp);
                    const bool bm = r.chance(0.5);
                    h.D("missingValue", 1e20);
                    h.L("bitmapPresent", bm ? 1 : 0);
                    if (bm) for (double& x : val) if (r.chance(0.2)) x = 1e20;
                    if (bm) val[r.below(val.size())] = base0; // ecCodes cannot decode some all-missing fields
                    h.L("bitsPerValue", r.pick(std::vector<long>{8, 12, 16, 24}));
                    h.values(val);
                    dv got = h.values();
                    if (got.size() != val.size()) throw GribErr("harness: values size");
                    for (size_t i = 0; i < got.size(); ++i) if (bm && val[i] == 1e20) got[i] = NAN;
                    v.fields[{v.constTime ? 0 : t.valid(), lv, (long long)e}] = g.order(got);
                    if (!v.constTime && std::find(s.times.begin(), s.times.end(), t.valid()) == s.times.end()) s.times.push_back(t.valid());
                    msgs.push_back(std::make_pair(h.msg(), first));
                    c.cnt("messages");
                }
    }
    std::sort(s.times.begin(), s.times.end());
    for (auto& v : s.vars) { // levels without any message do not exist
        std::set<long> lv;
        for (auto& f : v.fields) lv.insert(f.first[1]);
        v.levels.assign(lv.begin(), lv.end());
    }
    r.shuffle(msgs);
    const size_t nf = multiFile && r.chance(0.4) ? r.range(2, 3) : 1;
    std::vector<std::string> content(nf);
    for (auto& m : msgs) content[r.below(nf)] += m.first;
    for (size_t i = 0; i < nf; ++i) {
        if (content[i].empty()) continue;
        const std::string fn = base + (nf > 1 ? std::to_string(i) : "") + ".grb";
        std::ofstream(fn, std::ios::binary) << content[i];
        s.files.push_back(fn);
    }
    return s;
}
//! combinations ecCodes cannot encode are skipped (and counted)
inline GSet rndGSet(Ctx& c, const std::string& base, bool fancyScan, bool multiFile)
{
    try {
        return rndGSet1(c, base, fancyScan, multiFile);
    } catch (GribErr& e) {
        c.cnt("skipped: not encodable by ecCodes");
        throw Skip();
    }
}
//! grid positions of a message from its keys, following the GRIB manual (ecCodes' iterators ignore scan flags for some grids)
inline void gribPositions(const GH& h, dv& lon, dv& lat)
{
    const std::string type = h.s("gridType");
    const int ed = h.l("edition");
    const long nx = h.l("Ni"), ny = h.l("Nj");
    const double sx = h.l("iScansNegatively") ? -1 : 1, sy = h.l("jScansPositively") ? 1 : -1;
    const double lon1 = h.d("longitudeOfFirstGridPointInDegrees"), lat1 = h.d("latitudeOfFirstGridPointInDegrees"), D = M_PI / 180;
    if (h.l("jPointsAreConsecutive")) throw GribErr("harness: j consecutive");
    if (type == "regular_ll" || type == "rotated_ll") {
        const double dx = h.d("iDirectionIncrementInDegrees") * sx, dy = h.d("jDirectionIncrementInDegrees") * sy;
        Proj p;
        p.kind = type == "rotated_ll" ? Proj::ROTATED : Proj::LATLON;
        if (type == "rotated_ll") { p.latp = -h.d("latitudeOfSouthernPoleInDegrees"); p.lonp = h.d("longitudeOfSouthernPoleInDegrees") + 180; }
        const double el = h.d("longitudeOfLastGridPointInDegrees"), ea = h.d("latitudeOfLastGridPointInDegrees");
        const double tol = nx * (ed == 1 ? 2e-3 : 2e-6);
        if (std::fabs(std::remainder(lon1 + dx * (nx - 1) - el, 360.)) > tol || std::fabs(lat1 + dy * (ny - 1) - ea) > ny * (ed == 1 ? 2e-3 : 2e-6)) throw Violation{"write:last-point", "first point, increments and last point are inconsistent"};
        for (long j = 0; j < ny; ++j) for (long i = 0; i < nx; ++i) { double a, b; p.inv(lon1 + dx * i, lat1 + dy * j, a, b); lon.push_back(a); lat.push_back(b); }
        return;
    }
    const double dx = h.d("DxInMetres") * sx, dy = h.d("DyInMetres") * sy;
    std::ostringstream ps;
    ps.precision(12);
    if (type == "polar_stereographic") {
        const bool south = h.l(ed == 1 ? "projectionCenterFlag" : "projectionCentreFlag") & 128;
        ps << "+proj=stere +lat_0=" << (south ? -90 : 90) << " +lat_ts=" << (ed == 1 ? (south ? -60. : 60.) : h.d("latitudeWhereDxAndDyAreSpecifiedInDegrees")) << " +lon_0=" << h.d("orientationOfTheGridInDegrees");
    } else if (type == "lambert") {
        ps << "+proj=lcc +lat_1=" << h.d("Latin1InDegrees") << " +lat_2=" << h.d("Latin2InDegrees") << " +lat_0=" << h.d("Latin1InDegrees") << " +lon_0=" << h.d("LoVInDegrees");
    } else
        throw GribErr("harness: grid " + type);
    if (ed == 1) ps << (h.l("earthIsOblate") ? " +a=6378160 +b=6356775" : " +a=6367470 +e=0");
    else if (h.l("shapeOfTheEarth") == 6) ps << " +a=6371229 +e=0";
    else if (h.l("shapeOfTheEarth") == 0) ps << " +a=6367470 +e=0";
    else throw GribErr("harness: shape");
    std::shared_ptr<PJ> pj(proj_create(PJ_DEFAULT_CTX, ps.str().c_str()), proj_destroy);
    if (!pj) throw std::logic_error("harness: proj_create " + ps.str());
    const PJ_COORD o = proj_trans(pj.get(), PJ_FWD, proj_coord(lon1 * D, lat1 * D, 0, 0));
    for (long j = 0; j < ny; ++j) for (long i = 0; i < nx; ++i) {
        const PJ_COORD q = proj_trans(pj.get(), PJ_INV, proj_coord(o.xy.x + dx * i, o.xy.y + dy * j, 0, 0));
        lon.push_back(q.lp.lam / D);
        lat.push_back(q.lp.phi / D);
    }
}
inline double lonDiff(double a, double b) { double d = std::fmod(a - b, 360.); if (d > 180) d -= 360; if (d < -180) d += 360; return std::fabs(d); }
} // namespace vf
#endif
