// C29: recognised coordinate systems vs the axes, types, grid mappings and vertical coordinates the dataset was built from.
#include "grid.h"
#include <fimex/coordSys/CoordinateSystem.h>
#include <fimex/coordSys/Projection.h>
#include <fimex/coordSys/verticalTransform/VerticalTransformation.h>
using namespace vf;
typedef CoordinateAxis CA;

struct AxisSpec { std::string name; CA::AxisType type; bool dim; sv shape; };
struct Group { std::string xn, yn; Grid g; bool ll2d = false, mapped = false, ll = false; std::string sfx; };
struct Term { std::string key, var; };

typedef std::vector<std::pair<std::string, std::string>> Marks;
static Marks mark(Rng& r, CA::AxisType t)
{
    std::vector<Marks> m;
    const std::string tu = r.pick(sv{"hours since 2020-01-01 00:00:00", "days since 1970-01-01", "seconds since 1970-01-01 00:00:00 +00:00", "minutes since 2000-02-29 12:00"});
    switch (t) {
    case CA::Lon: m = {{{"standard_name", "longitude"}, {"units", "degrees_east"}}, {{"standard_name", "longitude"}}, {{"units", r.pick(sv{"degrees_east", "degree_east", "Degree_East", "DEGREES_EAST", "degree_E", "degrees_E", "degreeE", "degreesE"})}}, {{"axis", "X"}, {"units", "degrees_east"}}}; break;
    case CA::Lat: m = {{{"standard_name", "latitude"}, {"units", "degrees_north"}}, {{"standard_name", "latitude"}}, {{"units", r.pick(sv{"degrees_north", "degree_north", "Degree_North", "DEGREES_NORTH", "degree_N", "degrees_N", "degreeN", "degreesN"})}}, {{"axis", "Y"}, {"units", "degrees_north"}}}; break;
    case CA::GeoX: m = {{{"standard_name", "projection_x_coordinate"}, {"units", r.pick(sv{"m", "km"})}}, {{"standard_name", "grid_longitude"}, {"units", "degrees"}}, {{"axis", r.pick(sv{"X", "x"})}, {"units", "m"}}, {{"axis", "X"}}}; break;
    case CA::GeoY: m = {{{"standard_name", "projection_y_coordinate"}, {"units", r.pick(sv{"m", "km"})}}, {{"standard_name", "grid_latitude"}, {"units", "degrees"}}, {{"axis", r.pick(sv{"Y", "y"})}, {"units", "m"}}, {{"axis", "Y"}}}; break;
    case CA::Time: m = {{{"standard_name", "time"}, {"units", tu}}, {{"units", tu}}, {{"axis", "T"}, {"units", tu}}, {{"axis", "T"}}}; break;
    case CA::Pressure: m = {{{"units", r.pick(sv{"hPa", "Pa", "mbar", "dbar", "kPa"})}}, {{"standard_name", "air_pressure"}, {"units", "hPa"}, {"positive", "down"}}, {{"axis", "Z"}, {"units", "Pa"}}, {{"positive", "down"}, {"units", "hPa"}, {"axis", "Z"}}}; break;
    case CA::Height: m = {{{"positive", "up"}, {"units", r.pick(sv{"m", "km", "cm"})}}, {{"standard_name", "height"}, {"positive", "up"}, {"units", "m"}}, {{"axis", "Z"}, {"units", "m"}}, {{"standard_name", "altitude"}, {"positive", "up"}, {"units", "m"}, {"axis", "Z"}},
                          {{"standard_name", r.pick(sv{"height_above_mean_sea_level", "height_above_geopotential_datum", "height_above_reference_ellipsoid", "barometric_altitude"})}, {"positive", "up"}, {"units", "m"}}}; break;
    case CA::Depth: m = {{{"positive", "down"}, {"units", r.pick(sv{"m", "km"})}}, {{"standard_name", "depth"}, {"positive", "down"}, {"units", "m"}, {"axis", "Z"}}}; break;
    case CA::GeoZ: m = {{{"units", r.pick(sv{"level", "layer", "sigma_level"})}}, {{"positive", "down"}}, {{"positive", r.pick(sv{"up", "down"})}, {"units", "1"}}, {{"axis", "Z"}}, {{"axis", "z"}, {"units", "1"}}, {{"standard_name", r.pick(sv{"ocean_sigma_coordinate", "atmosphere_sleve_coordinate", "ocean_sigma_z_coordinate", "ocean_double_sigma_coordinate"})}}}; break;
    case CA::ReferenceTime: m = {{{"standard_name", "forecast_reference_time"}, {"units", tu}}, {{"standard_name", "forecast_reference_time"}}}; break;
    case CA::Realization: m = {{{"standard_name", "realization"}}, {{"standard_name", "realization"}, {"units", "1"}, {"axis", "E"}}}; break;
    default: m = {{}, {{"units", "m"}}, {{"long_name", "something"}}, {{"units", "1"}, {"standard_name", "region"}}, {{"units", "degrees"}}, {{"units", "hours"}}}; break;
    }
    return r.pick(m);
}

struct World
{
    Dataset ds;
    std::map<std::string, AxisSpec> axes;
    std::vector<Group> groups;
    std::map<std::string, sv> coords;           // data variable -> coordinates
    std::map<std::string, int> grp;             // data variable -> group (-1)
    sv data;
    std::string zName;
    std::string vtName;                         // expected transformation name
    std::vector<Term> terms;                    // terms which must fit into the system
};

static std::string describe(const CoordinateSystem_cp_v& css, const World& w)
{
    std::set<std::string> l;
    for (auto& cs : css) {
        std::ostringstream o;
        std::set<std::string> ax;
        for (auto& a : cs->getAxes()) ax.insert(a->getName() + ":" + a->getAxisTypeStr() + (a->isExplicit() ? "!" : ""));
        for (auto& a : ax) o << a << ' ';
        auto nm = [](const CoordinateAxis_cp& a) { return a ? a->getName() : std::string("-"); };
        o << "| x=" << nm(cs->getGeoXAxis()) << " y=" << nm(cs->getGeoYAxis()) << " z=" << nm(cs->getGeoZAxis()) << " t=" << nm(cs->getTimeAxis()) << " simple=" << cs->isSimpleSpatialGridded();
        if (cs->hasProjection()) o << " proj=" << cs->getProjection()->getProj4String();
        if (cs->hasVerticalTransformation()) o << " vt=" << cs->getVerticalTransformation()->getName();
        for (auto& v : w.data) o << ' ' << v << ':' << cs->isCSFor(v) << cs->isComplete(v);
        o << " dep=" << vstr(sv([&] { auto s = cs->getDependencyVariables(); return sv(s.begin(), s.end()); }()));
        l.insert(o.str());
    }
    std::string s;
    for (auto& x : l) s += x + "\n";
    return s;
}

static void cf(Ctx& c)
{
    Rng& r = c.r;
    World w;
    Dataset& ds = w.ds;
    if (r.chance(0.8)) ds.att("_GLOBAL", r.pick(sv{"Conventions", "Conventions", "conventions"}), r.pick(sv{"CF-1.0", "CF-1.6", "CF-1.8, ACDD-1.3", "COARDS", "ACDD-1.3 CF-1.7"}));
    else c.cnt("no-conventions");
    auto addAxis = [&](const std::string& n, CA::AxisType t, size_t len, bool unlim) {
        ds.addDim(n, len, unlim);
        w.axes[n] = AxisSpec{n, t, true, {n}};
        if (t == CA::Undefined && r.chance(0.5)) { c.cnt("dim-without-variable"); return; }
        dv val;
        for (size_t i = 0; i < len; ++i) val.push_back(i + 1);
        ds.add(n, r.pick({CDM_DOUBLE, CDM_FLOAT, CDM_INT}), {n}, val);
        for (auto& m : mark(r, t)) ds.att(n, m.first, m.second);
        c.cnt("axis-" + CA::type2string(t));
    };
    // horizontal groups
    const int ng = r.range(1, 3);
    static const sv sfx = {"", "_b", "2"};
    for (int i = 0; i < ng; ++i) {
        Group g;
        g.sfx = sfx[i];
        const int kind = r.below(4);
        if (kind < 3) {
            g.g = rndGrid(r, r.uni(-170, 170), r.uni(-60, 75), 50, kind == 0 ? (int)Proj::LATLON : -1, 2, 4, false);
            g.ll = g.g.p.kind == Proj::LATLON;
            g.ll2d = !g.ll && r.chance(0.5);
            auto xy = addGrid(ds, g.g, r, g.sfx, g.ll2d);
            g.xn = xy.first;
            g.yn = xy.second;
            g.mapped = !g.ll;
            if (g.ll && r.chance(0.3)) { // lon/lat grids may have a mapping, too
                g.mapped = true;
                ds.add("crs" + g.sfx, CDM_INT, {}, {0.});
                ds.att("crs" + g.sfx, "grid_mapping_name", "latitude_longitude");
                ds.att("crs" + g.sfx, "earth_radius", CDM_DOUBLE, {6371229});
            }
            w.axes[g.xn] = AxisSpec{g.xn, g.ll ? CA::Lon : CA::GeoX, true, {g.xn}};
            w.axes[g.yn] = AxisSpec{g.yn, g.ll ? CA::Lat : CA::GeoY, true, {g.yn}};
        } else { // marked axes without a known projection
            const bool ll = r.chance(0.3);
            g.xn = r.pick(sv{"a", "xx", "west"}) + g.sfx;
            g.yn = r.pick(sv{"bb", "yy", "south"}) + g.sfx;
            addAxis(g.xn, ll ? CA::Lon : CA::GeoX, r.range(1, 4), false);
            addAxis(g.yn, ll ? CA::Lat : CA::GeoY, r.range(1, 4), false);
            g.ll = ll;
            g.ll2d = !ll && r.chance(0.6);
            if (g.ll2d) {
                ds.add("glon" + g.sfx, CDM_DOUBLE, {g.xn, g.yn});
                ds.add("glat" + g.sfx, CDM_DOUBLE, {g.xn, g.yn});
                for (auto& m : mark(r, CA::Lon)) if (m.first != "axis") ds.att("glon" + g.sfx, m.first, m.second);
                for (auto& m : mark(r, CA::Lat)) if (m.first != "axis") ds.att("glat" + g.sfx, m.first, m.second);
            }
        }
        if (g.ll2d) {
            w.axes["glon" + g.sfx] = AxisSpec{"glon" + g.sfx, CA::Lon, false, {g.xn, g.yn}};
            w.axes["glat" + g.sfx] = AxisSpec{"glat" + g.sfx, CA::Lat, false, {g.xn, g.yn}};
        }
        w.groups.push_back(g);
    }
    // vertical
    const int vk = r.below(7);
    w.zName = r.pick(sv{"lev", "k", "depth", "zz", "height_above_msl"});
    if (vk < 4) {
        static const CA::AxisType T[] = {CA::Pressure, CA::Height, CA::Depth, CA::GeoZ};
        addAxis(w.zName, T[vk], r.range(1, 4), false);
        w.vtName = vk == 0 ? "pressure" : vk == 1 ? "height" : vk == 2 ? "depth" : "";
        c.cnt("vertical-plain");
    } else if (vk < 6) { // parametric
        ds.addDim(w.zName, r.range(1, 4));
        w.axes[w.zName] = AxisSpec{w.zName, CA::GeoZ, true, {w.zName}};
        ds.add(w.zName, CDM_DOUBLE, {w.zName});
        if (r.chance(0.5)) ds.att(w.zName, "units", "1");
        if (r.chance(0.5)) ds.att(w.zName, "positive", "down");
        sv ps = {w.groups[0].xn, w.groups[0].yn};
        const std::string z = w.zName;
        auto one = [&](const std::string& n, const sv& s) { ds.add(n, CDM_FLOAT, s); if (!s.empty()) { w.data.push_back(n); w.grp[n] = -1; } };
        std::vector<Term> all;
        if (vk == 4) {
            ds.att(z, "standard_name", "atmosphere_hybrid_sigma_pressure_coordinate");
            const bool ap = r.chance(0.5);
            if (ap) { one("ap", {z}); one("b", {z}); one("ps", ps); all = {{"ap", "ap"}, {"b", "b"}, {"ps", "ps"}}; }
            else { one("ah", {z}); one("bh", {z}); one("ps", ps); one("p0", {}); all = {{"a", "ah"}, {"b", "bh"}, {"ps", "ps"}, {"p0", "p0"}}; }
            w.vtName = std::string("atmosphere_hybrid_sigma_pressure_coordinate_") + (ap ? "1" : "2");
        } else {
            ds.att(z, "standard_name", "atmosphere_sigma_coordinate");
            one("sg", {z}); one("ps", ps); one("ptop", {});
            all = {{"sigma", "sg"}, {"ps", "ps"}, {"ptop", "ptop"}};
            w.vtName = "atmosphere_sigma_coordinate";
        }
        w.terms = all;
        r.shuffle(all);
        std::string ft;
        for (auto& t : all) ft += (ft.empty() ? "" : " ") + t.key + r.pick(sv{": ", ":"}) + t.var;
        ds.att(z, "formula_terms", ft);
        if (w.groups[0].mapped) { ds.att("ps", "grid_mapping", "crs" + w.groups[0].sfx); }
        w.grp["ps"] = 0;
        c.cnt("vertical-parametric");
    } else w.zName = "";
    const bool ens = r.chance(0.3), refDim = r.chance(0.15), other = r.chance(0.4), tim = r.chance(0.85);
    if (ens) addAxis(r.pick(sv{"ens", "member"}), CA::Realization, r.range(1, 3), false);
    std::string ensN = ens ? ds.dims.back().name : "";
    if (refDim) addAxis("runtime", CA::ReferenceTime, r.range(1, 3), false);
    if (other) addAxis(r.pick(sv{"station", "nv", "q"}), CA::Undefined, r.range(1, 3), false);
    std::string othN = other ? ds.dims.back().name : "";
    std::string timN;
    if (tim) { timN = r.pick(sv{"time", "t", "Date"}); addAxis(timN, CA::Time, r.range(1, 4), r.chance(0.6)); }
    // scalar and same-type auxiliary coordinates
    sv scalars;
    auto aux = [&](const std::string& n, CA::AxisType t, const sv& shape) {
        ds.add(n, CDM_DOUBLE, shape);
        for (auto& m : mark(r, t)) ds.att(n, m.first, m.second);
        w.axes[n] = AxisSpec{n, t, false, shape};
        scalars.push_back(n);
        c.cnt("aux-" + CA::type2string(t));
    };
    if (!refDim && r.chance(0.4)) aux("forecast_reference_time", CA::ReferenceTime, {});
    if (r.chance(0.3)) aux(r.pick(sv{"hgt0", "zh", "Height0"}), CA::Height, {});
    if (tim && r.chance(0.3)) aux(r.pick(sv{"A_time", "timebis", "zulu"}), CA::Time, {timN}); // second time coordinate
    if (other && r.chance(0.3)) aux(r.pick(sv{"Aname", "znames"}), CA::Undefined, {othN});
    // data variables
    const int nv = r.range(1, 7);
    sv dimNames;
    for (auto& d : ds.dims) dimNames.push_back(d.name);
    for (int i = 0; i < nv; ++i) {
        const std::string n = std::string(r.chance(0.5) ? "v" : "Q") + std::to_string(i);
        sv shape;
        int gi = -1;
        const int how = r.below(8);
        sv co;
        if (how < 6) {
            gi = r.below(w.groups.size());
            const Group& g = w.groups[gi];
            shape = {g.xn, g.yn};
            if (r.chance(0.2)) std::swap(shape[0], shape[1]);
            if (g.ll2d && r.chance(0.8)) { co.push_back("glon" + g.sfx); co.push_back("glat" + g.sfx); }
            else if (g.ll && r.chance(0.2)) { co.push_back(g.xn); co.push_back(g.yn); } // true axes named as coordinates
        } else if (how == 6) shape = {r.chance(0.5) ? w.groups[0].xn : w.groups[0].yn};
        if (!w.zName.empty() && r.chance(0.5)) shape.push_back(w.zName);
        if (ens && r.chance(0.5)) shape.push_back(ensN);
        if (refDim && r.chance(0.4)) shape.push_back("runtime");
        if (other && r.chance(0.3)) shape.push_back(othN);
        if (tim && r.chance(0.7)) shape.push_back(timN);
        for (auto& s : scalars) {
            bool fits = true;
            for (auto& d : w.axes[s].shape) fits = fits && std::find(shape.begin(), shape.end(), d) != shape.end();
            if (fits && r.chance(0.4)) co.push_back(s);
        }
        if (shape.empty() && co.empty()) continue;
        ds.add(n, CDM_FLOAT, shape);
        w.data.push_back(n);
        w.grp[n] = gi;
        if (!co.empty()) {
            r.shuffle(co);
            std::string s;
            for (auto& x : co) s += (s.empty() ? "" : r.chance(0.1) ? "  " : " ") + x;
            ds.att(n, "coordinates", s);
            w.coords[n] = co;
        }
        if (gi >= 0 && w.groups[gi].mapped) ds.att(n, "grid_mapping", "crs" + w.groups[gi].sfx);
    }
    // cell boundaries of axes, also of those which are not dimensions
    std::map<std::string, std::string> bounds;
    if (r.chance(0.3)) {
        for (auto& a : std::map<std::string, AxisSpec>(w.axes)) {
            if (a.second.shape.size() > 1 || !ds.hasVar(a.first) || !r.chance(0.4)) continue;
            if (!w.axes.count("bnds")) { ds.addDim("bnds", 2); w.axes["bnds"] = AxisSpec{"bnds", CA::Undefined, true, {"bnds"}}; }
            const std::string b = a.first + "_bnds";
            sv sh = {"bnds"};
            sh.insert(sh.end(), a.second.shape.begin(), a.second.shape.end());
            ds.add(b, CDM_DOUBLE, sh);
            ds.att(a.first, "bounds", b);
            w.data.push_back(b);
            w.grp[b] = -1;
            bounds[a.first] = b;
        }
    }
    c.d << ds.str() << '\n';
    for (auto& a : ds.attrs) c.d << a.first << " " << attrStr(a.second) << "; ";
    r.shuffle(ds.vars);
    std::shared_ptr<MemReader> rd(new MemReader(ds));
    const std::string before = cdmStr(rd->getCDM());
    CoordinateSystem_cp_v css = listCoordinateSystems(CDMReader_p(rd));
    VCHECK(c, before == cdmStr(rd->getCDM()), "cdm-changed", firstDiff(before, cdmStr(rd->getCDM())));
    c.d << '\n' << describe(css, w);

    std::set<std::set<std::string>> distinct;
    for (auto& v : w.data) {
        CoordinateSystem_cp cs = findCompleteCoordinateSystemFor(css, v);
        const sv shape = ds.var(v).shape;
        const sv co = w.coords.count(v) ? w.coords[v] : sv();
        VCHECK(c, !!cs, "none", "no coordinate system for " << v << vstr(shape) << " coordinates " << vstr(co));
        size_t nComplete = 0;
        for (auto& k : css) nComplete += k->isCSAndCompleteFor(v);
        VCHECK(c, nComplete == 1, "ambiguous", v << " has " << nComplete << " coordinate systems");
        std::map<std::string, CoordinateAxis_cp> got;
        for (auto& a : cs->getAxes()) { VCHECK(c, !got.count(a->getName()), "axis-twice", v << " axis " << a->getName()); got[a->getName()] = a; }
        std::set<CA::AxisType> dimTypes;
        std::map<std::string, AxisSpec> want;
        for (auto& s : shape) { want[s] = w.axes.at(s); dimTypes.insert(w.axes.at(s).type); }
        std::set<std::string> conflicts;
        for (auto& s : co) if (!want.count(s)) {
            const AxisSpec& a = w.axes.at(s);
            if (a.type != CA::Undefined && dimTypes.count(a.type)) { conflicts.insert(s); c.cnt("aux-type-conflict"); }
            else want[s] = a;
        }
        for (auto& x : want) {
            VCHECK(c, got.count(x.first), "axis-missing", v << vstr(shape) << " coordinates " << vstr(co) << ": axis " << x.first << " missing in " << cs->id());
            VCHECK(c, got[x.first]->getAxisType() == x.second.type, "axis-type", "axis " << x.first << " is " << got[x.first]->getAxisTypeStr() << ", marked as " << CA::type2string(x.second.type));
            VCHECK(c, got[x.first]->isExplicit() == x.second.dim, "axis-explicit", "axis " << x.first);
            VCHECK(c, sv(got[x.first]->getShape()) == x.second.shape, "axis-shape", "axis " << x.first);
        }
        for (auto& x : got) VCHECK(c, want.count(x.first) || conflicts.count(x.first), "axis-extra", v << vstr(shape) << ": foreign axis " << x.first << " in " << cs->id());
        std::set<std::string> gs;
        for (auto& x : got) gs.insert(x.first);
        distinct.insert(gs);
        // convenience accessors
        auto first = [&](const std::vector<CA::AxisType>& ts) -> std::string {
            for (auto t : ts) { for (auto& x : want) if (x.second.type == t && x.second.dim) return x.first; for (auto& x : want) if (x.second.type == t) return x.first; }
            return "";
        };
        auto nm = [](const CoordinateAxis_cp& a) { return a ? a->getName() : std::string(); };
        const std::string X = first({CA::GeoX, CA::Lon}), Y = first({CA::GeoY, CA::Lat}), T = first({CA::Time}), Z = first({CA::GeoZ, CA::Height, CA::Depth, CA::Pressure});
        VCHECK(c, nm(cs->getGeoXAxis()) == X && nm(cs->getGeoYAxis()) == Y && nm(cs->getTimeAxis()) == T && nm(cs->getGeoZAxis()) == Z, "axis-role",
               v << ": x,y,z,t = " << nm(cs->getGeoXAxis()) << ',' << nm(cs->getGeoYAxis()) << ',' << nm(cs->getGeoZAxis()) << ',' << nm(cs->getTimeAxis()) << " expected " << X << ',' << Y << ',' << Z << ',' << T);
        const bool simple = !X.empty() && !Y.empty() && want[X].dim && want[Y].dim;
        VCHECK(c, cs->isSimpleSpatialGridded() == simple, "simple", v << " simple=" << cs->isSimpleSpatialGridded());
        // projection
        const int gi = w.grp[v];
        const bool isLL = simple && want[X].type == CA::Lon && want[Y].type == CA::Lat;
        const bool wantProj = (gi >= 0 && w.groups[gi].mapped) || isLL;
        VCHECK(c, cs->hasProjection() == wantProj, "projection", v << " projection " << cs->hasProjection() << " expected " << wantProj);
        if (wantProj && (gi < 0 || w.groups[gi].g.nx() == 0 || w.groups[gi].ll)) {
            VCHECK(c, cs->getProjection()->getName() == "latitude_longitude", "projection-name", v << " " << cs->getProjection()->getName());
            const bool radius = cs->getProjection()->getProj4EarthString().find("6371229") != std::string::npos;
            VCHECK(c, radius == (gi >= 0 && w.groups[gi].mapped), "projection-earth", v << " " << cs->getProjection()->getProj4EarthString());
            c.cnt("latlon-systems");
        } else if (wantProj) {
            const Grid& g = w.groups[gi].g;
            static const char* NAMES[] = {"latitude_longitude", "rotated_latitude_longitude", "polar_stereographic", "lambert_conformal_conic", "mercator"};
            VCHECK(c, cs->getProjection()->getName() == NAMES[g.p.kind], "projection-name", v << " " << cs->getProjection()->getName() << " expected " << NAMES[g.p.kind]);
            double lon, lat;
            g.lonlat(0, 0, lon, lat);
            dv px(1, lon), py(1, lat);
            cs->getProjection()->convertFromLonLat(px, py);
            const double tol = g.p.deg() ? 1e-4 : 5;
            double dx = px[0] - g.x.v[0];
            if (g.p.deg()) dx = std::remainder(dx, 360);
            VCHECK(c, std::fabs(dx) < tol && std::fabs(py[0] - g.y.v[0]) < tol, "projection-parameters", v << " " << cs->getProjection()->getProj4String() << " maps " << lon << ',' << lat << " to " << px[0] << ',' << py[0] << " expected " << g.x.v[0] << ',' << g.y.v[0]);
            c.cnt("projected-systems");
        }
        if (wantProj && gi >= 0 && w.groups[gi].mapped) VCHECK(c, cs->getDependencyVariables().count("crs" + w.groups[gi].sfx), "dependency", v << " does not depend on its grid mapping");
        for (auto& x : got) VCHECK(c, cs->getDependencyVariables().count(x.first), "dependency", v << " does not depend on its axis " << x.first);
        for (auto& x : got) if (bounds.count(x.first)) { VCHECK(c, cs->getDependencyVariables().count(bounds[x.first]), "dependency", v << " does not depend on the bounds of its axis " << x.first); c.cnt("bounds"); }
        // vertical transformation
        if (!Z.empty() && want[Z].dim && Z == w.zName) {
            bool has = !w.vtName.empty();
            for (auto& t : w.terms)
                for (auto& d : ds.var(t.var).shape) if (ds.dim(d).len > 1 && !got.count(d)) has = false;
            VCHECK(c, cs->hasVerticalTransformation() == has, "vertical", v << " vertical transformation " << cs->hasVerticalTransformation() << " expected " << has);
            if (has) {
                if (vk == 1) { // metres above mean sea level or above ground
                    bool alt = w.zName == "height_above_msl";
                    for (auto& a : ds.attrs) if (a.first == w.zName && a.second.getName() == "standard_name" && (a.second.getStringValue().find("altitude") != std::string::npos || a.second.getStringValue().find("height_above_") == 0)) alt = true;
                    w.vtName = alt ? "altitude" : "height";
                }
                VCHECK(c, cs->getVerticalTransformation()->getName() == w.vtName, "vertical-name", v << " " << cs->getVerticalTransformation()->getName() << " expected " << w.vtName);
                for (auto& t : w.terms) VCHECK(c, cs->getDependencyVariables().count(t.var), "dependency", v << " does not depend on term " << t.var);
                c.cnt("vertical-transformations");
            }
        }
        c.cnt("variables");
    }
    std::set<std::string> referenced;
    for (auto& k : w.coords) referenced.insert(k.second.begin(), k.second.end());
    for (auto& v : ds.vars)
        if (w.axes.count(v.name) && !w.axes[v.name].dim && !referenced.count(v.name) && !v.shape.empty()) distinct.insert(std::set<std::string>(v.shape.begin(), v.shape.end()));
    VCHECK(c, distinct.size() == css.size(), "surplus", css.size() << " coordinate systems for " << distinct.size() << " sets of axes");

    // best horizontal systems
    for (int proj = 0; proj < 2; ++proj) {
        std::map<std::string, CoordinateSystem_cp> sys;
        std::map<std::string, std::string> vars;
        std::vector<std::string> incompat;
        findBestHorizontalCoordinateSystems(proj, CDMReader_p(rd), sys, vars, incompat);
        const std::set<std::string> inc(incompat.begin(), incompat.end());
        std::set<std::string> hor;
        for (auto& v : w.data) {
            CoordinateSystem_cp cs = findCompleteCoordinateSystemFor(css, v);
            const bool ok = proj ? cs->isSimpleSpatialGridded() && cs->hasProjection() : cs->hasAxisType(CA::Lat) && cs->hasAxisType(CA::Lon);
            if (ok) {
                const std::string id = cs->getGeoXAxis()->getName() + "," + cs->getGeoYAxis()->getName();
                hor.insert(id);
                VCHECK(c, vars.count(v) && vars[v] == id, "horizontal-variable", v << " -> " << (vars.count(v) ? vars[v] : "none") << " expected " << id << " withProjection=" << proj);
                VCHECK(c, sys.count(id) && sys[id]->isCSFor(v), "horizontal-system", id);
                if (proj) {
                    VCHECK(c, *sys[id]->getProjection() == *cs->getProjection(), "horizontal-projection", id);
                }
                VCHECK(c, !inc.count(v), "horizontal-incompatible", v << " is compatible");
            }
        }
        for (auto& s : sys) VCHECK(c, hor.count(s.first), "horizontal-surplus", s.first);
        if (proj) for (auto& v : w.data) {
            const sv& sh = ds.var(v).shape;
            bool shares = false;
            for (auto& s : sys) { const size_t k = s.first.find(','); for (auto& d : sh) shares = shares || d == s.first.substr(0, k) || d == s.first.substr(k + 1); }
            VCHECK(c, vars.count(v) || inc.count(v) == shares, "incompatible", v << vstr(sh) << " reported incompatible: " << inc.count(v) << " shares a horizontal dimension: " << shares);
        }
    }

    // independence of the order of declarations
    const std::string d0 = describe(css, w);
    Dataset ds2 = ds;
    r.shuffle(ds2.vars);
    r.shuffle(ds2.dims);
    r.shuffle(ds2.attrs);
    std::shared_ptr<MemReader> rd2(new MemReader(ds2));
    const std::string d1 = describe(listCoordinateSystems(CDMReader_p(rd2)), w);
    VCHECK(c, d0 == d1, "order", "depends on the order of declaration: " << firstDiff(d0, d1));
    // renaming of the data variables only
    c.sig(css.size()).sig(vk).sig(w.data.size()).sig(w.groups.size());
    c.trivial = w.data.empty();
}

static void vectors(Ctx& c)
{
    Rng& r = c.r;
    static const std::vector<std::array<std::string, 3>> P = {
        {{"x_wind", "y_wind", "xy"}}, {{"grid_eastward_wind", "grid_northward_wind", "xy"}}, {{"sea_water_x_velocity", "sea_water_y_velocity", "xy"}},
        {{"sea_ice_x_velocity", "sea_ice_y_velocity", "xy"}}, {{"barotropic_sea_water_x_velocity", "barotropic_sea_water_y_velocity", "xy"}},
        {{"eastward_wind", "northward_wind", "ll"}}, {{"eastward_sea_water_velocity", "northward_sea_water_velocity", "ll"}}, {{"eastward_sea_ice_velocity", "northward_sea_ice_velocity", "ll"}},
        {{"surface_downward_eastward_stress", "surface_downward_northward_stress", "ll"}}, {{"geostrophic_eastward_wind", "geostrophic_northward_wind", "ll"}}};
    Dataset ds;
    ds.att("_GLOBAL", "Conventions", "CF-1.6");
    ds.addDim("x", 3); ds.addDim("y", 2); ds.addDim("h1", 1); ds.addDim("h2", 1); ds.addDim("t", 2, true);
    const std::vector<sv> shapes = {{"x", "y", "t"}, {"x", "y", "h1", "t"}, {"x", "y", "h2", "t"}, {"x", "y"}};
    struct V { std::string name, partner; char dir; };
    std::vector<V> vs;
    std::vector<size_t> pi = iota(P.size());
    r.shuffle(pi);
    const int np = r.range(1, 3);
    for (int k = 0; k < np; ++k) {
        const auto& p = P[pi[k]];
        for (size_t s = 0; s < shapes.size(); ++s) {
            const int have = r.below(5); // 0,1: both; 2: x only; 3: y only; 4: none
            const std::string xn = "U" + std::to_string(k) + "_" + std::to_string(s), yn = (r.chance(0.5) ? "V" : "A") + std::to_string(k) + "_" + std::to_string(s);
            const bool bx = have <= 2, by = have <= 1 || have == 3;
            if (bx) { ds.add(xn, CDM_FLOAT, shapes[s]); ds.att(xn, "standard_name", p[0]); vs.push_back({xn, by ? yn : "", p[2][0]}); }
            if (by) { ds.add(yn, CDM_FLOAT, shapes[s]); ds.att(yn, "standard_name", p[1]); vs.push_back({yn, bx ? xn : "", p[2] == "xy" ? 'y' : 'm'}); }
        }
    }
    ds.add("scal", CDM_FLOAT, shapes[0]);
    ds.att("scal", "standard_name", "air_temperature");
    vs.push_back({"scal", "", 'x'});
    r.shuffle(ds.vars);
    c.d << ds.str();
    for (auto& a : ds.attrs) c.d << a.first << " " << attrStr(a.second) << "; ";
    std::shared_ptr<MemReader> rd(new MemReader(ds));
    enhanceVectorProperties(CDMReader_p(rd));
    for (auto& v : vs) {
        const CDMVariable& cv = rd->getCDM().getVariable(v.name);
        VCHECK(c, cv.isSpatialVector() == !v.partner.empty(), "vector", v.name << " vector=" << cv.isSpatialVector() << " expected partner '" << v.partner << "'");
        if (v.partner.empty()) continue;
        VCHECK(c, cv.getSpatialVectorCounterpart() == v.partner, "vector-partner", v.name << " " << cv.getSpatialVectorCounterpart() << " expected " << v.partner);
        const auto dir = v.dir == 'x' ? CDMVariable::SPATIAL_VECTOR_X : v.dir == 'y' ? CDMVariable::SPATIAL_VECTOR_Y : v.dir == 'l' ? CDMVariable::SPATIAL_VECTOR_LON : CDMVariable::SPATIAL_VECTOR_LAT;
        VCHECK(c, cv.getSpatialVectorDirection() == dir, "vector-direction", v.name << " " << cv.getSpatialVectorDirection() << " expected " << dir);
        c.cnt("vectors");
    }
    c.sig(vs.size()).sig(np);
}

static void wrf(Ctx& c)
{
    Rng& r = c.r;
    Dataset ds;
    const size_t nx = r.range(2, 6), ny = r.range(2, 6), nz = r.range(1, 3), nt = r.range(1, 3);
    struct D { const char* n; size_t l; CA::AxisType t; };
    std::vector<D> all = {{"west_east", nx, CA::GeoX}, {"west_east_stag", nx + 1, CA::GeoX}, {"south_north", ny, CA::GeoY}, {"south_north_stag", ny + 1, CA::GeoY}, {"bottom_top", nz, CA::GeoZ}, {"bottom_top_stag", nz + 1, CA::GeoZ}, {"soil_layers_stag", 2, CA::Undefined}};
    const bool stag = r.chance(0.8);
    for (auto& d : all) if (stag || std::string(d.n).find("_stag") == std::string::npos) ds.addDim(d.n, d.l);
    ds.addDim("Time", nt, true);
    const int mp = r.pick({1, 2, 3, 6});
    const double cl = r.range(-40, 60), cn = r.range(-170, 170), sl = cn + r.range(-5, 5), t1 = cl + (cl > 0 ? -5 : 5);
    const double DX = mp == 6 ? 11117.75 * r.range(1, 3) : 1000. * r.range(1, 20), DY = mp == 6 ? 11117.75 * r.range(1, 3) : 1000. * r.range(1, 20);
    auto g = [&](const char* n, double v) { ds.att("_GLOBAL", n, CDM_FLOAT, {v}); };
    ds.att("_GLOBAL", "MAP_PROJ", CDM_INT, {(double)mp});
    g("CEN_LAT", cl); g("CEN_LON", cn); g("TRUELAT1", t1 == 0 ? 10 : t1); g("TRUELAT2", t1 == 0 ? 20 : t1 + (t1 > 0 ? 10 : -10)); g("STAND_LON", sl); g("MOAD_CEN_LAT", cl); g("POLE_LAT", 90); g("POLE_LON", 0); g("DX", DX); g("DY", DY);
    ds.att("_GLOBAL", "START_DATE", "2012-02-28_18:00:00");
    ds.att("_GLOBAL", "SIMULATION_START_DATE", "2012-02-28_12:00:00");
    const double step = r.pick({60., 180., 30.});
    ds.att("_GLOBAL", "TIME_STEP_MN", CDM_FLOAT, {step});
    std::vector<std::pair<std::string, sv>> vars = {{"T2", {"west_east", "south_north", "Time"}}, {"T", {"west_east", "south_north", "bottom_top", "Time"}}, {"HGT", {"west_east", "south_north"}}};
    if (stag) { vars.push_back({"U", {"west_east_stag", "south_north", "bottom_top", "Time"}}); vars.push_back({"V", {"west_east", "south_north_stag", "bottom_top", "Time"}}); vars.push_back({"PH", {"west_east", "south_north", "bottom_top_stag", "Time"}}); vars.push_back({"TSLB", {"west_east", "south_north", "soil_layers_stag", "Time"}}); }
    r.shuffle(vars);
    for (auto& v : vars) ds.add(v.first, CDM_FLOAT, v.second);
    ds.add("ZNU", CDM_FLOAT, {"bottom_top", "Time"});
    c.d << "MAP_PROJ=" << mp << " centre " << cn << ',' << cl << " stand_lon " << sl << " d " << DX << ',' << DY << ' ' << ds.str();
    std::shared_ptr<MemReader> rd(new MemReader(ds));
    CoordinateSystem_cp_v css = listCoordinateSystems(CDMReader_p(rd));
    CoordinateSystem_cp_v again = listCoordinateSystems(CDMReader_p(rd));
    VCHECK(c, css.size() == again.size(), "wrf-repeat", css.size() << " then " << again.size());
    auto vals = [&](const std::string& n) { return toD(rd->getCDM().getVariable(n).getData()); };
    for (auto& list : {css, again}) {
        for (auto& v : vars) {
            CoordinateSystem_cp cs = findCompleteCoordinateSystemFor(list, v.first);
            VCHECK(c, !!cs, "wrf-none", v.first);
            std::set<std::string> got, want(v.second.begin(), v.second.end());
            for (auto& a : cs->getAxes()) {
                got.insert(a->getName());
                CA::AxisType t = CA::Undefined;
                for (auto& d : all) if (a->getName() == d.n) t = d.t;
                if (a->getName() == "Time") t = CA::Time;
                VCHECK(c, a->getAxisType() == t, "wrf-type", a->getName() << " " << a->getAxisTypeStr());
            }
            VCHECK(c, got == want, "wrf-axes", v.first << " " << cs->id());
            VCHECK(c, cs->isSimpleSpatialGridded() && cs->hasProjection(), "wrf-grid", v.first);
            // the centre of the axes is the centre of the domain, the spacing is the nominal one
            dv x = vals(cs->getGeoXAxis()->getName()), y = vals(cs->getGeoYAxis()->getName());
            const double f = mp == 6 ? 180 / M_PI / 6370000 : 1;
            VCHECK(c, x.size() == ds.dim(cs->getGeoXAxis()->getName()).len && y.size() == ds.dim(cs->getGeoYAxis()->getName()).len, "wrf-size", v.first);
            const double dx = (x.back() - x.front()) / (x.size() - 1), dy = (y.back() - y.front()) / (y.size() - 1);
            VCHECK(c, std::fabs(dx - DX * f) < 1e-3 * DX * f && std::fabs(dy - DY * f) < 1e-3 * DY * f, "wrf-spacing", v.first << " " << dx << ',' << dy << " expected " << DX * f << ',' << DY * f);
            dv mx(1, (x.front() + x.back()) / 2), my(1, (y.front() + y.back()) / 2);
            cs->getProjection()->convertToLonLat(mx, my);
            VCHECK(c, std::fabs(std::remainder(mx[0] - cn, 360)) < 2e-3 && std::fabs(my[0] - cl) < 0.25, "wrf-centre", v.first << " centre " << mx[0] << ',' << my[0] << " expected " << cn << ',' << cl);
            c.cnt("wrf-variables");
        }
    }
    const dv t = vals("Time");
    for (size_t i = 0; i < t.size(); ++i) VCHECK(c, std::fabs(t[i] - i * step / 60) < 1e-4, "wrf-time", "time " << vstr(t) << " step " << step);
    VCHECK(c, rd->getCDM().getAttribute("Time", "units").getStringValue().find("2012-02-28 18:00:00") != std::string::npos, "wrf-time-unit", rd->getCDM().getAttribute("Time", "units").getStringValue());
    c.sig(mp).sig(stag).sig(nt);
}

VF_MAIN("C29", "no coordinate system disagreed with the construction of the dataset", {"cf", cf, 1500, 40000}, {"vectors", vectors, 200, 5000}, {"wrf", wrf, 150, 4000})
