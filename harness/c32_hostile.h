// included by c32.cc inside its namespace
const sv HSTR = {"", " ", "0", "-1", "nan", "inf", "1e400", "99999999999999999999", "m", "K", "degrees_north", "degrees_east", "hours since 2000-01-01", "hours since", "since", "days since 0000-00-00", "seconds since 1970-13-45 25:61:61",
                 "time", "lat", "lon", "x", "y", "air_temperature", "pressure", "no_such_variable", "crs", "a: b: c:", "a: air_temperature b:", "ap: profile b: profile ps: orog", "up", "down", "CF-1.6", "air_pressure", "altitude", "latitude", "longitude",
                 "projection_x_coordinate", "grid_longitude", "atmosphere_sigma_coordinate", "atmosphere_hybrid_sigma_pressure_coordinate", "ocean_s_coordinate_g1", "ocean_s_coordinate_g2", "atmosphere_ln_pressure_coordinate", "ocean_sigma_z_coordinate", "lambert_conformal_conic", "polar_stereographic", "rotated_latitude_longitude",
                 "transverse_mercator", "mercator", "latitude_longitude", "stereographic", "geostationary", "vertical_perspective", "lambert_azimuthal_equal_area", "albers_conical_equal_area", "oblique_mercator", "+proj=longlat", "+proj=", "+proj=nonsense", "+proj=lcc +lat_0=95 +lon_0=0 +lat_1=0", "+init=epsg:4326", "WRF", "CDM-Extended-CF",
                 "sigma: profile ps: orog ptop: scalar", "s: profile C: profile eta: orog depth: orog depth_c: scalar", "p0: scalar lev: profile", "a: profile b: profile orog: orog", "sigma: profile eta: orog depth: orog depth_c: scalar nsigma: scalar zlev: profile"};
const dv HNUM = {0, -1, 1, 90, -90, 91, 180, 360, 1e300, -1e300, 1e-300, NAN, INFINITY, -INFINITY, 6371000, -6371000, 2147483647, -2147483648., 1e10, 0.5};
DataPtr hostileValue(Rng& r)
{
    switch (r.below(5)) {
    case 0: return createData(r.pick(HSTR));
    case 1: { dv v; for (int i = r.range(0, 4); i > 0; --i) v.push_back(r.pick(HNUM)); return mkData(r.pick({CDM_DOUBLE, CDM_FLOAT}), v); }
    case 2: { dv v; for (int i = r.range(0, 3); i > 0; --i) v.push_back(r.range(-100, 100)); return mkData(r.pick({CDM_INT, CDM_SHORT, CDM_CHAR, CDM_UCHAR, CDM_INT64}), v); }
    case 3: return createData(CDM_DOUBLE, size_t(0));
    default: return createData(std::string());
    }
}
const sv HATT = {"units", "standard_name", "coordinates", "grid_mapping", "grid_mapping_name", "_FillValue", "missing_value", "scale_factor", "add_offset", "valid_min", "valid_max", "valid_range", "formula_terms", "positive", "axis", "bounds", "Conventions", "proj4", "standard_parallel", "latitude_of_projection_origin",
                 "longitude_of_central_meridian", "earth_radius", "semi_major_axis", "inverse_flattening", "straight_vertical_longitude_from_pole", "grid_north_pole_latitude", "false_easting", "scale_factor_at_projection_origin", "spatial_vector", "calendar", "long_name", "MAP_PROJ", "TRUELAT1", "CEN_LAT", "DX", "_CoordinateAxisType", "GRIDTYPE", "cell_methods"};
//! damage metadata, coordinates and shapes of a valid CF dataset
void hostile(Ctx& c, Dataset& ds, const Zoo& z)
{
    Rng& r = c.r;
    for (int n = r.range(1, 5); n > 0; --n) {
        const size_t nv = ds.vars.size();
        vf::Var& v = r.chance(0.5) ? ds.var(r.pick(sv{z.xn, z.yn, "time", "pressure", "air_temperature", "packed", "u"})) : ds.vars[r.below(nv)];
        switch (r.below(10)) {
        case 0: case 1: case 2: { // an attribute
            const std::string a = r.pick(HATT), o = r.chance(0.15) ? "_GLOBAL" : r.chance(0.2) && ds.hasVar("crs") ? "crs" : v.name;
            DataPtr d = hostileValue(r);
            ds.attrs.erase(std::remove_if(ds.attrs.begin(), ds.attrs.end(), [&](const std::pair<std::string, CDMAttribute>& p) { return p.first == o && p.second.getName() == a; }), ds.attrs.end());
            ds.attrs.push_back({o, CDMAttribute(a, d)});
            c.d << " [" << o << ':' << a << '=' << (d->size() ? d->asString().substr(0, 40) : "empty") << ' ' << datatype2string(d->getDataType()) << ']';
            c.sig(o).sig(a);
            break;
        }
        case 3: { // replace the value of an existing attribute
            if (ds.attrs.empty()) break;
            auto& p = ds.attrs[r.below(ds.attrs.size())];
            DataPtr d = hostileValue(r);
            c.d << " [" << p.first << ':' << p.second.getName() << "->" << (d->size() ? d->asString().substr(0, 40) : "empty") << ' ' << datatype2string(d->getDataType()) << ']';
            c.sig(p.first).sig(p.second.getName());
            p.second = CDMAttribute(p.second.getName(), d);
            break;
        }
        case 4: { // remove an attribute
            if (ds.attrs.empty()) break;
            const size_t i = r.below(ds.attrs.size());
            c.d << " [no " << ds.attrs[i].first << ':' << ds.attrs[i].second.getName() << ']';
            ds.attrs.erase(ds.attrs.begin() + i);
            break;
        }
        case 5: case 6: { // values
            if (v.val.empty()) break;
            const double x = isInt(v.type) ? double(r.pick({0, -127, 127, 100})) : r.pick(HNUM);
            if (r.chance(0.4)) for (double& y : v.val) y = x;
            else if (r.chance(0.3)) r.shuffle(v.val);
            else v.val[r.below(v.val.size())] = x;
            c.d << " [values " << v.name << ' ' << x << ']';
            c.sig(v.name).sig(x);
            break;
        }
        case 7: { // dimension lengths
            auto& d = ds.dims[r.below(ds.dims.size())];
            d.len = d.unlim ? r.below(2) : 1;
            c.d << " [len " << d.name << '=' << d.len << ']';
            for (auto& w : ds.vars) w.val.resize(prod(ds.lens(w)), 1);
            break;
        }
        case 8: { // shapes
            sv s = v.shape;
            if (s.empty() || r.chance(0.3)) s.insert(s.begin(), r.pick(ds.dims).name);
            else if (r.chance(0.3)) s.erase(s.begin() + r.below(s.size()));
            else if (r.chance(0.5)) s.insert(s.begin(), s[r.below(s.size())]);
            else r.shuffle(s);
            for (size_t i = 0; i + 1 < s.size(); ++i) if (ds.dim(s[i]).unlim) { s.clear(); break; }
            v.shape = s;
            v.val.resize(prod(ds.lens(v)), 1);
            c.d << " [shape " << v.name << vstr(s) << ']';
            c.sig(v.name).sig(vstr(s));
            break;
        }
        case 9: { // type
            v.type = r.pick({CDM_CHAR, CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE});
            double lo, hi;
            typeLimits(v.type, lo, hi);
            if (isInt(v.type)) for (double& x : v.val) x = std::isfinite(x) ? std::floor(std::max(lo, std::min(hi, x))) : 0;
            c.d << " [type " << v.name << ' ' << datatype2string(v.type) << ']';
            break;
        }
        }
    }
}
int ncType(CDMDataType t) { switch (t) { case CDM_CHAR: return NC_BYTE; case CDM_SHORT: return NC_SHORT; case CDM_INT: return NC_INT; case CDM_FLOAT: return NC_FLOAT; case CDM_STRING: return NC_CHAR; case CDM_UCHAR: return NC_UBYTE; case CDM_INT64: return NC_INT64; default: return NC_DOUBLE; } }
//! a file written directly with the NetCDF library; what the format cannot express is left out
void ncWrite(Ctx& c, const Dataset& ds, const std::string& file, bool v4)
{
    Rng& r = c.r;
    int id;
    ncOk(nc_create(file.c_str(), NC_CLOBBER | (v4 ? NC_NETCDF4 : 0), &id), "create");
    std::map<std::string, int> dim, var;
    for (auto& d : ds.dims) { int x; if (d.len == 0 && !d.unlim) continue; ncOk(nc_def_dim(id, d.name.c_str(), d.unlim ? NC_UNLIMITED : d.len, &x), "dim"); dim[d.name] = x; }
    auto atts = [&](const std::string& n, int vid) {
        for (auto& a : ds.attrs) if (a.first == n) {
            DataPtr d = a.second.getData();
            const std::string an = a.second.getName();
            if (d->getDataType() == CDM_STRING) { const std::string s = d->asString(); nc_put_att_text(id, vid, an.c_str(), s.size(), s.data()); continue; }
            const int t = ncType(d->getDataType());
            if (!v4 && (t == NC_UBYTE || t == NC_INT64)) continue;
            const dv x = d->size() ? toD(d) : dv();
            const double none = 0;
            nc_put_att_double(id, vid, an.c_str(), t, x.size(), x.empty() ? &none : x.data());
        }
    };
    for (auto& v : ds.vars) {
        std::vector<int> ids;
        for (size_t i = v.shape.size(); i-- > 0;) { auto it = dim.find(v.shape[i]); if (it == dim.end()) { ids.push_back(-1); break; } ids.push_back(it->second); }
        if (std::count(ids.begin(), ids.end(), -1)) continue;
        int x;
        if (nc_def_var(id, v.name.c_str(), r.chance(0.05) && isInt(v.type) ? NC_CHAR : ncType(v.type), ids.size(), ids.data(), &x)) continue;
        var[v.name] = x;
        atts(v.name, x);
    }
    if (v4 && r.chance(0.15)) { // types and groups the reader does not know
        int t, g, x;
        if (nc_def_opaque(id, 4, "blob", &t) == 0) nc_def_var(id, "opaque_var", t, 0, 0, &x);
        if (nc_def_vlen(id, "ragged", NC_INT, &t) == 0) nc_def_var(id, "vlen_var", t, 0, 0, &x);
        if (nc_def_enum(id, NC_BYTE, "en", &t) == 0) { signed char one = 1; nc_insert_enum(id, t, "one", &one); nc_def_var(id, "enum_var", t, 0, 0, &x); nc_put_att(id, NC_GLOBAL, "enum_att", t, 1, &one); }
        nc_def_grp(id, "sub", &g);
        if (nc_def_var(id, "strings_unset", NC_STRING, 0, 0, &x) == 0) {}
        c.cnt("files with user-defined types");
    }
    atts("_GLOBAL", NC_GLOBAL);
    ncOk(nc_enddef(id), "enddef");
    for (auto& v : ds.vars) if (var.count(v.name) && !v.val.empty()) {
        szv l = ds.lens(v), st(l.size(), 0);
        std::reverse(l.begin(), l.end());
        nc_put_vara_double(id, var[v.name], st.data(), l.data(), v.val.data()); // range errors are welcome
    }
    ncOk(nc_close(id), "close");
}
dv hostileAxis(Rng& r)
{
    switch (r.below(8)) {
    case 0: return {};
    case 1: return {r.pick(HNUM)};
    case 2: return {0, 0, 0};
    case 3: return {r.pick(HNUM), r.pick(HNUM), r.pick(HNUM)};
    case 4: return {3, 1, 2, 1};
    case 5: return {NAN, NAN};
    case 6: return {-1e7, 0, 1e7};
    default: return {5, 6, 7, 8};
    }
}
const sv HPROJ = {"+proj=longlat +R=6371000", "+proj=stere +lat_0=90 +lon_0=0 +lat_ts=60 +R=6371000", "+proj=lcc +lat_0=60 +lat_1=60 +lon_0=10 +R=6371000", "+proj=utm +zone=33 +ellps=WGS84", "+proj=ob_tran +o_proj=longlat +lon_0=10 +o_lat_p=30 +R=6371000",
                  "+proj=merc", "+proj=latlong", "", "+proj=", "+proj=nonsense", "junk", "+proj=lcc", "+proj=geos +h=35785831", "+proj=ortho +lat_0=60", "+init=epsg:32633", "+proj=stere +lat_0=nan", "+proj=utm +zone=99", "EPSG:4326"};
const std::vector<int> HMETH = {MIFI_INTERPOL_NEAREST_NEIGHBOR, MIFI_INTERPOL_BILINEAR, MIFI_INTERPOL_BICUBIC, MIFI_INTERPOL_COORD_NN, MIFI_INTERPOL_COORD_NN_KD, MIFI_INTERPOL_FORWARD_SUM, MIFI_INTERPOL_FORWARD_MEAN, MIFI_INTERPOL_FORWARD_MEDIAN, MIFI_INTERPOL_FORWARD_MAX, MIFI_INTERPOL_FORWARD_UNDEF_MIN, -1, 99};
const sv HTIME = {"0,1,...,x;relativeUnit=hours since 2000-01-01", "2000-01-01 00:00:00", "2000-01-01 00:00:00,2000-01-01 06:00:00,...,2000-01-02 00:00:00;unit=hours since 2000-01-01 00:00:00", "0,3,...,x;relativeStart=0", "", ";", ",", "...", "0,...,3", "0,0,...,5;relativeUnit=hours since 2000-01-01", "5,3,...,9;relativeUnit=hours since 2000-01-01",
                  "x", "0,x,...;", "1,2,...,;unit=", "2000-13-01 00:00:00", "0;relativeUnit=nonsense", "0,6;unit=K", "0,1;relativeUnit=seconds since 1970-01-01 00:00:00 +00:00;unit=hours since 2000-01-01", "nan,inf;relativeUnit=hours since 2000-01-01", "0,1,...,2,3,...,4;relativeUnit=days since 2000-01-01", "0,3,...,x;relativeStart=x"};
const sv HAXIS = {"0,1,...,5", "relativeStart=0;0,100000,...,x", "auto", "auto;unit=degree", "", "...", "1", "1,...,3", "0,0,...,5", "5,4,...,9", "x", "0,x,...,3", "1e400,2,...,4", "nan,1,...,3", "0,100000,...,x;relativeStart=nonsense", ",,,", "1;2;3", "-90,-80,...,90", "0,1e-3,...,1", "0,50000,...,x;relativeStart=0"};
const sv HXML = {
    "<?xml version=\"1.0\"?><netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\"><dimension name=\"nn\" orgName=\"n\" length=\"3\" isUnlimited=\"false\"/><variable name=\"series2\" orgName=\"series\" type=\"double\"><attribute name=\"a\" type=\"int\" value=\"1 2\"/></variable><variable name=\"scalar\"><values>42.5</values></variable><variable name=\"profile\" shape=\"pressure\"><values>1 2 3</values></variable><remove type=\"variable\" name=\"mask\"/><attribute name=\"title\" value=\"x\"/><variable name=\"u\"><spatial_vector direction=\"x\" counterpart=\"v\"/></variable></netcdf>",
    "<?xml version=\"1.0\"?><netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\"><aggregation dimName=\"time\" type=\"joinExisting\"><netcdf location=\"src.nc\" coordValue=\"1 2 3\"/><netcdf location=\"src.nc\"/></aggregation></netcdf>",
    "<?xml version=\"1.0\"?><netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\"><aggregation dimName=\"member\" type=\"joinNew\"><variableAgg name=\"orog\"/><netcdf location=\"src.nc\" coordValue=\"1\"/><netcdf location=\"src.nc\" coordValue=\"2\"/></aggregation></netcdf>",
    "<?xml version=\"1.0\"?><netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\"><aggregation type=\"union\"><scan location=\".\" suffix=\".nc\" regExp=\".*src.*\"/></aggregation><dimension name=\"time\" isUnlimited=\"true\"/></netcdf>"};
const std::string QXML = "<cdmQualityConfig><variable name=\"precip\" fillValue=\"-9\"><status_flag_variable name=\"status\"><allowed_values>1,2,4</allowed_values></status_flag_variable></variable><variable name=\"u\"><status_flag_variable name=\"mask\" use=\"highest\"/></variable><variable name=\"v\"><status_flag_variable name=\"status\"><min_value>1</min_value></status_flag_variable></variable></cdmQualityConfig>";
const sv GWRITE = {"<?xml version=\"1.0\"?><cdm_gribwriter_config><processOptions><option name=\"globalPackingType\" value=\"grid_simple\"/></processOptions><axes><time/><vertical_axis name=\"pressure\" grib1_id=\"100\" grib2_id=\"100\" units=\"hPa\"/></axes><variables><parameter name=\"air_temperature\"><grib1 parameterNumber=\"11\" codeTable=\"2\" units=\"K\"/><grib2 parameterNumber=\"0\" parameterCategory=\"0\" discipline=\"0\" units=\"K\"/></parameter><parameter name=\"precip\"><grib1 parameterNumber=\"61\" codeTable=\"2\" units=\"kg/m2\"/></parameter></variables></cdm_gribwriter_config>"};
//! one operation with arguments that may be nonsense
bool hostileStep(Ctx& c, Zoo& z)
{
    Rng& r = c.r;
    const CDMReader_p rd = z.rd;
    sv vn, dn;
    for (auto& v : rd->getCDM().getVariables()) vn.push_back(v.getName());
    for (auto& d : rd->getCDM().getDimensions()) dn.push_back(d.getName());
    vn.push_back("no_such_variable");
    dn.push_back("no_such_dimension");
    auto V = [&] { return r.pick(vn); };
    auto D = [&] { return r.pick(dn); };
    auto N = [&] { return r.pick(HNUM); };
    const int k = r.below(17);
    std::string name;
    CDMReader_p nr;
    const bool ok = may(c, "step " + std::to_string(k), [&] {
        switch (k) {
        case 0: { name = "extract"; auto e = std::make_shared<CDMExtractor>(rd); for (int i = r.range(1, 3); i > 0; --i) switch (r.below(4)) {
            case 0: e->reduceDimension(D(), r.below(6), r.below(6)); break;
            case 1: { std::set<size_t> s; for (int j = r.below(4); j > 0; --j) s.insert(r.chance(0.1) ? r.u64() : r.below(6)); e->reduceDimension(D(), s); break; }
            case 2: e->reduceDimensionStartEnd(D(), r.below(6), r.range(-6, 6)); break;
            default: if (r.chance(0.1)) e->reduceDimension(D(), r.u64(), r.u64()); else if (r.chance(0.5)) e->removeVariable(V()); else e->selectVariables({V(), V()}, r.chance(0.5)); }
            nr = e; break; }
        case 1: { name = "bbox"; auto e = std::make_shared<CDMExtractor>(rd); e->reduceLatLonBoundingBox(N(), N(), N(), N()); nr = e; break; }
        case 2: { name = "axes"; auto e = std::make_shared<CDMExtractor>(rd); if (r.chance(0.5)) e->reduceVerticalAxis(r.pick(HSTR), N(), N()); else e->reduceTime(FimexTime(2000, r.range(0, 13), r.range(0, 32)), FimexTime(r.range(0, 4000), 1, 1)); nr = e; break; }
        case 3: case 4: { name = "project"; auto e = std::make_shared<CDMInterpolator>(rd); if (r.chance(0.2)) e->setDistanceOfInterest(N()); const std::string u = r.pick(sv{"m", "degree", "km", "", "K", "radian"}); e->changeProjection(r.pick(HMETH), r.pick(HPROJ), hostileAxis(r), hostileAxis(r), u, u, CDM_DOUBLE, r.chance(0.1) ? CDM_STRING : CDM_FLOAT); nr = e; break; }
        case 5: { name = "projstr"; auto e = std::make_shared<CDMInterpolator>(rd); e->changeProjection(r.pick(HMETH), HPROJ[r.below(6)], r.pick(HAXIS), r.pick(HAXIS), r.pick(sv{"m", "degree", "nonsense"}), r.pick(sv{"m", "degree"}), r.pick(sv{"double", "float", "junk", ""}), "double"); nr = e; break; }
        case 6: { name = "points"; auto e = std::make_shared<CDMInterpolator>(rd); dv a = hostileAxis(r), b = hostileAxis(r); if (r.chance(0.8)) b.resize(a.size(), 1); e->changeProjection(r.pick(HMETH), a, b); nr = e; break; }
        case 7: { name = "cross"; auto e = std::make_shared<CDMInterpolator>(rd); std::vector<CrossSectionDefinition> cs; for (int i = r.below(3); i > 0; --i) { std::vector<std::pair<double, double>> p; for (int j = r.below(4); j > 0; --j) p.push_back({r.chance(0.5) ? N() : r.uni(0, 2), r.chance(0.3) ? N() : r.uni(50, 52)}); bool big = false; for (auto& q : p) if (!(std::fabs(q.first) < 400 && std::fabs(q.second) < 100)) big = true; if (big && r.chance(0.8)) continue; cs.push_back(CrossSectionDefinition(r.pick(HSTR), p)); } e->changeProjectionToCrossSections(r.pick(HMETH), cs); nr = e; break; }
        case 8: { name = "time"; auto e = std::make_shared<CDMTimeInterpolator>(rd); e->changeTimeAxis(r.pick(HTIME)); nr = e; break; }
        case 9: { name = "vertical"; auto e = std::make_shared<CDMVerticalInterpolator>(rd, r.pick(sv{"pressure", "height", "depth", "junk", ""}), r.pick(sv{"linear", "log", "loglog", "nearestneighbor", "linear_weak_extra", "linear_no_extra", "linear_const_extra", "junk"})); switch (r.below(3)) { case 0: e->interpolateToFixed(hostileAxis(r)); break; case 1: e->interpolateToAxis(V()); break; default: e->interpolateByTemplateVariable(V()); } nr = e; break; }
        case 10: { name = "process"; auto e = std::make_shared<CDMProcessor>(rd); switch (r.below(6)) { case 0: e->accumulate(V()); break; case 1: e->deAccumulate(V()); break; case 2: e->rotateVectorToLatLon(r.chance(0.5), {V()}, {V()}); break; case 3: e->rotateAllVectorsToLatLon(r.chance(0.5)); break; case 4: e->rotateDirectionToLatLon(r.chance(0.5), {V()}); break; default: e->addVerticalVelocity(); } nr = e; break; }
        case 11: name = "pressure"; nr = std::make_shared<CDMPressureConversions>(rd, sv{r.pick(sv{"theta2T", "omega2vwind", "add4Dpressure", "junk", ""})}); break;
        case 12: { name = "quality"; const std::string f = c.file("q.xml"); spit(f, mutateXml(r, QXML, r.range(0, 3))); nr = std::make_shared<CDMQualityExtractor>(rd, r.pick(sv{"", "", "all", "all,hcLowMultiplier=1", "junk"}), f); break; }
        case 13: name = "ncml"; nr = std::make_shared<NcmlCDMReader>(rd, XMLInputString(mutateXml(r, HXML[0], r.range(0, 4)))); break;
        case 14: { name = "aggregate"; auto e = std::make_shared<AggregationReader>(r.pick(sv{"joinExisting", "union", "joinNew", "tiled", ""})); if (r.chance(0.5)) e->joinNewVars(r.pick(sv{"member", "time", ""}), {V()}); for (int i = r.below(3); i > 0; --i) e->addReader(r.chance(0.8) ? rd : std::make_shared<MemReader>(z.ds), r.pick(sv{"", "a", "b"}), r.pick(sv{"", "1", "1 2 3", "x"})); e->initAggregation(); nr = e; break; }
        case 15: { name = "overlay"; auto other = std::make_shared<MemReader>(z.ds); switch (r.below(3)) { case 0: nr = std::make_shared<CDMOverlay>(rd, other, r.pick(HMETH), r.chance(0.5)); break; case 1: { auto e = std::make_shared<CDMBorderSmoothing>(rd, other, r.pick(HMETH)); e->setSmoothing(std::make_shared<CDMBorderSmoothing_LinearFactory>(r.below(4), r.below(3))); nr = e; break; } default: { auto e = std::make_shared<CDMMerger>(rd, other); e->setSmoothing(std::make_shared<CDMBorderSmoothing_LinearFactory>(r.below(4), r.below(3))); if (r.chance(0.5)) e->setTargetGridFromInner(); else e->setTargetGrid(r.pick(HPROJ), "0,1,...,3", "50,51,...,53", "degree", "degree", "double", "double"); nr = e; } } break; }
        case 16: { name = "template"; auto e = std::make_shared<CDMInterpolator>(rd); e->changeProjection(r.pick(HMETH), r.chance(0.5) ? rd : std::make_shared<MemReader>(z.ds), V()); nr = e; break; }
        }
    });
    c.d << '|' << name << (ok ? "" : "!");
    c.sig(name).sig(ok);
    if (ok && nr) { z.keep.push_back(z.rd); z.rd = nr; c.cnt("operations accepted"); }
    else c.cnt("operations refused");
    return ok;
}
void chain(Ctx& c, Zoo& z, int valid)
{
    Rng& r = c.r;
    for (int n = r.range(0, 2); n > 0; --n) {
        if (r.chance(valid / 100.)) {
            const std::string k = r.pick(zooStages());
            may(c, "stage " + k, [&] { if (zooStage(r, z, k)) c.sig(k); });
        } else
            hostileStep(c, z);
    }
    consume(c, "chain", z.rd);
    if (r.chance(0.4)) {
        const std::string t = r.pick(sv{"nc3", "nc4", "nc4c", "ncml", "grb1", "grb2", "null"});
        may(c, "write " + t, [&] { const std::string f = c.file("out"); CDMFileReaderFactory::createWriter(z.rd, t, f, XMLInputString(t[0] == 'g' ? mutateXml(r, GWRITE[0], r.below(3)) : "")); c.cnt("files written"); });
    }
}
void famNetcdf(Ctx& c)
{
    Rng& r = c.r;
    Zoo z;
    z.path = c.scratch + "/";
    z.ds = zooDataset(r, z);
    Dataset bad = z.ds;
    hostile(c, bad, z);
    const std::string f = c.file("h.nc");
    try { ncWrite(c, bad, f, r.chance(0.6)); } catch (NcErr&) { c.cnt("files the NetCDF library refused to write"); throw Skip(); }
    if (r.chance(0.1)) { std::string s = slurp(f); if (s.compare(0, 3, "CDF") == 0) { s.resize(r.below(s.size())); spit(f, s); c.d << " truncated"; } }
    may(c, "netcdf", [&] {
        z.rd = CDMFileReaderFactory::create("netcdf", f);
        c.cnt("hostile files opened");
        if (r.chance(0.3)) consume(c, "netcdf", z.rd, 0, false);
        chain(c, z, 60);
    });
    if (r.chance(0.2)) may(c, "template file", [&] { Zoo y; y.path = z.path; Dataset d2 = zooDataset(r, y); auto e = std::make_shared<CDMInterpolator>(std::make_shared<MemReader>(d2)); e->changeProjection(r.pick(HMETH), f); consume(c, "template", e); });
    if (r.chance(0.2)) may(c, "rw", [&] {
        z.rd.reset();
        z.keep.clear();
        auto rw = CDMFileReaderFactory::createReaderWriter("netcdf", f);
        const auto& vs = rw->getCDM().getVariables();
        const std::string v = vs.at(r.below(vs.size())).getName();
        DataPtr d = createData(r.pick({CDM_DOUBLE, CDM_SHORT, CDM_FLOAT}), size_t(r.below(40)), 1.);
        if (r.chance(0.5)) rw->putDataSlice(v, r.below(4), d); else rw->putScaledDataSlice(v, r.below(4), d);
        rw->sync();
    });
}
void famOps(Ctx& c)
{
    Rng& r = c.r;
    Zoo z;
    z.path = c.scratch + "/";
    z.ds = zooDataset(r, z);
    Dataset ds = z.ds;
    if (r.chance(0.3)) hostile(c, ds, z);
    bool ok = true;
    for (auto& a : ds.attrs) if (a.second.getName() == "_FillValue") ok = false;
    for (auto& v : ds.vars) { std::set<std::string> s(v.shape.begin(), v.shape.end()); if (s.size() != v.shape.size()) ok = false; }
    (void)ok;
    may(c, "source", [&] { z.rd = zooSource(r, z, ds, "src", r.below(4)); });
    if (!z.rd) return;
    for (int n = r.range(1, 3); n > 0; --n) hostileStep(c, z);
    chain(c, z, 30);
    c.cnt("chains");
}
void famXml(Ctx& c)
{
    Rng& r = c.r;
    Zoo z;
    z.path = c.scratch + "/";
    z.ds = zooDataset(r, z);
    zooWrite(z, z.ds, "nc3", "src.nc");
    std::string x = r.pick(HXML);
    size_t p;
    while ((p = x.find("\"src.nc\"")) != std::string::npos) x.replace(p, 8, "\"" + z.path + "src.nc\"");
    while ((p = x.find("location=\".\"")) != std::string::npos) x.replace(p, 12, "location=\"" + c.scratch + "\"");
    x = mutateXml(r, x, r.range(0, 5));
    c.d << x;
    c.sig(x);
    may(c, "ncml", [&] { consume(c, "ncml", std::make_shared<NcmlCDMReader>(XMLInputString(x))); });
    may(c, "ncml-on", [&] { consume(c, "ncml-on", std::make_shared<NcmlCDMReader>(std::make_shared<MemReader>(z.ds), XMLInputString(x))); });
    const std::string f = c.file("x.ncml");
    spit(f, x);
    may(c, "ncml-file", [&] { consume(c, "ncml-file", CDMFileReaderFactory::create("ncml", f)); });
    if (r.chance(0.4)) {
        World w = rndWorld(c, false);
        if (w.ff.gapBlocks > 100) w.ff.gapBlocks = 0;
        const std::string ff = c.file("f.felt");
        writeFelt(ff, w.ff);
        const std::string cfg = mutateXml(r, w.cfg, r.range(1, 5));
        may(c, "felt-config", [&] { consume(c, "felt-config", CDMFileReaderFactory::create("felt", ff, XMLInputString(cfg)), 0, false); });
    }
    const std::string gc = mutateXml(r, GWRITE[0], r.range(0, 5));
    may(c, "grib-writer-config", [&] { CDMFileReaderFactory::createWriter(std::make_shared<MemReader>(z.ds), r.pick(sv{"grb1", "grb2"}), c.file("o.grb"), XMLInputString(gc)); });
    const std::string nw = mutateXml(r, "<?xml version=\"1.0\"?><cdm_ncwriter_config><default filetype=\"netcdf4\" compressionLevel=\"3\"/><dimension name=\"n\" newname=\"nn\" chunkSize=\"1\"/><variable name=\"u\" newname=\"uu\" type=\"short\" compressionLevel=\"9\"><attribute name=\"scale_factor\" value=\"0.1\" type=\"float\"/><attribute name=\"units\" value=\"km/h\" type=\"string\"/></variable><attribute name=\"title\" value=\"t\" type=\"string\"/></cdm_ncwriter_config>", r.range(0, 5));
    may(c, "netcdf-writer-config", [&] { CDMFileReaderFactory::createWriter(std::make_shared<MemReader>(z.ds), r.pick(sv{"nc3", "nc4"}), c.file("o.nc"), XMLInputString(nw)); });
    c.cnt("configurations");
}
std::string mutateText(Rng& r, std::string s)
{
    static const sv T = {"...", ",", ";", ":", "=", " ", "-", "+", "T", "Z", "x", "e", ".", "0", "9999999999", "nan", "since", "unit", "\0", "1e999", "relativeStart", "\xc3\xa6", "%", "(", "[", "*"};
    for (int i = r.range(0, 3); i > 0; --i) {
        const size_t p = r.below(s.size() + 1);
        switch (r.below(3)) {
        case 0: s.insert(p, r.pick(T)); break;
        case 1: if (p < s.size()) s.erase(p, r.range(1, 4)); break;
        default: if (p < s.size()) s[p] = char(r.range(1, 127)); break;
        }
    }
    return s;
}
//! requests for enormous axes are honoured by design, so they are not made
bool enormous(const std::string& s)
{
    size_t n = 0;
    for (char ch : s) { n = isdigit((unsigned char)ch) ? n + 1 : 0; if (n > 6) return true; }
    return s.find("e") != std::string::npos && s.find("...") != std::string::npos;
}
void famArgs(Ctx& c)
{
    Rng& r = c.r;
    const std::string t = mutateText(r, r.pick(HTIME)), a = mutateText(r, r.pick(HAXIS)), p = mutateText(r, r.pick(HPROJ)), u = mutateText(r, r.pick(HSTR)), u2 = mutateText(r, r.pick(sv{"K", "degC", "m/s", "hPa", "hours since 2000-01-01", "degrees_north", "1"}));
    const std::string iso = mutateText(r, r.pick(sv{"2000-01-01", "2000-01-01T12:00:00Z", "2000-01-01 12:00:00.5", "20000101T120000", "1-1-1", "2000-02-30 24:60:60", "", "-1-1-1", "9999-12-31 23:59:59"}));
    c.d << "time '" << t << "' axis '" << a << "' proj '" << p << "' units '" << u << "' '" << u2 << "' iso '" << iso << "'";
    c.sig(t).sig(a).sig(p).sig(u);
    const FimexTime t0(2000, 1, 1), t1(2000, 1, 3);
    if (!enormous(t)) may(c, "TimeSpec", [&] { MetNoFimex::TimeSpec(t, t0, t1).getTimeSteps(); });
    if (!enormous(a)) may(c, "SpatialAxisSpec", [&] { SpatialAxisSpec s(a, -3, 3); if (s.requireStartEnd()) s.setStartEnd(r.uni(-5, 0), r.uni(0, 5)); s.getAxisSteps(); });
    if (!enormous(a)) { may(c, "tokenizeDotted", [&] { tokenizeDotted<double>(a); }); may(c, "tokenizeDotted<int>", [&] { tokenizeDotted<int>(a); }); }
    may(c, "Projection", [&] { auto q = Projection::createByProj4(p); if (q) { q->getProj4String(); q->getParameters(); q->toString(); q->isDegree(); q->getProj4EarthString(); dv x = {0, 1, NAN, 1e300}, y = {0, 50, 1, -1e300}; q->convertToLonLat(x, y); q->convertFromLonLat(x, y); } });
    may(c, "replaceProj4Earthfigure", [&] { replaceProj4Earthfigure(p, r.pick(sv{"+ellps=WGS84", "+R=1", "", p})); });
    may(c, "convert", [&] { double s, o; Units().convert(u, u2, s, o); });
    may(c, "convert2", [&] { double s, o; Units().convert(u2, u, s, o); });
    may(c, "areConvertible", [&] { Units().areConvertible(u, u2); Units().isTime(u); });
    may(c, "getConverter", [&] { if (auto k = Units().getConverter(u2, u)) k->convert(1.); });
    may(c, "TimeUnit", [&] { TimeUnit tu(u); for (double x : HNUM) { if (std::fabs(x) > 1e9) continue; may(c, "unitTime", [&] { const FimexTime ft = tu.unitTime2fimexTime(x); tu.fimexTime2unitTime(ft); make_time_string(ft); }); } });
    may(c, "string2FimexTime", [&] { make_time_string_extended(string2FimexTime(iso)); });
    may(c, "parseISO8601", [&] { FimexTime ft; ft.parseISO8601(iso); });
    may(c, "string2type", [&] { string2type<int>(u); });
    may(c, "string2type<double>", [&] { string2type<double>(u); });
    may(c, "string2type<bool>", [&] { string2type<bool>(u); });
    may(c, "string2datatype", [&] { string2datatype(u); });
    may(c, "attribute", [&] { CDMAttribute x("n", r.pick(sv{"int", "float", "double", "short", "string", "char", "byte", "long", "junk", "uint64"}), u); x.getStringValue(); });
    may(c, "split", [&] { split_any(u, ""); tokenize(u, r.pick(sv{"", " ", ","})); trim(u, ""); regex_escape(u); });
    may(c, "slice", [&] { DataPtr d = createData(CDM_INT, size_t(24), 1.); d->slice({2, 3, 4}, {r.below(4), r.below(4), r.below(5)}, {r.below(4), r.below(4), r.chance(0.05) ? r.u64() : r.below(6)}); });
    c.cnt("argument sets");
}
