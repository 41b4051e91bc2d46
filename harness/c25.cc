// C25: GRIB encoding/decoding. Files are observed with ecCodes directly; grid geometry with PROJ directly.
#include "gribgen.h"
#include <fimex/coordSys/Projection.h>
using namespace vf;
namespace {
const double D2R = M_PI / 180;
//! great-circle distance in degrees
double sphDist(double lo1, double la1, double lo2, double la2)
{
    const double a = std::sin((la1 - la2) * D2R / 2), b = std::sin((lo1 - lo2) * D2R / 2);
    return 2 * std::asin(std::min(1., std::sqrt(a * a + std::cos(la1 * D2R) * std::cos(la2 * D2R) * b * b))) / D2R;
}
//! lon/lat of all grid points of a variable as fimex presents them (first dimension fastest)
void fimexLonLat(Ctx& c, CDMReader_p rd, const std::string& var, dv& lon, dv& lat)
{
    const CDM& cdm = rd->getCDM();
    const auto shape = cdm.getVariable(var).getShape();
    const dv X = toD(rd->getScaledData(shape[0])), Y = toD(rd->getScaledData(shape[1]));
    CDMAttribute gm;
    VCHECK(c, cdm.getAttribute(var, "grid_mapping", gm), "read:grid-mapping", var << " has no grid_mapping");
    std::string gmn;
    for (auto& a : cdm.getAttributes(gm.getStringValue())) if (a.getName() == "grid_mapping_name") gmn = a.getStringValue();
    lon.clear();
    lat.clear();
    for (double y : Y) for (double x : X) { lon.push_back(x); lat.push_back(y); }
    if (gmn == "latitude_longitude" || gmn.empty()) return;
    CDMAttribute co;
    VCHECK(c, cdm.getAttribute(var, "coordinates", co), "read:coordinates", var << " has no coordinates attribute");
    std::istringstream is(co.getStringValue());
    std::string a, b;
    is >> a >> b;
    lon = toD(rd->getData(a));
    lat = toD(rd->getData(b));
    VCHECK(c, lon.size() == X.size() * Y.size() && lat.size() == lon.size(), "read:lonlat-size", lon.size() << ' ' << lat.size() << " for " << X.size() << 'x' << Y.size());
    // the projection described by the attributes maps the axes to the same points
    Projection_cp p = Projection::create(cdm.getAttributes(gm.getStringValue()));
    VCHECK(c, !!p, "read:projection", "no projection from the grid mapping");
    dv px, py;
    for (double y : Y) for (double x : X) { px.push_back(p->isDegree() ? x * 1 : x); py.push_back(y); }
    if (p->isDegree()) { /* degrees in, degrees out */ }
    p->convertToLonLat(px, py);
    for (size_t i = 0; i < px.size(); ++i)
        VCHECK(c, sphDist(px[i], py[i], lon[i], lat[i]) < 2e-5, "read:projection-lonlat", "axes+projection give " << px[i] << ',' << py[i] << " but lon/lat variables have " << lon[i] << ',' << lat[i]);
}
void checkData(Ctx& c, CDMReader_p rd, const GSet& s, const std::string& K)
{
    const CDM& cdm = rd->getCDM();
    Rng& r = c.r;
    size_t maxEns = 0;
    for (auto& v : s.vars) maxEns = std::max(maxEns, v.nens);
    if (!s.times.empty()) {
        dv want(s.times.begin(), s.times.end());
        expectData(c, K + ":time", rd->getScaledDataInUnit("time", "seconds since 1970-01-01 00:00:00"), want, 1e-3);
    }
    if (cdm.hasVariable("forecast_reference_time")) expectData(c, K + ":reftime", rd->getScaledDataInUnit("forecast_reference_time", "seconds since 1970-01-01 00:00:00"), {double(s.ref)}, 1e-3);
    else VCHECK(c, false, K + ":reftime", "no reference time");
    for (auto& v : s.vars) {
        const GGrid& g = s.grids[v.grid];
        VCHECK(c, cdm.hasVariable(v.name), K + ":variable", "missing variable " << v.name);
        const auto shape = cdm.getVariable(v.name).getShape();
        VCHECK(c, cdm.getVariable(v.name).getDataType() == v.type, K + ":type", v.name << " has type " << datatype2string(cdm.getVariable(v.name).getDataType()));
        VCHECK(c, shape.size() == 3 + (v.nens ? 1u : 0u) + (v.constTime ? 0u : 1u), K + ":shape", v.name << ' ' << vstr(shape));
        VCHECK(c, cdm.getDimension(shape[0]).getLength() == size_t(g.nx) && cdm.getDimension(shape[1]).getLength() == size_t(g.ny), K + ":xy", "grid size");
        const std::string ld = shape[v.nens ? 3 : 2];
        VCHECK(c, ld.compare(0, strlen(levelName(s.ed, v.ltype)), levelName(s.ed, v.ltype)) == 0, K + ":leveldim", v.name << ": level dimension " << ld << " for type " << v.ltype);
        expectData(c, K + ":levels", rd->getData(ld), dv(v.levels.begin(), v.levels.end()), 1e-6, v.name);
        dv lon, lat;
        fimexLonLat(c, rd, v.name, lon, lat);
        for (size_t i = 0; i < lon.size(); ++i)
            VCHECK(c, sphDist(lon[i], lat[i], g.lon[i], g.lat[i]) < 2e-5, K + ":position:" + g.type, v.name << " point " << i % g.nx << ',' << i / g.nx << " at " << lon[i] << ',' << lat[i] << " expected " << g.lon[i] << ',' << g.lat[i]);
        // data
        dv want;
        const std::vector<long long> T = v.constTime ? std::vector<long long>{0} : s.times;
        const size_t E = v.nens ? maxEns : 1;
        for (long long t : T) for (long l : v.levels) for (size_t e = 0; e < E; ++e) {
            auto it = v.fields.find({t, l, (long long)e});
            for (long i = 0; i < g.nx * g.ny; ++i) want.push_back(it == v.fields.end() ? NAN : it->second[i]);
        }
        szv dims = {size_t(g.nx), size_t(g.ny)};
        if (v.nens) dims.push_back(E);
        dims.push_back(v.levels.size());
        if (!v.constTime) dims.push_back(T.size());
        const double tol = v.scale != 0 ? v.scale * 0.501 : 0;
        auto cmp = [&](DataPtr d, const dv& w, const std::string& key) {
            VCHECK(c, !!d, key + ":null", v.name);
            const dv got = toD(d);
            VCHECK(c, got.size() == w.size(), key + ":size", v.name << " size " << got.size() << " expected " << w.size());
            for (size_t i = 0; i < got.size(); ++i) {
                const double t = tol + (v.type == CDM_FLOAT ? 1e-6 * std::fabs(w[i]) : v.scale != 0 ? 1e-9 : 0);
                VCHECK(c, std::isnan(w[i]) ? std::isnan(got[i]) : std::fabs(got[i] - w[i]) <= t, key + (std::isnan(w[i]) || std::isnan(got[i]) ? ":missing" : ":value"), v.name << " at " << i << " got " << got[i] << " expected " << w[i]);
                c.checks++;
            }
        };
        cmp(rd->getScaledData(v.name), want, K + ":data");
        if (!v.constTime)
            for (size_t t = 0; t < T.size(); ++t) {
                szv st(dims.size(), 0), sz = dims;
                st.back() = t;
                sz.back() = 1;
                cmp(rd->getScaledDataSlice(v.name, t), box(want, dims, st, sz), K + ":slice");
            }
        for (int k = 0; k < 4; ++k) {
            SliceBuilder sb(cdm, v.name);
            szv st, sz;
            for (size_t i = 0; i < dims.size(); ++i) {
                size_t a = 0, n = dims[i];
                if (r.chance(0.6)) { a = r.below(dims[i]); n = r.range(1, dims[i] - a); }
                st.push_back(a);
                sz.push_back(n);
                sb.setStartAndSize(shape[i], a, n);
            }
            cmp(rd->getScaledDataSlice(v.name, sb), box(want, dims, st, sz), K + ":slicebuilder");
            c.cnt("slicebuilder reads");
        }
    }
}
void famRead(Ctx& c)
{
    GSet s = rndGSet(c, c.file("g"), true, true);
    c.d << s.str();
    for (auto& g : s.grids) { c.sig(' ').sig(g.type).sig(g.scan).sig('/').sig(g.shape); c.cnt("grid " + g.type); }
    for (auto& v : s.vars) c.sig(' ').sig(v.levels.size()).sig(v.nens).sig(v.constTime).sig(datatype2string(v.type));
    c.sig(s.ed).sig(s.times.size());
    const std::string cfg = gribReaderConfig(s, c.r.chance(0.3));
    sv args(s.files.begin() + 1, s.files.end());
    CDMReader_p rd = CDMFileReaderFactory::create("grib", s.files[0], XMLInputString(cfg), args);
    checkData(c, rd, s, "read");
}

// ---------------------------------------------------------------------- writing
void famWrite(Ctx& c)
{
    Rng& r = c.r;
    const int ed = r.chance(0.5) ? 1 : 2;
    const int kind = r.pick(std::vector<int>{Proj::LATLON, Proj::ROTATED, Proj::STERE, Proj::LCC});
    Grid g;
    for (;;) {
        g = rndGrid(r, r.uni(-170, 170), (r.chance(0.25) ? -1 : 1) * r.uni(10, 70), r.uni(15, 120), kind, 2, 6, true);
        if (g.nx() >= 2 && g.ny() >= 2) break;
    }
    long shape = ed == 1 ? 0 : r.pick(std::vector<long>{0, 6});
    g.p.earth = shape == 6 ? 1 : 3;
    if (kind == Proj::STERE) {
        if (ed == 1) g.p.lat1 = g.p.lat0 < 0 ? -60 : 60;
    }
    g.p.init();
    if (ed == 1 && !g.p.deg()) { // integer metres in GRIB1: already multiples of 500 m
    }
    Dataset ds;
    ds.att("_GLOBAL", "Conventions", "CF-1.0");
    const bool ll2 = !(kind == Proj::LATLON);
    auto xy = addGrid(ds, g, r, "", ll2);
    // time
    const bool hasT = r.chance(0.85), hasRef = hasT && r.chance(0.6);
    const long long ref = civilDays(r.range(1960, 2060), r.range(1, 12), r.range(1, 28)) * 86400 + r.below(24) * 3600 + (r.chance(0.3) ? r.below(60) * 60 : 0);
    const long step = r.pick(std::vector<long>{60, 600, 3600, 3600, 3 * 3600, 6 * 3600, 12 * 3600, 86400});
    size_t nt = 1;
    std::vector<long long> times;
    const bool regular = r.chance(0.7);
    long long t = ref + step * (r.chance(0.5) ? 0 : r.below(5));
    if (hasT) {
        nt = r.range(1, 4);
        for (size_t i = 0; i < nt; ++i) { times.push_back(t); t += step * (regular ? 1 : r.range(1, 4)); }
        const bool hours = r.chance(0.4);
        ds.addDim("time", nt, r.chance(0.7));
        dv tv;
        for (auto x : times) tv.push_back(hours ? double(x - 86400 * 3650LL) / 3600. : double(x));
        ds.add("time", CDM_DOUBLE, {"time"}, tv);
        ds.att("time", "units", hours ? "hours since 1979-12-30 00:00:00" : "seconds since 1970-01-01 00:00:00");
        ds.att("time", "standard_name", "time");
        if (hasRef) {
            ds.add("forecast_reference_time", CDM_DOUBLE, {}, {double(ref)});
            ds.att("forecast_reference_time", "units", "seconds since 1970-01-01 00:00:00");
            ds.att("forecast_reference_time", "standard_name", "forecast_reference_time");
        }
    }
    // vertical
    const int vk = r.below(4); // 0 none, 1 pressure hPa, 2 pressure Pa, 3 height m
    std::vector<long> lev; // in hPa or m
    if (vk) {
        std::set<long> L;
        for (size_t i = 0, n = r.range(1, 4); i < n; ++i) L.insert(vk == 3 ? r.range(0, 400) : r.pick(std::vector<long>{1000, 925, 850, 700, 500, 300, 100, 50, 10}));
        lev.assign(L.begin(), L.end());
        if (r.chance(0.5)) std::reverse(lev.begin(), lev.end());
        ds.addDim("lev", lev.size());
        dv lv;
        for (long x : lev) lv.push_back(vk == 2 ? x * 100. : x);
        const bool packed = vk == 2 && r.chance(0.2);
        const double lo = packed && r.chance(0.5) ? 1000 : 0;
        if (packed) for (double& x : lv) x = (x - lo) / 50;
        ds.add("lev", packed ? CDM_INT : r.chance(0.5) ? CDM_FLOAT : CDM_DOUBLE, {"lev"}, lv);
        if (packed) ds.att("lev", "scale_factor", CDM_DOUBLE, {50.});
        if (lo != 0) ds.att("lev", "add_offset", CDM_DOUBLE, {lo});
        ds.att("lev", "units", vk == 3 ? "m" : vk == 2 ? "Pa" : "hPa");
        ds.att("lev", "positive", vk == 3 ? "up" : "down");
        if (vk != 3 && r.chance(0.6)) ds.att("lev", "standard_name", "air_pressure");
        ds.att("lev", "axis", "Z");
    }
    struct WV { std::string name; double scale, offset; std::string unit; double slope, shift; long p0; bool useStd; dv phys; };
    std::vector<WV> wv;
    const size_t nv = r.range(1, 2);
    const size_t nxy = g.nx() * g.ny();
    for (size_t i = 0; i < nv; ++i) {
        WV w;
        w.name = i ? "wind" : "temp";
        w.p0 = i ? 33 : 11;
        if (ed == 2) w.p0 = i ? 2 : 0;
        w.useStd = r.chance(0.4);
        w.unit = i ? r.pick(sv{"m/s", "km/h"}) : r.pick(sv{"K", "celsius"});
        w.slope = w.unit == "km/h" ? 1 / 3.6 : 1;
        w.shift = w.unit == "celsius" ? 273.15 : 0;
        w.scale = 1;
        w.offset = 0;
        const CDMDataType ty = r.pick(std::vector<CDMDataType>{CDM_DOUBLE, CDM_FLOAT, CDM_SHORT, CDM_INT});
        sv shape_ = {xy.first, xy.second};
        if (vk) shape_.push_back("lev");
        if (hasT) shape_.push_back("time");
        Var& v = ds.add(w.name, ty, shape_);
        double fill = 9.96921e36;
        const double base = w.unit == "K" ? 270 : 5, amp = std::exp(r.uni(0, 4));
        if (ty == CDM_SHORT || ty == CDM_INT) {
            fill = ty == CDM_SHORT ? -32767 : -2147483647.;
            if (r.chance(0.8)) { w.scale = r.pick({0.01, 0.1, 0.5}); w.offset = w.unit == "K" ? 250 : 0; ds.att(w.name, "scale_factor", CDM_DOUBLE, {w.scale}); ds.att(w.name, "add_offset", CDM_DOUBLE, {w.offset}); }
            ds.att(w.name, "_FillValue", ty, {fill});
        } else {
            fill = r.pick({-9999., 1e20, -1e30});
            fill = ty == CDM_FLOAT ? double(float(fill)) : fill;
            if (r.chance(0.15)) fill = NAN;
            ds.att(w.name, "_FillValue", ty, {fill});
        }
        const double pm = r.pick({0., 0.2, 0.5});
        for (size_t k = 0; k < v.val.size(); k += nxy) {
            const bool all = r.chance(0.08) && nv * v.val.size() > nxy;
            for (size_t q = k; q < k + nxy; ++q) {
                const bool miss = all || r.chance(pm);
                double x = base + r.uni(-amp, amp);
                if (isInt(ty)) x = std::round((x - w.offset) / w.scale);
                if (ty == CDM_FLOAT) x = float(x);
                v.val[q] = miss ? fill : x;
                w.phys.push_back(miss ? NAN : (x * w.scale + w.offset) * w.slope + w.shift);
            }
        }
        ds.att(w.name, "units", w.unit);
        ds.att(w.name, "standard_name", i ? "wind_speed" : "air_temperature");
        gridAtts(ds, g, w.name, "", ll2);
        wv.push_back(w);
    }
    const bool omitEmpty = r.chance(0.7), second = r.chance(0.0);
    (void)second;
    std::ostringstream cf;
    cf.precision(17);
    cf << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<cdm_gribwriter_config>\n";
    if (!omitEmpty) cf << "<processing_options><omitEmptyFields>false</omitEmptyFields></processing_options>\n";
    const bool append = r.chance(0.2);
    if (append) cf << "<output_file type=\"append\"/>\n";
    cf << "<global_attributes><attribute name=\"bitsPerValue\" value=\"24\" type=\"long\"/><attribute name=\"centre\" value=\"98\" type=\"long\"/>";
    if (ed == 2) cf << "<g2attribute name=\"shapeOfTheEarth\" value=\"" << shape << "\" type=\"long\"/>";
    cf << "</global_attributes>\n<axes>"
          "<vertical_axis standard_name=\"\"><grib1 id=\"105\" value=\"2\"/><grib2 id=\"103\" value=\"2\"/></vertical_axis>"
          "<vertical_axis unitCompatibleTo=\"m\"><grib1 id=\"105\" units=\"m\"/><grib2 id=\"103\" units=\"m\"/></vertical_axis>"
          "<vertical_axis unitCompatibleTo=\"Pa\"><grib1 id=\"100\" units=\"hPa\"/><grib2 id=\"100\" units=\"hPa\"/></vertical_axis>"
          "<vertical_axis standard_name=\"air_pressure\"><grib1 id=\"100\" units=\"hPa\"/><grib2 id=\"100\" units=\"hPa\"/></vertical_axis>"
          "</axes>\n<variables>";
    GSet s;
    s.ed = ed;
    for (auto& w : wv) {
        const std::string gu = w.name == "wind" ? "m/s" : "K";
        cf << "<parameter " << (w.useStd ? "standard_name=\"" + std::string(w.name == "wind" ? "wind_speed" : "air_temperature") + "\"" : "name=\"" + w.name + "\"") << ">"
           << "<grib1 parameterNumber=\"" << w.p0 << "\" codeTable=\"2\" units=\"" << gu << "\"/><grib2 discipline=\"0\" parameterCategory=\"" << (w.name == "wind" ? 2 : 0) << "\" parameterNumber=\"" << w.p0 << "\" units=\"" << gu << "\"/></parameter>";
    }
    cf << "</variables>\n</cdm_gribwriter_config>\n";
    c.d << "grib" << ed << ' ' << g.str() << " shape " << shape << " vk " << vk << " levels " << vstr(lev) << " nt " << nt << " step " << step << " ref " << hasRef << " omit " << omitEmpty << " append " << append << ' ' << ds.str();
    c.sig(ed).sig(kind).sig(vk).sig(nt).sig(hasT).sig(hasRef).sig(nv).sig((g.x.v[1] > g.x.v[0])).sig((g.y.v[1] > g.y.v[0])).sig(g.xUnit).sig(step).sig(regular);
    const std::string file = c.file(ed == 1 ? "o.grb1" : "o.grb2");
    auto src = std::make_shared<MemReader>(ds, r.chance(0.5));
    const size_t prior = append ? 1 : 0;
    if (append) std::ofstream(file, std::ios::binary) << GH(codes_grib_handle_new_from_samples(nullptr, "GRIB2")).msg();
    CDMFileReaderFactory::createWriter(src, ed == 1 ? "grb1" : "grb2", file, XMLInputString(cf.str()));

    // what was written, seen by ecCodes
    auto msgs = gribMessages(file);
    VCHECK(c, msgs.size() >= prior, "write:append", "file truncated: " << msgs.size() << " messages");
    msgs.erase(msgs.begin(), msgs.begin() + prior);
    const double posTol = ed == 1 ? 1e-3 * std::max(g.nx(), g.ny()) + 1e-3 : 2e-6 * std::max(g.nx(), g.ny()) + 4e-6; // resolution of the increments adds up
    dv glon, glat;
    for (size_t j = 0; j < g.ny(); ++j) for (size_t i = 0; i < g.nx(); ++i) { double a, b; g.lonlat(i, j, a, b); glon.push_back(a); glat.push_back(b); }
    // metric grids: increments in integer metres (grib1) / mm (grib2); rounding accumulates over the grid; lat_ts etc. in millidegrees
    std::map<std::array<long long, 3>, const GH*> seen;
    for (auto& h : msgs) {
        const long p = h.l(ed == 1 ? "indicatorOfParameter" : "parameterNumber");
        size_t vi = 99;
        for (size_t i = 0; i < wv.size(); ++i) if (wv[i].p0 == p) vi = i;
        VCHECK(c, vi != 99, "write:parameter", "unexpected parameter " << p);
        const long dd = h.l("dataDate"), dt = h.l("dataTime");
        GTime gt{dd / 10000, int(dd / 100 % 100), int(dd % 100), int(dt / 100), int(dt % 100), h.l("indicatorOfUnitOfTimeRange"), ed == 1 ? h.l("P1") : h.l("forecastTime")};
        if (ed == 1 && h.l("timeRangeIndicator") == 10) gt.step = h.l("P1") * 256 + h.l("P2");
        long long vt = hasT ? gt.valid() : 0;
        if (hasRef) VCHECK(c, gt.ref() == ref, "write:reftime", "reference time " << gt.ref() << " expected " << ref);
        const long lt = h.l(ed == 1 ? "indicatorOfTypeOfLevel" : "typeOfFirstFixedSurface");
        VCHECK(c, lt == (vk == 1 || vk == 2 ? 100 : ed == 1 ? 105 : 103), "write:leveltype", "level type " << lt);
        long lv = h.l("level");
        if (ed == 2) VCHECK(c, h.l("scaledValueOfFirstFixedSurface") * std::pow(10., -h.l("scaleFactorOfFirstFixedSurface")) == lv * (lt == 100 ? 100. : 1.), "write:level-scaled", "level " << lv);
        const std::array<long long, 3> key = {(long long)vi, vt, lv};
        VCHECK(c, !seen.count(key), "write:duplicate", "two messages for variable " << vi << " time " << vt << " level " << lv);
        seen[key] = &h;
    }
    const std::vector<long> L = vk ? lev : std::vector<long>{2};
    const std::vector<long long> T = hasT ? times : std::vector<long long>{0};
    size_t expected = 0;
    for (size_t vi = 0; vi < wv.size(); ++vi)
        for (size_t ti = 0; ti < T.size(); ++ti)
            for (size_t li = 0; li < L.size(); ++li) {
                const double* w = &wv[vi].phys[(ti * L.size() + li) * nxy];
                bool any = false;
                double lo = 1e300, hi = -1e300, mx = 0;
                for (size_t k = 0; k < nxy; ++k) if (!std::isnan(w[k])) { any = true; lo = std::min(lo, w[k]); hi = std::max(hi, w[k]); mx = std::max(mx, std::fabs(w[k])); }
                auto it = seen.find({(long long)vi, T[ti], L[li]});
                if (!any && omitEmpty) { VCHECK(c, it == seen.end(), "write:empty-field", "field without values was written"); continue; }
                ++expected;
                VCHECK(c, it != seen.end(), "write:message", "no message for " << wv[vi].name << " time " << T[ti] << " level " << L[li] << " (" << msgs.size() << " messages)");
                const GH& h = *it->second;
                const dv v = h.values();
                VCHECK(c, v.size() == nxy, "write:size", v.size() << " values, expected " << nxy);
                const double mv = h.d("missingValue");
                std::vector<long> bm(nxy, 1);
                if (h.l("bitmapPresent")) { size_t n = nxy; gck(codes_get_long_array(h.h.get(), "bitmap", bm.data(), &n), "bitmap"); }
                (void)mv;
                const double tol = any ? 4 * (hi - lo) / std::pow(2., 24) + 3e-6 * mx : 0;
                for (size_t k = 0; k < nxy; ++k) {
                    VCHECK(c, (bm[k] != 0) == !std::isnan(w[k]), "write:missing", wv[vi].name << " at " << k << " bitmap " << bm[k] << " value " << v[k] << " expected " << w[k]);
                    if (bm[k]) VCHECK(c, std::fabs(v[k] - w[k]) <= tol, "write:value", wv[vi].name << " at " << k << " value " << v[k] << " expected " << w[k] << " tol " << tol);
                    c.checks++;
                }
                dv lo_, la_;
                gribPositions(h, lo_, la_);
                VCHECK(c, lo_.size() == nxy, "write:iterator", "iterator size");
                for (size_t k = 0; k < nxy; ++k)
                    VCHECK(c, sphDist(lo_[k], la_[k], glon[k], glat[k]) <= posTol, "write:position:" + h.s("gridType"), "point " << k % g.nx() << ',' << k / g.nx() << " at " << lo_[k] << ',' << la_[k] << " expected " << glon[k] << ',' << glat[k]);
                c.cnt("written messages checked");
                c.cnt("written " + h.s("gridType"));
            }
    VCHECK(c, seen.size() == expected, "write:count", seen.size() << " messages, expected " << expected);
    if (append || expected == 0) return;
    // read back through fimex
    for (size_t i = 0; i < wv.size(); ++i) {
        GVar gv;
        gv.name = wv[i].name;
        gv.p0 = wv[i].p0; gv.p1 = ed == 1 ? 2 : wv[i].name == "wind" ? 2 : 0; gv.p2 = ed == 1 ? 98 : 0;
        gv.ltype = vk == 1 || vk == 2 ? 100 : ed == 1 ? 105 : 103;
        s.vars.push_back(gv);
    }
    CDMReader_p rd = CDMFileReaderFactory::create("grib", file, XMLInputString(gribReaderConfig(s)));
    for (size_t i = 0; i < wv.size(); ++i) {
        if (!rd->getCDM().hasVariable(wv[i].name)) { // all fields empty
            for (double x : wv[i].phys) VCHECK(c, std::isnan(x), "roundtrip:variable", wv[i].name << " lost");
            continue;
        }
        dv lo_, la_;
        fimexLonLat(c, rd, wv[i].name, lo_, la_);
        VCHECK(c, lo_.size() == nxy, "roundtrip:grid", "grid size");
        for (size_t k = 0; k < nxy; ++k)
            VCHECK(c, sphDist(lo_[k], la_[k], glon[k], glat[k]) <= posTol, "roundtrip:position", "point " << k << " at " << lo_[k] << ',' << la_[k] << " expected " << glon[k] << ',' << glat[k]);
        const auto shp = rd->getCDM().getVariable(wv[i].name).getShape();
        const dv Lr = toD(rd->getData(shp[2])), Tr = toD(rd->getScaledDataInUnit("time", "seconds since 1970-01-01 00:00:00")), V = toD(rd->getScaledData(wv[i].name));
        VCHECK(c, V.size() == nxy * Lr.size() * Tr.size(), "roundtrip:size", "size");
        double lo = 1e300, hi = -1e300, mx = 0;
        for (double x : wv[i].phys) if (!std::isnan(x)) { lo = std::min(lo, x); hi = std::max(hi, x); mx = std::max(mx, std::fabs(x)); }
        for (size_t ti = 0; ti < T.size(); ++ti) for (size_t li = 0; li < L.size(); ++li) {
            const double* w = &wv[i].phys[(ti * L.size() + li) * nxy];
            size_t a = 0, b = 0;
            while (a < Tr.size() && hasT && std::fabs(Tr[a] - T[ti]) > 0.5) ++a;
            while (b < Lr.size() && std::fabs(Lr[b] - L[li]) > 1e-6) ++b;
            if (a == Tr.size() || b == Lr.size()) {
                for (size_t k = 0; k < nxy; ++k) VCHECK(c, std::isnan(w[k]), "roundtrip:lost", "time " << ti << " level " << li << " lost");
                continue;
            }
            for (size_t k = 0; k < nxy; ++k) {
                const double x = V[(a * Lr.size() + b) * nxy + k];
                VCHECK(c, std::isnan(w[k]) ? std::isnan(x) : std::fabs(x - w[k]) <= 4 * (hi - lo) / std::pow(2., 24) + 3e-6 * mx, "roundtrip:value", wv[i].name << " time " << ti << " level " << li << " point " << k << " got " << x << " expected " << w[k]);
                c.checks++;
            }
        }
    }
    c.cnt("round trips");
}
//! several forecast runs in one dataset: a reference-time axis, and valid times which are common to, or different for, the runs
void famRuns(Ctx& c)
{
    Rng& r = c.r;
    const int ed = r.range(1, 2);
    Dataset ds;
    ds.att("_GLOBAL", "Conventions", "CF-1.6");
    const size_t nx = r.range(2, 4), ny = r.range(2, 4), nr = r.range(1, 3), nt = r.range(1, 4), nl = r.range(0, 2);
    ds.addDim("lon", nx); ds.addDim("lat", ny);
    dv v;
    for (size_t i = 0; i < nx; ++i) v.push_back(5 + 0.5 * i);
    ds.add("lon", CDM_DOUBLE, {"lon"}, v); ds.att("lon", "units", "degrees_east"); ds.att("lon", "standard_name", "longitude");
    v.clear();
    for (size_t i = 0; i < ny; ++i) v.push_back(60 + 0.25 * i);
    ds.add("lat", CDM_DOUBLE, {"lat"}, v); ds.att("lat", "units", "degrees_north"); ds.att("lat", "standard_name", "latitude");
    if (nl) {
        ds.addDim("lev", nl);
        v = {850, 500};
        v.resize(nl);
        ds.add("lev", CDM_DOUBLE, {"lev"}, v); ds.att("lev", "units", "hPa"); ds.att("lev", "standard_name", "air_pressure"); ds.att("lev", "axis", "Z");
    }
    const long long t0 = 1577836800LL + 86400LL * r.range(0, 400), dr = 3600LL * r.pick({1, 6, 12}), dt = 60LL * r.pick({60, 180, 30});
    const bool twoD = r.chance(0.5);
    std::vector<long long> refs;
    std::vector<std::vector<long long>> valid(nr);
    for (size_t k = 0; k < nr; ++k) refs.push_back(t0 + (long long)k * dr);
    for (size_t k = 0; k < nr; ++k) for (size_t i = 0; i < nt; ++i) valid[k].push_back((twoD ? refs[k] : refs.back()) + dt * (long long)(i + (twoD && r.chance(0.5) ? k : 0) * nt));
    for (auto& x : valid) std::sort(x.begin(), x.end());
    const std::string tu = "seconds since 1970-01-01 00:00:00";
    ds.addDim("runtime", nr);
    ds.add("runtime", CDM_DOUBLE, {"runtime"}, dv(refs.begin(), refs.end()));
    ds.att("runtime", "units", tu); ds.att("runtime", "standard_name", "forecast_reference_time");
    const bool runFirst = r.chance(0.5);
    sv shape = {"lon", "lat"};
    if (nl) shape.push_back("lev");
    const std::string td = twoD ? "offset" : "time";
    ds.addDim(td, nt);
    if (twoD) {
        v.clear();
        for (size_t i = 0; i < nt; ++i) v.push_back(i);
        ds.add("offset", CDM_DOUBLE, {"offset"}, v);
        ds.att("offset", "long_name", "number of the time step");
        const sv ts = runFirst ? sv{"runtime", "offset"} : sv{"offset", "runtime"};
        Var& t = ds.add("time", CDM_DOUBLE, ts);
        for (size_t k = 0; k < nr; ++k) for (size_t i = 0; i < nt; ++i) t.val[runFirst ? k + nr * i : i + nt * k] = valid[k][i];
    } else ds.add("time", CDM_DOUBLE, {"time"}, dv(valid[0].begin(), valid[0].end()));
    ds.att("time", "units", tu); ds.att("time", "standard_name", "time");
    if (runFirst) { shape.push_back("runtime"); shape.push_back(td); } else { shape.push_back(td); shape.push_back("runtime"); }
    Var& f = ds.add("temp", r.pick({CDM_DOUBLE, CDM_FLOAT}), shape);
    for (double& x : f.val) x = float(270 + r.uni(-20, 20));
    ds.att("temp", "units", "K"); ds.att("temp", "standard_name", "air_temperature");
    if (twoD) ds.att("temp", "coordinates", "time");
    const std::string cf = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<cdm_gribwriter_config><global_attributes><attribute name=\"bitsPerValue\" value=\"24\" type=\"long\"/></global_attributes><axes>"
          "<vertical_axis standard_name=\"\"><grib1 id=\"105\" value=\"2\"/><grib2 id=\"103\" value=\"2\"/></vertical_axis>"
          "<vertical_axis standard_name=\"air_pressure\"><grib1 id=\"100\" units=\"hPa\"/><grib2 id=\"100\" units=\"hPa\"/></vertical_axis></axes><variables>"
          "<parameter name=\"temp\"><grib1 parameterNumber=\"11\" codeTable=\"2\" units=\"K\"/><grib2 discipline=\"0\" parameterCategory=\"0\" parameterNumber=\"0\" units=\"K\"/></parameter></variables></cdm_gribwriter_config>";
    c.d << "grib" << ed << " runs " << vstr(dv(refs.begin(), refs.end())) << " steps " << nt << " of " << dt << (twoD ? " per run" : " common") << (runFirst ? " runtime first " : " ") << ds.str();
    c.sig(ed).sig(nr).sig(nt).sig(nl).sig(twoD).sig(runFirst).sig(dr).sig(dt).sig(nx).sig(ny).sig(t0);
    const std::string file = c.file(ed == 1 ? "r.grb1" : "r.grb2");
    CDMFileReaderFactory::createWriter(std::make_shared<MemReader>(ds, r.chance(0.5)), ed == 1 ? "grb1" : "grb2", file, XMLInputString(cf));
    auto msgs = gribMessages(file);
    std::map<std::array<long long, 3>, const GH*> seen;
    for (auto& h : msgs) {
        const long dd = h.l("dataDate"), tt = h.l("dataTime");
        GTime gt{dd / 10000, int(dd / 100 % 100), int(dd % 100), int(tt / 100), int(tt % 100), h.l("indicatorOfUnitOfTimeRange"), ed == 1 ? h.l("P1") : h.l("forecastTime")};
        if (ed == 1 && h.l("timeRangeIndicator") == 10) gt.step = h.l("P1") * 256 + h.l("P2");
        if (ed == 1 && (gt.unit == 13 || gt.unit == 14)) { gt.step *= gt.unit == 13 ? 15 : 30; gt.unit = 0; } // quarters and halves of an hour
        const std::array<long long, 3> key = {gt.ref(), gt.valid(), nl ? h.l("level") : 0};
        VCHECK(c, !seen.count(key), "runs:duplicate", "two messages for run " << key[0] << " time " << key[1] << " level " << key[2]);
        seen[key] = &h;
    }
    const size_t nxy = nx * ny, nL = nl ? nl : 1;
    for (size_t k = 0; k < nr; ++k) for (size_t i = 0; i < nt; ++i) for (size_t l = 0; l < nL; ++l) {
        auto it = seen.find({refs[k], valid[k][i], nl ? (l ? 500 : 850) : 0});
        VCHECK(c, it != seen.end(), "runs:message", "no message for run " << k << " time " << i << " level " << l << " of " << msgs.size() << " messages");
        const dv g = it->second->values();
        const size_t at = nxy * (l + nL * (runFirst ? k + nr * i : i + nt * k));
        for (size_t q = 0; q < nxy; ++q) VCHECK(c, g.size() == nxy && std::fabs(g[q] - f.val[at + q]) < 1e-3, "runs:value", "run " << k << " time " << i << " level " << l << " point " << q << " value " << g.at(q) << " expected " << f.val[at + q]);
        c.cnt(nr > 1 ? "messages of several runs" : "messages of one run");
    }
    VCHECK(c, seen.size() == nr * nt * nL, "runs:count", seen.size() << " messages, expected " << nr * nt * nL);
}
} // namespace
VF_MAIN("C25", "GRIB files decode to, and are encoded from, the right fields, grids, times, levels and members", {"read", famRead, 1200, 12000}, {"write", famWrite, 1500, 15000}, {"runs", famRuns, 300, 3000})
