// C33: the C and Python interfaces return what the C++ library returns; errors become codes / exceptions.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "zoo.h"
#include <fimex/AggregationReader.h>
#include <fimex/C_CDMReader.h>
#include <fimex/CDMMerger.h>
#include <fimex/CDMReaderUtils.h>
#include <fimex/CDMReaderWriter.h>
#include <fimex/TimeUnit.h>
#include <fimex/Units.h>
#include <fimex/XMLInputFile.h>
#include <fimex/c_fimex.h>
#include <fimex/coordSys/CoordinateSystem.h>
#include <fimex/mifi_cdm_reader.h>
#include <fstream>
using namespace vf;
namespace {
//! no C++ exception may leave a C function
template <class F> auto C_(Ctx& c, const char* what, F f) -> decltype(f())
{
    c.cnt("C calls");
    try {
        return f();
    } catch (std::exception& ex) {
        c.fail(std::string("c:exception-escapes:") + what, ex.what());
    }
}
#define CC(call) C_(c, #call, [&] { return call; })
typedef std::unique_ptr<mifi_cdm_reader, void (*)(mifi_cdm_reader*)> CR;
typedef std::unique_ptr<mifi_slicebuilder, void (*)(mifi_slicebuilder*)> SB;
CR own(mifi_cdm_reader* r) { return CR(r, mifi_free_cdm_reader); }
SB own(mifi_slicebuilder* r) { return SB(r, mifi_free_slicebuilder); }

//! missing -> NaN, scale and offset applied
std::string why(const std::function<void()>& f) { try { f(); } catch (std::exception& e) { return e.what(); } return "fine"; }
dv scaledRef(const Dataset& ds, const std::string& n)
{
    const Var& v = ds.var(n);
    double f = v.type == CDM_FLOAT || v.type == CDM_DOUBLE ? NAN : NAN, s = 1, o = 0;
    bool hasF = false;
    for (auto& a : ds.attrs) if (a.first == n) {
        const std::string an = a.second.getName();
        if (an == "_FillValue") { f = a.second.getData()->asDouble()[0]; hasF = true; }
        if (an == "scale_factor") s = a.second.getData()->asDouble()[0];
        if (an == "add_offset") o = a.second.getData()->asDouble()[0];
    }
    dv r = v.val;
    for (double& x : r) x = hasF && x == f ? NAN : x * s + o;
    return r;
}
Dataset capiDataset(Ctx& c, Zoo& z)
{
    Rng& r = c.r;
    Dataset ds = zooDataset(r, z);
    const bool ll2 = ds.hasVar("glon");
    // same coordinate system, other order of dimensions
    std::vector<std::pair<std::string, sv>> tr = {{"trans", {z.yn, z.xn, "time"}}, {"trans4", {"pressure", z.yn, z.xn, "time"}}, {"aaa", {z.yn, z.xn}}};
    for (auto& t : tr) if (r.chance(0.5)) {
        Var& v = ds.add(t.first, CDM_FLOAT, t.second);
        for (double& x : v.val) x = (float)r.uni(-50, 50);
        ds.att(t.first, "units", "m");
        gridAtts(ds, z.g, t.first, "", ll2);
        if (r.chance(0.5)) { // anywhere in the list of variables
            Var w = ds.vars.back();
            ds.vars.pop_back();
            ds.vars.insert(ds.vars.begin() + r.below(ds.vars.size()), w);
        }
    }
    if (r.chance(0.4)) { ds.add("reft", CDM_DOUBLE, {}, {double(r.range(0, 100))}); ds.att("reft", "units", "hours since 2000-01-01 00:00:00 +00:00"); ds.att("reft", "standard_name", "forecast_reference_time"); }
    return ds;
}
void cpyCheck(Ctx& c, const std::string& what, const std::string& want, const std::function<int(char*, int)>& f, bool mayFail)
{
    const int L = want.size() + 1;
    for (int n : {L, L - 1, L + 1, 1, int(c.r.range(0, 2 * L)), 0, 1025}) {
        if (n < 0) continue;
        std::vector<char> buf(n + 8, '#');
        const int rc = f(buf.data() + 4, n);
        for (int i = 0; i < 4; ++i) VCHECK(c, buf[i] == '#' && buf[n + 4 + i] == '#', "c:cpy-overrun", what << " n=" << n << " want='" << want << "'");
        if (mayFail && rc == -1) { VCHECK(c, want.empty(), "c:cpy-fails", what << " returns -1, expected '" << want << "'"); continue; }
        if (n < L) VCHECK(c, rc == 0, "c:cpy-too-small", what << " capacity " << n << " for '" << want << "' gives " << rc);
        else {
            VCHECK(c, rc == L, "c:cpy-count", what << " capacity " << n << " for '" << want << "' gives " << rc);
            VCHECK(c, std::string(buf.data() + 4) == want, "c:cpy-text", what << " '" << std::string(buf.data() + 4) << "' expected '" << want << "'");
        }
        c.cnt("bounded string copies");
    }
}
//! all queries of the C interface against the C++ interface of the same reader
void compareC(Ctx& c, mifi_cdm_reader* cr, CDMReader_p rd, const Dataset* ds, const std::set<std::string>& changed = std::set<std::string>())
{
    Rng& r = c.r;
    const CDM& cdm = rd->getCDM();
    const auto css = listCoordinateSystems(rd);
    VCHECK(c, CC(mifi_get_variable_number(cr)) == cdm.getVariables().size(), "c:nvars", "");
    VCHECK(c, CC(mifi_get_dimension_number(cr)) == cdm.getDimensions().size(), "c:ndims", "");
    for (size_t i = 0; i < cdm.getDimensions().size(); ++i) {
        const auto& d = cdm.getDimensions()[i];
        const char* n = CC(mifi_get_dimension_name(cr, i));
        VCHECK(c, n && n == d.getName(), "c:dim-name", (n ? n : "NULL") << " expected " << d.getName());
        VCHECK(c, CC(mifi_get_dimension_size(cr, n)) == d.getLength(), "c:dim-size", n);
    }
    const char* u = CC(mifi_get_unlimited_dimension_name(cr));
    VCHECK(c, u && std::string(u) == (cdm.getUnlimitedDim() ? cdm.getUnlimitedDim()->getName() : std::string()), "c:unlimited", (u ? u : "NULL"));
    for (size_t i = 0; i < cdm.getVariables().size(); ++i) {
        const CDMVariable& v = cdm.getVariables()[i];
        const std::string n = v.getName();
        const char* cn = CC(mifi_get_variable_name(cr, i));
        VCHECK(c, cn && cn == n, "c:var-name", (cn ? cn : "NULL") << " expected " << n);
        VCHECK(c, CC(mifi_get_variable_type(cr, cn)) == (unsigned)v.getDataType(), "c:var-type", n);
        std::string lat, lon;
        if (!cdm.getLatitudeLongitude(n, lat, lon)) lat = lon = "";
        char* clon = CC(mifi_get_var_longitude(cr, cn));
        char* clat = CC(mifi_get_var_latitude(cr, cn));
        const std::string slon = clon ? clon : "", slat = clat ? clat : "";
        free(clon);
        free(clat);
        VCHECK(c, slon == lon && slat == lat, "c:lonlat", n << ": " << slon << ',' << slat << " expected " << lon << ',' << lat);
        if (!lon.empty()) c.cnt("variables with lon/lat names");
        if (r.chance(0.3)) {
            cpyCheck(c, "longitude", lon, [&](char* p, int m) { return CC(mifi_get_var_longitude_cpy(cr, cn, p, m)); }, true);
            cpyCheck(c, "latitude", lat, [&](char* p, int m) { return CC(mifi_get_var_latitude_cpy(cr, cn, p, m)); }, true);
        }
        // slicebuilder
        const sv shape = v.getShape();
        const szv lens = varDims(rd, n);
        SB sb = own(CC(mifi_new_slicebuilder(cr, cn)));
        VCHECK(c, !!sb, "c:slicebuilder-null", n);
        const CoordinateSystem_cp cs = findCompleteCoordinateSystemFor(css, n);
        VCHECK(c, CC(mifi_slicebuilder_has_CS(sb.get())) == (cs ? 1 : 0), "c:has-cs", n);
        const int nd = CC(mifi_slicebuilder_ndims(sb.get()));
        VCHECK(c, nd == int(shape.size()), "c:sb-ndims", n << ' ' << nd << " expected " << shape.size());
        std::vector<unsigned> st(nd + 1, 77777), sz(nd + 1, 77777);
        VCHECK(c, CC(mifi_slicebuilder_get_start_size(sb.get(), st.data(), sz.data())) == 0, "c:sb-get", n);
        VCHECK(c, st[nd] == 77777 && sz[nd] == 77777, "c:sb-overrun", n);
        szv start(nd), size(nd);
        const CoordinateAxis_cp refAx = cs ? cs->findAxisOfType(CoordinateAxis::ReferenceTime) : CoordinateAxis_cp();
        for (int k = 0; k < nd; ++k) {
            const char* dn = CC(mifi_slicebuilder_dimname(sb.get(), k));
            const std::string sdn = dn ? dn : "";
            free((void*)dn);
            VCHECK(c, sdn == shape[k], "c:sb-dimname", n << " dimension " << k << " is " << sdn << " expected " << shape[k]);
            if (r.chance(0.3)) cpyCheck(c, "dimname", sdn, [&](char* p, int m) { return CC(mifi_slicebuilder_dimname_cpy(sb.get(), k, p, m)); }, false);
            start[k] = st[k];
            size[k] = sz[k];
            if (refAx && refAx->getName() == sdn) VCHECK(c, st[k] == 0 && sz[k] == 1, "c:sb-reftime", n << ' ' << st[k] << '+' << sz[k]);
            else VCHECK(c, st[k] == 0 && sz[k] == lens[k], "c:sb-range", n << " dimension " << sdn << ": " << st[k] << '+' << sz[k] << " of " << lens[k]);
        }
        std::vector<int> ax(nd + 1, 4711);
        const int arc = CC(mifi_slicebuilder_get_axistype(sb.get(), ax.data()));
        if (!cs) VCHECK(c, arc < 0, "c:axistype-without-cs", n << ' ' << arc);
        else if (arc == 0) {
            for (int k = 0; k < nd; ++k) {
                CoordinateAxis::AxisType want = CoordinateAxis::Undefined;
                for (auto& a : cs->getAxes()) if (a->getName() == shape[k]) want = a->getAxisType();
                VCHECK(c, ax[k] == CoordinateAxis::type2int(want), "c:axistype", n << " dimension " << shape[k] << ' ' << ax[k]);
            }
            c.cnt("axis types compared");
        }
        const char* p4 = CC(mifi_slicebuilder_get_proj4(sb.get()));
        const std::string sp4 = p4 ? p4 : "NULL";
        free((void*)p4);
        const std::string wp4 = cs && cs->getProjection() ? cs->getProjection()->getProj4String() : std::string();
        VCHECK(c, sp4 == wp4, "c:proj4", n << " '" << sp4 << "' expected '" << wp4 << "'");
        if (r.chance(0.2)) cpyCheck(c, "proj4", wp4, [&](char* p, int m) { return CC(mifi_slicebuilder_get_proj4_cpy(sb.get(), p, m)); }, false);
        // data
        const bool text = v.getDataType() == CDM_STRING || v.getDataType() == CDM_STRINGS || v.getDataType() == CDM_NAT;
        if (text) continue;
        const dv all = toD(rd->getScaledData(n));
        if (all.empty() && shape.empty()) continue; // grid mapping variables made by the interpolator hold no value
        VCHECK(c, all.size() == prod(lens), "c++:size", n << vstr(lens) << " has " << all.size() << " values");
        if (ds && ds->hasVar(n) && !changed.count(n)) {
            const dv want = scaledRef(*ds, n);
            for (size_t k = 0; k < want.size(); ++k) VCHECK(c, all.size() == want.size() && (same(all[k], want[k]) || std::fabs(all[k] - want[k]) <= 1e-6 * (1 + std::fabs(want[k]))), "c++:reference", n);
        }
        double* data = 0;
        size_t len = 4711;
        VCHECK(c, CC(mifi_get_double_data(cr, cn, &data, &len)) == 0, "c:get-data", n);
        dv got(data, data + len);
        free(data);
        expectVals(c, "c:data", got, all, 0, n);
        const bool rec = !shape.empty() && cdm.getUnlimitedDim() && cdm.getUnlimitedDim()->getName() == shape.back();
        const size_t pos = rec ? r.below(lens.back()) : r.below(3);
        data = 0;
        len = 4711;
        VCHECK(c, CC(mifi_get_double_dataslice(cr, cn, pos, &data, &len)) == 0, "c:get-dataslice", n << " at " << pos << ": " << why([&] { rd->getScaledDataSlice(n, pos); }));
        got.assign(data, data + len);
        free(data);
        if (rec) { szv s0(lens.size(), 0), s1 = lens; s0.back() = pos; s1.back() = 1; expectVals(c, "c:dataslice", got, box(all, lens, s0, s1), 0, n); }
        else expectVals(c, "c:dataslice", got, all, 0, n);
        // box
        for (int k = 0; k < nd; ++k) {
            if (lens[k] == 0 || !r.chance(0.6)) continue;
            const size_t b = r.below(lens[k]), l = r.range(1, lens[k] - b);
            VCHECK(c, CC(mifi_slicebuilder_set_dim_start_size(sb.get(), shape[k].c_str(), b, l)) == 0, "c:sb-set", n << ' ' << shape[k] << ' ' << b << '+' << l);
            start[k] = b;
            size[k] = l;
            if (l < lens[k]) c.cnt("partial slices");
        }
        if (nd > 0 && r.chance(0.4)) { // a range outside is an error and changes nothing
            const int k = r.below(nd);
            const unsigned b = r.pick({unsigned(lens[k]) + 1, unsigned(lens[k]), 0u, ~0u, ~0u - 1}), l = r.pick({unsigned(lens[k]) + 1, ~0u, 2u});
            if (size_t(b) + l > lens[k]) VCHECK(c, CC(mifi_slicebuilder_set_dim_start_size(sb.get(), shape[k].c_str(), b, l)) < 0, "c:sb-set-range", n << ' ' << b << '+' << l << " of " << lens[k]);
            VCHECK(c, CC(mifi_slicebuilder_set_dim_start_size(sb.get(), "no such dimension", 0, 1)) < 0, "c:sb-set-name", n);
            c.cnt("invalid ranges");
        }
        CC(mifi_slicebuilder_get_start_size(sb.get(), st.data(), sz.data()));
        for (int k = 0; k < nd; ++k) VCHECK(c, st[k] == start[k] && sz[k] == size[k], "c:sb-state", n << ' ' << shape[k]);
        const size_t want = prod(size);
        const dv ref = box(all, lens, start, size);
        std::vector<double> buf(want + 2, 12345.5);
        len = 4711;
        VCHECK(c, CC(mifi_fill_scaled_double_dataslice(cr, cn, sb.get(), "", buf.data() + 1, &len)) == 0, "c:fill", n);
        VCHECK(c, buf[0] == 12345.5 && buf[want + 1] == 12345.5, "c:fill-overrun", n);
        VCHECK(c, len == want, "c:fill-size", n << ' ' << len << " expected " << want);
        expectVals(c, "c:fill", dv(buf.begin() + 1, buf.begin() + 1 + len), ref, 0, n);
        std::string unit;
        CDMAttribute ua;
        if (cdm.getAttribute(n, "units", ua)) unit = ua.getStringValue();
        std::string to = unit == "K" ? "degC" : unit == "m" ? "km" : unit == "degC" ? "K" : unit == "m/s" ? "km/hour" : unit == "hPa" ? "Pa" : unit;
        if (r.chance(0.15)) to = unit == "K" ? "m" : "K";
        if (!unit.empty()) {
            const bool ok = Units().areConvertible(unit, to);
            std::fill(buf.begin(), buf.end(), 12345.5);
            const int rc = CC(mifi_fill_scaled_double_dataslice(cr, cn, sb.get(), to.c_str(), buf.data() + 1, &len));
            bool cppOk = true;
            dv cref;
            try { SliceBuilder s(cdm, n); for (int k = 0; k < nd; ++k) s.setStartAndSize(shape[k], start[k], size[k]); cref = toD(rd->getScaledDataSliceInUnit(n, to, s)); } catch (std::exception&) { cppOk = false; }
            VCHECK(c, (rc == 0) == cppOk, "c:fill-unit-rc", n << ' ' << unit << "->" << to << " returns " << rc);
            if (!ok) VCHECK(c, rc != 0, "c:fill-bad-unit", n << ' ' << unit << "->" << to);
            if (rc == 0) { expectVals(c, "c:fill-unit", dv(buf.begin() + 1, buf.begin() + 1 + len), cref, 0, n); c.cnt("slices in other units"); }
            else c.cnt("unit errors");
        }
        c.cnt("variables compared");
    }
    // forecast reference time
    for (std::string tu : {"hours since 1999-12-31 00:00:00", "seconds since 1970-01-01", "m", "nonsense!"}) {
        double want = NAN;
        bool ok = true;
        try { want = TimeUnit(tu).fimexTime2unitTime(getUniqueForecastReferenceTimeFT(rd)); } catch (std::exception&) { ok = false; }
        const double g = CC(mifi_get_unique_forecast_reference_time(cr, tu.c_str()));
        if (ok) { VCHECK(c, same(g, want), "c:reftime", tu << ' ' << g << " expected " << want); c.cnt("reference times"); }
        else VCHECK(c, std::isnan(g), "c:reftime-error", tu << ' ' << g);
    }
    // errors
    const char* bad = "no such variable";
    const size_t nv = cdm.getVariables().size(), ndm = cdm.getDimensions().size();
    for (size_t i : {nv, nv + 1, ~size_t(0)}) { const char* p = CC(mifi_get_variable_name(cr, i)); VCHECK(c, p && !*p, "c:err:var-name", "position " << i << " of " << nv << " must give \"\""); }
    for (size_t i : {ndm, ndm + 1, ~size_t(0)}) { const char* p = CC(mifi_get_dimension_name(cr, i)); VCHECK(c, p && !*p, "c:err:dim-name", "position " << i << " of " << ndm << " must give \"\""); }
    VCHECK(c, CC(mifi_get_variable_type(cr, bad)) == CDM_NAT, "c:err:type", "");
    VCHECK(c, CC(mifi_get_dimension_size(cr, bad)) == 0, "c:err:dim-size", "");
    char* s = CC(mifi_get_var_longitude(cr, bad));
    VCHECK(c, !s || !*s, "c:err:longitude", s);
    free(s);
    s = CC(mifi_get_var_latitude(cr, bad));
    VCHECK(c, !s || !*s, "c:err:latitude", s);
    free(s);
    char b8[8];
    VCHECK(c, CC(mifi_get_var_longitude_cpy(cr, bad, b8, 8)) <= 1, "c:err:longitude-cpy", "");
    VCHECK(c, CC(mifi_get_var_latitude_cpy(cr, bad, b8, 8)) <= 1, "c:err:latitude-cpy", "");
    VCHECK(c, !CC(mifi_new_slicebuilder(cr, bad)), "c:err:slicebuilder", "");
    double* dd = 0;
    size_t dl = 0;
    VCHECK(c, CC(mifi_get_double_data(cr, bad, &dd, &dl)) != 0, "c:err:data", "");
    VCHECK(c, CC(mifi_get_double_dataslice(cr, bad, 0, &dd, &dl)) != 0, "c:err:dataslice", "");
    const std::string vn = cdm.getVariables()[r.below(nv)].getName();
    SB sb = own(CC(mifi_new_slicebuilder(cr, vn.c_str())));
    double one[4];
    VCHECK(c, CC(mifi_fill_scaled_double_dataslice(cr, bad, sb.get(), "", one, &dl)) != 0, "c:err:fill", "");
    VCHECK(c, CC(mifi_fill_scaled_double_dataslice(cr, vn.c_str(), sb.get(), "", 0, &dl)) != 0, "c:err:fill-null", "");
    for (int k : {CC(mifi_slicebuilder_ndims(sb.get())), 1000, -1}) {
        const char* p = CC(mifi_slicebuilder_dimname(sb.get(), k));
        VCHECK(c, !p || !*p, "c:err:dimname", k);
        free((void*)p);
        VCHECK(c, CC(mifi_slicebuilder_dimname_cpy(sb.get(), k, b8, 8)) <= 1, "c:err:dimname-cpy", k);
    }
    // NULL handles of slicebuilders
    VCHECK(c, CC(mifi_slicebuilder_has_CS(0)) == 0 && CC(mifi_slicebuilder_ndims(0)) == 0 && CC(mifi_slicebuilder_get_start_size(0, 0, 0)) < 0 && CC(mifi_slicebuilder_get_axistype(0, 0)) < 0 && CC(mifi_slicebuilder_set_dim_start_size(0, "x", 0, 1)) < 0, "c:err:null-sb", "");
    VCHECK(c, CC(mifi_set_callback_double(cr, bad, 0)) != 0, "c:err:callback-var", "");
    double w = 1;
    VCHECK(c, CC(mifi_write_scaled_double_dataslice(cr, vn.c_str(), sb.get(), "", &w, 1)) != 0 || dynamic_cast<CDMReaderWriter*>(rd.get()), "c:err:write-readonly", "");
    c.cnt("readers compared");
}
CR openC(Ctx& c, const std::string& f)
{
    switch (c.r.below(3)) {
    case 0: return own(CC(mifi_new_io_reader("netcdf", f.c_str(), "")));
    case 1: return own(CC(mifi_new_io_reader("nc4", f.c_str(), "")));
    default: return own(CC(mifi_new_io_reader("", f.c_str(), "")));
    }
}
void famCapi(Ctx& c)
{
    Rng& r = c.r;
    Zoo z;
    z.path = c.scratch + "/";
    Dataset ds = capiDataset(c, z);
    CDMReader_p rd = zooSource(r, z, ds, "src", r.chance(0.7) ? r.range(4, 5) : -1);
    c.d << z.desc << ' ' << ds.str();
    c.sig(z.desc).sig(ds.vars.size()).sig(z.g.p.kind).sig(z.xn).sig(ds.hasVar("trans")).sig(ds.hasVar("trans4")).sig(ds.hasVar("aaa")).sig(z.times.size());
    if (z.desc.compare(0, 2, "nc") == 0) {
        CR cr = openC(c, z.path + "src.nc");
        VCHECK(c, !!cr, "c:open", "mifi_new_io_reader fails");
        compareC(c, cr.get(), rd, &ds);
        c.cnt("readers opened through C");
    } else {
        CR cr = own(new mifi_cdm_reader(rd));
        compareC(c, cr.get(), rd, &ds);
    }
}
std::map<std::string, std::string> fileText(const std::string& f)
{
    CDMReader_p rd = CDMFileReaderFactory::create("netcdf", f);
    std::map<std::string, std::string> m;
    m["cdm"] = cdmStr(rd->getCDM());
    for (auto& v : rd->getCDM().getVariables()) if (v.getDataType() != CDM_STRINGS) m[v.getName()] = vstr(toD(rd->getData(v.getName())), 1 << 20);
    return m;
}
//! processing steps through C equal those through C++
void famCops(Ctx& c)
{
    Rng& r = c.r;
    Zoo z;
    z.path = c.scratch + "/";
    Dataset ds = capiDataset(c, z);
    CDMReader_p rd = zooSource(r, z, ds, "src", r.range(4, 5));
    const std::string f = z.path + "src.nc";
    CR cr = openC(c, f);
    VCHECK(c, !!cr, "c:open", "");
    std::vector<CR> held;
    const int n = r.range(1, 3);
    std::string ops;
    for (int i = 0; i < n; ++i) {
        const int k = r.below(4);
        mifi_cdm_reader* nc = 0;
        CDMReader_p nr;
        bool ok = true;
        if (k == 0) {
            const std::string nf = c.file("m" + std::to_string(i) + ".ncml");
            std::ofstream(nf) << "<?xml version=\"1.0\"?><netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\"><attribute name=\"title\" value=\"t" << i << "\"/>"
                              << (r.chance(0.5) ? "<variable name=\"orog\" type=\"double\"/>" : "") << (r.chance(0.5) ? "<remove type=\"variable\" name=\"mask\"/>" : "") << (r.chance(0.2) ? "<broken" : "") << "</netcdf>";
            nc = CC(mifi_new_ncml_modifier(cr.get(), nf.c_str()));
            try { nr = std::make_shared<NcmlCDMReader>(rd, XMLInputFile(nf)); } catch (std::exception&) { ok = false; }
            ops += "ncml ";
        } else if (k == 1) {
            const double clon = r.uni(-160, 160), clat = r.uni(-60, 70);
            Grid t = rndGrid(r, clon, clat, r.uni(20, 200), -1, 2, 6, false);
            const int m = r.pick({MIFI_INTERPOL_NEAREST_NEIGHBOR, MIFI_INTERPOL_BILINEAR, MIFI_INTERPOL_BICUBIC, MIFI_INTERPOL_COORD_NN_KD, MIFI_INTERPOL_FORWARD_MEAN});
            auto txt = [&](const dv& v) { std::ostringstream o; o.precision(17); for (size_t j = 0; j < v.size(); ++j) o << (j ? "," : "") << v[j]; return o.str(); };
            const std::string p = r.chance(0.1) ? "+proj=nonsense" : t.p.str(), x = txt(t.x.v), y = txt(t.y.v), u = r.chance(0.1) ? "K" : t.p.deg() ? "degree" : "m";
            nc = CC(mifi_new_cdminterpolator(cr.get(), m, p.c_str(), x.c_str(), y.c_str(), u.c_str(), u.c_str()));
            try { auto ip = std::make_shared<CDMInterpolator>(rd); ip->changeProjection(m, p, x, y, u, u); nr = ip; } catch (std::exception&) { ok = false; }
            ops += "project ";
        } else if (k == 2) {
            dv lo, la;
            const int np = r.range(0, 5);
            for (int j = 0; j < np; ++j) { double a, b; z.g.lonlat(r.below(z.g.nx()), r.below(z.g.ny()), a, b); lo.push_back(a + r.uni(-1, 1)); la.push_back(std::max(-89., std::min(89., b + r.uni(-1, 1)))); }
            const int m = r.pick({MIFI_INTERPOL_NEAREST_NEIGHBOR, MIFI_INTERPOL_BILINEAR, MIFI_INTERPOL_BICUBIC});
            nc = CC(mifi_new_lonlat_interpolator(cr.get(), m, np, lo.data(), la.data()));
            try { auto ip = std::make_shared<CDMInterpolator>(rd); ip->changeProjection(m, lo, la); nr = ip; } catch (std::exception&) { ok = false; }
            ops += "points ";
        } else {
            nc = CC(mifi_new_c_reader(cr.get()));
            nr = std::make_shared<C_CDMReader>(rd);
            ops += "creader ";
        }
        VCHECK(c, !!nc == ok, "c:op-status", ops << (ok ? " succeeds in C++ only" : " fails in C++ only"));
        if (!ok) { c.cnt("failing operations"); break; }
        if (r.chance(0.5)) held.push_back(std::move(cr)); // otherwise the inner handle is freed while in use
        else c.cnt("inner handles freed early");
        cr = own(nc);
        rd = nr;
        c.cnt("operations");
    }
    c.d << ops << ds.str();
    c.sig(ops).sig(z.desc).sig(z.g.p.kind);
    compareC(c, cr.get(), rd, 0);
    // write
    const std::string type = r.pick({"nc3", "nc4", "nc4c", "bogus"}), o1 = c.file("o1.nc"), o2 = c.file("o2.nc");
    const int rc = CC(mifi_writer(cr.get(), type.c_str(), o1.c_str(), r.chance(0.5) ? "" : 0));
    bool ok = true;
    try { CDMFileReaderFactory::createWriter(rd, type, o2); } catch (std::exception&) { ok = false; }
    VCHECK(c, (rc == 0) == ok, "c:writer-status", type << " returns " << rc);
    if (ok) {
        auto a = fileText(o1), b = fileText(o2);
        for (auto& kv : b) VCHECK(c, a[kv.first] == kv.second, "c:writer-file", kv.first << ": " << firstDiff(a[kv.first], kv.second));
        c.cnt("files compared");
    }
    VCHECK(c, CC(mifi_writer(cr.get(), "nc3", (c.scratch + "/no/such/dir/x.nc").c_str(), "")) != 0, "c:err:writer", "");
    for (const char* t : {"netcdf", "grib", "felt", "ncml", "bogus", ""}) VCHECK(c, !CC(mifi_new_io_reader(t, (c.scratch + "/missing").c_str(), "")), "c:err:open", t);
    VCHECK(c, !CC(mifi_new_ncml_modifier(cr.get(), (c.scratch + "/missing.ncml").c_str())), "c:err:ncml", "");
}
// ---- callbacks
struct CB { Ctx* c; const Dataset* ds; std::string var, other; size_t calls, fail; double a, b; } cb;
extern "C" int callback(mifi_cdm_reader* rd, const char* name, size_t pos, double* d, size_t n)
{
    ++cb.calls;
    cb.c->cnt("callback calls");
    if (getenv("CBDBG")) fprintf(stderr, "cb %s pos %zu n %zu\n", name, pos, n);
    if (cb.var != name) return 4711;
    const dv all = scaledRef(*cb.ds, name);
    const szv l = cb.ds->lens(cb.ds->var(name));
    dv want = all;
    if (!l.empty() && cb.ds->dim(cb.ds->var(name).shape.back()).unlim) { szv s0(l.size(), 0), s1 = l; s0.back() = pos; s1.back() = 1; want = box(all, l, s0, s1); }
    if (want.size() != n) return 4712;
    for (size_t i = 0; i < n; ++i) if (!(same(want[i], d[i]) || std::fabs(want[i] - d[i]) <= 1e-6 * (1 + std::fabs(want[i])))) { if (getenv("CBDBG")) fprintf(stderr, "cb at %zu: %g expected %g\n", i, d[i], want[i]); return 4713; }
    double o = 0;
    if (!cb.other.empty()) {
        double* p = 0;
        size_t m = 0;
        if (mifi_get_double_dataslice(rd, cb.other.c_str(), 0, &p, &m) != 0 || m < 1) { if (getenv("CBDBG")) fprintf(stderr, "cb other %zu\n", m); return 4714; }
        o = p[0];
        free(p);
    }
    for (size_t i = 0; i < n; ++i) d[i] = d[i] * cb.a + cb.b + pos + o;
    if (cb.fail) return cb.fail;
    return 0;
}
void famCallback(Ctx& c)
{
    Rng& r = c.r;
    Zoo z;
    z.path = c.scratch + "/";
    Dataset ds = capiDataset(c, z);
    CDMReader_p rd = zooSource(r, z, ds, "src");
    const std::string var = r.pick(sv{"air_temperature", "packed", "orog", "status", "series", "scalar", "mask", "profile", z.xn});
    cb = CB{&c, &ds, var, r.chance(0.5) ? "precip" : "", 0, r.chance(0.15) ? 3u : 0u, r.pick({1., -2., 0.5}), r.pick({0., 10., 273.15})};
    c.d << z.desc << " callback on " << var << " fail=" << cb.fail << ' ' << ds.str();
    c.sig(z.desc).sig(var).sig(cb.other).sig(cb.fail).sig(cb.a).sig(cb.b);
    CR base = own(new mifi_cdm_reader(rd));
    VCHECK(c, CC(mifi_set_callback_double(base.get(), var.c_str(), callback)) != 0, "c:callback-on-plain-reader", "must be refused");
    CR cr = own(CC(mifi_new_c_reader(base.get())));
    VCHECK(c, !!cr, "c:creader", "");
    VCHECK(c, CC(mifi_set_callback_double(cr.get(), "no such variable", callback)) != 0, "c:callback-unknown", "");
    VCHECK(c, CC(mifi_set_callback_double(cr.get(), var.c_str(), callback)) == 0, "c:callback-set", var);
    VCHECK(c, CC(mifi_get_variable_type(cr.get(), var.c_str())) == CDM_DOUBLE, "c:callback-type", var);
    const szv l = ds.lens(ds.var(var));
    const bool rec = !l.empty() && ds.dim(ds.var(var).shape.back()).unlim;
    const double o = cb.other.empty() ? 0 : scaledRef(ds, cb.other)[0];
    dv want = scaledRef(ds, var);
    if (rec) { const size_t per = want.size() / l.back(); for (size_t i = 0; i < want.size(); ++i) want[i] = want[i] * cb.a + cb.b + i / per + o; }
    for (int rep = 0; rep < 3; ++rep) {
        double* p = 0;
        size_t m = 0;
        const size_t pos = rec ? r.below(l.back()) : 0;
        dv w = want;
        if (!rec) for (double& x : w) x = x * cb.a + cb.b + pos + o;
        else { szv s0(l.size(), 0), s1 = l; s0.back() = pos; s1.back() = 1; w = box(want, l, s0, s1); }
        int rc = CC(mifi_get_double_dataslice(cr.get(), var.c_str(), pos, &p, &m));
        if (cb.fail) { VCHECK(c, rc != 0, "c:callback-error-lost", var); c.cnt("callback errors"); continue; }
        VCHECK(c, rc == 0, "c:callback-read", var << " returns " << rc);
        dv got(p, p + m);
        free(p);
        for (size_t i = 0; i < w.size(); ++i) VCHECK(c, got.size() == w.size() && (same(got[i], w[i]) || std::fabs(got[i] - w[i]) <= 1e-5 * (1 + std::fabs(w[i]))), "c:callback-slice", var << " repetition " << rep << " at " << i << ": " << got[i] << " expected " << w[i]);
        rc = CC(mifi_get_double_data(cr.get(), var.c_str(), &p, &m));
        VCHECK(c, rc == 0, "c:callback-read-all", var);
        got.assign(p, p + m);
        free(p);
        if (rec) w = want;
        for (size_t i = 0; i < w.size(); ++i) VCHECK(c, got.size() == w.size() && (same(got[i], w[i]) || std::fabs(got[i] - w[i]) <= 1e-5 * (1 + std::fabs(w[i]))), "c:callback-data", var << " repetition " << rep << " at " << i << ": " << got[i] << " expected " << w[i]);
    }
    if (cb.fail) {
        VCHECK(c, CC(mifi_writer(cr.get(), "nc4", c.file("cb.nc").c_str(), "")) != 0, "c:callback-write-error-lost", var);
        return;
    }
    // other variables are untouched, and the file holds what the callback made
    const std::string f = c.file("cb.nc");
    VCHECK(c, CC(mifi_writer(cr.get(), r.chance(0.5) ? "nc3" : "nc4", f.c_str(), "")) == 0, "c:callback-write", var);
    CDMReader_p back = CDMFileReaderFactory::create("netcdf", f);
    for (auto& v : ds.vars) {
        const dv w = v.name != var ? scaledRef(ds, v.name) : [&] { dv x = want; if (!rec) for (double& y : x) y = y * cb.a + cb.b + o; return x; }();
        const dv got = toD(back->getScaledData(v.name));
        for (size_t i = 0; i < w.size(); ++i) VCHECK(c, got.size() == w.size() && (same(got[i], w[i]) || std::fabs(got[i] - w[i]) <= 1e-5 * (1 + std::fabs(w[i]))), v.name == var ? "c:callback-file" : "c:callback-other", v.name << " at " << i << ": " << got[i] << " expected " << w[i]);
    }
    VCHECK(c, cb.calls > 0, "c:callback-not-called", var);
    c.cnt("callback cases");
}
// ---- read-write
void famRw(Ctx& c)
{
    Rng& r = c.r;
    Zoo z;
    z.path = c.scratch + "/";
    Dataset ds = capiDataset(c, z);
    zooSource(r, z, ds, "src", r.range(4, 5));
    const std::string f = z.path + "src.nc";
    std::map<std::string, dv> ref;
    std::map<std::string, double> gran;
    for (auto& v : ds.vars) ref[v.name] = scaledRef(ds, v.name);
    {
        CR cr = own(CC(mifi_new_io_reader("netcdf+rw", f.c_str(), "")));
        if (!cr) cr = own(new mifi_cdm_reader(CDMFileReaderFactory::createReaderWriter("netcdf", f)));
        else c.cnt("opened read-write through C");
        if (!dynamic_cast<CDMReaderWriter*>(cr->reader_.get())) cr = own(new mifi_cdm_reader(CDMFileReaderFactory::createReaderWriter("netcdf", f)));
        const int n = r.range(1, 6);
        for (int i = 0; i < n; ++i) {
            const std::string var = r.pick(sv{"air_temperature", "packed", "orog", "precip", "u", ds.hasVar("trans") ? "trans" : "v", "profile"});
            const Var& v = ds.var(var);
            const szv l = ds.lens(v);
            SB sb = own(CC(mifi_new_slicebuilder(cr.get(), var.c_str())));
            szv st(l.size(), 0), sz = l;
            for (size_t k = 0; k < l.size(); ++k) if (r.chance(0.6)) { st[k] = r.below(l[k]); sz[k] = r.range(1, l[k] - st[k]); VCHECK(c, CC(mifi_slicebuilder_set_dim_start_size(sb.get(), v.shape[k].c_str(), st[k], sz[k])) == 0, "c:sb-set", var); }
            std::string unit;
            for (auto& a : ds.attrs) if (a.first == var && a.second.getName() == "units") unit = a.second.getStringValue();
            std::string to = r.chance(0.5) ? "" : unit == "K" ? "degC" : unit == "degC" ? "K" : unit == "m" ? "km" : unit;
            if (r.chance(0.15)) to = "bar";
            dv d(prod(sz)), stored;
            for (double& x : d) x = std::round(r.uni(-100, 100)) ;
            for (double x : d) stored.push_back(to.empty() || to == unit ? x : to == "degC" ? x + 273.15 : to == "K" ? x - 273.15 : to == "km" ? x * 1000 : x);
            const bool wrong = r.chance(0.1);
            const int rc = CC(mifi_write_scaled_double_dataslice(cr.get(), var.c_str(), sb.get(), to.c_str(), d.data(), d.size()));
            c.d << var << vstr(st) << vstr(sz) << " unit '" << to << "' -> " << rc << "; ";
            c.sig(var).sig(to).sig(rc == 0);
            if (to == "bar" && unit != "bar") { VCHECK(c, rc != 0, "c:write-bad-unit", var << ' ' << unit << " from bar"); c.cnt("refused writes"); continue; }
            VCHECK(c, rc == 0, "c:write", var << " unit '" << to << "' returns " << rc);
            std::vector<szv> idx;
            for (size_t k = 0; k < l.size(); ++k) idx.push_back(iota(sz[k], st[k]));
            szv p(l.size(), 0);
            for (size_t q = 0; q < d.size(); ++q) {
                size_t off = 0, stride = 1;
                for (size_t k = 0; k < l.size(); ++k) { off += idx[k][p[k]] * stride; stride *= l[k]; }
                ref[var][off] = stored[q];
                for (size_t k = 0; k < l.size(); ++k) { if (++p[k] < sz[k]) break; p[k] = 0; }
            }
            c.cnt("slices written");
            (void)wrong;
            if (r.chance(0.5)) {
                double* q = 0;
                size_t m = 0;
                VCHECK(c, CC(mifi_get_double_data(cr.get(), var.c_str(), &q, &m)) == 0, "c:write-reread", var);
                dv got(q, q + m);
                free(q);
                for (size_t k = 0; k < got.size(); ++k) VCHECK(c, got.size() == ref[var].size() && (same(got[k], ref[var][k]) || std::fabs(got[k] - ref[var][k]) <= 0.13), "c:write-reread", var << " at " << k << ": " << got[k] << " expected " << ref[var][k]);
            }
        }
        SB sb = own(CC(mifi_new_slicebuilder(cr.get(), "orog")));
        double w = 1;
        VCHECK(c, CC(mifi_write_scaled_double_dataslice(cr.get(), "orog", sb.get(), "", 0, 1)) != 0, "c:write-null", "");
        VCHECK(c, CC(mifi_write_scaled_double_dataslice(cr.get(), "no such variable", sb.get(), "", &w, 1)) != 0, "c:write-unknown", "");
        VCHECK(c, CC(mifi_write_scaled_double_dataslice(cr.get(), "orog", sb.get(), "", &w, 1)) != 0, "c:write-short", "1 value for the whole field");
    }
    CDMReader_p back = CDMFileReaderFactory::create("netcdf", f);
    for (auto& kv : ref) {
        const dv got = toD(back->getScaledData(kv.first));
        const double tol = ds.var(kv.first).type == CDM_SHORT ? 0.13 : 1e-4;
        for (size_t k = 0; k < kv.second.size(); ++k) VCHECK(c, got.size() == kv.second.size() && (same(got[k], kv.second[k]) || std::fabs(got[k] - kv.second[k]) <= tol + 1e-6 * std::fabs(kv.second[k])), "c:written-file", kv.first << " at " << k << ": " << got[k] << " expected " << kv.second[k]);
    }
}
// ---- Python
PyObject* pyHandle()
{
    static PyObject* h = 0;
    if (h) return h;
    Py_InitializeEx(0);
    const std::string dir = getenv("VERIF_DIR"), mod = getenv("VF_PYMOD");
    const std::string code = "import sys\nsys.dont_write_bytecode=True\nsys.path[:0]=['" + mod + "','" + dir + "/harness']\n";
    if (PyRun_SimpleString(code.c_str())) throw std::runtime_error("harness: python path");
    PyObject* m = PyImport_ImportModule("c33_py");
    if (!m) { PyErr_Print(); throw std::runtime_error("harness: c33_py does not load"); }
    h = PyObject_GetAttrString(m, "handle");
    Logger::setClass(new NullLoggerClass);
    return h;
}
std::string python(const std::string& req)
{
    PyObject* r = PyObject_CallFunction(pyHandle(), "s#", req.data(), (Py_ssize_t)req.size());
    if (!r) { PyErr_Print(); throw std::runtime_error("harness: python handler raised"); }
    Py_ssize_t n;
    const char* p = PyUnicode_AsUTF8AndSize(r, &n);
    std::string s(p ? p : "", p ? n : 0);
    Py_DECREF(r);
    return s;
}
std::string num(double v)
{
    if (std::isnan(v)) return "nan";
    char b[40];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}
template <class T> std::string arr(const MetNoFimex::shared_array<T>& a, size_t n, const char* f)
{
    std::string s;
    char b[40];
    for (size_t i = 0; i < n; ++i) { snprintf(b, sizeof b, f, a[i]); s += b; s += ' '; }
    return s;
}
std::string dataLine(DataPtr d)
{
    if (!d) return "null";
    std::string s = datatype2string(d->getDataType()) + " " + std::to_string(d->size()) + " ";
    switch (d->getDataType()) {
    case CDM_STRING: return s + d->asString();
    case CDM_STRINGS: { auto a = d->asStrings(); for (size_t i = 0; i < d->size(); ++i) s += a[i] + "|"; return s; }
    case CDM_FLOAT: case CDM_DOUBLE: { auto a = d->asDouble(); for (size_t i = 0; i < d->size(); ++i) s += num(a[i]) + " "; return s; }
    case CDM_UINT64: return s + arr(d->asUInt64(), d->size(), "%llu");
    case CDM_NAT: return s;
    default: return s + arr(d->asInt64(), d->size(), "%lld");
    }
}
std::string attLine(const CDMAttribute& a) { return a.getName() + " " + dataLine(a.getData()) + " '" + a.getStringValue() + "'"; }
struct Req { std::string var, unit; size_t pos; szv st, sz; };
//! what both sides print for a reader
std::string dump(CDMReader_p rd, const std::vector<Req>& reqs)
{
    std::ostringstream o;
    const CDM& cdm = rd->getCDM();
    for (auto& d : cdm.getDimensions()) o << "dim " << d.getName() << ' ' << d.getLength() << ' ' << d.isUnlimited() << '\n';
    for (auto& v : cdm.getVariables()) {
        o << "var " << v.getName() << ' ' << datatype2string(v.getDataType());
        for (auto& s : v.getShape()) o << ' ' << s;
        o << '\n';
        for (auto& a : cdm.getAttributes(v.getName())) o << "att " << v.getName() << ' ' << attLine(a) << '\n';
    }
    for (auto& a : cdm.getAttributes("_GLOBAL")) o << "gatt " << attLine(a) << '\n';
    for (auto& cs : listCoordinateSystems(rd)) {
        o << "cs " << cs->id();
        for (auto t : {CoordinateAxis::GeoX, CoordinateAxis::GeoY, CoordinateAxis::Time, CoordinateAxis::Pressure, CoordinateAxis::Lon}) { auto a = cs->findAxisOfType(t); o << ' ' << (a ? a->getName() : "-"); }
        o << '\n';
    }
    auto line = [&](const char* k, const std::string& n, const std::function<DataPtr()>& f) {
        o << k << ' ' << n << ' ';
        try { o << dataLine(f()); } catch (std::exception&) { o << "error"; }
        o << '\n';
    };
    for (auto& q : reqs) {
        line("data", q.var, [&] { return rd->getData(q.var); });
        line("sdata", q.var, [&] { return rd->getScaledData(q.var); });
        line("udata", q.var, [&] { return rd->getScaledDataInUnit(q.var, q.unit); });
        line("slice", q.var, [&] { return rd->getDataSlice(q.var, q.pos); });
        line("sslice", q.var, [&] { return rd->getScaledDataSlice(q.var, q.pos); });
        line("uslice", q.var, [&] { return rd->getScaledDataSliceInUnit(q.var, q.unit, q.pos); });
        if (q.st.empty()) continue;
        try {
            SliceBuilder sb(cdm, q.var, false);
            const sv sh = cdm.getVariable(q.var).getShape();
            for (size_t i = 0; i < sh.size(); ++i) sb.setStartAndSize(sh[i], q.st[i], q.sz[i]);
            o << "sb " << q.var;
            for (size_t x : sb.getDimensionStartPositions()) o << ' ' << x;
            for (size_t x : sb.getDimensionSizes()) o << ' ' << x;
            o << '\n';
            line("box", q.var, [&] { return rd->getDataSlice(q.var, sb); });
            line("sbox", q.var, [&] { return rd->getScaledDataSlice(q.var, sb); });
            line("ubox", q.var, [&] { return rd->getScaledDataSliceInUnit(q.var, q.unit, sb); });
        } catch (std::exception&) { o << "sb " << q.var << " error\n"; }
    }
    return o.str();
}
std::string jv(const dv& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + num(v[i]); return s + "]"; }
std::string js(const sv& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + jstr(v[i]); return s + "]"; }
std::string jz(const szv& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
std::vector<Req> requests(Rng& r, CDMReader_p rd)
{
    std::vector<Req> q;
    for (auto& v : rd->getCDM().getVariables()) {
        if (v.getDataType() == CDM_NAT || !r.chance(0.7)) continue;
        Req x;
        x.var = v.getName();
        x.unit = r.pick(sv{"K", "km", "degC", "1", "Pa", "hours since 1990-01-01"});
        const szv l = varDims(rd, x.var);
        x.pos = !l.empty() && r.chance(0.8) ? r.below(l.back()) : r.below(6);
        if (v.getDataType() != CDM_STRING && v.getDataType() != CDM_STRINGS)
            for (size_t n : l) { const size_t b = n ? r.below(n) : 0; x.st.push_back(b); x.sz.push_back(n ? r.range(1, n - b) + r.chance(0.05) : 0); }
        q.push_back(x);
    }
    if (r.chance(0.3)) q.push_back(Req{"no such variable", "1", 0, {}, {}});
    return q;
}
std::string jreq(const std::vector<Req>& q)
{
    std::string s = "[";
    for (size_t i = 0; i < q.size(); ++i) s += (i ? "," : "") + std::string("{\"var\":") + jstr(q[i].var) + ",\"unit\":" + jstr(q[i].unit) + ",\"pos\":" + std::to_string(q[i].pos) + ",\"st\":" + jz(q[i].st) + ",\"sz\":" + jz(q[i].sz) + "}";
    return s + "]";
}
void comparePy(Ctx& c, const std::string& key, const std::string& cpp, const std::string& py)
{
    std::istringstream a(cpp), b(py);
    std::string x, y;
    long n = 0;
    while (true) {
        const bool ga = !!std::getline(a, x), gb = !!std::getline(b, y);
        if (!ga && !gb) break;
        VCHECK(c, ga && gb && x == y, key + ":" + (ga ? x : y).substr(0, (ga ? x : y).find(' ')), "C++: " << (ga ? x : "(nothing)") << "\nPython: " << (gb ? y : "(nothing)"));
        ++n;
    }
    c.cnt("lines compared", n);
}
void addOdd(Ctx& c, Dataset& ds)
{
    Rng& r = c.r;
    for (CDMDataType t : {CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_INT64, CDM_UINT64, CDM_CHAR, CDM_SHORT}) {
        const std::string n = "odd" + datatype2string(t);
        Var& v = ds.add(n, t, {"n"});
        double lo, hi;
        typeLimits(t, lo, hi);
        for (double& x : v.val) x = r.chance(0.5) ? r.range(-50, 50) * (lo < 0 ? 1 : 0) + r.range(0, 50) : std::floor(r.uni(lo / 2, hi / 2));
        ds.att(n, "limits", t, {std::floor(lo / 2), std::floor(hi / 2)});
    }
}
void famPyread(Ctx& c)
{
    Rng& r = c.r;
    Zoo z;
    z.path = c.scratch + "/";
    Dataset ds = capiDataset(c, z);
    addOdd(c, ds);
    ds.att("orog", "empty", "");
    ds.att("orog", "utf8", "\xc3\xa6\xc3\xb8\xc3\xa5");
    z.rd = zooWrite(z, ds, "nc4", "src.nc");
    const auto q = requests(r, z.rd);
    c.d << ds.str();
    c.sig(z.g.p.kind).sig(z.xn).sig(ds.vars.size()).sig(q.size()).sig(z.times.size());
    const std::string req = "{\"op\":\"read\",\"file\":" + jstr(z.path + "src.nc") + ",\"nargs\":" + std::to_string(r.range(2, 4)) + ",\"req\":" + jreq(q) + "}";
    comparePy(c, "py:read", dump(z.rd, q), python(req));
    c.cnt("readers compared");
}
void famPyops(Ctx& c)
{
    Rng& r = c.r;
    Zoo z;
    z.path = c.scratch + "/";
    Dataset ds = capiDataset(c, z);
    zooWrite(z, ds, "nc4", "src.nc");
    CDMReader_p rd = CDMFileReaderFactory::create("netcdf", z.path + "src.nc");
    std::string steps, names;
    bool failed = false;
    const int n = r.range(1, 3);
    auto step = [&](const std::string& name, const std::string& args, const std::function<CDMReader_p()>& f) {
        names += name + " ";
        steps += (steps.empty() ? "" : ",") + std::string("[") + jstr(name) + (args.empty() ? "" : "," + args) + "]";
        try { rd = f(); } catch (std::exception&) { failed = true; }
        c.cnt("operations");
    };
    for (int i = 0; i < n && !failed; ++i) {
        const CDM& cdm = rd->getCDM();
        const auto dims = cdm.getDimensions();
        const CDMDimension d = dims[r.below(dims.size())];
        const std::string dn = r.chance(0.05) ? "nodim" : d.getName();
        const long L = d.getLength();
        switch (r.below(13)) {
        case 0: { const size_t st = r.below(L + 1), len = r.range(0, L - st); step("range", jstr(dn) + "," + std::to_string(st) + "," + std::to_string(len), [&] { auto e = std::make_shared<CDMExtractor>(rd); e->reduceDimension(dn, st, len); return e; }); break; }
        case 1: { std::set<size_t> s; szv sl; const int k = r.range(0, L + 1); for (int j = 0; j < k; ++j) { sl.push_back(r.below(L + (r.chance(0.05)))); s.insert(sl.back()); } step("index", jstr(dn) + "," + jz(sl), [&] { auto e = std::make_shared<CDMExtractor>(rd); e->reduceDimension(dn, s); return e; }); break; }
        case 2: { const long st = r.below(L), en = r.range(-L, L); step("startend", jstr(dn) + "," + std::to_string(st) + "," + std::to_string(en), [&] { auto e = std::make_shared<CDMExtractor>(rd); e->reduceDimensionStartEnd(dn, st, en); return e; }); break; }
        case 3: {
            const std::string a = r.chance(0.1) ? "junk" : "2000-01-0" + std::to_string(r.range(1, 9)) + "T00:00:00Z", b = "2000-0" + std::to_string(r.range(1, 3)) + "-1" + std::to_string(r.range(0, 9)) + "T12:00:00Z";
            step("time", jstr(a) + "," + jstr(b), [&]() -> CDMReader_p {
                auto e = std::make_shared<CDMExtractor>(rd);
                FimexTime x(FimexTime::min_date_time), y(FimexTime::max_date_time);
                if (!x.parseISO8601(a) || !y.parseISO8601(b)) throw CDMException("parse");
                e->reduceTime(x, y);
                return e;
            });
            break;
        }
        case 4: { double lo, la; z.g.lonlat(z.g.nx() / 2, z.g.ny() / 2, lo, la); const dv b = {la - r.uni(0, 5), la + r.uni(0, 5), lo - r.uni(0, 9), lo + r.uni(0, 9)}; step("bbox", jv(b), [&] { auto e = std::make_shared<CDMExtractor>(rd); e->reduceLatLonBoundingBox(b[0], b[1], b[2], b[3]); return e; }); break; }
        case 5: { const std::string v = r.pick(sv{"u", "mask", "orog", "novar"}); step("remove", jstr(v), [&] { auto e = std::make_shared<CDMExtractor>(rd); e->removeVariable(v); return e; }); break; }
        case 6: { sv s; std::set<std::string> ss; for (auto& v : cdm.getVariables()) if (r.chance(0.4)) { s.push_back(v.getName()); ss.insert(v.getName()); } step("select", js(s), [&] { auto e = std::make_shared<CDMExtractor>(rd); e->selectVariables(ss, true); return e; }); break; }
        case 7: {
            Grid t = rndGrid(r, z.g.p.deg() ? 10 : 20, r.uni(-50, 60), r.uni(20, 200), -1, 2, 5, false);
            const int ms[] = {MIFI_INTERPOL_NEAREST_NEIGHBOR, MIFI_INTERPOL_BILINEAR, MIFI_INTERPOL_BICUBIC, MIFI_INTERPOL_COORD_NN, MIFI_INTERPOL_COORD_NN_KD, MIFI_INTERPOL_FORWARD_SUM, MIFI_INTERPOL_FORWARD_MEAN, MIFI_INTERPOL_FORWARD_MEDIAN, MIFI_INTERPOL_FORWARD_MAX, MIFI_INTERPOL_FORWARD_MIN, MIFI_INTERPOL_FORWARD_UNDEF_SUM, MIFI_INTERPOL_FORWARD_UNDEF_MEAN, MIFI_INTERPOL_FORWARD_UNDEF_MEDIAN, MIFI_INTERPOL_FORWARD_UNDEF_MAX, MIFI_INTERPOL_FORWARD_UNDEF_MIN};
            const char* mn[] = {"NEAREST_NEIGHBOR", "BILINEAR", "BICUBIC", "COORD_NN", "COORD_NN_KD", "FORWARD_SUM", "FORWARD_MEAN", "FORWARD_MEDIAN", "FORWARD_MAX", "FORWARD_MIN", "FORWARD_UNDEF_SUM", "FORWARD_UNDEF_MEAN", "FORWARD_UNDEF_MEDIAN", "FORWARD_UNDEF_MAX", "FORWARD_UNDEF_MIN"};
            // target around the source
            double lo, la;
            z.g.lonlat(z.g.nx() / 2, z.g.ny() / 2, lo, la);
            t = rndGrid(r, lo, std::max(-60., std::min(70., la)), r.uni(20, 200), -1, 2, 5, false);
            const int k = r.below(15);
            const std::string u = t.p.deg() ? "degree" : "m";
            const bool ft = r.chance(0.5);
            step("project", jstr(mn[k]) + "," + jstr(t.p.str()) + "," + jv(t.x.v) + "," + jv(t.y.v) + "," + jstr(u) + "," + jstr(ft ? "FLOAT" : ""), [&] { auto e = std::make_shared<CDMInterpolator>(rd); e->changeProjection(ms[k], t.p.str(), t.x.v, t.y.v, u, u, ft ? CDM_FLOAT : CDM_DOUBLE, ft ? CDM_FLOAT : CDM_DOUBLE); return e; });
            break;
        }
        case 8: {
            dv lo, la;
            for (int j = r.range(1, 4); j > 0; --j) { double a, b; z.g.lonlat(r.below(z.g.nx()), r.below(z.g.ny()), a, b); lo.push_back(a); la.push_back(b); }
            step("points", jv(lo) + "," + jv(la), [&] { auto e = std::make_shared<CDMInterpolator>(rd); e->changeProjection(MIFI_INTERPOL_BILINEAR, lo, la); return e; });
            break;
        }
        case 9: { const std::string t = r.pick(sv{"0,1,...,x;relativeStart=0", "2000-01-01 00:00:00,2000-01-01 06:00:00,...,2000-01-03 00:00:00", "junk", "0,3,...,12;relativeUnit=hours"}); step("timeint", jstr(t), [&] { auto e = std::make_shared<CDMTimeInterpolator>(rd); e->changeTimeAxis(t); return e; }); break; }
        case 10: {
            const dv lv = {r.uni(200, 400), r.uni(400, 900)};
            const std::string vt = r.pick(sv{"pressure", "height", "junk"}), vm = r.pick(sv{"linear", "log", "nearestneighbor", "junk"});
            const bool imin = r.chance(0.5), imax = r.chance(0.5);
            step("vertical", jstr(vt) + "," + jstr(vm) + "," + jv(lv) + "," + (imin ? "true" : "false") + "," + (imax ? "true" : "false"), [&] { auto e = std::make_shared<CDMVerticalInterpolator>(rd, vt, vm); e->ignoreValidityMin(imin); e->ignoreValidityMax(imax); e->interpolateToFixed(lv); return e; });
            break;
        }
        case 11: {
            const std::string x = "<?xml version=\"1.0\"?><netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\"><attribute name=\"title\" value=\"t\"/><variable name=\"orog2\" orgName=\"orog\" type=\"double\"/>" + std::string(r.chance(0.1) ? "<broken" : "") + "</netcdf>";
            step("ncml", jstr(x), [&] { return std::make_shared<NcmlCDMReader>(rd, XMLInputString(x)); });
            break;
        }
        default: {
            const std::string t = r.pick(sv{"joinExisting", "union", "junk"});
            const int na = r.range(1, 3);
            step("aggregate", jstr(t) + "," + std::to_string(na), [&] { auto e = std::make_shared<AggregationReader>(t); e->addReader(rd, na >= 2 ? "id" : "", ""); e->addReader(rd, "", ""); e->initAggregation(); return e; });
            break;
        }
        }
    }
    c.d << names << (failed ? "(fails) " : "") << ds.str();
    c.sig(names).sig(failed).sig(z.g.p.kind);
    const auto q = failed ? std::vector<Req>() : requests(r, rd);
    const std::string req = "{\"op\":\"ops\",\"file\":" + jstr(z.path + "src.nc") + ",\"steps\":[" + steps + "],\"req\":" + jreq(q) + "}";
    comparePy(c, "py:ops", failed ? "error\n" : dump(rd, q), python(req));
    c.cnt(failed ? "failing chains" : "chains compared");
}
void famPydata(Ctx& c)
{
    // the whole comparison runs in Python: arrays of any dtype, rank, stride and order
    const std::string out = python("{\"op\":\"data\",\"seed\":" + std::to_string(c.r.below(1u << 30)) + "}");
    c.d << out.substr(0, 200);
    c.sig(out.substr(0, out.find('\n')));
    std::istringstream is(out);
    std::string l;
    long n = 0;
    while (std::getline(is, l)) {
        if (l.compare(0, 4, "BAD ") == 0) { const auto p = l.find(' ', 4); c.fail("py:data:" + l.substr(4, p - 4), l); }
        ++n;
        c.checks++;
    }
    VCHECK(c, n > 3, "py:data:nothing", out);
    c.cnt("numpy arrays", n - 1);
}
//! a reader written in Python, and files written from Python
void famPywrite(Ctx& c)
{
    Rng& r = c.r;
    Dataset ds = randDataset(r, 4, true);
    for (auto& v : ds.vars) if (r.chance(0.5)) ds.att(v.name, "a", r.pick({CDM_INT, CDM_FLOAT, CDM_SHORT}), r.chance(0.5) ? dv{double(r.range(0, 99))} : dv{double(r.range(0, 99)), double(r.range(0, 99))});
    for (auto& v : ds.vars) if (r.chance(0.5)) ds.att(v.name, "text", "some text");
    std::string j = "{\"op\":\"write\",\"out\":" + jstr(c.file("py.nc")) + ",\"style\":" + std::to_string(r.below(4)) + ",\"dims\":[";
    for (size_t i = 0; i < ds.dims.size(); ++i) j += (i ? "," : "") + std::string("[") + jstr(ds.dims[i].name) + "," + std::to_string(ds.dims[i].len) + "," + (ds.dims[i].unlim ? "true" : "false") + "]";
    j += "],\"vars\":[";
    for (size_t i = 0; i < ds.vars.size(); ++i) j += (i ? "," : "") + std::string("[") + jstr(ds.vars[i].name) + "," + jstr(datatype2string(ds.vars[i].type)) + "," + js(ds.vars[i].shape) + "," + jv(ds.vars[i].val) + "]";
    j += "],\"atts\":[";
    for (size_t i = 0; i < ds.attrs.size(); ++i) {
        const CDMAttribute& a = ds.attrs[i].second;
        j += (i ? "," : "") + std::string("[") + jstr(ds.attrs[i].first) + "," + jstr(a.getName()) + "," + jstr(datatype2string(a.getDataType())) + "," + (a.getDataType() == CDM_STRING ? jstr(a.getStringValue()) : jv(toD(a.getData()))) + "]";
    }
    j += "]}";
    c.d << ds.str();
    c.sig(ds.str());
    const std::string out = python(j);
    VCHECK(c, out == "ok\n", "py:write-status", out);
    CDMReader_p back = CDMFileReaderFactory::create("netcdf", c.file("py.nc"));
    const CDM& cdm = back->getCDM();
    for (auto& v : ds.vars) {
        VCHECK(c, cdm.hasVariable(v.name), "py:write-variable", v.name);
        VCHECK(c, cdm.getVariable(v.name).getDataType() == v.type && cdm.getVariable(v.name).getShape() == v.shape, "py:write-shape", v.name << ' ' << datatype2string(cdm.getVariable(v.name).getDataType()) << vstr(cdm.getVariable(v.name).getShape()));
        expectData(c, "py:write-data", back->getData(v.name), v.val, 0, v.name);
        c.cnt("variables written from Python");
    }
    for (auto& a : ds.attrs) {
        CDMAttribute b;
        VCHECK(c, cdm.getAttribute(a.first, a.second.getName(), b) && attrStr(b) == attrStr(a.second), "py:write-attribute", a.first << ' ' << attrStr(a.second) << " versus " << attrStr(b));
    }
    back.reset(); // HDF5 locks open files
    // read-write through Python
    const Var& v = ds.vars[r.below(ds.vars.size())];
    dv nv = v.val;
    const bool rec = !v.shape.empty() && ds.dim(v.shape.back()).unlim;
    const size_t per = rec ? v.val.size() / ds.dim(v.shape.back()).len : v.val.size(), pos = rec ? r.below(ds.dim(v.shape.back()).len) : 0;
    dv sl;
    for (size_t i = 0; i < per; ++i) { sl.push_back(r.range(0, 100)); nv[pos * per + i] = sl.back(); }
    const std::string o2 = python("{\"op\":\"put\",\"file\":" + jstr(c.file("py.nc")) + ",\"var\":" + jstr(v.name) + ",\"type\":" + jstr(datatype2string(v.type)) + ",\"pos\":" + std::to_string(pos) + ",\"val\":" + jv(sl) + ",\"how\":" + std::to_string(r.below(2)) + "}");
    VCHECK(c, o2 == "ok\n", "py:put-status", o2);
    back = CDMFileReaderFactory::create("netcdf", c.file("py.nc"));
    for (auto& w : ds.vars) expectData(c, "py:put-data", back->getData(w.name), w.name == v.name ? nv : w.val, 0, w.name);
    c.cnt("slices put from Python");
}
} // namespace
VF_MAIN("C33", "random datasets, operations, slices, units and invalid arguments through the C API and the Python module, compared with the C++ library; random numpy arrays, callbacks and read-write sequences",
        {"capi", famCapi, 400, 6000}, {"cops", famCops, 400, 6000}, {"callback", famCallback, 400, 5000}, {"rw", famRw, 300, 4000},
        {"pyread", famPyread, 240, 3000}, {"pyops", famPyops, 480, 8000}, {"pydata", famPydata, 160, 3000}, {"pywrite", famPywrite, 240, 4000})
