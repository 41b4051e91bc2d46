// Random horizontal source datasets and comparison helpers shared by the regridding monitors.
#ifndef VF_REGRID_H_
#define VF_REGRID_H_
#include "grid.h"
#include <fimex/CDMInterpolator.h>
#include <fimex/interpolation.h>
#pragma GCC diagnostic ignored "-Wunused-function"
using namespace vf;
struct Fld
{
    std::string name;
    CDMDataType t;
    double sc, off, fill;
    size_t g;         //!< grid number
    sv extra;         //!< further dimensions
    dv raw;           //!< fill -> NAN, always in the order (x,y,extra)
    szv perm;         //!< order of the variable's dimensions, as positions in (x,y,extra); empty: unchanged
};
//! canonical (x,y,extra) indices in the order of the variable's dimensions
static dv permutedIds(const szv& canonLens, const szv& perm)
{
    const size_t n = prod(canonLens);
    dv o(n);
    szv p(canonLens.size(), 0), stride(canonLens.size(), 1);
    for (size_t d = 1; d < stride.size(); ++d) stride[d] = stride[d - 1] * canonLens[d - 1];
    for (size_t i = 0; i < n; ++i) {
        size_t id = 0;
        for (size_t d = 0; d < p.size(); ++d) id += p[d] * stride[perm.empty() ? d : perm[d]];
        o[i] = id;
        for (size_t d = 0; d < p.size() && ++p[d] == canonLens[perm.empty() ? d : perm[d]]; ++d) p[d] = 0;
    }
    return o;
}
//! positions of x and y in the variable's shape
static size_t xyPos(const Fld& f, size_t k) { return f.perm.empty() ? k : std::find(f.perm.begin(), f.perm.end(), k) - f.perm.begin(); }
static bool xyShape(const Fld& f, const sv& sh, const std::string& xn, const std::string& yn) { return sh.size() == 2 + f.extra.size() && sh[xyPos(f, 0)] == xn && sh[xyPos(f, 1)] == yn; }
struct Src
{
    std::vector<Grid> g;
    std::vector<std::pair<std::string, std::string>> xy;
    std::vector<Fld> f;
    sv pass;          //!< variables without horizontal dimensions
    sv partial;       //!< variables with only one horizontal dimension
    Dataset ds;
    bool ll2 = false;
};
static const double AMP = 100;
static void mkSrc(Ctx& c, Src& s, double clon, double clat, double dkm, int kind, size_t nmin, size_t nmax, bool two, bool irregular = false)
{
    Rng& r = c.r;
    Dataset& ds = s.ds;
    const size_t ng = two ? 2 : 1, nt = r.range(1, 3), nz = r.range(1, 3);
    s.ll2 = r.chance(0.5);
    for (size_t i = 0; i < ng; ++i) {
        Grid g = rndGrid(r, clon, clat, dkm, kind, nmin, nmax);
        if (irregular && !g.x.cyclic && g.nx() > 2 && r.chance(0.5)) // irregular but monotone axes
            for (size_t k = 1; k + 1 < g.nx(); ++k) g.x.v[k] += r.uni(-0.3, 0.3) * std::fabs(g.x.v[1] - g.x.v[0]);
        s.g.push_back(g);
        s.xy.push_back(addGrid(ds, g, r, i ? "2" : "", s.ll2));
    }
    ds.addDim("lev", nz);
    ds.addDim("time", nt, true);
    dv lv, tv;
    for (size_t i = 0; i < nz; ++i) lv.push_back(1000 - 100. * i);
    for (size_t i = 0; i < nt; ++i) tv.push_back(6. * i);
    ds.add("lev", CDM_DOUBLE, {"lev"}, lv);
    ds.att("lev", "units", "hPa");
    ds.att("lev", "standard_name", "air_pressure");
    ds.add("time", CDM_DOUBLE, {"time"}, tv);
    ds.att("time", "units", "hours since 2020-01-01 00:00:00");
    ds.att("_GLOBAL", "Conventions", "CF-1.4");
    const size_t nv = r.range(1, 3);
    for (size_t i = 0; i < nv; ++i) {
        Fld f;
        f.name = "v" + std::to_string(i);
        f.g = i % ng;
        f.t = r.pick({CDM_FLOAT, CDM_FLOAT, CDM_DOUBLE, CDM_SHORT, CDM_INT, CDM_CHAR});
        f.fill = f.t == CDM_CHAR ? -127 : isInt(f.t) ? r.pick({-32767., -9999.}) : r.pick({-999., 1e10, double(NAN)});
        f.sc = isInt(f.t) && f.t != CDM_CHAR && r.chance(0.6) ? 0.5 : 1;
        f.off = f.sc != 1 ? 20 : 0;
        if (r.chance(0.5)) f.extra.push_back("lev");
        if (r.chance(0.6)) f.extra.push_back("time");
        sv sh = {s.xy[f.g].first, s.xy[f.g].second};
        sh.insert(sh.end(), f.extra.begin(), f.extra.end());
        if (r.chance(0.2)) { // other orders of the dimensions, the unlimited dimension stays last
            f.perm = iota(sh.size());
            const size_t m = sh.size() - (sh.back() == "time");
            for (size_t k = m; k > 1; --k) std::swap(f.perm[k - 1], f.perm[r.below(k)]);
            sv q;
            for (size_t k : f.perm) q.push_back(sh[k]);
            if (q == sh) f.perm.clear();
            else c.cnt("transposed variables");
            sh = q;
        }
        Var& v = ds.add(f.name, f.t, sh);
        const double nanp = r.pick({0., 0., 0.05, 0.3});
        f.raw.resize(v.val.size());
        for (size_t k = 0; k < v.val.size(); ++k) {
            const bool u = r.chance(nanp);
            double val = isInt(f.t) ? double(r.range(-AMP, AMP)) : std::round(r.uni(-AMP, AMP) * 64) / 64;
            f.raw[k] = u ? NAN : val;
            v.val[k] = u ? f.fill : val;
        }
        if (!f.perm.empty()) {
            szv cl(sh.size());
            for (size_t k = 0; k < sh.size(); ++k) cl[f.perm[k]] = ds.dim(sh[k]).len;
            const dv old = v.val, ids = permutedIds(cl, f.perm);
            for (size_t k = 0; k < ids.size(); ++k) v.val[k] = old[size_t(ids[k])];
        }
        ds.att(f.name, "_FillValue", f.t, {f.fill});
        ds.att(f.name, "units", "1");
        ds.att(f.name, "keep", "value " + std::to_string(i));
        if (f.sc != 1) { ds.att(f.name, "scale_factor", CDM_DOUBLE, {f.sc}); ds.att(f.name, "add_offset", CDM_DOUBLE, {f.off}); }
        gridAtts(ds, s.g[f.g], f.name, f.g ? "2" : "", s.ll2);
        s.f.push_back(f);
    }
    if (r.chance(0.7)) { Var& v = ds.add("pz", CDM_INT, {"lev"}); fillUnique(v, r); s.pass.push_back("pz"); }
    if (r.chance(0.7)) { Var& v = ds.add("pt", CDM_FLOAT, {"time"}); fillUnique(v, r); s.pass.push_back("pt"); }
    if (r.chance(0.3)) { ds.add("sc0", CDM_SHORT, {}, {double(r.range(1, 99))}); s.pass.push_back("sc0"); }
    if (r.chance(0.3)) { Var& v = ds.add("xonly", CDM_FLOAT, {s.xy[0].first}); fillUnique(v, r); s.partial.push_back("xonly"); }
}
struct Target
{
    size_t nx, ny;
    dv lon, lat; //!< nx*ny, NAN if outside the projection
};
//! output field of a variable for the full (x,y,extra) shape
struct Expect { std::vector<Cands> c; };
static Expect expectField(const Src& s, const Fld& f, const Target& t, Method m, double eps)
{
    const Grid& g = s.g[f.g];
    const size_t in = g.nx() * g.ny(), n = f.raw.size() / in, out = t.nx * t.ny;
    Expect e;
    e.c.resize(out * n);
    for (size_t o = 0; o < out; ++o) {
        double px = NAN, py = NAN;
        if (!std::isnan(t.lon[o])) g.position(t.lon[o], t.lat[o], px, py);
        for (size_t z = 0; z < n; ++z)
            e.c[o + out * z] = candidates([&](long x, long y) { return f.raw[z * in + y * g.nx() + x]; }, g, px, py, m, eps);
    }
    return e;
}
static double unfill(const Fld& f, double raw) { return (std::isnan(raw) || raw == f.fill || (f.t == CDM_FLOAT && raw == double(float(f.fill)))) ? NAN : raw; }
static void cmpField(Ctx& c, const std::string& key, const Fld& f, const Expect& e, const dv& got, const szv& idx, bool scaled, const std::string& info)
{
    VCHECK(c, got.size() == idx.size(), key + ":size", info << " size " << got.size() << " expected " << idx.size());
    const double tol = 3e-5 * AMP + (isInt(f.t) ? 0.5 : 0);
    for (size_t k = 0; k < got.size(); ++k) {
        double g = got[k];
        if (scaled) g = std::isnan(g) ? NAN : (g - f.off) / f.sc;
        else g = unfill(f, g);
        const Cands& cc = e.c[idx[k]];
        if (!cc.ok(g, tol)) VCHECK(c, false, key, f.name << " " << info << " at " << k << " got " << got[k] << " acceptable " << vstr(cc.c) << " (fill " << f.fill << ")");
        c.cnt(std::isnan(g) ? "undefined" : "defined");
    }
    c.checks++;
}
static void readAndCompare(Ctx& c, const std::string& key, CDMReader& rd, const Src& s, const Fld& f, const Expect& e, size_t ox, size_t oy)
{
    Rng& r = c.r;
    szv l = {ox, oy};
    for (auto& n : f.extra) l.push_back(s.ds.dim(n).len);
    const dv id = permutedIds(l, f.perm);
    if (!f.perm.empty()) { szv q; for (size_t k : f.perm) q.push_back(l[k]); l = q; }
    const szv all(id.begin(), id.end());
    auto idxOf = [&](const szv& st, const szv& sz) { // linear indices of a box
        dv o = box(id, l, st, sz);
        return szv(o.begin(), o.end());
    };
    const bool unlim = !f.extra.empty() && f.extra.back() == "time";
    cmpField(c, key + ":getData", f, e, toD(rd.getData(f.name)), all, false, "getData");
    cmpField(c, key + ":getScaledData", f, e, toD(rd.getScaledData(f.name)), all, true, "getScaledData");
    const size_t pos = unlim ? r.below(l.back()) : 0;
    szv st(l.size(), 0), sz = l;
    if (unlim) { st.back() = pos; sz.back() = 1; }
    cmpField(c, key + ":slice", f, e, toD(rd.getDataSlice(f.name, pos)), idxOf(st, sz), false, "getDataSlice " + std::to_string(pos));
    for (int rep = 0; rep < 2; ++rep) {
        SliceBuilder sb(rd.getCDM(), f.name);
        const sv dn = sb.getDimensionNames();
        VCHECK(c, dn.size() == l.size(), key + ":shape", f.name << " has " << dn.size() << " dimensions");
        for (size_t d = 0; d < l.size(); ++d) {
            st[d] = r.below(l[d]);
            sz[d] = r.range(1, l[d] - st[d]);
            if (r.chance(0.3)) { st[d] = 0; sz[d] = l[d]; }
            sb.setStartAndSize(dn[d], st[d], sz[d]);
        }
        cmpField(c, key + ":sb", f, e, toD(rd.getDataSlice(f.name, sb)), idxOf(st, sz), false, "slice start " + vstr(st) + " size " + vstr(sz));
    }
}
//! every variable's dimensions exist, referenced coordinates and grid mappings exist, in-memory data have the right size
static void consistent(Ctx& c, const std::string& key, const CDM& cdm)
{
    for (auto& v : cdm.getVariables()) {
        size_t n = 1;
        for (auto& d : v.getShape()) {
            VCHECK(c, cdm.hasDimension(d), key + ":dangling-dimension", v.getName() << " uses missing dimension " << d);
            n *= cdm.getDimension(d).getLength();
        }
        if (v.hasData() && v.getData()->size() != 0 && v.getDataType() != CDM_STRING) VCHECK(c, v.getData()->size() == n, key + ":data-size", v.getName() << " holds " << v.getData()->size() << " values, shape has " << n);
        CDMAttribute a;
        if (cdm.getAttribute(v.getName(), "grid_mapping", a)) VCHECK(c, cdm.hasVariable(a.getStringValue()), key + ":dangling-grid_mapping", v.getName() << " -> " << a.getStringValue());
        if (cdm.getAttribute(v.getName(), "coordinates", a)) {
            std::istringstream is(a.getStringValue());
            std::string w;
            while (is >> w) VCHECK(c, cdm.hasVariable(w), key + ":dangling-coordinates", v.getName() << " -> " << w);
        }
    }
}
static void passThrough(Ctx& c, const std::string& key, CDMReader& rd, const Src& s)
{
    for (auto& n : s.pass) {
        VCHECK(c, rd.getCDM().hasVariable(n), key + ":pass-missing", n);
        expectData(c, key + ":pass", rd.getData(n), s.ds.var(n).val, 0, n);
    }
    for (auto& n : {"lev", "time"}) expectData(c, key + ":pass", rd.getData(n), s.ds.var(n).val, 0, n);
    for (auto& f : s.f) {
        CDMAttribute a;
        VCHECK(c, rd.getCDM().getAttribute(f.name, "keep", a) && a.getStringValue() == "value " + f.name.substr(1), key + ":attr", f.name);
        VCHECK(c, rd.getCDM().getVariable(f.name).getDataType() == f.t, key + ":type", f.name);
        VCHECK(c, rd.getCDM().getAttribute(f.name, "_FillValue", a), key + ":attr", f.name);
    }
}
static void checkAxis(Ctx& c, const std::string& key, CDMReader& rd, const std::string& name, const dv& want, CDMDataType t, const std::string& unit)
{
    const CDM& cdm = rd.getCDM();
    VCHECK(c, cdm.hasVariable(name) && cdm.hasDimension(name), key + ":axis-missing", name);
    VCHECK(c, cdm.getDimension(name).getLength() == want.size(), key + ":axis-length", name << " " << cdm.getDimension(name).getLength());
    VCHECK(c, cdm.getVariable(name).getDataType() == t, key + ":axis-type", name);
    dv w = want;
    if (t == CDM_FLOAT) for (double& v : w) v = float(v);
    expectData(c, key + ":axis-values", rd.getData(name), w, 0, name);
    if (!unit.empty()) VCHECK(c, cdm.getUnits(name) == unit, key + ":axis-unit", name << " '" << cdm.getUnits(name) << "' expected '" << unit << "'");
}
static int mifi(Method m) { return m == NN ? MIFI_INTERPOL_NEAREST_NEIGHBOR : m == BILIN ? MIFI_INTERPOL_BILINEAR : MIFI_INTERPOL_BICUBIC; }
static void center(Rng& r, double& lon, double& lat)
{
    lon = r.chance(0.25) ? r.pick({180., -179., 0., 175., 90.}) : r.uni(-180, 180);
    lat = r.pick({r.uni(-75, 75), r.uni(40, 75), r.uni(-20, 20), r.uni(80, 89)});
}
static Target targetOf(const Grid& g)
{
    Target t;
    t.nx = g.nx();
    t.ny = g.ny();
    for (size_t j = 0; j < t.ny; ++j) for (size_t i = 0; i < t.nx; ++i) {
        double lo = NAN, la = NAN;
        if (!g.p.inv(g.x.v[i], g.y.v[j], lo, la)) lo = la = NAN;
        t.lon.push_back(lo);
        t.lat.push_back(la);
    }
    return t;
}
static std::shared_ptr<MemReader> mkReader(Rng& r, const Src& s)
{
    auto m = std::make_shared<MemReader>(s.ds, r.chance(0.5));
    if (r.chance(0.3)) for (auto& p : s.xy) { m->inMemory(p.first); m->inMemory(p.second); }
    return m;
}
#endif
