// C12: vertical interpolation vs column-wise reference.
#include "vert.h"
#include <fimex/CDMVerticalInterpolator.h>
using namespace vf;
typedef long double ld;

static const char* qName[] = {"pressure", "height", "altitude", "depth"};
static const char* qUnit[] = {"hPa", "m", "m", "m"};
static const char* qAxis[] = {"pressure", "height", "height_above_msl", "depth"};
static const char* mName[] = {"linear", "linear_weak_extra", "linear_no_extra", "linear_const_extra", "log", "loglog", "nearestneighbor"};

struct Exp { bool skip = false; double v = NAN, tol = 0; };

static Exp interp(const std::vector<ld>& L, const std::vector<double>& V, ld x, int m, double dx)
{
    Exp e;
    const size_t n = L.size();
    std::vector<size_t> o = iota(n);
    std::sort(o.begin(), o.end(), [&](size_t i, size_t j) { return L[i] < L[j]; });
    size_t a, b;
    if (x < L[o[0]]) { a = o[0]; b = o[1]; }
    else if (x >= L[o[n - 1]]) { a = o[n - 1]; b = o[n - 2]; }
    else { size_t k = 0; while (!(L[o[k + 1]] > x)) ++k; a = o[k]; b = o[k + 1]; }
    auto T = [&](ld v) { return m == 4 ? logl(v) : m == 5 ? logl(logl(v + expl(1.0L))) : v; };
    auto dT = [&](ld v) { return m == 4 ? 1 / v : m == 5 ? 1 / (logl(v + expl(1.0L)) * (v + expl(1.0L))) : 1.0L; };
    if (m == 4 || m == 5) {
        bool nl = false, neg = false;
        for (ld v : L) { if (fabsl(x - v) <= 4 * dx) nl = true; if (v <= dx) neg = true; }
        if (nl && neg) { e.skip = true; return e; } // which neighbours are used is decided by rounding
        if (std::min({x, L[a], L[b]}) <= dx && std::min({x, L[a], L[b]}) > -dx) { e.skip = true; return e; }
        if (std::min({x, L[a], L[b]}) <= 0) return e; // undefined
    }
    const ld f = (T(x) - T(L[a])) / (T(L[b]) - T(L[a]));
    const ld mx = std::max({fabsl(dT(x)), fabsl(dT(L[a])), fabsl(dT(L[b]))});
    const ld df = 4 * dx * mx * (1 + fabsl(f)) / fabsl(T(L[b]) - T(L[a])) + 1e-6L;
    // source levels near x: neighbouring pairs may be selected instead
    bool nearLevel = false;
    for (size_t i = 0; i < n; ++i) if (fabsl(x - L[i]) <= 4 * dx) nearLevel = true;
    bool anyNan = false;
    for (double v : V) if (std::isnan(v)) anyNan = true;
    if (nearLevel && anyNan) { e.skip = true; return e; }
    if (m == 1 && (fabsl(f + 1) <= df || fabsl(f - 2) <= df)) { e.skip = true; return e; }
    if (m == 2 && (fabsl(f) <= df || fabsl(f - 1) <= df) && (a == o[0] || a == o[n - 1])) {
        // at the outermost level: value or undefined is decided by rounding of the converted coordinate
        e.skip = true;
        return e;
    }
    if (m == 6) {
        const ld da = fabsl(x - L[a]), db = fabsl(x - L[b]);
        if (fabsl(da - db) <= 4 * dx) { e.skip = true; return e; }
        e.v = da < db ? V[a] : V[b];
        e.tol = 1e-6 * (1 + std::fabs(e.v));
        return e;
    }
    if (m == 1 && (f < -1 || f > 2)) return e;
    if (m == 2 && (f < 0 || f > 1)) return e;
    ld ff = f;
    if (m == 3) { if (f >= 1) { e.v = V[b]; } else if (f <= 0) { e.v = V[a]; } }
    if (!(m == 3 && (f >= 1 || f <= 0))) e.v = (double)(V[a] + ff * ((ld)V[b] - V[a]));
    if (m == 3 && anyNan && (fabsl(f) <= df || fabsl(f - 1) <= df)) { e.skip = true; return e; }
    // largest value difference of any pair adjacent to x
    double dv_ = 0;
    for (size_t k = 0; k + 1 < n; ++k) if (!std::isnan(V[o[k]]) && !std::isnan(V[o[k + 1]])) dv_ = std::max(dv_, std::fabs(V[o[k]] - V[o[k + 1]]));
    e.tol = (double)(df * dv_) * (nearLevel ? 20 : 1) + 3e-6 * (1 + std::fabs(e.v) + dv_ * (double)fabsl(f));
    return e;
}

static void vint(Ctx& c)
{
    Rng& r = c.r;
    VertOpt o;
    o.minz = 2;
    VertSet s = makeVert(c, o);
    std::vector<int> qs;
    for (int q = 0; q < 4; ++q) if (s.available(q)) qs.push_back(q);
    const int q = r.pick(qs), m = r.below(7);
    const int target = r.chance(0.7) ? 0 : r.range(1, 2); // fixed levels, template variable, axis
    const size_t n4 = s.nx * s.ny * s.nz * s.ne * s.nt;
    const CDMDataType type = r.pick({CDM_FLOAT, CDM_DOUBLE, CDM_SHORT});
    Dataset& ds = s.ds;
    dv val(n4);
    for (auto& v : val) v = type == CDM_SHORT ? r.range(-3000, 3000) : r.uni(-50, 50);
    const bool holes = r.chance(0.3);
    const double fill = -32767;
    if (holes) for (auto& v : val) if (r.chance(0.15)) v = fill;
    ds.add("f", type, s.shape4, s.as4(val));
    ds.att("f", "_FillValue", type, {fill});
    double vmin = NAN, vmax = NAN;
    if (r.chance(0.2)) { vmin = type == CDM_SHORT ? -2000 : -30; ds.att("f", "valid_min", type, {vmin}); }
    if (r.chance(0.2)) { vmax = type == CDM_SHORT ? 2000 : 30; ds.att("f", "valid_max", type, {vmax}); }
    if (holes) for (auto& v : val) if (v == fill) v = NAN;

    // target levels
    ld lo = 1e30, hi = -1e30;
    for (size_t t = 0; t < s.nt; ++t) for (size_t y = 0; y < s.ny; ++y) for (size_t x = 0; x < s.nx; ++x) for (size_t e = 0; e < s.ne; ++e) for (size_t z = 0; z < s.nz; ++z) {
        const ld v = s.quantity(q, x, y, z, e, t);
        lo = std::min(lo, v); hi = std::max(hi, v);
    }
    dv lv;
    const size_t nl = r.range(target ? 2 : 1, 6);
    for (size_t i = 0; i < nl; ++i) {
        double v;
        switch (r.below(4)) {
        case 0: v = (double)s.quantity(q, r.below(s.nx), r.below(s.ny), r.below(s.nz), 0, r.below(s.nt)); break;
        case 1: v = r.uni((double)(lo - 0.3 * (hi - lo)), (double)(hi + 0.3 * (hi - lo))); break;
        default: v = r.uni((double)lo, (double)hi);
        }
        if (q == Q_P && v <= 0) v = 1;
        lv.push_back(v);
    }
    if (target) { std::sort(lv.begin(), lv.end()); lv.erase(std::unique(lv.begin(), lv.end()), lv.end()); if (lv.size() < 2) throw Skip(); if (r.chance(0.5)) std::reverse(lv.begin(), lv.end()); }
    c.d << "to " << qName[q] << " method " << mName[m] << " target " << target << " type " << datatype2string(type) << (holes ? " holes" : "") << " levels " << vstr(lv);
    c.sig(c.d.str());
    if (target) {
        ds.addDim("lev2", lv.size());
        ds.add("lev2", CDM_DOUBLE, {"lev2"}, lv);
        ds.att("lev2", "units", qUnit[q]);
        if (q != Q_P) ds.att("lev2", "positive", q == Q_D ? "down" : "up");
        if (q == Q_H) ds.att("lev2", "standard_name", "height");
        if (q == Q_A) ds.att("lev2", "standard_name", "altitude");
        if (q == Q_D) ds.att("lev2", "standard_name", "depth");
        sv sh = {"lon", "lat", "lev2"};
        if (s.timeVar) sh.push_back("time");
        Var& g = ds.add("g", CDM_FLOAT, sh);
        fillUnique(g, r);
    }
    const bool alien = r.chance(0.2) && !target; // the natural axis name is already taken
    if (alien) { ds.addDim(qAxis[q], 2); ds.add(std::string("v_") + qAxis[q], CDM_INT, {qAxis[q]}, {1, 2}); }
    auto rd = std::make_shared<MemReader>(ds, r.chance(0.5));
    if (r.chance(0.5)) { rd->inMemory("lev"); rd->inMemory("lon"); }
    auto vi = std::make_shared<CDMVerticalInterpolator>(rd, qName[q], mName[m]);
    const bool ignMin = r.chance(0.25), ignMax = r.chance(0.25);
    if (ignMin) { vi->ignoreValidityMin(true); c.cnt("ignore_validity_min"); }
    if (ignMax) vi->ignoreValidityMax(true);
    c.sig(ignMin).sig(ignMax);
    std::string ax;
    if (target == 0) vi->interpolateToFixed(lv);
    else if (target == 1) vi->interpolateByTemplateVariable("g");
    else vi->interpolateToAxis("lev2");
    const CDM& cdm = vi->getCDM();
    sv shape = cdm.getVariable("f").getShape();
    VCHECK(c, shape.size() == s.shape4.size(), "shape", vstr(shape));
    for (size_t d = 0; d < shape.size(); ++d) {
        if (s.shape4[d] == "lev") { ax = shape[d]; VCHECK(c, ax != "lev", "shape", "level dimension not replaced " << vstr(shape)); }
        else VCHECK(c, shape[d] == s.shape4[d], "shape", vstr(shape));
    }
    if (target) VCHECK(c, ax == "lev2", "target-axis", ax);
    else VCHECK(c, ax.substr(0, strlen(qAxis[q])) == qAxis[q], "target-axis", ax);
    VCHECK(c, cdm.getDimension(ax).getLength() == lv.size(), "target-length", cdm.getDimension(ax).getLength());
    VCHECK(c, cdm.getVariable("f").getDataType() == type, "type", "");
    expectData(c, "target-values", vi->getScaledDataInUnit(ax, qUnit[q]), lv, 1e-9);
    if (ds.hasVar("ps")) expectData(c, "untouched-variable", vi->getData("ps"), ds.var("ps").val, 0);
    if (target) expectData(c, "untouched-variable", vi->getData("g"), ds.var("g").val, 0);

    const double dx = s.tol(q);
    szv l; for (auto& d : shape) l.push_back(d == ax ? lv.size() : ds.dim(d).len);
    auto checkPos = [&](size_t upos, bool whole) {
        DataPtr d = whole ? vi->getData("f") : vi->getDataSlice("f", upos);
        VCHECK(c, !!d, "null", "");
        dv got = toD(d);
        szv ll = l;
        const bool sl = s.unlim && !whole;
        if (sl) ll.back() = 1;
        VCHECK(c, got.size() == prod(ll), "size", "got " << got.size() << " expected " << prod(ll));
        VCHECK(c, d->getDataType() == type, "data-type", "");
        szv p(ll.size(), 0);
        for (size_t k = 0; k < got.size(); ++k) {
            size_t x = 0, y = 0, e = 0, t = 0, z = 0;
            for (size_t j = 0; j < shape.size(); ++j) {
                const size_t i = p[j];
                if (shape[j] == "lon") x = i; else if (shape[j] == "lat") y = i; else if (shape[j] == "ens") e = i; else if (shape[j] == "time") t = sl ? upos : i; else z = i;
            }
            std::vector<ld> L(s.nz); std::vector<double> V(s.nz);
            for (size_t zz = 0; zz < s.nz; ++zz) { L[zz] = s.quantity(q, x, y, zz, e, t); V[zz] = val[s.i4(x, y, zz, e, t)]; }
            Exp w = interp(L, V, lv[z], m, dx);
            double g = got[k];
            if (g == fill) g = NAN;
            if (q == Q_D && s.hasEta && !ignMin) {
                const double et = s.eta[s.i3(x, y, t)];
                if (lv[z] < std::fabs(et)) { // near or above the surface
                    if (lv[z] < -std::fabs(et)) { VCHECK(c, std::isnan(g), "above-surface", "depth " << lv[z] << " eta " << et << " got " << g); c.cnt("above_surface"); }
                    w.skip = true;
                }
            }
            if (!w.skip) {
                double ww = w.v;
                if (!std::isnan(ww)) { if (ww < vmin) ww = vmin; if (ww > vmax) ww = vmax; }
                const double tol = w.tol + (type == CDM_SHORT ? 0.51 : 0);
                if (type == CDM_SHORT && !std::isnan(ww) && (std::fabs(ww) > 32000)) { /* not representable */ }
                else {
                    VCHECK(c, close(g, ww, tol), std::string(std::isnan(ww) ? "undefined-expected" : std::isnan(g) ? "value-missing" : "value") + ":" + mName[m],
                           "x=" << x << " y=" << y << " e=" << e << " t=" << t << " level " << lv[z] << " got " << g << " expected " << ww << " tol " << tol << " column levels " << vstr(dv(L.begin(), L.end())) << " values " << vstr(V));
                    c.cnt(std::isnan(ww) ? "undefined" : "interpolated");
                }
            } else c.cnt("ambiguous");
            for (size_t j = 0; j < ll.size(); ++j) { if (++p[j] < ll[j]) break; p[j] = 0; }
        }
    };
    c.cnt(std::string("method-") + mName[m]); c.cnt(std::string("from-") + vkName[s.kind] + "-to-" + qName[q]);
    for (size_t t = 0; t < (s.unlim ? s.nt : 1); ++t) checkPos(t, false);
    checkPos(0, true);
}

VF_MAIN("C12", "distinct non-trivial = distinct (source coordinate, sizes, order, target quantity, method, level list)", {"vint", vint, 4000, 200000})
