// C07: interpolation kernels. Oracle: the documented formulas evaluated independently in double precision.
#include "vfx.h"
#include <fimex/interpolation.h>
#include <fimex/mifi_constants.h>
using namespace vf;

static const float NANF = std::numeric_limits<float>::quiet_NaN();

struct Field
{
    int nx, ny, nz;
    std::vector<float> v;
    double maxabs = 0;
    double at(int x, int y, int z) const { return v[((size_t)z * ny + y) * nx + x]; }
};
static Field randField(Ctx& c)
{
    Field f;
    auto sz = [&] { return (int)(c.r.chance(0.3) ? c.r.range(1, 3) : c.r.range(1, 9)); };
    f.nx = sz(); f.ny = sz(); f.nz = c.r.range(1, 3);
    f.v.resize((size_t)f.nx * f.ny * f.nz);
    const double base = c.r.pick({0., 0., 273., -1e5}), amp = c.r.pick({1., 100., 1e4});
    const double pn = c.r.pick({0., 0., 0.05, 0.3});
    for (float& x : f.v) {
        x = base + c.r.uni(-amp, amp);
        f.maxabs = std::max(f.maxabs, std::fabs((double)x));
        if (c.r.chance(pn)) x = NANF;
    }
    c.d << f.nx << "x" << f.ny << "x" << f.nz << " nan=" << pn;
    return f;
}
static double randPos(Rng& r, int n)
{
    switch (r.below(6)) {
    case 0: return (double)r.range(0, n - 1);            // grid points
    case 1: return r.pick({-0.25, -0.75, n - 1 + 0.25, n - 0.25, n + 0.25, -1.0, (double)n, n - 1.0, 0.0});
    case 2: return r.uni(-2, n + 1);
    case 3: return r.pick({-999., 1e6, -1e6, n + 100.0});
    default: return r.uni(0, n - 1 + (n == 1 ? 0.4 : 0.0));
    }
}
static bool nearHalf(double x) { double f = x - std::floor(x); return std::fabs(f - 0.5) < 1e-6; }
// candidates of the nearest index: -1 if outside
static long nn(double x, int n)
{
    double r = std::floor(x + 0.5);
    return (r < 0 || r > n - 1) ? -1 : (long)r;
}

static void famPoint(Ctx& c)
{
    const Field f = randField(c);
    const double x = randPos(c.r, f.nx), y = randPos(c.r, f.ny);
    if (nearHalf(x) || nearHalf(y)) throw Skip();
    c.d << " at " << x << "," << y;
    const double tol = 1e-5 * (f.maxabs + 1);
    std::vector<float> exact(f.v); // exactly sized heap copy: any read outside is an ASan report
    std::vector<float> o(f.nz, 12345.f);
    // nearest
    VCHECK(c, mifi_get_values_f(exact.data(), o.data(), x, y, f.nx, f.ny, f.nz) == MIFI_OK, "nearest:status", "");
    const long rx = nn(x, f.nx), ry = nn(y, f.ny);
    for (int z = 0; z < f.nz; ++z) {
        const double w = (rx >= 0 && ry >= 0) ? f.at(rx, ry, z) : NAN;
        VCHECK(c, same(o[z], w), "nearest", "z=" << z << " got " << o[z] << " expected " << w);
    }
    // bilinear
    std::fill(o.begin(), o.end(), 12345.f);
    VCHECK(c, mifi_get_values_bilinear_f(exact.data(), o.data(), x, y, f.nx, f.ny, f.nz) == MIFI_OK, "bilinear:status", "");
    const int x0 = std::floor(std::max(-10., std::min(x, 1e4))), y0 = std::floor(std::max(-10., std::min(y, 1e4)));
    const bool inx = x0 >= 0 && x0 + 1 < f.nx, iny = y0 >= 0 && y0 + 1 < f.ny;
    for (int z = 0; z < f.nz; ++z) {
        double w = NAN, hard = NAN; // hard: the value if zero-weight neighbours are ignored
        if ((inx || rx >= 0) && (iny || ry >= 0)) {
            const double fx = inx ? x - x0 : 0, fy = iny ? y - y0 : 0;
            const int ax = inx ? x0 : rx, ay = iny ? y0 : ry;
            const double s00 = f.at(ax, ay, z), s01 = inx ? f.at(ax + 1, ay, z) : 0, s10 = iny ? f.at(ax, ay + 1, z) : 0, s11 = inx && iny ? f.at(ax + 1, ay + 1, z) : 0;
            w = (1 - fy) * ((1 - fx) * s00 + fx * s01) + fy * ((1 - fx) * s10 + fx * s11);
            hard = 0;
            const double W[4] = {(1 - fy) * (1 - fx), (1 - fy) * fx, fy * (1 - fx), fy * fx}, S[4] = {s00, s01, s10, s11};
            for (int k = 0; k < 4; ++k) if (std::fabs(W[k]) > 1e-7) hard += W[k] * S[k];
        }
        VCHECK(c, close(o[z], w, tol) || (std::isnan(w) && close(o[z], hard, tol)), "bilinear", "z=" << z << " got " << o[z] << " expected " << w);
        c.cnt(std::isnan(w) ? "bilinear_undefined" : inx && iny ? "bilinear_interior" : "bilinear_edge");
    }
    // bicubic
    std::fill(o.begin(), o.end(), 12345.f);
    VCHECK(c, mifi_get_values_bicubic_f(exact.data(), o.data(), x, y, f.nx, f.ny, f.nz) == MIFI_OK, "bicubic:status", "");
    auto kern = [](double t) { // cubic convolution kernel, a=-0.5
        t = std::fabs(t);
        if (t <= 1) return 1.5 * t * t * t - 2.5 * t * t + 1;
        if (t < 2) return -0.5 * t * t * t + 2.5 * t * t - 4 * t + 2;
        return 0.;
    };
    const bool cin = x0 >= 1 && x0 + 2 < f.nx && y0 >= 1 && y0 + 2 < f.ny;
    for (int z = 0; z < f.nz; ++z) {
        double w = NAN, hard = NAN;
        if (cin) {
            w = hard = 0;
            for (int i = -1; i <= 2; ++i)
                for (int j = -1; j <= 2; ++j) {
                    const double wt = kern(x - (x0 + i)) * kern(y - (y0 + j)), s = f.at(x0 + i, y0 + j, z);
                    w += wt * s;
                    if (std::fabs(wt) > 1e-12) hard += wt * s;
                }
        }
        VCHECK(c, close(o[z], w, tol * 4) || (std::isnan(w) && close(o[z], hard, tol * 4)), "bicubic", "z=" << z << " got " << o[z] << " expected " << w);
        c.cnt(std::isnan(w) ? "bicubic_undefined" : "bicubic_interior");
    }
}

static void fam1d(Ctx& c)
{
    const size_t n = c.r.range(0, 12);
    std::vector<float> A(n), B(n), o(n, 12345.f);
    std::vector<double> Ad(n), Bd(n), od(n, 12345.);
    for (size_t i = 0; i < n; ++i) {
        A[i] = c.r.chance(0.1) ? NANF : (float)c.r.uni(-100, 100);
        B[i] = c.r.chance(0.1) ? NANF : (float)c.r.uni(-100, 100);
        Ad[i] = A[i]; Bd[i] = B[i];
    }
    const bool logs = c.r.chance(0.5);
    double a = logs ? std::exp(c.r.uni(0, 11)) : c.r.uni(-1000, 1000);
    double b = logs ? std::exp(c.r.uni(0, 11)) : c.r.uni(-1000, 1000);
    if (c.r.chance(0.05)) b = a;
    double x;
    switch (c.r.below(6)) {
    case 0: x = a; break;
    case 1: x = b; break;
    case 2: x = a + (b - a) * c.r.uni(-3, 4); break;
    default: x = a + (b - a) * c.r.uni();
    }
    const int m = c.r.below(8);
    if (m >= 5 && c.r.chance(0.1)) (c.r.chance(0.5) ? a : c.r.chance(0.5) ? b : x) *= -1;
    c.d << "method " << m << " n=" << n << " a=" << a << " b=" << b << " x=" << x;
    auto tr = [&](double v) { return m == 6 ? std::log(v) : m == 7 ? std::log(std::log(v + M_E)) : v; };
    const bool bad = m >= 6 && (a <= 0 || b <= 0 || x <= 0);
    int rc = MIFI_OK;
    switch (m) {
    case 0: rc = mifi_get_values_linear_f(A.data(), B.data(), o.data(), n, a, b, x); break;
    case 1: rc = mifi_get_values_linear_weak_extrapol_f(A.data(), B.data(), o.data(), n, a, b, x); break;
    case 2: rc = mifi_get_values_linear_no_extrapol_f(A.data(), B.data(), o.data(), n, a, b, x); break;
    case 3: rc = mifi_get_values_linear_const_extrapol_f(A.data(), B.data(), o.data(), n, a, b, x); break;
    case 4: rc = mifi_get_values_linear_d(Ad.data(), Bd.data(), od.data(), n, a, b, x); break;
    case 5:
        rc = mifi_get_values_nearest_f(A.data(), B.data(), o.data(), n, a, b, x);
        break;
    case 6: rc = mifi_get_values_log_f(A.data(), B.data(), o.data(), n, a, b, x); break;
    case 7: rc = mifi_get_values_log_log_f(A.data(), B.data(), o.data(), n, a, b, x); break;
    }
    c.sig(m).sig(n).sig(x);
    if (bad) {
        VCHECK(c, rc == MIFI_ERROR, "1d:log-of-nonpositive-accepted", "method " << m);
        return;
    }
    VCHECK(c, rc == MIFI_OK, "1d:status", "method " << m);
    double f = a == b ? 0 : (tr(x) - tr(a)) / (tr(b) - tr(a));
    if (m == 5) { if (a != b && std::fabs(f - 0.5) < 1e-9) throw Skip(); f = f < 0.5 ? 0 : 1; }
    // skip undecidable limits
    if ((m == 1 && (std::fabs(f + 1) < 1e-5 || std::fabs(f - 2) < 1e-5)) || (m == 2 && f != 0 && f != 1 && (std::fabs(f) < 1e-6 || std::fabs(f - 1) < 1e-6))) throw Skip();
    if (f != 0 && f != 1 && (std::fabs(f) < 1e-6 || std::fabs(f - 1) < 1e-6)) throw Skip();
    for (size_t i = 0; i < n; ++i) {
        double va = A[i], vb = B[i], w;
        if (f == 0) w = va;
        else if (f == 1) w = vb;
        else w = va + f * (vb - va);
        if (m == 1 && (f < -1 || f > 2)) w = NAN;
        if (m == 2 && (f < 0 || f > 1)) w = NAN;
        if (m == 3) { if (f >= 1) w = vb; else if (f <= 0) w = va; }
        const double got = m == 4 ? od[i] : o[i];
        const double tol = (m == 4 ? 1e-11 : 3e-6) * (100 + std::fabs(f) * 200);
        VCHECK(c, close(got, w, tol), "1d:value:m" + std::to_string(m), "i=" << i << " f=" << f << " A=" << va << " B=" << vb << " got " << got << " expected " << w);
    }
}

static void famAxis(Ctx& c)
{
    // strictly monotonic axis
    const int num = c.r.chance(0.15) ? 1 : c.r.range(2, 30);
    const bool lonAxis = c.r.chance(0.5);
    dv axis(num);
    bool circular = false;
    if (lonAxis) {
        const int mode = c.r.below(3);
        if (mode == 0 && num >= 2) { // global uniform
            const double st = 360. / num, s0 = c.r.pick({0., -180., -180. + st / 2, st / 2});
            for (int i = 0; i < num; ++i) axis[i] = s0 + st * i;
            circular = true;
        } else {
            const double lo = mode == 1 ? 0 : -180;
            double span = c.r.uni(1, 200), s0 = lo + c.r.uni(0, 360 - span - 1);
            for (int i = 0; i < num; ++i) axis[i] = s0 + (num > 1 ? span * i / (num - 1) : 0);
            if (mode == 2 && axis[0] >= 0 && axis[num - 1] >= 0) { /* non-negative axis: points are taken 0-360 */ }
            if (num >= 2 && span * num / (num - 1) > 355) throw Skip();
        }
    } else {
        double v = c.r.uni(-1e5, 1e5);
        for (int i = 0; i < num; ++i) { axis[i] = v; v += c.r.uni(0.1, 1000); }
    }
    const bool desc = c.r.chance(0.4);
    if (desc) std::reverse(axis.begin(), axis.end());
    const int n = c.r.range(0, 8);
    dv pts(n);
    for (double& p : pts) {
        switch (c.r.below(5)) {
        case 0: p = axis[c.r.below(num)]; break;
        case 1: p = lonAxis ? c.r.uni(-180, 360) : c.r.uni(-2e5, 2e5); break;
        case 2: p = c.r.pick({(double)NAN, (double)INFINITY, -(double)INFINITY}); break;
        default: p = c.r.uni(std::min(axis[0], axis[num - 1]), std::max(axis[0], axis[num - 1]));
        }
        if (lonAxis && std::isfinite(p) && c.r.chance(0.2)) p += p > 0 ? -360 : 360;
        if (lonAxis && std::isfinite(p)) { while (p > 360) p -= 360; while (p < -180) p += 360; }
    }
    c.d << (lonAxis ? "lon " : "lin ") << "axis " << vstr(axis, 6) << " n=" << num << " points " << vstr(pts);
    dv ax(axis), got(pts);
    VCHECK(c, mifi_points2position(got.data(), n, ax.data(), num, lonAxis ? MIFI_LONGITUDE : MIFI_PROJ_AXIS) == MIFI_OK, "axis:status", "");
    VCHECK(c, ax == axis, "axis:modified", "");
    for (int i = 0; i < n; ++i) {
        if (!std::isfinite(pts[i])) {
            VCHECK(c, got[i] == -999, "axis:nonfinite", got[i]);
            continue;
        }
        double p = pts[i];
        if (lonAxis) {
            // the equivalent longitude on (or closest to) the axis
            const double lo = std::min(axis[0], axis[num - 1]), hi = std::max(axis[0], axis[num - 1]);
            double best = p, bd = 1e300;
            for (int k = -3; k <= 3; ++k) { const double q = p + 360. * k, d = q < lo ? lo - q : q > hi ? q - hi : 0; if (d < bd - 1e-9) { bd = d; best = q; } }
            p = best;
        }
        if (num == 1) {
            if (p == axis[0]) VCHECK(c, got[i] == 0, "axis:single", got[i]);
            c.cnt("single_point_axis");
            continue;
        }
        // piecewise linear reference
        size_t k = 1;
        while (k + 1 < (size_t)num && (desc ? p < axis[k] : p > axis[k])) ++k;
        double want = (k - 1) + (p - axis[k - 1]) / (axis[k] - axis[k - 1]);
        const double tol = 1e-9 * (1 + std::fabs(want)) * num + 1e-9 * std::fabs(p) / std::fabs(axis[k] - axis[k - 1]);
        if (circular) {
            VCHECK(c, got[i] >= -0.5 - tol && got[i] <= num - 0.5 + tol, "axis:circular-range", "p=" << p << " got " << got[i]);
            double df = std::fmod(got[i] - want, (double)num);
            if (df > num / 2.) df -= num;
            if (df < -num / 2.) df += num;
            VCHECK(c, std::fabs(df) <= tol * 10, "axis:circular", "p=" << p << " got " << got[i] << " expected " << want << " mod " << num);
            c.cnt("circular_points");
        } else if (lonAxis && (want < -1 || want > num)) { // clearly off the axis: nothing but that is promised
            VCHECK(c, got[i] < -0.5 || got[i] > num - 0.5, "axis:off", "p=" << p << " got " << got[i] << " expected " << want);
        } else {
            VCHECK(c, std::fabs(got[i] - want) <= tol, "axis:linear", "p=" << p << " got " << got[i] << " expected " << want);
            c.cnt("linear_points");
        }
    }
    // bsearch contract
    auto cmp = desc ? descendingDoubleComparator : ascendingDoubleComparator;
    const double key = c.r.chance(0.5) ? axis[c.r.below(num)] : c.r.uni(std::min(axis[0], axis[num - 1]) - 1, std::max(axis[0], axis[num - 1]) + 1);
    const int ix = bsearchDoubleIndex(key, ax.data(), num, cmp);
    auto it = std::find(axis.begin(), axis.end(), key);
    if (it != axis.end()) VCHECK(c, ix == it - axis.begin(), "bsearch:found", ix);
    else {
        int ins = 0;
        while (ins < num && (desc ? axis[ins] > key : axis[ins] < key)) ++ins;
        VCHECK(c, ix == -1 - ins, "bsearch:insertion", "key " << key << " got " << ix << " expected " << -1 - ins);
    }
}

static void famMisc(Ctx& c)
{
    const size_t n = c.r.range(0, 30);
    std::vector<float> v(n);
    std::vector<double> vd(n);
    const float bad = c.r.pick({-999.f, 1e20f, 0.f, NANF, -32767.f});
    for (size_t i = 0; i < n; ++i) { v[i] = c.r.chance(0.3) ? bad : c.r.chance(0.2) ? NANF : (float)c.r.uni(-5, 5); vd[i] = v[i]; }
    c.d << "bad=" << bad << " n=" << n;
    c.sig(bad).sig(n).sig(vstr(v));
    std::vector<float> a(v);
    mifi_bad2nanf(a.data(), a.data() + n, bad);
    for (size_t i = 0; i < n; ++i) VCHECK(c, same(a[i], v[i] == bad ? NANF : v[i]), "bad2nan", i);
    std::vector<float> b(a);
    mifi_nanf2bad(b.data(), b.data() + n, bad);
    for (size_t i = 0; i < n; ++i) VCHECK(c, same(b[i], std::isnan(a[i]) ? bad : a[i]), "nan2bad", i);
    mifi_nand2bad(vd.data(), vd.data() + n, bad);
    for (size_t i = 0; i < n; ++i) VCHECK(c, same(vd[i], std::isnan(v[i]) ? (double)bad : (double)v[i]), "nand2bad", i);
    // method names
    static const std::map<std::string, int> M = {{"bilinear", MIFI_INTERPOL_BILINEAR}, {"nearestneighbor", MIFI_INTERPOL_NEAREST_NEIGHBOR}, {"bicubic", MIFI_INTERPOL_BICUBIC},
        {"coord_nearestneighbor", MIFI_INTERPOL_COORD_NN}, {"coord_kdtree", MIFI_INTERPOL_COORD_NN_KD}, {"forward_sum", MIFI_INTERPOL_FORWARD_SUM},
        {"forward_mean", MIFI_INTERPOL_FORWARD_MEAN}, {"forward_median", MIFI_INTERPOL_FORWARD_MEDIAN}, {"forward_max", MIFI_INTERPOL_FORWARD_MAX},
        {"forward_min", MIFI_INTERPOL_FORWARD_MIN}, {"forward_undef_sum", MIFI_INTERPOL_FORWARD_UNDEF_SUM}, {"forward_undef_mean", MIFI_INTERPOL_FORWARD_UNDEF_MEAN},
        {"forward_undef_median", MIFI_INTERPOL_FORWARD_UNDEF_MEDIAN}, {"forward_undef_max", MIFI_INTERPOL_FORWARD_UNDEF_MAX}, {"forward_undef_min", MIFI_INTERPOL_FORWARD_UNDEF_MIN},
        {"bilinea", MIFI_INTERPOL_UNKNOWN}, {"", MIFI_INTERPOL_UNKNOWN}, {"bilinear2", MIFI_INTERPOL_UNKNOWN}};
    for (auto& kv : M) VCHECK(c, mifi_string_to_interpolation_method(kv.first.c_str()) == kv.second, "method-name", kv.first);
}

VF_MAIN("C07", "random fields (1..9 x 1..9 x 1..3, NaN patterns, exactly sized heap buffers) and positions inside/at/over the edges, random axes and 1-d pairs; each kernel output compared with the formula in double precision; distinct by field/position text",
        {"point", famPoint, 60000, 2000000}, {"onedim", fam1d, 40000, 1000000}, {"axis", famAxis, 30000, 1000000}, {"misc", famMisc, 3000, 50000})
