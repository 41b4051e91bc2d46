// C11: hole filling. Oracle: invariants (defined values kept, nothing undefined left, range, count), metamorphic
// equivariance under affine maps, and the stationarity (Laplace/Neumann) condition after convergence.
#include "vfx.h"
#include <fimex/CDMInterpolator.h>
#include <fimex/interpolation.h>
#include <fimex/mifi_constants.h>
using namespace vf;
static const float NANF = std::numeric_limits<float>::quiet_NaN();

struct F { size_t nx, ny; std::vector<float> v; size_t nnan = 0; double lo = INFINITY, hi = -INFINITY, sum = 0; };
static F gen(Ctx& c, size_t maxn)
{
    F f;
    f.nx = c.r.chance(0.15) ? c.r.range(1, 2) : c.r.range(1, maxn);
    f.ny = c.r.chance(0.15) ? c.r.range(1, 2) : c.r.range(1, maxn);
    f.v.resize(f.nx * f.ny);
    const int kind = c.r.below(7);
    const double base = c.r.pick({0., 280., -50.}), amp = c.r.pick({0., 1., 30.});
    const size_t keep = c.r.below(f.v.size());
    for (size_t i = 0; i < f.v.size(); ++i) {
        const size_t x = i % f.nx, y = i / f.nx;
        const bool border = x == 0 || y == 0 || x + 1 == f.nx || y + 1 == f.ny;
        float val = base + c.r.uni(-amp, amp);
        bool nan = false;
        switch (kind) {
        case 0: nan = c.r.chance(0.3); break;
        case 1: nan = c.r.chance(0.8); break;
        case 2: nan = border; break;
        case 3: nan = !border; break;
        case 4: nan = i != keep; break;
        case 5: nan = x < f.nx / 2; break;
        case 6: nan = i == keep; break;
        }
        if (c.idx % 53 == 0) nan = true;
        if (c.idx % 53 == 1) nan = false;
        if (nan) { val = NANF; f.nnan++; }
        else { f.lo = std::min(f.lo, (double)val); f.hi = std::max(f.hi, (double)val); f.sum += val; }
        f.v[i] = val;
    }
    c.d << f.nx << "x" << f.ny << " undefined " << f.nnan << " kind " << kind;
    c.sig(f.nx).sig(f.ny).sig(f.nnan).sig(kind).sig(vstr(f.v));
    c.trivial = f.nnan == 0 || f.nnan == f.v.size();
    return f;
}
static void invariants(Ctx& c, const F& f, const std::vector<float>& o, size_t nChanged, const std::string& m, double lo, double hi, double slack)
{
    VCHECK(c, nChanged == f.nnan, m + ":count", "nChanged " << nChanged << " expected " << f.nnan);
    for (size_t i = 0; i < o.size(); ++i) {
        if (!std::isnan(f.v[i])) VCHECK(c, o[i] == f.v[i], m + ":defined-value-changed", "at " << i << " " << f.v[i] << " -> " << o[i]);
        else if (f.nnan == f.v.size()) VCHECK(c, std::isnan(o[i]), m + ":filled-from-nothing", o[i]);
        else {
            VCHECK(c, std::isfinite(o[i]), m + ":still-undefined", "at " << i << " " << o[i]);
            VCHECK(c, o[i] >= lo - slack && o[i] <= hi + slack, m + ":out-of-range", "at " << i << " " << o[i] << " not in " << lo << ".." << hi);
        }
    }
    c.cnt("filled_points", f.nnan < f.v.size() ? f.nnan : 0);
}

static void famCreep(Ctx& c)
{
    const F f = gen(c, 12);
    const bool val = c.r.chance(0.5);
    const unsigned short rep = c.r.pick<int>({0, 1, 2, 5, 20, 60});
    const char w = c.r.pick<int>({1, 2, 5, 100});
    const float def = c.r.uni(-100, 400);
    c.d << (val ? " creepfillval default " : " creepfill ") << (val ? def : 0) << " repeat " << rep << " weight " << (int)w;
    c.sig(val).sig(rep).sig((int)w);
    auto run = [&](const std::vector<float>& in, float d, size_t& n) {
        std::vector<float> o(in);
        n = 777;
        const int rc = val ? mifi_creepfillval2d_f(f.nx, f.ny, o.data(), d, rep, w, &n) : mifi_creepfill2d_f(f.nx, f.ny, o.data(), rep, w, &n);
        VCHECK(c, rc == MIFI_OK, "creep:status", rc);
        return o;
    };
    size_t n;
    const std::vector<float> o = run(f.v, def, n);
    double lo = f.lo, hi = f.hi;
    if (val) { lo = std::min(lo, (double)def); hi = std::max(hi, (double)def); }
    const double mag = std::max(std::fabs(lo), std::fabs(hi));
    invariants(c, f, o, n, val ? "creepval" : "creep", lo, hi, 1e-5 * (mag + 1));
    if (f.nnan == f.v.size()) return;
    // points without any defined neighbourhood stay at the default
    if (rep == 0) {
        const double d = val ? def : f.sum / (f.v.size() - f.nnan);
        for (size_t i = 0; i < o.size(); ++i) if (std::isnan(f.v[i])) VCHECK(c, close(o[i], d, 1e-5 * (mag + 1)), "creep:default", o[i] << " expected " << d);
    }
    // equivariance: v -> 2v+8 and mirror images
    std::vector<float> in2(f.v);
    for (float& x : in2) x = 2 * x + 8;
    const std::vector<float> o2 = run(in2, 2 * def + 8, n);
    for (size_t i = 0; i < o.size(); ++i) VCHECK(c, close(o2[i], 2. * o[i] + 8, 2e-4 * (mag + 10)), "creep:affine", "at " << i << " " << o2[i] << " vs " << 2. * o[i] + 8);
    // smoothing pulls towards the neighbours: a hole in a constant field with default==constant stays constant
    std::vector<float> k(f.v);
    for (float& x : k) if (!std::isnan(x)) x = 7.5f;
    const std::vector<float> ok = run(k, 7.5f, n);
    for (size_t i = 0; i < ok.size(); ++i) VCHECK(c, std::fabs(ok[i] - 7.5) < 1e-4, "creep:constant", ok[i]);
    // interior undefined points adjacent to defined points are influenced by them
    if (val && rep >= 1) {
        for (size_t y = 1; y + 1 < f.ny; ++y)
            for (size_t x = 1; x + 1 < f.nx; ++x) {
                const size_t i = y * f.nx + x;
                if (!std::isnan(f.v[i])) continue;
                const size_t nb[4] = {i - 1, i + 1, i - f.nx, i + f.nx};
                bool all = true;
                for (size_t q : nb) if (std::isnan(f.v[q])) all = false;
                if (!all) continue;
                // fully enclosed hole: converges monotonically to the mean of its (equally weighted) neighbours
                double m = 0;
                for (size_t q : nb) m += f.v[q] / 4.;
                double e = def - m, fac = 1. / (1 + 4. * w);
                // the sweep limit is the number of defined points
                const size_t sweeps = std::min<size_t>(rep, f.v.size() - f.nnan);
                const double want = m + e * std::pow(fac, (double)sweeps);
                VCHECK(c, close(o[i], want, 1e-4 * (mag + 1)), "creep:enclosed", "at " << x << "," << y << " got " << o[i] << " expected " << want);
                c.cnt("enclosed_holes");
            }
    }
}

static void famRelax(Ctx& c)
{
    const F f = gen(c, 10);
    const bool converge = c.r.chance(0.5);
    const float crit = converge ? 1e-6f : c.r.pick({1e-4f, 1e-2f, 4e-6f});
    const float eff = converge ? 1.6f : c.r.pick({1.0f, 1.2f, 1.6f, 1.9f});
    const size_t loops = converge ? 4000 : c.r.pick<size_t>({0, 1, 3, 10, 100});
    c.d << " relax crit " << crit << " eff " << eff << " loops " << loops;
    c.sig(crit).sig(eff).sig(loops);
    std::vector<float> o(f.v);
    size_t n = 777;
    VCHECK(c, mifi_fill2d_f(f.nx, f.ny, o.data(), crit, eff, loops, &n) == MIFI_OK, "relax:status", "");
    const double mag = std::max(std::fabs(f.lo), std::fabs(f.hi));
    // over-relaxation may overshoot before convergence; without it (or converged) the maximum principle holds
    const double slack = (converge || eff <= 1.0f) ? 1e-3 * (f.hi - f.lo) + 1e-4 * (mag + 1) : 1e30;
    invariants(c, f, o, n, "relax", f.lo, f.hi, slack);
    if (f.nnan == f.v.size()) return;
    if (loops == 0) {
        const double d = f.sum / (f.v.size() - f.nnan);
        for (size_t i = 0; i < o.size(); ++i) if (std::isnan(f.v[i])) VCHECK(c, close(o[i], d, 1e-5 * (mag + 1)), "relax:first-guess", o[i] << " expected " << d);
    }
    if (converge && f.nx >= 3 && f.ny >= 3) {
        const double tol = 2e-3 * (f.hi - f.lo) + 2e-4 * (mag + 1);
        for (size_t y = 1; y + 1 < f.ny; ++y)
            for (size_t x = 1; x + 1 < f.nx; ++x) {
                const size_t i = y * f.nx + x;
                if (!std::isnan(f.v[i])) continue;
                const double m = (o[i - 1] + o[i + 1] + o[i - f.nx] + o[i + f.nx]) / 4.;
                VCHECK(c, close(o[i], m, tol), "relax:laplace", "at " << x << "," << y << " " << o[i] << " neighbours mean " << m);
                c.cnt("laplace_points");
            }
        // the border is treated after the first sweep unless that sweep has already converged: decide from the first interior hole
        bool moves = false;
        {
            std::vector<float> g(f.v);
            const double avg = f.sum / (f.v.size() - f.nnan);
            double sd = 0;
            for (float& q : g) if (std::isnan(q)) q = avg; else sd += std::fabs(q - avg);
            sd /= f.v.size() - f.nnan;
            for (size_t y = 1; y + 1 < f.ny && !moves; ++y)
                for (size_t x = 1; x + 1 < f.nx; ++x) {
                    const size_t i = y * f.nx + x;
                    if (!std::isnan(f.v[i])) continue;
                    moves = std::fabs((g[i - 1] + g[i + 1] + g[i - f.nx] + g[i + f.nx]) / 4. - g[i]) > 10 * crit * sd + 1e-5 * (mag + 1);
                    y = f.ny;
                    break;
                }
        }
        if (!moves) return;
        c.cnt("border_checked");
        for (size_t y = 1; y + 1 < f.ny; ++y) {
            const size_t a = y * f.nx, b = a + f.nx - 1;
            if (std::isnan(f.v[a])) VCHECK(c, close(o[a], o[a + 1], tol), "relax:neumann", "left " << o[a] << " vs " << o[a + 1]);
            if (std::isnan(f.v[b])) VCHECK(c, close(o[b], o[b - 1], tol), "relax:neumann", "right " << o[b] << " vs " << o[b - 1]);
        }
        for (size_t x = 1; x + 1 < f.nx; ++x) {
            const size_t a = x, b = (f.ny - 1) * f.nx + x;
            if (std::isnan(f.v[a])) VCHECK(c, close(o[a], o[a + f.nx], tol), "relax:neumann", "bottom " << o[a] << " vs " << o[a + f.nx]);
            if (std::isnan(f.v[b])) VCHECK(c, close(o[b], o[b - f.nx], tol), "relax:neumann", "top " << o[b] << " vs " << o[b - f.nx]);
        }
    }
}
VF_MAIN("C11", "random 1..12 x 1..12 fields with seven hole patterns (random, borders, interior, single, half, none, all) through the three fill functions; non-trivial: at least one defined and one undefined point",
        {"creep", famCreep, 15000, 400000}, {"relax", famRelax, 6000, 100000})
