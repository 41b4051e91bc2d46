// C14: time interpolation vs pointwise reference on the physical values.
#include "vfx.h"
#include <fimex/CDMTimeInterpolator.h>
#include <fimex/FimexTime.h>
#include <fimex/TimeUtils.h>
#include <fimex/CDMReaderUtils.h>
using namespace vf;

static std::string fmtTime(long s)
{
    time_t t = s;
    struct tm tm;
    gmtime_r(&t, &tm);
    char b[64];
    strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm);
    return b;
}
struct U { const char* n; long s; };
static const std::vector<U> us = {{"seconds", 1}, {"minutes", 60}, {"hours", 3600}, {"days", 86400}};

static void tint(Ctx& c)
{
    Rng& r = c.r;
    const long base = 946684800L + 3600 * r.range(-200000, 200000), q = r.pick({60L, 600L, 3600L, 21600L});
    const size_t nt = r.range(1, 6), nx = r.range(1, 4), ny = r.range(1, 3);
    std::vector<long> T;
    long t = base;
    for (size_t i = 0; i < nt; ++i) { T.push_back(t); t += q * r.range(1, 6); }
    const U u = r.pick(us), nu = r.pick(us);
    const long ref = (base - 86400 * r.range(-40, 400)) / 3600 * 3600, nref = (base - 86400 * r.range(-40, 400)) / 3600 * 3600;
    Dataset ds;
    ds.addDim("x", nx);
    ds.addDim("y", ny);
    ds.addDim("time", nt, true);
    auto axis = [](size_t n, double s, double d) { dv v; for (size_t i = 0; i < n; ++i) v.push_back(s + d * i); return v; };
    ds.add("x", CDM_DOUBLE, {"x"}, axis(nx, 5, 1));
    ds.att("x", "units", "degrees_east"); ds.att("x", "standard_name", "longitude");
    ds.add("y", CDM_DOUBLE, {"y"}, axis(ny, 50, 1));
    ds.att("y", "units", "degrees_north"); ds.att("y", "standard_name", "latitude");
    dv tv;
    bool whole = true;
    for (long x : T) { tv.push_back((x - ref) / (double)u.s); if ((x - ref) % u.s) whole = false; }
    ds.add("time", whole && r.chance(0.4) ? CDM_INT : CDM_DOUBLE, {"time"}, tv);
    ds.att("time", "units", std::string(u.n) + " since " + fmtTime(ref) + (r.chance(0.5) ? " +00:00" : ""));
    ds.att("time", "standard_name", "time");
    ds.att("_GLOBAL", "Conventions", "CF-1.4");
    struct P { std::string n; double sc, off, fill; bool timed; };
    std::vector<P> ps;
    const std::vector<sv> shapes = {{"x", "y", "time"}, {"x", "time"}, {"time"}, {"x", "y"}, {}};
    const int nv = r.range(1, 3);
    for (int i = 0; i < nv; ++i) {
        const sv sh = i == 0 ? shapes[0] : r.pick(shapes);
        const CDMDataType ty = r.pick({CDM_FLOAT, CDM_DOUBLE, CDM_SHORT, CDM_INT});
        P p{"v" + std::to_string(i), 1, 0, NAN, std::find(sh.begin(), sh.end(), "time") != sh.end()};
        Var& v = ds.add(p.n, ty, sh);
        const bool packed = isInt(ty) && r.chance(0.5);
        if (packed) { p.sc = r.pick({0.1, 0.01, 2.0}); p.off = r.pick({0.0, 273.15}); ds.att(p.n, "scale_factor", CDM_DOUBLE, {p.sc}); ds.att(p.n, "add_offset", CDM_DOUBLE, {p.off}); }
        for (double& x : v.val) x = isInt(ty) ? r.range(-1000, 1000) : r.range(-4000, 4000) / 8.;
        if (r.chance(0.6)) {
            p.fill = r.pick({-32767.0, -999.0, 9999.0});
            ds.att(p.n, "_FillValue", ty, {p.fill});
            const double pr = r.pick({0., 0.1, 0.4});
            for (double& x : v.val) { if (r.chance(pr)) x = p.fill; else if (x == p.fill) x = 1; }
        }
        ds.att(p.n, "units", "1");
        ps.push_back(p);
    }
    auto mem = std::make_shared<MemReader>(ds, r.chance(0.5));
    if (r.chance(0.7)) mem->inMemory("time");
    if (!mem->directSlice && r.chance(0.3)) { // positions without data
        for (auto& p : ps) if (p.timed) for (size_t i = 0; i < nt; ++i) if (r.chance(0.25)) mem->missing.insert({p.n, i});
        c.cnt("positions_without_data", mem->missing.size());
    }

    // new times
    std::vector<long> N;
    const size_t nn = r.range(1, 7);
    const int order = r.below(4); // ascending mostly
    for (size_t i = 0; i < nn; ++i) {
        const double w = r.uni();
        if (w < 0.35) N.push_back(r.pick(T));
        else if (w < 0.9 && nt > 1) N.push_back(T[0] + (T[nt - 1] - T[0]) * r.range(0, 64) / 64);
        else N.push_back(r.range(T[0] - 3 * q, T[nt - 1] + 3 * q));
    }
    std::sort(N.begin(), N.end());
    N.erase(std::unique(N.begin(), N.end()), N.end());
    if (order == 1) std::reverse(N.begin(), N.end());
    if (order == 2) r.shuffle(N);
    std::string spec;
    for (long x : N) spec += (spec.empty() ? "" : ",") + fmtTime(x);
    const std::string nunit = std::string(nu.n) + " since " + fmtTime(nref);
    spec += ";unit=" + nunit;
    c.d << "src T=" << vstr(T) << " unit " << u.n << " since " << ref << " | " << ds.str() << " | spec " << spec;
    auto ti = std::make_shared<CDMTimeInterpolator>(mem);
    const bool neverChanged = r.chance(0.05), twice = r.chance(0.15);
    if (!neverChanged) {
        if (twice) ti->changeTimeAxis(fmtTime(T[0]) + "," + fmtTime(T[0] + 60) + ";unit=" + nunit);
        ti->changeTimeAxis(spec);
    }
    c.sig(nt).sig(order).sig(u.n).sig(nu.n).sig(twice).sig(neverChanged).sig(nn);
    const CDM& cdm = ti->getCDM();
    if (neverChanged) {
        VCHECK(c, cdmStr(cdm) == cdmStr(mem->getCDM()), "unchanged:cdm", firstDiff(cdmStr(mem->getCDM()), cdmStr(cdm)));
        for (auto& v : ds.vars) expectData(c, "unchanged:data", ti->getData(v.name), mem->missing.empty() || v.shape.empty() || v.shape.back() != "time" ? v.val : mem->withMissing(v.name, mem->getCDM().getFillValue(v.name)), 0, v.name);
        c.cnt("unchanged");
        return;
    }
    // time axis
    VCHECK(c, cdm.getDimension("time").getLength() == N.size() && cdm.getDimension("time").isUnlimited(), "axis:length", cdm.getDimension("time").getLength());
    VCHECK(c, cdm.getUnits("time") == nunit, "axis:unit", cdm.getUnits("time"));
    dv want;
    for (long x : N) want.push_back((x - nref) / (double)nu.s);
    const dv got = toD(ti->getData("time"));
    VCHECK(c, got.size() == want.size(), "axis:size", vstr(got));
    for (size_t i = 0; i < got.size(); ++i) VCHECK(c, std::fabs(got[i] - want[i]) * nu.s < 2e-3, "axis:value", vstr(got) << " expected " << vstr(want));
    for (size_t i = 0; i < N.size(); ++i) {
        const dv g1 = toD(ti->getDataSlice("time", i));
        VCHECK(c, g1.size() == 1 && std::fabs(g1[0] - want[i]) * nu.s < 2e-3, "axis:slice", "pos " << i << " " << vstr(g1) << " expected " << want[i]);
    }
    // everything else
    for (auto& v : ds.vars) {
        if (v.name == "time") continue;
        const CDMVariable& cv = cdm.getVariable(v.name);
        VCHECK(c, cv.getShape() == v.shape && cv.getDataType() == v.type, "cdm:variable", v.name);
        const bool timed = !v.shape.empty() && v.shape.back() == "time";
        if (!timed) { expectData(c, "static", ti->getData(v.name), v.val, 0, v.name); continue; }
        const P& p = *std::find_if(ps.begin(), ps.end(), [&](const P& x) { return x.n == v.name; });
        const size_t slab = v.val.size() / nt;
        auto phys = [&](size_t it, size_t k) { const double x = v.val[it * slab + k]; return x == p.fill ? NAN : p.sc * x + p.off; };
        szv pos = iota(N.size());
        r.shuffle(pos);
        for (size_t i : pos) {
            const dv g = toD(ti->getScaledDataSlice(v.name, i));
            {   // the slice which is there is used alone, without both there is none
                size_t a = 0, b = 0;
                if (nt > 1) { while (a + 2 < nt && T[a + 1] < N[i]) ++a; b = a + 1; }
                const bool ma = mem->missing.count({v.name, a}), mb = mem->missing.count({v.name, b});
                if (ma || mb) {
                    if (N[i] == T[a] || N[i] == T[b]) continue; // which pair is used at a source time is not specified
                    if (ma && mb) VCHECK(c, g.empty(), "nodata:invented", v.name << " pos " << i);
                    else {
                        dv want;
                        for (size_t k = 0; k < slab; ++k) want.push_back(phys(ma ? b : a, k));
                        expectVals(c, "nodata:other-slice", g, want, 1e-4, v.name + " pos " + std::to_string(i));
                    }
                    c.cnt("interpolated_without_data");
                    continue;
                }
            }
            VCHECK(c, g.size() == slab, "slab:size", v.name << " pos " << i << " size " << g.size() << " expected " << slab);
            const long x = N[i];
            size_t a, b;
            if (nt == 1) a = b = 0;
            else { a = 0; while (a + 2 < nt && T[a + 1] < x) ++a; b = a + 1; }
            const double f = a == b ? 0 : double(x - T[a]) / double(T[b] - T[a]);
            for (size_t k = 0; k < slab; ++k) {
                double e;
                if (f == 0) e = phys(a, k);
                else if (f == 1) e = phys(b, k);
                else if (f < -1 || f > 2) e = NAN;
                else e = phys(a, k) + f * (phys(b, k) - phys(a, k));
                const double mag = std::isnan(e) ? 0 : (std::fabs(phys(a, k)) + std::fabs(phys(b, k)));
                const double tol = (isInt(v.type) ? 0.5001 * p.sc : 0) + 2e-6 * (1 + (std::isnan(mag) ? std::fabs(e) : mag));
                const double tt = a == b || std::isnan(mag) ? 0 : std::fabs(phys(b, k) - phys(a, k)) * 5e-3 / (T[b] - T[a]); // time precision 5 ms
                if (isInt(v.type) && !std::isnan(e) && std::fabs((e - p.off) / p.sc - p.fill) < 0.51) { c.cnt("rounds_to_fill"); continue; } // indistinguishable from missing
                const bool coincide = f == 0 || f == 1;
                VCHECK(c, std::isnan(e) ? std::isnan(g[k]) : std::fabs(g[k] - e) <= tol + (std::isnan(tt) ? 0 : tt), coincide ? "value:coinciding" : (f > 0 && f < 1 ? "value:between" : "value:outside"),
                       v.name << " pos " << i << " elem " << k << " f=" << f << " between source times " << a << "," << b << ": got " << g[k] << " expected " << e);
                c.cnt(coincide ? "points_coinciding" : (f > 0 && f < 1 ? "points_between" : "points_outside"));
                if (std::isnan(e)) c.cnt("points_missing");
            }
        }
        // full read agrees with the slabs
        const dv all = toD(ti->getScaledData(v.name));
        VCHECK(c, all.size() == slab * N.size(), "full:size", v.name << " " << all.size());
        for (size_t i = 0; i < N.size(); ++i) {
            const dv g = toD(ti->getScaledDataSlice(v.name, i));
            if (g.empty() && !mem->missing.empty()) { for (size_t k = 0; k < slab; ++k) VCHECK(c, std::isnan(p.fill) || std::isnan(all[i * slab + k]), "full:nodata", v.name << " pos " << i << " got " << all[i * slab + k]); continue; }
            for (size_t k = 0; k < slab; ++k) VCHECK(c, same(all[i * slab + k], g[k]), "full:value", v.name << " pos " << i);
        }
    }
}

VF_MAIN("C14", "time interpolation equals the pointwise linear reference", {"tint", tint, 4000, 80000})
