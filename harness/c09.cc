// C09: forward regridding: every defined source value goes to exactly one target cell, statistics of exactly those sets.
#include "regrid.h"

struct Meth { int id; const char* name; int stat; bool undef; };
static const Meth METH[] = {{MIFI_INTERPOL_FORWARD_SUM, "forward_sum", 0, false}, {MIFI_INTERPOL_FORWARD_MEAN, "forward_mean", 1, false}, {MIFI_INTERPOL_FORWARD_MEDIAN, "forward_median", 2, false}, {MIFI_INTERPOL_FORWARD_MAX, "forward_max", 3, false}, {MIFI_INTERPOL_FORWARD_MIN, "forward_min", 4, false},
                            {MIFI_INTERPOL_FORWARD_UNDEF_SUM, "forward_undef_sum", 0, true}, {MIFI_INTERPOL_FORWARD_UNDEF_MEAN, "forward_undef_mean", 1, true}, {MIFI_INTERPOL_FORWARD_UNDEF_MEDIAN, "forward_undef_median", 2, true}, {MIFI_INTERPOL_FORWARD_UNDEF_MAX, "forward_undef_max", 3, true}, {MIFI_INTERPOL_FORWARD_UNDEF_MIN, "forward_undef_min", 4, true}};
//! statistics of a set; c empty-set -> undefined
static Cands stat(dv v, const Meth& m)
{
    Cands c;
    dv d;
    bool u = false;
    for (double x : v) { if (std::isnan(x)) u = true; else d.push_back(x); }
    if (d.empty() || (u && m.undef)) { c.c = {NAN}; return c; }
    std::sort(d.begin(), d.end());
    double s = 0;
    for (double x : d) s += x;
    switch (m.stat) {
    case 0: c.c = {s}; break;
    case 1: c.c = {s / d.size()}; break;
    case 2: c.c = {d[(d.size() - 1) / 2], d[d.size() / 2]}; c.between = true; break;
    case 3: c.c = {d.back()}; break;
    default: c.c = {d.front()}; break;
    }
    return c;
}
//! target cell of each source point (-1: outside); skips the case if a point is (numerically) on the border of two cells
static std::vector<long> assign(Ctx& c, const dv& lon, const dv& lat, const Grid& tg)
{
    std::vector<long> cell;
    const double eps = 1e-5;
    for (size_t i = 0; i < lon.size(); ++i) {
        double px, py;
        long cx = -1;
        if (tg.position(lon[i], lat[i], px, py)) {
            const long nx = tg.nx(), ny = tg.ny();
            auto amb = [&](double p, long n) { return p > -1 && p < n && std::fabs(p - std::floor(p) - 0.5) < eps; };
            if (amb(px, nx) && py > -1 && py < ny) throw Skip();
            if (amb(py, ny) && px > -1 && px < nx) throw Skip();
            double rx = std::floor(px + 0.5), ry = std::floor(py + 0.5);
            if (tg.x.cyclic) rx -= nx * std::floor(rx / nx);
            if (rx >= 0 && rx < nx && ry >= 0 && ry < ny) cx = long(ry) * nx + long(rx);
        }
        cell.push_back(cx);
        c.cnt(cx < 0 ? "points_outside" : "points_inside");
    }
    return cell;
}
static void run(Ctx& c, const std::string& key, const Src& s, const std::vector<std::pair<dv, dv>>& ll, const Grid& tg, std::shared_ptr<CDMInterpolator> ip, const Meth& m, bool viaName)
{
    Rng& r = c.r;
    std::string xu = tg.p.deg() ? (tg.p.kind == Proj::LATLON ? r.pick(sv{"degrees_east", "degree"}) : "degree") : "m", yu = xu == "degrees_east" ? "degrees_north" : xu;
    const int id = viaName ? mifi_string_to_interpolation_method(m.name) : m.id;
    std::vector<std::vector<long>> cells;
    for (auto& q : ll) cells.push_back(assign(c, q.first, q.second, tg));
    ip->changeProjection(id, tg.p.str(), tg.x.v, tg.y.v, xu, yu);
    consistent(c, key, ip->getCDM());
    passThrough(c, key, *ip, s);
    const size_t out = tg.nx() * tg.ny();
    for (auto& f : s.f) {
        if (f.t == CDM_CHAR && m.stat == 0) continue; // sums exceed the type
        if (f.off != 0 && m.stat == 0) { c.cnt("packed_sum_skipped"); continue; } // see family packed
        const auto& cell = cells[f.g];
        const size_t in = cell.size(), n = f.raw.size() / in;
        Expect e;
        e.c.resize(out * n);
        size_t most = 0;
        for (size_t z = 0; z < n; ++z) {
            std::vector<dv> set(out);
            for (size_t i = 0; i < in; ++i) if (cell[i] >= 0) set[cell[i]].push_back(f.raw[z * in + i]);
            for (size_t o = 0; o < out; ++o) { most = std::max(most, set[o].size()); e.c[z * out + o] = stat(set[o], m); }
        }
        if (most > 1) c.cnt("fields_with_shared_cells");
        if (n > 1) c.cnt("fields_with_layers");
        readAndCompare(c, key + ":" + m.name, *ip, s, f, e, tg.nx(), tg.ny());
        if (m.stat == 0 && !m.undef && !isInt(f.t)) { // conservation, directly on the observed output
            dv got = toD(ip->getData(f.name));
            if (!f.perm.empty()) {
                szv l = {tg.nx(), tg.ny()};
                for (auto& x : f.extra) l.push_back(s.ds.dim(x).len);
                const dv o = got, id = permutedIds(l, f.perm);
                for (size_t k = 0; k < id.size() && k < o.size(); ++k) got[size_t(id[k])] = o[k];
            }
            for (size_t z = 0; z < n; ++z) {
                double a = 0, b = 0, w = 0;
                for (size_t i = 0; i < in; ++i) { const double v = f.raw[z * in + i]; if (cell[i] >= 0 && !std::isnan(v)) { a += v; w += std::fabs(v); } }
                for (size_t o = 0; o < out; ++o) { const double v = unfill(f, got[z * out + o]); if (!std::isnan(v)) b += v; }
                VCHECK(c, std::fabs(a - b) <= 1e-5 * (w + 1), key + ":conservation", f.name << " layer " << z << " total " << b << " of " << a);
                c.cnt("totals_compared");
            }
        }
    }
}
static void regrid(Ctx& c)
{
    Rng& r = c.r;
    double clon, clat;
    center(r, clon, clat);
    const double dkm = r.pick({5., 50., 200.});
    Src s;
    mkSrc(c, s, clon, clat, dkm, -1, 2, r.chance(0.5) ? 8 : 30, r.chance(0.2), true);
    Grid tg = rndGrid(r, clon + r.uni(-1, 1) * dkm / 30, std::max(-89., std::min(89., clat + r.uni(-1, 1) * dkm / 30)), dkm * r.pick({0.5, 1.3, 2., 4., 8.}), -1, 1, r.chance(0.6) ? 4 : 12);
    if (tg.nx() == 1) tg.x.cyclic = false;
    if (!tg.x.cyclic && tg.nx() > 2 && r.chance(0.4)) for (size_t k = 1; k + 1 < tg.nx(); ++k) tg.x.v[k] += r.uni(-0.3, 0.3) * std::fabs(tg.x.v[1] - tg.x.v[0]); // irregular target axis
    const Meth& m = METH[r.below(10)];
    c.d << m.name << " src " << s.g[0].str() << (s.g.size() > 1 ? " + " + s.g[1].str() : "") << " -> " << tg.str() << " " << s.ds.str();
    c.sig(s.g[0].p.kind).sig(tg.p.kind).sig(m.id).sig(s.g.size()).sig(s.g[0].x.cyclic).sig(tg.x.cyclic).sig(s.ds.str());
    std::vector<std::pair<dv, dv>> ll;
    for (auto& g : s.g) { Target t = targetOf(g); ll.push_back({t.lon, t.lat}); }
    run(c, "regrid", s, ll, tg, std::make_shared<CDMInterpolator>(mkReader(r, s)), m, r.chance(0.3));
}
//! source points at arbitrary positions (2-dimensional lon/lat, no projection)
static void swath(Ctx& c)
{
    Rng& r = c.r;
    double clon, clat;
    center(r, clon, clat);
    clat = std::max(-80., std::min(80., clat));
    const double dkm = r.pick({5., 50., 200.});
    Grid tg = rndGrid(r, clon, clat, dkm, -1, 1, r.chance(0.5) ? 4 : 10);
    if (tg.nx() == 1) tg.x.cyclic = false;
    Src s;
    Dataset& ds = s.ds;
    const size_t nx = r.range(1, 25), ny = r.range(1, 25), nt = r.range(1, 3);
    ds.addDim("i", nx);
    ds.addDim("j", ny);
    ds.addDim("time", nt, true);
    ds.addDim("lev", 1);
    dv lo, la;
    for (size_t k = 0; k < nx * ny; ++k) {
        double a = clon + r.uni(-2, 2) * dkm * tg.nx() / 111 / std::max(0.2, std::cos(clat * M_PI / 180)), b = clat + r.uni(-2, 2) * dkm * tg.ny() / 111;
        if (r.chance(0.05)) { a = r.uni(-180, 180); b = r.uni(-89, 89); }
        b = std::max(-89.5, std::min(89.5, b));
        while (a > 180) a -= 360;
        while (a < -180) a += 360;
        if (r.chance(0.1) && a < 0) a += 360;
        lo.push_back(a);
        la.push_back(b);
    }
    ds.add("longitude2", CDM_DOUBLE, {"i", "j"}, lo);
    ds.add("latitude2", CDM_DOUBLE, {"i", "j"}, la);
    ds.att("longitude2", "units", "degrees_east");
    ds.att("latitude2", "units", "degrees_north");
    ds.att("longitude2", "standard_name", "longitude");
    ds.att("latitude2", "standard_name", "latitude");
    dv tv(nt);
    for (size_t i = 0; i < nt; ++i) tv[i] = i;
    ds.add("time", CDM_DOUBLE, {"time"}, tv);
    ds.att("time", "units", "hours since 2020-01-01 00:00:00");
    ds.add("lev", CDM_DOUBLE, {"lev"}, {1});
    ds.att("lev", "units", "hPa");
    ds.att("_GLOBAL", "Conventions", "CF-1.4");
    Fld f;
    f.name = "v0";
    f.t = r.pick({CDM_FLOAT, CDM_DOUBLE, CDM_SHORT});
    f.fill = -9999;
    f.sc = 1;
    f.off = 0;
    f.g = 0;
    sv sh = {"i", "j"};
    if (r.chance(0.6)) { f.extra = {"time"}; sh.push_back("time"); }
    Var& v = ds.add(f.name, f.t, sh);
    f.raw.resize(v.val.size());
    for (size_t k = 0; k < v.val.size(); ++k) {
        const bool u = r.chance(0.1);
        const double x = r.range(-99, 99);
        f.raw[k] = u ? NAN : x;
        v.val[k] = u ? f.fill : x;
    }
    ds.att(f.name, "_FillValue", f.t, {f.fill});
    ds.att(f.name, "keep", "value 0");
    ds.att(f.name, "coordinates", "longitude2 latitude2");
    s.f.push_back(f);
    const Meth& m = METH[r.below(10)];
    c.d << m.name << " swath " << nx << "x" << ny << " -> " << tg.str() << " " << ds.str();
    c.sig(tg.p.kind).sig(m.id).sig(nx).sig(ny).sig(ds.str());
    run(c, "swath", s, {{lo, la}}, tg, std::make_shared<CDMInterpolator>(std::make_shared<MemReader>(ds, r.chance(0.5))), m, r.chance(0.3));
}
//! sums of packed data with an offset: the physical total has to be conserved, too
static void packed(Ctx& c)
{
    Rng& r = c.r;
    Src s;
    Dataset& ds = s.ds;
    const size_t nx = r.range(4, 8), ny = r.range(4, 8);
    ds.addDim("lon", nx);
    ds.addDim("lat", ny);
    dv x, y;
    for (size_t i = 0; i < nx; ++i) x.push_back(i);
    for (size_t i = 0; i < ny; ++i) y.push_back(50 + i);
    ds.add("lon", CDM_DOUBLE, {"lon"}, x);
    ds.add("lat", CDM_DOUBLE, {"lat"}, y);
    ds.att("lon", "units", "degrees_east");
    ds.att("lat", "units", "degrees_north");
    ds.att("_GLOBAL", "Conventions", "CF-1.4");
    Var& v = ds.add("v0", CDM_SHORT, {"lon", "lat"});
    const double sc = r.pick({0.5, 2.}), off = r.pick({20., -3.}), fill = -32767;
    double total = 0;
    for (double& q : v.val) { q = r.range(-50, 50); total += q * sc + off; }
    ds.att("v0", "_FillValue", CDM_SHORT, {fill});
    ds.att("v0", "scale_factor", CDM_DOUBLE, {sc});
    ds.att("v0", "add_offset", CDM_DOUBLE, {off});
    c.d << ds.str();
    c.sig(nx).sig(ny).sig(sc).sig(off);
    CDMInterpolator ip(std::make_shared<MemReader>(ds, true));
    // 2x2 cells of half the grid each, covering all points
    ip.changeProjection(MIFI_INTERPOL_FORWARD_SUM, "+proj=latlong +a=6371000 +e=0", dv{-0.2 + nx * 0.25, -0.2 + nx * 0.75}, dv{49.8 + ny * 0.25, 49.8 + ny * 0.75}, "degrees_east", "degrees_north");
    double got = 0;
    for (double q : toD(ip.getScaledData("v0"))) got += q;
    double rawsum = 0;
    for (double q : ds.var("v0").val) rawsum += q;
    const bool asKnown = std::fabs(got - (rawsum * sc + 4 * off)) < 1e-3; // the offset counted once per output cell instead of once per value
    VCHECK(c, std::fabs(got - total) < 1e-3 * (1 + std::fabs(total)), asKnown ? "packed:sum-offset" : "packed:sum", "sum of the unpacked output " << got << " sum of the unpacked input " << total);
}
VF_MAIN("C09", "non-trivial: at least one output cell compared with the statistics of the source points assigned to it", {"regrid", regrid, 300, 4000}, {"swath", swath, 150, 2000}, {"packed", packed, 5, 20})
