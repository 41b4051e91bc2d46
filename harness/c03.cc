// C03: extraction by time, level or lat/lon box. Oracle: the axis values / independently projected grid points inside the range.
#include "grid.h"
#include <fimex/CDMExtractor.h>
#include <fimex/FimexTime.h>
using namespace vf;

static void applyTo(Dataset& ref, const std::string& dim, const szv& idx)
{
    for (Var& v : ref.vars) {
        std::vector<szv> g;
        bool used = false;
        for (auto& s : v.shape) {
            if (s == dim) { g.push_back(idx); used = true; }
            else g.push_back(iota(ref.dim(s).len));
        }
        if (used) v.val = gather(v.val, ref.lens(v), g);
    }
    ref.dim(dim).len = idx.size();
}
static void compareAll(Ctx& c, const std::string& tag, CDMReader_p rd, const Dataset& ref)
{
    for (auto& d : ref.dims) VCHECK(c, rd->getCDM().getDimension(d.name).getLength() == d.len, tag + ":length", d.name << " " << rd->getCDM().getDimension(d.name).getLength() << " expected " << d.len);
    for (auto& v : ref.vars) {
        expectData(c, tag + ":data", rd->getData(v.name), v.val, 0, v.name);
        const szv l = ref.lens(v);
        if (!v.shape.empty() && ref.dim(v.shape.back()).unlim && l.back()) {
            const size_t p = c.r.below(l.back());
            szv st(l.size(), 0), sz = l;
            st.back() = p;
            sz.back() = 1;
            expectData(c, tag + ":slice", rd->getDataSlice(v.name, p), box(v.val, l, st, sz), 0, v.name);
        }
    }
    c.cnt("variables compared", ref.vars.size());
}
//! indices that have to be kept / that may be kept. Contiguity and order follow from the comparison of the data.
struct Want { szv must, may; };
//! which admissible selection did the library take? verified against the axis variable itself
static szv chosen(Ctx& c, const std::string& tag, CDMReader_p rd, const Dataset& ds, const std::string& axis, const Want& w)
{
    const dv got = toD(rd->getData(axis)), &all = ds.var(axis).val;
    szv idx;
    size_t p = 0;
    for (double g : got) {
        while (p < all.size() && all[p] != g) ++p;
        VCHECK(c, p < all.size(), tag + ":axis-values", axis << " got " << vstr(got) << " of " << vstr(all));
        idx.push_back(p++);
    }
    for (size_t m : w.must) VCHECK(c, std::find(idx.begin(), idx.end(), m) != idx.end(), tag + ":lost", axis << " position " << m << " is inside but was not kept; got " << vstr(got) << " of " << vstr(all));
    for (size_t i : idx) VCHECK(c, std::find(w.may.begin(), w.may.end(), i) != w.may.end(), tag + ":kept-outside", axis << " position " << i << " is outside but was kept; got " << vstr(got) << " of " << vstr(all));
    if (w.must.size() == w.may.size()) c.cnt("exactly decided selections");
    return idx;
}
struct U { const char* n; double f, o; }; // base = value * f + o
static Want within(const dv& base, double lo, double hi, double tol, double noise, double exact)
{
    Want w;
    for (size_t i = 0; i < base.size(); ++i) {
        if (base[i] >= lo - exact && base[i] <= hi + exact) w.must.push_back(i); // both ends belong to the range
        if (base[i] >= lo - tol - noise && base[i] <= hi + tol + noise) w.may.push_back(i);
    }
    return w;
}
static dv monotone(Rng& r, size_t n, double lo, double hi, double q)
{
    std::set<long> s;
    while (s.size() < n) s.insert(std::lround(r.uni(lo, hi) / q));
    dv v;
    for (long x : s) v.push_back(x * q);
    if (r.chance(0.5)) { // evenly spaced
        const double st = (v.size() > 1 ? v[1] - v[0] : q);
        for (size_t i = 1; i < v.size(); ++i) v[i] = v[0] + i * st;
    }
    return v;
}
static void rndRange(Rng& r, const dv& b, double& lo, double& hi)
{
    const double mn = *std::min_element(b.begin(), b.end()), mx = *std::max_element(b.begin(), b.end()), w = std::max(1., mx - mn);
    auto pt = [&] { return r.chance(0.4) ? b[r.below(b.size())] : r.uni(mn - 0.3 * w, mx + 0.3 * w); };
    lo = pt();
    hi = pt();
    if (lo > hi) std::swap(lo, hi);
    if (r.chance(0.1)) { lo = mx + w; hi = lo + w; }      // nothing inside
    if (r.chance(0.05)) { hi = mn - w; lo = hi - 1; }
    if (r.chance(0.05)) hi = lo;
}
static void extras(Rng& r, Dataset& ds, const std::string& dim)
{
    ds.addDim("n", r.range(1, 3));
    const bool un = ds.dim(dim).unlim;
    auto put = [&](const std::string& n, const sv& sh) { Var& v = ds.add(n, r.pick({CDM_FLOAT, CDM_SHORT, CDM_INT, CDM_DOUBLE}), sh); fillUnique(v, r); };
    put("d1", {"n", dim});
    put("d2", {dim});
    if (!un) put("d3", {dim, "n"});
    put("other", {"n"});
}
//! an axis variable, possibly packed; base values of what is stored
static dv addAxis(Ctx& c, Dataset& ds, const std::string& name, const dv& base, const U& u)
{
    Rng& r = c.r;
    dv st;
    bool packed = r.chance(0.2);
    double sc = 1, off = 0;
    for (double b : base) st.push_back((b - u.o) / u.f);
    if (packed) {
        sc = r.pick({0.5, 0.25, 2.});
        off = r.pick({0., 100., -16.});
        for (double& x : st) { x = std::round((x - off) / sc); packed = packed && std::fabs(x) < 2e9; }
        for (size_t i = 1; i < st.size(); ++i) packed = packed && st[i] != st[i - 1]; // still strictly monotone
        if (!packed) { sc = 1; off = 0; st.clear(); for (double b : base) st.push_back((b - u.o) / u.f); }
    }
    bool fl = true, in = true;
    for (double x : st) { fl = fl && x == (double)(float)x; in = in && x == std::round(x) && std::fabs(x) < 2e9; }
    ds.add(name, packed ? CDM_INT : fl && r.chance(0.4) ? CDM_FLOAT : in && r.chance(0.4) ? CDM_INT : CDM_DOUBLE, {name}, st);
    ds.att(name, "units", u.n);
    if (packed) { ds.att(name, "scale_factor", CDM_DOUBLE, {sc}); ds.att(name, "add_offset", CDM_DOUBLE, {off}); c.cnt("packed axes"); }
    dv b2;
    for (double x : st) b2.push_back((x * sc + off) * u.f + u.o);
    return b2;
}
static double tolOf(const dv& base, double f) { return base.size() > 1 ? 0.01 * std::fabs(base[1] - base[0]) : 1e-5 * f; }

static void famTime(Ctx& c)
{
    Rng& r = c.r;
    static const U us[] = {{"seconds", 1, 0}, {"minutes", 60, 0}, {"hours", 3600, 0}, {"days", 86400, 0}};
    const time_t ref = r.pick({0L, 946684800L, 1577836800L, -315619200L, 951782400L});
    const U& u0 = us[r.below(4)];
    auto iso = [](time_t t) { struct tm g; gmtime_r(&t, &g); char b[40]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &g); return std::string(b); };
    const std::string un = std::string(u0.n) + " since " + iso(ref) + (r.chance(0.5) ? " +00:00" : "");
    const U u{un.c_str(), u0.f, (double)ref};
    const size_t n = r.range(1, 9);
    dv T = monotone(r, n, (double)ref - (r.chance(0.5) ? 0 : 2e6), (double)ref + 2e7, r.pick({60., 600., 3600., 21600., 1.}));
    const bool rev = r.chance(0.25);
    if (rev) std::reverse(T.begin(), T.end());
    Dataset ds;
    ds.attrs.push_back({"_GLOBAL", CDMAttribute("Conventions", "CF-1.6")});
    ds.addDim("time", n, r.chance(0.7));
    T = addAxis(c, ds, "time", T, u);
    ds.att("time", "standard_name", "time");
    extras(r, ds, "time");
    double lo, hi;
    rndRange(r, T, lo, hi);
    lo = std::floor(lo);
    hi = std::ceil(hi);
    const int how = r.below(4);
    auto ex = std::make_shared<CDMExtractor>(std::make_shared<MemReader>(ds, r.chance(0.5)));
    c.d << "time " << un << " " << vstr(T) << " keep " << lo << ".." << hi << " (" << iso(lo) << ".." << iso(hi) << ") how " << how << " | " << ds.str();
    c.sig(c.d.str());
    szv pre;
    if (r.chance(0.2)) { // an explicitly selected dimension is not selected again
        const size_t st = r.below(n), len = r.range(1, n - st);
        ex->reduceDimension("time", st, len);
        for (size_t i = 0; i < len; ++i) pre.push_back(st + i);
        c.d << " after explicit " << vstr(pre);
        c.sig(c.d.str());
    }
    auto ft = [](double s) { time_t t = (time_t)s; struct tm g; gmtime_r(&t, &g); return FimexTime(g.tm_year + 1900, g.tm_mon + 1, g.tm_mday, g.tm_hour, g.tm_min, g.tm_sec); };
    if (how == 0) { // open ends
        const bool a = r.chance(0.5), b = r.chance(0.5);
        ex->reduceTime(a ? FimexTime(FimexTime::min_date_time) : ft(lo), b ? FimexTime(FimexTime::max_date_time) : ft(hi));
        if (a) lo = -1e18;
        if (b) hi = 1e18;
        c.cnt("open ended");
    } else if (how <= 2) ex->reduceTime(ft(lo), ft(hi));
    else {
        const U& q = us[r.below(4)];
        const time_t qr = r.pick({0L, 946684800L, 1577836800L});
        ex->reduceAxes({CoordinateAxis::Time}, std::string(q.n) + " since " + iso(qr), (lo - qr) / q.f, (hi - qr) / q.f);
    }
    const Want w = within(T, lo, hi, tolOf(T, u.f), 2e-3, 1e-6);
    const szv idx = chosen(c, pre.empty() ? "time" : "time:explicit", ex, ds, "time", pre.empty() ? w : Want{pre, pre});
    if (!pre.empty()) c.cnt("explicit selections kept");
    if (idx.empty()) c.cnt("empty selections");
    if (rev) c.cnt("descending axes");
    Dataset want = ds;
    applyTo(want, "time", idx);
    compareAll(c, "time", ex, want);
}
static void famLevel(Ctx& c)
{
    Rng& r = c.r;
    struct K { const char *name, *std, *positive; std::vector<U> units; double lo, hi, q; };
    static const std::vector<K> ks = {
        {"pressure", "air_pressure", "down", {{"hPa", 100, 0}, {"Pa", 1, 0}, {"kPa", 1000, 0}, {"mbar", 100, 0}, {"bar", 1e5, 0}}, 100, 105000, 25},
        {"height", "height", "up", {{"m", 1, 0}, {"km", 1000, 0}, {"cm", 0.01, 0}}, 0, 20000, 0.5},
        {"depth", "depth", "down", {{"m", 1, 0}, {"km", 1000, 0}}, 0, 5000, 0.25},
        {"altitude", "altitude", "up", {{"m", 1, 0}, {"km", 1000, 0}}, -100, 9000, 1},
    };
    Dataset ds;
    ds.attrs.push_back({"_GLOBAL", CDMAttribute("Conventions", "CF-1.6")});
    szv order = iota(ks.size());
    r.shuffle(order);
    order.resize(r.range(1, 2));
    std::map<std::string, dv> base;
    std::map<std::string, double> tol;
    ds.addDim("n", r.range(1, 3));
    for (size_t o : order) {
        const K& k = ks[o];
        const U& u = k.units[r.below(k.units.size())];
        const size_t n = r.range(1, 8);
        dv b = monotone(r, n, k.lo, k.hi, k.q);
        if (r.chance(0.5)) { std::reverse(b.begin(), b.end()); c.cnt("descending axes"); }
        ds.addDim(k.name, n);
        base[k.name] = addAxis(c, ds, k.name, b, u);
        tol[k.name] = tolOf(base[k.name], u.f);
        ds.att(k.name, "standard_name", k.std);
        ds.att(k.name, "positive", k.positive);
        Var& v = ds.add(std::string("f_") + k.name, CDM_FLOAT, r.chance(0.5) ? sv{"n", k.name} : sv{k.name, "n"});
        fillUnique(v, r);
        Var& w = ds.add(std::string("g_") + k.name, CDM_INT, {k.name});
        fillUnique(w, r);
    }
    ds.addDim("time", 2, true);
    ds.add("time", CDM_DOUBLE, {"time"}, {0, 1});
    ds.att("time", "units", "hours since 2000-01-01 00:00:00");
    fillUnique(ds.add("all", CDM_FLOAT, {"n", ks[order[0]].name, "time"}), r);
    const K& k = ks[order[r.below(order.size())]];
    const U& q = k.units[r.below(k.units.size())];
    double lo, hi;
    rndRange(r, base[k.name], lo, hi);
    c.d << "levels keep " << lo << ".." << hi << " base units, given in " << q.n << " | " << ds.str();
    for (auto& b : base) c.d << " " << b.first << "=" << vstr(b.second);
    c.sig(c.d.str());
    auto ex = std::make_shared<CDMExtractor>(std::make_shared<MemReader>(ds, r.chance(0.5)));
    ex->reduceVerticalAxis(q.n, (lo - q.o) / q.f, (hi - q.o) / q.f);
    Dataset want = ds;
    const bool isP = std::string(k.name) == "pressure";
    for (auto& b : base) {
        if ((b.first == "pressure") != isP) continue; // not convertible: untouched
        const double mag = std::max(std::fabs(lo), std::fabs(hi));
        const szv idx = chosen(c, "level", ex, ds, b.first, within(b.second, lo, hi, tol[b.first], 1e-9 * mag + 1e-9, 1e-13 * mag));
        if (idx.empty()) c.cnt("empty selections");
        applyTo(want, b.first, idx);
    }
    compareAll(c, "level", ex, want);
}
static void famBox(Ctx& c)
{
    Rng& r = c.r;
    Dataset ds;
    ds.attrs.push_back({"_GLOBAL", CDMAttribute("Conventions", "CF-1.6")});
    const double clon = r.chance(0.3) ? r.pick({180., -179., 175., 0.}) : r.uni(-180, 180), clat = r.uni(-70, 80);
    const Grid g = rndGrid(r, clon, clat, r.uni(20, 500), -1, 2, 9);
    const bool ll2 = r.chance(0.3);
    auto xy = addGrid(ds, g, r, "", ll2);
    const std::string xn = xy.first, yn = xy.second;
    ds.addDim("time", r.range(1, 2), true);
    ds.add("time", CDM_DOUBLE, {"time"}, iota(ds.dim("time").len).size() == 1 ? dv{0} : dv{0, 1});
    ds.att("time", "units", "hours since 2000-01-01 00:00:00");
    for (auto& f : std::vector<std::pair<std::string, sv>>{{"f", {xn, yn}}, {"ft", {xn, yn, "time"}}}) {
        fillUnique(ds.add(f.first, CDM_FLOAT, f.second), r);
        gridAtts(ds, g, f.first, "", ll2);
    }
    fillUnique(ds.add("onlyx", CDM_INT, {xn}), r);
    fillUnique(ds.add("series", CDM_INT, {"time"}), r);
    const size_t nx = g.nx(), ny = g.ny();
    dv lon(nx * ny), lat(nx * ny);
    auto norm = [](double l) { while (l > 180) l -= 360; while (l <= -180) l += 360; return l; };
    for (size_t j = 0; j < ny; ++j) for (size_t i = 0; i < nx; ++i) {
        g.lonlat(i, j, lon[i + nx * j], lat[i + nx * j]);
        if (!std::isfinite(lon[i + nx * j]) || !std::isfinite(lat[i + nx * j])) throw Skip();
        lon[i + nx * j] = norm(lon[i + nx * j]);
    }
    double s, n, w, e;
    if (r.chance(0.1)) { s = -90; n = 90; } else { s = lat[r.below(lat.size())] + (r.chance(0.3) ? 0 : r.uni(-5, 5)); n = lat[r.below(lat.size())] + (r.chance(0.3) ? 0 : r.uni(-5, 5)); }
    if (r.chance(0.1)) { w = -180; e = 180; } else { w = lon[r.below(lon.size())] + (r.chance(0.3) ? 0 : r.uni(-8, 8)); e = lon[r.below(lon.size())] + (r.chance(0.3) ? 0 : r.uni(-8, 8)); w = norm(w); e = norm(e); }
    if (r.chance(0.1)) { w = r.uni(100, 180); e = r.uni(-180, -100); }
    if (r.chance(0.05)) { w = 180; e = r.uni(-180, -100); }
    if (r.chance(0.05)) { e = -180; w = r.uni(100, 180); }
    s = std::max(-90., std::min(90., s));
    n = std::max(-90., std::min(90., n));
    if (s > n) std::swap(s, n);
    c.d << "box S" << s << " N" << n << " W" << w << " E" << e << " | " << g.str() << " centre " << clon << "," << clat;
    c.sig(c.d.str());
    // inside: 1, outside: -1, within the rounding of the projection: 0
    Want wx, wy;
    const double eps = 1e-6;
    std::vector<int> in(nx * ny);
    for (size_t k = 0; k < nx * ny; ++k) {
        auto band = [&](double v, double lo, double hi) { return v > lo + eps && v < hi - eps ? 1 : v < lo - eps || v > hi + eps ? -1 : 0; };
        int a = band(lat[k], s, n), b = -1;
        if (s <= -90 && lat[k] < 0 && a == 0) a = 1;
        if (n >= 90 && lat[k] > 0 && a == 0) a = 1;
        const bool full = w == -180 && e == 180;
        for (int m = -1; m <= 1; ++m) b = std::max(b, w <= e ? band(lon[k] + 360 * m, w, e) : band(lon[k] + 360 * m, w, e + 360));
        if (full) b = 1;
        if (std::fabs(lat[k]) > 90 - 1e-6) b = std::min(b, 0); // longitude of a pole
        in[k] = std::min(a, b);
    }
    bool wrapped = w > e;
    for (size_t i = 0; i < nx; ++i) {
        int best = -1;
        for (size_t j = 0; j < ny; ++j) best = std::max(best, in[i + nx * j]);
        if (best == 1) wx.must.push_back(i);
        if (best >= 0) wx.may.push_back(i);
    }
    for (size_t j = 0; j < ny; ++j) {
        int best = -1;
        for (size_t i = 0; i < nx; ++i) best = std::max(best, in[i + nx * j]);
        if (best == 1) wy.must.push_back(j);
        if (best >= 0) wy.may.push_back(j);
    }
    auto ex = std::make_shared<CDMExtractor>(std::make_shared<MemReader>(ds, r.chance(0.5)));
    ex->reduceLatLonBoundingBox(s, n, w, e);
    const std::string tag = std::string("box:") + (g.p.kind == Proj::LATLON ? "latlon" : g.p.deg() ? "rotated" : g.ufac != 1 ? "km" : "m");
    const szv ix = chosen(c, tag, ex, ds, xn, wx), iy = chosen(c, tag, ex, ds, yn, wy);
    Dataset want = ds;
    applyTo(want, xn, ix);
    applyTo(want, yn, iy);
    compareAll(c, tag, ex, want);
    if (wrapped) c.cnt("boxes across 180 degrees");
    if (ix.empty()) c.cnt("empty boxes");
    if (!ix.empty() && ix.size() < nx) c.cnt("partly kept grids");
}
static void famReject(Ctx& c)
{
    Rng& r = c.r;
    Dataset ds;
    ds.attrs.push_back({"_GLOBAL", CDMAttribute("Conventions", "CF-1.6")});
    const Grid g = rndGrid(r, 10, 60, 50, -1, 2, 5);
    auto xy = addGrid(ds, g, r, "", false);
    fillUnique(ds.add("f", CDM_FLOAT, {xy.first, xy.second}), r);
    gridAtts(ds, g, "f", "", false);
    auto ex = std::make_shared<CDMExtractor>(std::make_shared<MemReader>(ds));
    const std::string before = cdmStr(ex->getCDM());
    double b[4] = {-50, 50, -50, 50};
    const size_t k = r.below(5);
    if (k < 4) b[k] = (r.chance(0.5) ? -1 : 1) * (k < 2 ? r.uni(90.001, 200) : r.uni(180.001, 400));
    else { b[0] = r.uni(0, 90); b[1] = b[0] - r.uni(0.001, 80); }
    c.d << "box S" << b[0] << " N" << b[1] << " W" << b[2] << " E" << b[3];
    c.sig(c.d.str());
    VCHECK(c, throws([&] { ex->reduceLatLonBoundingBox(b[0], b[1], b[2], b[3]); }), "bad-box-accepted", "");
    VCHECK(c, cdmStr(ex->getCDM()) == before, "bad-box-changed", "");
    // a range in a unit no axis has leaves the dataset alone
    ex->reduceVerticalAxis("K", 0, 1);
    VCHECK(c, cdmStr(ex->getCDM()) == before, "foreign-unit", "");
    c.cnt("rejections");
}
VF_MAIN("C03", "Each case restricts a dataset by a time interval, a vertical range or a lat/lon box and compares the kept axis positions with those whose own value (axis value converted by the reference factors, grid point projected with PROJ) is inside, and all data with the same positions of the source.",
        {"time", famTime, 2500, 80000}, {"level", famLevel, 2500, 80000}, {"box", famBox, 2000, 60000}, {"reject", famReject, 100, 2000})
