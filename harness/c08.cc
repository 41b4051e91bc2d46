// C08: horizontal regridding (CDMInterpolator) vs direct PROJ mapping + reference interpolation kernels.
#include "regrid.h"
#include <atomic>
#include <fimex/CrossSectionDefinition.h>
#undef TIMESPEC_H_
#include <fimex/SpatialAxisSpec.h>
#include <fimex/coordSys/CoordinateSystem.h>
using namespace vf;

static void proj(Ctx& c)
{
    Rng& r = c.r;
    double clon, clat;
    center(r, clon, clat);
    const double dkm = r.pick({5., 50., 200., 600.});
    Src s;
    mkSrc(c, s, clon, clat, dkm, -1, 2, r.chance(0.5) ? 6 : 14, r.chance(0.2), true);
    const double off = r.uni(0, 3) * dkm / 111;
    Grid tg = rndGrid(r, clon + r.uni(-1, 1) * off, std::max(-89., std::min(89., clat + r.uni(-1, 1) * off)), dkm * r.pick({0.1, 0.5, 1., 2.}), -1, 1, r.chance(0.5) ? 4 : 12);
    const Method m = Method(r.below(3));
    CDMDataType xt = r.pick({CDM_DOUBLE, CDM_DOUBLE, CDM_FLOAT}), yt = r.pick({CDM_DOUBLE, CDM_FLOAT});
    std::string xu = tg.p.deg() ? (tg.p.kind == Proj::LATLON ? r.pick(sv{"degrees_east", "degree", "degrees"}) : r.pick(sv{"degree", "degrees"})) : "m", yu = xu == "degrees_east" ? "degrees_north" : xu;
    if (tg.nx() == 1) tg.x.cyclic = false;
    c.d << "src " << s.g[0].str() << (s.g.size() > 1 ? " + " + s.g[1].str() : "") << " -> " << tg.str() << " method " << m << " unit " << xu << " " << s.ds.str();
    c.sig(s.g[0].p.kind).sig(tg.p.kind).sig(m).sig(s.g.size()).sig(s.g[0].x.cyclic).sig(s.ll2).sig(s.ds.str());
    auto src = mkReader(r, s);
    auto ip = std::make_shared<CDMInterpolator>(src);
    if (r.chance(0.3)) { // an earlier change of projection must leave no traces
        Grid o = rndGrid(r, clon, clat, dkm, -1, 2, 5);
        try { ip->changeProjection(mifi(Method(r.below(3))), o.p.str(), o.x.v, o.y.v, o.p.deg() ? "degree" : "m", o.p.deg() ? "degree" : "m"); ip->getData(s.f[0].name); } catch (CDMException&) {}
        c.cnt("reprojected_twice");
    }
    ip->changeProjection(mifi(m), tg.p.str(), tg.x.v, tg.y.v, xu, yu, xt, yt);
    const CDM& cdm = ip->getCDM();
    consistent(c, "proj", cdm);
    const std::string xn = cdm.getHorizontalXAxis(s.f[0].name), yn = cdm.getHorizontalYAxis(s.f[0].name);
    const sv& sh = cdm.getVariable(s.f[0].name).getShape();
    VCHECK(c, xyShape(s.f[0], sh, xn, yn), "proj:axes", "x axis '" << xn << "' y axis '" << yn << "' shape " << vstr(sh));
    checkAxis(c, "proj", *ip, xn, tg.x.v, xt, tg.p.kind == Proj::LATLON && xu == "degree" ? "degrees_east" : xu);
    checkAxis(c, "proj", *ip, yn, tg.y.v, yt, tg.p.kind == Proj::LATLON && yu == "degree" ? "degrees_north" : yu);
    passThrough(c, "proj", *ip, s);
    const Target t = targetOf(tg);
    // positions of float-typed axes are those of the requested (double) values
    for (auto& f : s.f) {
        VCHECK(c, xyShape(f, cdm.getVariable(f.name).getShape(), xn, yn), "proj:shape", f.name);
        const Expect e = expectField(s, f, t, m, 2e-6);
        readAndCompare(c, "proj:data", *ip, s, f, e, t.nx, t.ny);
    }
    if (tg.p.kind != Proj::LATLON) { // generated lon/lat of the output
        std::string lan, lon;
        VCHECK(c, cdm.getLatitudeLongitude(s.f[0].name, lan, lon), "proj:lonlat", "no lon/lat coordinates in the output");
        const dv lo = toD(ip->getScaledData(lon)), la = toD(ip->getScaledData(lan));
        VCHECK(c, lo.size() == t.lon.size() && la.size() == t.lat.size(), "proj:lonlat-size", lo.size());
        for (size_t i = 0; i < lo.size(); ++i) {
            if (std::isnan(t.lon[i]) || xt == CDM_FLOAT || yt == CDM_FLOAT) continue;
            const double dl = std::remainder(lo[i] - t.lon[i], 360.) * std::cos(t.lat[i] * M_PI / 180);
            VCHECK(c, std::fabs(dl) < 1e-5 && std::fabs(la[i] - t.lat[i]) < 1e-5, "proj:lonlat-values", "at " << i << " " << lo[i] << "," << la[i] << " expected " << t.lon[i] << "," << t.lat[i]);
            c.cnt("lonlat_points");
        }
    }
    if (xt == CDM_DOUBLE && yt == CDM_DOUBLE && t.nx > 1 && t.ny > 1) { // the output describes its own grid: interpolating it onto itself is the identity
        auto ip2 = std::make_shared<CDMInterpolator>(ip);
        ip2->changeProjection(MIFI_INTERPOL_NEAREST_NEIGHBOR, tg.p.str(), tg.x.v, tg.y.v, xu, yu);
        for (auto& f : s.f) expectData(c, "proj:identity", ip2->getData(f.name), toD(ip->getData(f.name)), 0, f.name);
        c.cnt("identity_chains");
    }
}
static void points(Ctx& c)
{
    Rng& r = c.r;
    double clon, clat;
    center(r, clon, clat);
    const double dkm = r.pick({5., 50., 200., 600.});
    Src s;
    mkSrc(c, s, clon, clat, dkm, -1, 2, r.chance(0.5) ? 6 : 14, r.chance(0.2), true);
    const Method m = Method(r.below(3));
    Target t;
    t.nx = r.range(1, 12);
    t.ny = 1;
    for (size_t i = 0; i < t.nx; ++i) {
        double lo, la;
        if (r.chance(0.7)) { const Grid& g = s.g[r.below(s.g.size())]; g.lonlat(r.below(g.nx()), r.below(g.ny()), lo, la); if (r.chance(0.7)) { lo += r.uni(-1, 1) * dkm / 111; la += r.uni(-1, 1) * dkm / 111; } }
        else { lo = r.uni(-180, 180); la = r.uni(-90, 90); }
        if (r.chance(0.1)) { lo = r.pick({0., 180., -180., 360., 20. - 5., 20. - 10.}); la = s.g[0].y.v[r.below(s.g[0].ny())]; if (!s.g[0].p.deg()) la = clat; }
        la = std::max(-90., std::min(90., la));
        if (r.chance(0.3)) lo += r.pick({360., -360.});
        while (lo > 360) lo -= 360;
        while (lo < -180) lo += 360;
        t.lon.push_back(lo);
        t.lat.push_back(la);
    }
    c.d << "src " << s.g[0].str() << (s.g.size() > 1 ? " + " + s.g[1].str() : "") << " points lon " << vstr(t.lon) << " lat " << vstr(t.lat) << " method " << m << " " << s.ds.str();
    c.sig(s.g[0].p.kind).sig(m).sig(s.g.size()).sig(s.g[0].x.cyclic).sig(s.ds.str());
    auto ip = std::make_shared<CDMInterpolator>(mkReader(r, s));
    ip->changeProjection(mifi(m), t.lon, t.lat);
    const CDM& cdm = ip->getCDM();
    consistent(c, "points", cdm);
    dv xs(t.nx);
    for (size_t i = 0; i < t.nx; ++i) xs[i] = i;
    checkAxis(c, "points", *ip, "x", xs, CDM_DOUBLE, "");
    checkAxis(c, "points", *ip, "y", dv(1, 0.), CDM_DOUBLE, "");
    expectData(c, "points:longitude", ip->getData("longitude"), t.lon);
    expectData(c, "points:latitude", ip->getData("latitude"), t.lat);
    passThrough(c, "points", *ip, s);
    for (auto& f : s.f) {
        VCHECK(c, xyShape(f, cdm.getVariable(f.name).getShape(), "x", "y"), "points:shape", f.name);
        readAndCompare(c, "points:data", *ip, s, f, expectField(s, f, t, m, 2e-6), t.nx, t.ny);
    }
    if (r.chance(0.1)) { dv la = t.lat; la.push_back(0); VCHECK(c, throws([&] { CDMInterpolator q(mkReader(r, s)); q.changeProjection(mifi(m), t.lon, la); }), "points:size-mismatch-accepted", ""); c.cnt("size_mismatch"); }
}
static void tmpl(Ctx& c)
{
    Rng& r = c.r;
    double clon, clat;
    center(r, clon, clat);
    const double dkm = r.pick({5., 50., 200., 600.});
    Src s;
    mkSrc(c, s, clon, clat, dkm, -1, 2, r.chance(0.5) ? 6 : 14, r.chance(0.2), true);
    const Method m = Method(r.below(3));
    Grid tg = rndGrid(r, clon, clat, dkm * r.pick({0.1, 0.5, 1., 2.}), -1, 2, 8);
    tg.ufac = 1;
    if (!tg.p.deg()) tg.xUnit = tg.yUnit = "m";
    Dataset td;
    auto xy = addGrid(td, tg, r, "", true);
    td.add("ref", CDM_FLOAT, {xy.first, xy.second});
    gridAtts(td, tg, "ref", "", true);
    td.att("_GLOBAL", "Conventions", "CF-1.4");
    c.d << "src " << s.g[0].str() << (s.g.size() > 1 ? " + " + s.g[1].str() : "") << " template " << tg.str() << " method " << m << " " << s.ds.str();
    c.sig(s.g[0].p.kind).sig(tg.p.kind).sig(m).sig(s.g.size()).sig(s.ds.str());
    auto ip = std::make_shared<CDMInterpolator>(mkReader(r, s));
    ip->changeProjection(mifi(m), std::make_shared<MemReader>(td), "ref");
    const CDM& cdm = ip->getCDM();
    consistent(c, "template", cdm);
    checkAxis(c, "template", *ip, "x", tg.x.v, CDM_DOUBLE, tg.xUnit);
    checkAxis(c, "template", *ip, "y", tg.y.v, CDM_DOUBLE, tg.yUnit);
    const Target t = targetOf(tg);
    expectData(c, "template:longitude", ip->getData("longitude"), t.lon, 1e-9);
    expectData(c, "template:latitude", ip->getData("latitude"), t.lat, 1e-9);
    passThrough(c, "template", *ip, s);
    for (auto& f : s.f) {
        VCHECK(c, xyShape(f, cdm.getVariable(f.name).getShape(), "x", "y"), "template:shape", f.name);
        readAndCompare(c, "template:data", *ip, s, f, expectField(s, f, t, m, 2e-6), t.nx, t.ny);
    }
}
static void cross(Ctx& c)
{
    Rng& r = c.r;
    double clon, clat;
    center(r, clon, clat);
    clat = std::max(-70., std::min(70., clat));
    const double dkm = r.pick({5., 50., 200.});
    Src s;
    mkSrc(c, s, clon, clat, dkm, -1, 4, 12, false);
    if (s.g[0].x.cyclic) throw Skip();
    const Grid& g = s.g[0];
    const Method m = Method(r.below(3));
    std::vector<CrossSectionDefinition> defs;
    std::vector<CrossSectionDefinition> used;
    const size_t nd = r.range(1, 4);
    for (size_t i = 0; i < nd; ++i) {
        std::vector<std::pair<double, double>> pts;
        const size_t np = r.pick({0, 1, 2, 2, 3, 4});
        for (size_t k = 0; k < np; ++k) { double lo, la; g.lonlat(r.below(g.nx()), r.below(g.ny()), lo, la); pts.push_back({lo + r.uni(-0.3, 0.3) * dkm / 111, la + r.uni(-0.3, 0.3) * dkm / 111}); }
        CrossSectionDefinition d("name" + std::to_string(i) + (r.chance(0.1) ? std::string(r.range(60, 120), 'q') : ""), pts);
        defs.push_back(d);
        if (np) used.push_back(d);
    }
    c.d << "src " << g.str() << " sections ";
    for (auto& d : defs) { c.d << d.name.substr(0, 8) << ":"; for (auto& p : d.lonLatCoordinates) c.d << p.first << "," << p.second << " "; }
    c.d << s.ds.str();
    c.sig(g.p.kind).sig(m).sig(nd).sig(s.ds.str());
    auto ip = std::make_shared<CDMInterpolator>(mkReader(r, s));
    if (used.empty()) {
        VCHECK(c, throws([&] { ip->changeProjectionToCrossSections(mifi(m), defs); }), "cross:empty-accepted", "no cross-section given");
        c.cnt("empty_sections");
        return;
    }
    ip->changeProjectionToCrossSections(mifi(m), defs);
    const CDM& cdm = ip->getCDM();
    consistent(c, "cross", cdm);
    const dv lo = toD(ip->getData("longitude")), la = toD(ip->getData("latitude")), bn = toD(ip->getData("vcross_bnds"));
    Target t;
    t.nx = lo.size();
    t.ny = 1;
    t.lon = lo;
    t.lat = la;
    VCHECK(c, lo.size() == la.size() && cdm.getDimension("x").getLength() == lo.size(), "cross:size", lo.size() << " " << la.size());
    VCHECK(c, bn.size() == 2 * used.size() && cdm.getDimension("nvcross").getLength() == used.size(), "cross:bounds-size", bn.size());
    DataPtr nd1 = ip->getData("vcross_name");
    const size_t sl = cdm.getDimension("nvcross_strlen").getLength();
    VCHECK(c, nd1->size() == sl * used.size(), "cross:names-size", nd1->size());
    const std::string names = std::string((const char*)nd1->getDataPtr(), nd1->size());
    double expectedStart = 0;
    for (size_t i = 0; i < used.size(); ++i) {
        const std::string nm = names.substr(i * sl, sl).c_str();
        VCHECK(c, nm == used[i].name, "cross:name", "'" << nm << "' expected '" << used[i].name << "'");
        VCHECK(c, bn[2 * i] == expectedStart && bn[2 * i + 1] >= bn[2 * i] && bn[2 * i + 1] < t.nx, "cross:bounds", vstr(bn));
        expectedStart = bn[2 * i + 1] + 1;
        // the given points appear in order, the others lie on straight lines in the source projection at most about a cell apart
        auto& P = used[i].lonLatCoordinates;
        auto near = [&](double a, double b, const std::pair<double, double>& q) { return std::fabs(std::remainder(a - q.first, 360.)) < 1e-6 && std::fabs(b - q.second) < 1e-6; };
        const size_t a = bn[2 * i], b = bn[2 * i + 1];
        VCHECK(c, near(lo[a], la[a], P.front()) && near(lo[b], la[b], P.back()), "cross:endpoints", "section " << i);
        size_t k = 0;
        for (size_t q = a; q <= b && k < P.size(); ++q) while (k < P.size() && near(lo[q], la[q], P[k])) ++k;
        VCHECK(c, k == P.size(), "cross:waypoints", "section " << i << " only " << k << " of " << P.size() << " points found");
        for (size_t q = a + 1; q <= b; ++q) {
            double x0, y0, x1, y1;
            g.p.fwd(lo[q - 1], la[q - 1], x0, y0);
            g.p.fwd(lo[q], la[q], x1, y1);
            const double dx = std::fabs((g.p.deg() ? std::remainder(x1 - x0, 360.) : x1 - x0) / (g.x.v[1] - g.x.v[0])), dy = std::fabs((y1 - y0) / (g.y.v[1] - g.y.v[0]));
            VCHECK(c, std::max(dx, dy) < 2.001, "cross:spacing", "section " << i << " step " << q << " is " << dx << " x " << dy << " cells");
        }
        c.cnt("sections");
    }
    VCHECK(c, expectedStart == t.nx, "cross:bounds-end", vstr(bn) << " points " << t.nx);
    passThrough(c, "cross", *ip, s);
    for (auto& f : s.f) readAndCompare(c, "cross:data", *ip, s, f, expectField(s, f, t, m, 2e-6), t.nx, 1);
}
static double angDist(double lo0, double la0, double lo1, double la1)
{
    const double D = M_PI / 180;
    const double x0 = std::cos(la0 * D) * std::cos(lo0 * D), y0 = std::cos(la0 * D) * std::sin(lo0 * D), z0 = std::sin(la0 * D);
    const double x1 = std::cos(la1 * D) * std::cos(lo1 * D), y1 = std::cos(la1 * D) * std::sin(lo1 * D), z1 = std::sin(la1 * D);
    const double h = std::hypot(std::hypot(x0 - x1, y0 - y1), z0 - z1) / 2;
    return 2 * std::asin(std::min(1.0, h));
}
//! nearest neighbour by coordinates
static void coordnn(Ctx& c)
{
    Rng& r = c.r;
    double clon, clat;
    center(r, clon, clat);
    const double dkm = r.pick({5., 50., 200.});
    const bool kd = r.chance(0.5);
    Src s;
    mkSrc(c, s, clon, clat, dkm, -1, 2, 10, false);
    const Grid& g = s.g[0];
    Grid tg = rndGrid(r, clon, clat, dkm * r.pick({0.3, 1., 2.}), kd ? r.range(2, 4) : -1, 2, 8);
    const bool user = kd && r.chance(0.5);
    double limit; // radians
    dv slo, sla;
    for (size_t j = 0; j < g.ny(); ++j) for (size_t i = 0; i < g.nx(); ++i) { double a, b; g.lonlat(i, j, a, b); slo.push_back(a); sla.push_back(b); }
    auto ip = std::make_shared<CDMInterpolator>(mkReader(r, s));
    if (kd) {
        double m = 0;
        if (user) { m = dkm * 1000 * r.uni(0.2, 3); ip->setDistanceOfInterest(m); }
        else {
            for (size_t i = 1; i < tg.nx(); ++i) m = std::max(m, std::fabs(tg.x.v[i] - tg.x.v[i - 1]));
            for (size_t i = 1; i < tg.ny(); ++i) m = std::max(m, std::fabs(tg.y.v[i] - tg.y.v[i - 1]));
        }
        limit = m / 6371000;
    } else {
        double mx = 0;
        for (size_t i = 0; i < slo.size(); ++i) {
            double mn = 1e9;
            for (size_t k = 0; k < slo.size(); ++k) if (k != i) mn = std::min(mn, angDist(slo[i], sla[i], slo[k], sla[k]));
            mx = std::max(mx, mn);
        }
        limit = std::min(M_PI, 1.414 * mx);
    }
    c.d << "src " << g.str() << " -> " << tg.str() << (kd ? " kd" : " nn") << " limit " << limit << (user ? " (user)" : "") << " " << s.ds.str();
    c.sig(g.p.kind).sig(tg.p.kind).sig(kd).sig(user).sig(s.ds.str());
    ip->changeProjection(kd ? MIFI_INTERPOL_COORD_NN_KD : MIFI_INTERPOL_COORD_NN, tg.p.str(), tg.x.v, tg.y.v, tg.p.deg() ? "degree" : "m", tg.p.deg() ? "degree" : "m");
    consistent(c, "coordnn", ip->getCDM());
    const Target t = targetOf(tg);
    // candidate source points per target point
    std::vector<std::vector<long>> cand(t.lon.size());
    for (size_t o = 0; o < t.lon.size(); ++o) {
        double best = 1e9;
        dv d(slo.size());
        for (size_t k = 0; k < slo.size(); ++k) { d[k] = angDist(t.lon[o], t.lat[o], slo[k], sla[k]); best = std::min(best, d[k]); }
        // cos-based distances lose precision for tiny angles: 3e-8 rad (20 cm)
        auto slack = [](double a) { return 1e-9 + 1e-15 / std::max(a, 1e-8); };
        for (size_t k = 0; k < slo.size(); ++k) if (d[k] <= best + slack(best) + 3e-8 && d[k] <= limit * 1.0001 + 3e-8) cand[o].push_back(k);
        const double chord = 2 * std::sin(best / 2); // the k-d tree limits the chord, not the arc
        if (std::max(best, 0.) >= limit * 0.999 - 3e-8 || chord >= limit * 0.999) cand[o].push_back(-1);
        if (std::isnan(t.lon[o])) cand[o] = {-1};
    }
    for (auto& f : s.f) {
        const size_t in = g.nx() * g.ny(), out = t.nx * t.ny, n = f.raw.size() / in;
        Expect e;
        e.c.resize(out * n);
        for (size_t z = 0; z < n; ++z) for (size_t o = 0; o < out; ++o) for (long k : cand[o]) e.c[z * out + o].c.push_back(k < 0 ? NAN : f.raw[z * in + k]);
        readAndCompare(c, kd ? "coordkd:data" : "coordnn:data", *ip, s, f, e, t.nx, t.ny);
    }
    passThrough(c, "coordnn", *ip, s);
}
//! axis given as text, with the bounding box determined automatically
static void autoaxis(Ctx& c)
{
    Rng& r = c.r;
    double clon, clat;
    center(r, clon, clat);
    clat = std::max(-75., std::min(75., clat));
    const double dkm = r.pick({20., 50., 200.});
    Src s;
    mkSrc(c, s, clon, clat, dkm, -1, 3, 8, false);
    const Grid& g = s.g[0];
    if (g.x.cyclic) throw Skip();
    Grid tg = rndGrid(r, clon, clat, dkm, r.range(1, 4), 3, 6);
    const Method m = Method(r.below(2));
    // bounding box of the source points in the target projection
    double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
    for (size_t j = 0; j < g.ny(); ++j) for (size_t i = 0; i < g.nx(); ++i) {
        double lo, la, X, Y;
        g.lonlat(i, j, lo, la);
        if (!tg.p.fwd(lo, la, X, Y)) throw Skip();
        x0 = std::min(x0, X); x1 = std::max(x1, X); y0 = std::min(y0, Y); y1 = std::max(y1, Y);
    }
    if (tg.p.deg() && x1 - x0 > 180) throw Skip(); // the box crosses the date line of the rotated grid
    if (!tg.p.deg() && x1 - x0 > 2e7) throw Skip();
    const double sx0 = x0, sx1 = x1, sy0 = y0, sy1 = y1;
    const double dx = std::fabs(tg.x.v[1] - tg.x.v[0]), dy = std::fabs(tg.y.v[1] - tg.y.v[0]);
    if ((x1 - x0) / dx > 60 || (y1 - y0) / dy > 60) throw Skip();
    auto fmt = [](double v) { std::ostringstream o; o.precision(12); o << v; return o.str(); };
    const std::string xs = "0," + fmt(dx) + ",...,x;relativeStart=0", ys = "0," + fmt(dy) + ",...,x;relativeStart=0";
    c.d << "src " << g.str() << " -> " << tg.p.str() << " axes '" << xs << "' '" << ys << "' box " << x0 << ".." << x1 << " " << y0 << ".." << y1;
    c.sig(g.p.kind).sig(tg.p.kind).sig(m).sig(s.ds.str());
    auto ip = std::make_shared<CDMInterpolator>(mkReader(r, s));
    const std::string u = tg.p.deg() ? "degree" : "m";
    ip->changeProjection(mifi(m), tg.p.str(), xs, ys, u, u, "double", "double");
    const std::string xn = ip->getCDM().getHorizontalXAxis(s.f[0].name), yn = ip->getCDM().getHorizontalYAxis(s.f[0].name);
    Grid og = tg;
    og.x.v = toD(ip->getData(xn));
    og.y.v = toD(ip->getData(yn));
    og.x.cyclic = false;
    auto chk = [&](const dv& v, const std::string& spec, double lo, double hi, double d, const char* w) {
        if (std::fabs(std::remainder(lo / d, 1.)) < 1e-5 || std::fabs(std::remainder(hi / d, 1.)) < 1e-5) throw Skip(); // decided by rounding
        SpatialAxisSpec q(spec); // the expansion itself is C16
        q.setStartEnd(lo, hi);
        const dv want = q.getAxisSteps();
        VCHECK(c, v.size() == want.size(), std::string("auto:size-") + w, vstr(v) << " expected " << vstr(want));
        for (size_t i = 0; i < v.size(); ++i) VCHECK(c, close(v[i], want[i], 1e-5 * d), std::string("auto:values-") + w, vstr(v) << " expected " << vstr(want));
        c.cnt("auto_axes");
    };
    chk(og.x.v, xs, sx0, sx1, dx, "x");
    chk(og.y.v, ys, sy0, sy1, dy, "y");
    const Target t = targetOf(og);
    for (auto& f : s.f) readAndCompare(c, "auto:data", *ip, s, f, expectField(s, f, t, m, 2e-6), t.nx, t.ny);
}
struct Plus : InterpolatorProcess2d
{
    float a;
    explicit Plus(float a) : a(a) {}
    void operator()(float* f, size_t nx, size_t ny) override { for (size_t i = 0; i < nx * ny; ++i) f[i] += a; }
};
struct FillWith : InterpolatorProcess2d
{
    float a;
    explicit FillWith(float a) : a(a) {}
    void operator()(float* f, size_t nx, size_t ny) override { for (size_t i = 0; i < nx * ny; ++i) if (std::isnan(f[i])) f[i] = a; }
};
//! adds the x-index, i.e. needs to know the shape of the layer
struct Ramp : InterpolatorProcess2d
{
    void operator()(float* f, size_t nx, size_t ny) override { for (size_t j = 0; j < ny; ++j) for (size_t i = 0; i < nx; ++i) f[i + nx * j] += i; }
};
//! records layers which do not fit into the expected shape (pre-processes may get the used part of the grid only)
struct Shape : InterpolatorProcess2d
{
    size_t mx, my;
    std::atomic<size_t> layers{0}, bad{0};
    Shape(size_t x, size_t y) : mx(x), my(y) {}
    void operator()(float*, size_t nx, size_t ny) override { ++layers; if (nx > mx || ny > my) ++bad; }
};
//! pre- and post-processes are applied once, in order, to every horizontal layer
static void process(Ctx& c)
{
    Rng& r = c.r;
    double clon, clat;
    center(r, clon, clat);
    const double dkm = 50;
    Src s;
    mkSrc(c, s, clon, clat, dkm, -1, 3, 10, false);
    Grid tg = rndGrid(r, clon, clat, dkm, -1, 2, 8);
    const Method m = Method(r.below(3));
    const int pre = r.below(3), post = r.below(4); // bit 0: fill undefined with 7, then bit 1: +3 / +5
    auto ip = std::make_shared<CDMInterpolator>(mkReader(r, s));
    c.d << "src " << s.g[0].str() << " -> " << tg.str() << " pre " << pre << " post " << post << " method " << m << " " << s.ds.str();
    c.sig(s.g[0].p.kind).sig(tg.p.kind).sig(m).sig(pre).sig(post).sig(s.ds.str());
    const bool before = r.chance(0.5);
    auto shape = std::make_shared<Shape>(s.g[0].nx(), s.g[0].ny()), oshape = std::make_shared<Shape>(tg.nx(), tg.ny());
    const bool shp = s.g.size() == 1 && r.chance(0.6);
    auto add = [&] {
        if (shp) { ip->addPreprocess(shape); ip->addPostprocess(oshape); }
        if (pre >= 1) ip->addPreprocess(std::make_shared<FillWith>(7.f));
        if (pre >= 2) ip->addPreprocess(std::make_shared<Plus>(3.f));
        if (post >= 1) ip->addPostprocess(std::make_shared<Plus>(5.f));
        if (post >= 2) ip->addPostprocess(std::make_shared<FillWith>(11.f));
        if (post >= 3) ip->addPostprocess(std::make_shared<Ramp>());
    };
    if (before) add();
    ip->changeProjection(mifi(m), tg.p.str(), tg.x.v, tg.y.v, tg.p.deg() ? "degree" : "m", tg.p.deg() ? "degree" : "m");
    if (!before) add();
    const Target t = targetOf(tg);
    for (auto& f : s.f) {
        Fld q = f;
        if (pre >= 1) for (double& v : q.raw) if (std::isnan(v)) v = 7;
        if (pre >= 2) for (double& v : q.raw) v += 3;
        Expect e = expectField(s, q, t, m, 2e-6);
        size_t k = 0;
        for (auto& cc : e.c) {
            for (double& v : cc.c) {
                if (post >= 1) v += 5;
                if (post >= 2 && std::isnan(v)) v = 11;
                if (post >= 3) v += k % t.nx;
            }
            ++k;
        }
        if (f.t == CDM_CHAR) continue; // may exceed the type
        readAndCompare(c, "process:data", *ip, s, f, e, t.nx, t.ny);
        c.cnt("processed_fields");
    }
    if (shp) {
        VCHECK(c, shape->bad == 0 && oshape->bad == 0, "process:shape", shape->bad << " of " << shape->layers << " input and " << oshape->bad << " of " << oshape->layers << " output layers do not fit the grid");
        c.cnt("processed_layers", shape->layers + oshape->layers);
    }
}
VF_MAIN("C08", "non-trivial: at least one output value compared with the reference kernel at the PROJ-mapped position", {"proj", proj, 260, 3000}, {"points", points, 140, 1500}, {"template", tmpl, 100, 1000}, {"cross", cross, 100, 1000}, {"coordnn", coordnn, 120, 1200}, {"auto", autoaxis, 100, 1000}, {"process", process, 100, 900})
