// C27: felt files. Oracle: the independently generated file contents (feltgen.h) and closed spherical projection formulas.
#include "feltworld.h"
using namespace vf;
namespace {

void read(Ctx& c, bool big)
{
    Rng& r = c.r;
    World w = rndWorld(c, big);
    const std::string file = c.file("f.felt");
    writeFelt(file, w.ff);
    c.d << w.grid.str() << " fields=" << w.ff.fields.size() << (w.ff.bigEndian ? " BE" : " LE") << " gap=" << w.ff.gapBlocks;
    for (auto& p : w.ps) c.d << "; " << p.name << " id=" << p.id << ' ' << datatype2string(p.type) << " fields=" << p.at.size() << " levels=" << p.levels.size() << " members=" << p.members.size() << " times=" << p.times.size() << (p.timeless ? " timeless" : "") << " dtype=" << p.dtype;
    c.sig(w.grid.type).sig(w.grid.enc).sig(w.ff.bigEndian).sig(w.ps.size());
    for (auto& p : w.ps) c.sig(p.vcoord).sig(p.levels.size()).sig(p.members.size()).sig(p.times.size()).sig(p.type);
    CDMReader_p rd;
    if (r.chance(0.5)) {
        XMLInputString xs(w.cfg);
        rd = CDMFileReaderFactory::create("felt", file, xs);
    } else {
        std::ofstream(c.file("cfg.xml")) << w.cfg;
        rd = CDMFileReaderFactory::create("felt", file, c.file("cfg.xml"));
    }
    const CDM& cdm = rd->getCDM();
    c.cnt("files");
    c.cnt("fields", w.ff.fields.size());
    c.cnt("grid-type-" + std::to_string(w.grid.type));
    if (w.ff.gapBlocks) c.cnt("far-blocks");
    if (big) c.cnt("long-fields");
    // times
    std::set<long long> tset;
    for (auto& p : w.ps) if (!p.timeless) tset.insert(p.times.begin(), p.times.end());
    const std::vector<long long> times(tset.begin(), tset.end());
    VCHECK(c, cdm.getDimension("time").getLength() == times.size(), "time:count", cdm.getDimension("time").getLength() << " expected " << times.size());
    {
        dv want;
        for (long long t : times) want.push_back((t - w.unitEpoch) / w.unitSecs);
        const dv got = toD(rd->getData("time"));
        VCHECK(c, got.size() == want.size(), "time:size", got.size() << " expected " << want.size());
        for (size_t i = 0; i < got.size(); ++i) VCHECK(c, std::fabs(got[i] - want[i]) * w.unitSecs < 1e-3, "time:value", "time " << i << ' ' << got[i] << " expected " << want[i] << ' ' << w.timeUnit);
    }
    if (w.refs.size() == 1) {
        VCHECK(c, cdm.hasVariable("forecast_reference_time"), "reftime:missing", "");
        const dv got = toD(rd->getData("forecast_reference_time"));
        VCHECK(c, got.size() == 1 && std::fabs(got[0] * w.unitSecs + w.unitEpoch - *w.refs.begin()) < 1e-3, "reftime:value", vstr(got));
        c.cnt("reftimes");
    } else VCHECK(c, !cdm.hasVariable("forecast_reference_time"), "reftime:invented", "");
    // grid
    const int t = w.grid.type;
    const std::string xn = t == 2 ? "longitude" : t == 3 ? "rlon" : "x", yn = t == 2 ? "latitude" : t == 3 ? "rlat" : "y";
    const dv xs = w.grid.xs(), ys = w.grid.ys();
    {
        const dv gx = toD(rd->getData(xn)), gy = toD(rd->getData(yn));
        auto cmp = [&](const dv& got, const dv& want, const std::string& key) {
            VCHECK(c, got.size() == want.size(), key + ":size", got.size() << " expected " << want.size());
            double m = 0;
            for (double v : want) m = std::max(m, std::fabs(v));
            const double step = want.size() > 1 ? std::fabs(want[1] - want[0]) : 1;
            for (size_t i = 0; i < got.size(); ++i) VCHECK(c, std::fabs(got[i] - want[i]) <= 1e-6 * m + 3e-7 * step * i + (t == 2 || t == 3 ? 1e-6 : t == 5 || t == 6 ? 60 : 1) /* the projection is described with six digits */, key + ":value", "position " << i << ' ' << got[i] << " expected " << want[i]);
        };
        cmp(gx, xs, "grid:x");
        cmp(gy, ys, "grid:y");
        if (t != 2) {
            const dv lon = toD(rd->getData("longitude")), lat = toD(rd->getData("latitude"));
            VCHECK(c, lon.size() == xs.size() * ys.size() && lat.size() == lon.size(), "grid:lonlat-size", lon.size());
            long n = 0;
            for (size_t k = 0; k < lon.size(); k += std::max<size_t>(1, lon.size() / 50)) {
                double x, y;
                if (!std::isfinite(lon[k]) || !std::isfinite(lat[k]) || std::fabs(lat[k]) > 89.9) continue; // outside of the projection
                if (t == 5 && (std::fabs(xs[k % xs.size()]) > 6371000. * M_PI * std::cos(w.grid.par[4] * M_PI / 180) || std::fabs(lat[k]) > 85)) continue;
                if (t == 6) { w.grid.fwd(w.grid.par[4], 85, x, y); if (ys[k / xs.size()] > y) continue; } // the cone ends at the pole
                w.grid.fwd(lon[k], lat[k], x, y);
                const double ex = xs[k % xs.size()], ey = ys[k / xs.size()];
                if (t == 3 && (std::fabs(ex) > 175 || std::fabs(ey) > 88)) continue;
                const double tol = t == 3 ? 2e-3 / std::max(0.03, std::cos(ey * M_PI / 180)) : 200.0 * std::max(1., 1 / std::max(0.05, std::cos(lat[k] * M_PI / 180)));
                VCHECK(c, std::fabs(x - ex) <= tol && std::fabs(y - ey) <= tol, "grid:lonlat", "point " << k << " lon/lat " << lon[k] << ',' << lat[k] << " maps to " << x << ',' << y << " but grid point is " << ex << ',' << ey);
                ++n;
            }
            c.cnt("lonlat-points", n);
        }
    }
    // levels
    std::map<int, std::set<std::pair<int, int>>> lev;
    std::set<int> members;
    for (auto& p : w.ps) { lev[p.vcoord].insert(p.levels.begin(), p.levels.end()); members.insert(p.members.begin(), p.members.end()); }
    for (auto& l : lev) {
        dv want, ap, b;
        for (auto& x : l.second) {
            if (l.first == 10) { ap.push_back(x.second * 10.); b.push_back(hybB(x.first, x.second) * 0.0001); want.push_back(ap.back() / 100000 + b.back()); }
            else want.push_back(x.first);
        }
        const dv got = toD(rd->getData(levDim(l.first)));
        expectVals(c, "levels", got, want, 1e-9, levDim(l.first));
        if (l.first == 10) { expectVals(c, "levels:ap", toD(rd->getData("ap")), ap, 1e-9); expectVals(c, "levels:b", toD(rd->getData("b")), b, 1e-9); c.cnt("hybrid-axes"); }
    }
    if (!members.empty()) { const dv want(members.begin(), members.end()); expectVals(c, "members", toD(rd->getData("ensemble_member")), want, 0); }
    // variables
    std::vector<P> order = w.ps;
    r.shuffle(order);
    for (P& p : order) {
        VCHECK(c, cdm.hasVariable(p.name), "var:missing", p.name << " id=" << p.id);
        const CDMVariable& v = cdm.getVariable(p.name);
        VCHECK(c, v.getDataType() == p.type, "var:type", datatype2string(v.getDataType()));
        const std::set<std::pair<int, int>>& all = lev[p.vcoord];
        bool flat = false;
        if (p.levels.size() == 1) {
            const int l1 = p.levels.begin()->first;
            flat = p.vcoord == 8 || p.vcoord == 3 || p.vcoord == 0 || (p.vcoord == 2 && (l1 == 1000 || l1 == 850 || l1 == 500 || l1 == 300));
        }
        sv shape = {xn, yn};
        const bool ens = p.members.size() > 1;
        if (ens) shape.push_back("ensemble_member");
        if (!flat) shape.push_back(levDim(p.vcoord));
        if (!p.timeless) shape.push_back("time");
        VCHECK(c, v.getShape() == sv(shape), "var:shape", p.name << " has shape " << vstr(v.getShape()) << " expected " << vstr(shape));
        CDMAttribute gm;
        VCHECK(c, cdm.getAttribute(p.name, "grid_mapping", gm) && gm.getStringValue() == "projection_" + std::to_string(t), "var:grid-mapping", p.name);
        VCHECK(c, cdm.hasVariable("projection_" + std::to_string(t)), "grid:mapping-var", "");
        const double fill = cdm.getFillValue(p.name);
        VCHECK(c, fill == p.fill, "var:fill", p.name << " fill " << fill << " expected " << p.fill);
        const double sf = cdm.getScaleFactor(p.name);
        const double wantSf = p.type == CDM_SHORT ? (p.hasConfScale ? p.confScale : 1) * std::pow(10., p.scale) : 1;
        VCHECK(c, std::fabs(sf - wantSf) <= 1e-6 * wantSf, "var:scale", p.name << " scale_factor " << sf << " expected " << wantSf);
        // expected values
        const size_t n2 = xs.size() * ys.size();
        std::vector<std::pair<int, int>> ls(all.begin(), all.end());
        if (flat) ls.assign(p.levels.begin(), p.levels.end());
        std::vector<int> ms(1, 0);
        if (ens) ms.assign(members.begin(), members.end());
        else if (p.eps) ms.assign(p.members.begin(), p.members.end());
        std::vector<long long> ts = p.timeless ? std::vector<long long>(p.times.begin(), p.times.end()) : times;
        std::vector<dv> want;
        std::vector<bool> present;
        for (long long tt : ts) {
            dv x;
            bool any = false;
            for (auto& l : ls)
                for (int m : ms) {
                    auto it = p.at.find(std::make_tuple(tt, l.first, p.eps ? m : l.second));
                    if (it == p.at.end()) { x.insert(x.end(), n2, fill); c.cnt("absent-levels"); continue; }
                    any = true;
                    const FField& f = w.ff.fields[it->second];
                    for (fword q : f.val) x.push_back(q == -32767 ? fill : p.type == CDM_SHORT ? q : p.type == CDM_FLOAT ? (float)(q * std::pow(10., f.scale)) : q * std::pow(10., f.scale));
                    c.cnt("fields-compared");
                }
            want.push_back(x);
            present.push_back(any);
        }
        // reads in random order, by slice, by box, whole
        const double tol = p.type == CDM_SHORT ? 0 : p.type == CDM_FLOAT ? 2e-7 : 1e-14;
        std::vector<size_t> pos = iota(ts.size());
        r.shuffle(pos);
        for (size_t k : pos) {
            DataPtr d = rd->getDataSlice(p.name, k);
            if (!present[k]) VCHECK(c, !d || d->size() == 0 || toD(d) == want[k], "data:absent-time", p.name << " has no data at time " << k << " but " << d->size() << " values were returned");
            else expectData(c, "data", d, want[k], tol, p.name + " time " + std::to_string(k));
        }
        dv whole;
        for (auto& x : want) whole.insert(whole.end(), x.begin(), x.end());
        if (r.chance(0.5)) expectData(c, "whole", rd->getData(p.name), whole, tol, p.name);
        if (r.chance(0.5)) {
            SliceBuilder sb(cdm, p.name);
            szv dims, st, sz;
            for (auto& s : shape) dims.push_back(cdm.getDimension(s).getLength());
            for (size_t q = 0; q < shape.size(); ++q) {
                const size_t b0 = r.below(dims[q]), len = 1 + r.below(dims[q] - b0);
                sb.setStartAndSize(shape[q], b0, len);
                st.push_back(b0);
                sz.push_back(len);
            }
            expectData(c, "box", rd->getDataSlice(p.name, sb), box(whole, dims, st, sz), tol, p.name);
            c.cnt("boxes");
        }
        if (r.chance(0.3)) {
            dv sc = whole;
            for (double& x : sc) x = x == fill ? NAN : x * sf;
            expectData(c, "scaled", rd->getScaledData(p.name), sc, 1e-9 * std::max(1., wantSf * 32767), p.name);
        }
        if (!p.timeless) { // beyond the last time
            try {
                DataPtr d = rd->getDataSlice(p.name, times.size() + r.below(2));
                VCHECK(c, !d || d->size() == 0, "data:beyond", d->size() << " values beyond the last time");
            } catch (CDMException&) {
            }
            c.cnt("beyond-end");
        }
        if (p.eps) c.cnt(ens ? "ensemble-vars" : "single-member-vars");
        if (p.timeless) c.cnt("timeless-vars");
    }
}
void famRead(Ctx& c) { read(c, false); }
void famLong(Ctx& c) { read(c, true); }

//! inconsistent inputs that must be refused instead of decoded wrongly
void famRefuse(Ctx& c)
{
    Rng& r = c.r;
    World w = rndWorld(c, false);
    if (w.grid.enc == 0) { w.grid.enc = 1; encodeFGrid(w.grid, r); for (auto& f : w.ff.fields) f.grid = w.grid; }
    // second field (in file order) of some parameter with at least two
    std::vector<std::pair<P*, size_t>> cand;
    for (P& p : w.ps) {
        size_t first = SIZE_MAX;
        for (auto& a : p.at) first = std::min(first, a.second);
        for (size_t i = 0; first != SIZE_MAX && i < first; ++i) if (!w.ff.fields[i].hole && w.ff.fields[i].param == p.param) first = SIZE_MAX; // overwritten first field
        for (auto& a : p.at) if (first != SIZE_MAX && a.second != first) cand.push_back({&p, a.second});
    }
    if (cand.empty()) throw Skip();
    const auto pick = r.pick(cand);
    P& p = *pick.first;
    FField& f = w.ff.fields[pick.second];
    bool refuse = true;
    int kind = r.below(3);
    double amount = 0;
    if (kind == 0 && p.type != CDM_SHORT) kind = 1;
    if (kind == 0) { f.scale += 1; c.d << "scale change"; }
    else if (kind == 1) {
        const int np = (f.grid.type == 1 || f.grid.type == 4 || f.grid.type == 5) ? 5 : 6;
        const int k = r.below(f.grid.type == 2 ? 4 : np);
        // differences far below or above the configured 0.001 (polar stereo distance is not compared in its own unit)
        if ((f.grid.type == 1 || f.grid.type == 4) && k == 2) throw Skip();
        amount = (f.grid.type == 1 || f.grid.type == 4) ? 0.5 : r.pick({0.0004, 0.5});
        if (f.grid.type == 6 && k == 5) amount = 0.5;
        FGrid g = w.grid;
        const int nw = g.enc == 2 ? 3 : 2, o = (g.enc == 2 ? 2 : 0) + k * nw + nw - 2; // the words of parameter k
        if ((g.type == 2 || g.type == 3) && g.par[3] < 0 && k == 3) throw Skip(); // also moves the southern edge
        const double s = g.enc == 2 ? std::pow(10., -g.extra[o - 1]) : (g.type == 1 || g.type == 4) ? 100 : 10000;
        const long dv_ = std::lround(amount * s);
        if (dv_ == 0) throw Skip();
        amount = dv_ / s;
        const long v = g.extra[o] * 10000L + g.extra[o + 1] + dv_;
        g.extra[o] = v / 10000;
        g.extra[o + 1] = v % 10000;
        f.grid = g;
        refuse = !(amount < 0.001 && w.cfg.find("gridParameterDelta") != std::string::npos);
        c.d << "grid parameter " << k << " differs by " << amount << (refuse ? "" : " (tolerated)");
    } else { f.grid.type = w.grid.type == 2 ? 3 : w.grid.type == 3 ? 2 : w.grid.type == 1 ? 4 : w.grid.type == 4 ? 1 : 0; if (!f.grid.type) throw Skip(); c.d << "grid type changes"; }
    const std::string file = c.file("f.felt");
    writeFelt(file, w.ff);
    XMLInputString xs(w.cfg);
    CDMReader_p rd;
    try { rd = CDMFileReaderFactory::create("felt", file, xs); } catch (CDMException& ex) { c.cnt("refused-open"); return; }
    std::vector<long long> times;
    { std::set<long long> s; for (auto& q : w.ps) if (!q.timeless) s.insert(q.times.begin(), q.times.end()); times.assign(s.begin(), s.end()); }
    size_t pos = 0;
    if (!p.timeless) pos = std::find(times.begin(), times.end(), f.valid()) - times.begin();
    try {
        rd->getDataSlice(p.name, pos);
        VCHECK(c, !refuse, "refuse:accepted", p.name << " id " << p.id << " at time " << pos);
        c.cnt("tolerated");
    } catch (CDMException& ex) {
        VCHECK(c, refuse, "refuse:too-strict", ex.what());
        c.cnt("refused-read");
    }
    c.sig(kind).sig(w.grid.type);
}
} // namespace
VF_MAIN("C27", "reader view of generated felt files equals the generated fields", {"read", famRead, 1300, 40000}, {"long", famLong, 16, 300}, {"refuse", famRefuse, 500, 12000})
