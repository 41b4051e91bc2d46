// Random dataset views: a CF dataset from memory or a file with a chain of processing stages on top.
// build(seed) is deterministic, so that identical twins of a view can be made.
#ifndef VF_ZOO_H_
#define VF_ZOO_H_
#include "grid.h"
#include <fimex/AggregationReader.h>
#include <fimex/CDMBorderSmoothing.h>
#include <fimex/CDMBorderSmoothing_Linear.h>
#include <fimex/CDMExtractor.h>
#include <fimex/CDMFileReaderFactory.h>
#include <fimex/CDMInterpolator.h>
#include <fimex/CDMMerger.h>
#include <fimex/CDMOverlay.h>
#include <fimex/CDMPressureConversions.h>
#include <fimex/CDMProcessor.h>
#include <fimex/CDMQualityExtractor.h>
#include <fimex/CDMReaderUtils.h>
#include <fimex/CDMTimeInterpolator.h>
#include <fimex/CDMVerticalInterpolator.h>
#include <fimex/CDMWriter.h>
#include <fimex/CrossSectionDefinition.h>
#include <fimex/NcmlCDMReader.h>
#include <fimex/XMLInputString.h>
#include <fimex/interpolation.h>
#include <fimex/mifi_constants.h>
#include <fstream>

namespace vf {
//! all data attached to the CDM
class HeldReader : public CDMReader
{
public:
    explicit HeldReader(const Dataset& ds)
    {
        ds.fillCDM(*cdm_);
        for (auto& v : ds.vars) cdm_->getVariable(v.name).setData(mkData(v.type, v.val));
    }
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const std::string& n, size_t pos) override { return getDataSliceFromMemory(cdm_->getVariable(n), pos); }
};

struct Zoo
{
    CDMReader_p rd;
    Dataset ds;
    Grid g;
    std::string xn, yn, desc, tag;
    dv times, levels;
    bool hz = true, vz = true, tz = true; //!< horizontal / vertical / time axes still as in ds
    bool noTimeDim = false;
    std::vector<CDMReader_p> keep;
    std::string path; //!< scratch path prefix
};

inline Dataset zooDataset(Rng& r, Zoo& z, const Grid* forceGrid = 0)
{
    Dataset ds;
    ds.attrs.push_back({"_GLOBAL", CDMAttribute("Conventions", "CF-1.6")});
    const double clon = r.uni(-160, 160), clat = r.uni(-60, 75);
    z.g = forceGrid ? *forceGrid : rndGrid(r, clon, clat, r.uni(20, 200), -1, 3, 7, false);
    const bool ll2 = r.chance(0.3);
    auto xy = addGrid(ds, z.g, r, "", ll2);
    z.xn = xy.first;
    z.yn = xy.second;
    const size_t nk = r.range(2, 4), nt = r.range(1, 4);
    ds.addDim("pressure", nk);
    z.levels.clear();
    for (size_t i = 0; i < nk; ++i) z.levels.push_back(200 + 220. * i + r.range(0, 90));
    if (r.chance(0.5)) std::reverse(z.levels.begin(), z.levels.end());
    ds.add("pressure", CDM_FLOAT, {"pressure"}, z.levels);
    ds.att("pressure", "units", "hPa");
    ds.att("pressure", "positive", "down");
    ds.att("pressure", "standard_name", "air_pressure");
    ds.addDim("time", nt, true);
    z.times.clear();
    double t = r.range(0, 1000);
    for (size_t i = 0; i < nt; ++i) { z.times.push_back(t); t += r.range(1, 6); }
    ds.add("time", CDM_DOUBLE, {"time"}, z.times);
    ds.att("time", "units", "hours since 2000-01-01 00:00:00 +00:00");
    ds.att("time", "standard_name", "time");
    auto field = [&](const std::string& n, CDMDataType ty, const sv& sh, double lo, double hi, const std::string& unit, const std::string& std) {
        Var& v = ds.add(n, ty, sh);
        for (double& x : v.val) x = isInt(ty) ? r.range((long)lo, (long)hi) : (double)(float)r.uni(lo, hi);
        if (!unit.empty()) ds.att(n, "units", unit);
        if (!std.empty()) ds.att(n, "standard_name", std);
    };
    auto holes = [&](const std::string& n, double f, double p) { for (double& x : ds.var(n).val) if (r.chance(p)) x = f; };
    const sv H{z.xn, z.yn}, HT{z.xn, z.yn, "time"}, HKT{z.xn, z.yn, "pressure", "time"};
    field("air_temperature", CDM_FLOAT, HKT, 230, 300, "K", "air_temperature");
    ds.att("air_temperature", "_FillValue", CDM_FLOAT, {-999});
    holes("air_temperature", -999, r.chance(0.5) ? 0 : 0.05);
    field("u", CDM_FLOAT, HT, -20, 20, "m/s", "x_wind");
    field("v", CDM_FLOAT, HT, -20, 20, "m/s", "y_wind");
    field("packed", CDM_SHORT, HT, -3000, 3000, "degC", "dew_point_temperature");
    ds.att("packed", "_FillValue", CDM_SHORT, {-32767});
    ds.att("packed", "scale_factor", CDM_DOUBLE, {0.25});
    ds.att("packed", "add_offset", CDM_DOUBLE, {10});
    holes("packed", -32767, 0.1);
    field("precip", CDM_FLOAT, HT, 0, 10, "kg/m2", "precipitation_amount");
    field("orog", CDM_FLOAT, H, 0, 1500, "m", "surface_altitude");
    field("status", CDM_INT, HT, 0, 5, "1", "");
    field("mask", r.pick({CDM_CHAR, CDM_SHORT}), H, 0, 3, "1", "");
    for (const char* n : {"air_temperature", "u", "v", "packed", "precip", "orog", "status", "mask"}) gridAtts(ds, z.g, n, "", ll2);
    field("profile", CDM_DOUBLE, {"pressure"}, 0, 1, "1", "");
    field("series", r.pick({CDM_INT, CDM_DOUBLE, CDM_SHORT}), {"time"}, 0, 1000, "s", "");
    field("scalar", CDM_FLOAT, {}, 0, 10, "m", "");
    ds.addDim("n", r.range(1, 3));
    field("misc", r.pick({CDM_INT, CDM_FLOAT, CDM_DOUBLE, CDM_SHORT, CDM_CHAR}), r.chance(0.5) ? sv{"n", z.yn, "pressure"} : sv{"n", "time"}, 0, 100, "1", "");
    return ds;
}
inline CDMReader_p zooWrite(Zoo& z, const Dataset& ds, const std::string& type, const std::string& name)
{
    const std::string f = z.path + name;
    ::unlink(f.c_str());
    CDMFileReaderFactory::createWriter(std::make_shared<MemReader>(ds), type, f);
    return CDMFileReaderFactory::create("netcdf", f);
}
inline CDMReader_p zooSource(Rng& r, Zoo& z, const Dataset& ds, const std::string& name, int kind = -1)
{
    if (kind < 0) kind = r.below(6);
    switch (kind) {
    case 0: z.desc += "mem"; return std::make_shared<MemReader>(ds, false);
    case 1: z.desc += "memdirect"; return std::make_shared<MemReader>(ds, true);
    case 2: z.desc += "held"; return std::make_shared<HeldReader>(ds);
    case 3: {
        auto m = std::make_shared<MemReader>(ds, r.chance(0.5));
        for (auto& v : ds.vars) if (v.shape.size() <= 1 || r.chance(0.1)) m->inMemory(v.name);
        z.desc += "memaxes";
        return m;
    }
    case 4: z.desc += "nc3"; return zooWrite(z, ds, "nc3", name + ".nc");
    default: z.desc += "nc4"; return zooWrite(z, ds, r.pick({"nc4", "nc4c"}), name + ".nc");
    }
}
inline const std::vector<std::string>& zooStages()
{
    static const std::vector<std::string> s = {"range", "index", "ncml", "time", "vertical", "project", "points", "forward", "coordnn", "template", "cross", "accumulate", "rotate", "quality", "pressure4d", "union", "joinExisting", "joinNew", "overlay", "merge", "smooth", "select", "fill", "reduceTime", "bbox"};
    return s;
}
//! put one stage on top; false if it does not apply to this view
inline bool zooStage(Rng& r, Zoo& z, const std::string& k)
{
    const CDM& cdm = z.rd->getCDM();
    auto has = [&](const std::string& v) { return cdm.hasVariable(v); };
    auto dimlen = [&](const std::string& d) { return cdm.hasDimension(d) ? cdm.getDimension(d).getLength() : size_t(0); };
    auto target = [&](CDMInterpolator& ip, int method) {
        const double clon = [&] { double a, b; z.g.lonlat(z.g.nx() / 2, z.g.ny() / 2, a, b); return a; }();
        const double clat = [&] { double a, b; z.g.lonlat(z.g.nx() / 2, z.g.ny() / 2, a, b); return b; }();
        Grid t = rndGrid(r, clon, std::max(-70., std::min(75., clat)), r.uni(20, 200), -1, 2, 6, false);
        const std::string u = t.p.deg() ? "degree" : "m";
        ip.changeProjection(method, t.p.str(), t.x.v, t.y.v, u, u);
        z.g = t;
    };
    auto interp = [&] { auto ip = std::make_shared<CDMInterpolator>(z.rd); if (r.chance(0.2)) ip->addPreprocess(std::make_shared<InterpolatorCreepFill2d>(5, 1)); return ip; };
    if (k == "range" || k == "index") {
        auto ex = std::make_shared<CDMExtractor>(z.rd);
        int n = 0;
        for (auto& d : cdm.getDimensions()) {
            if (d.getLength() < 2 || !r.chance(0.4)) continue;
            if (d.getName().compare(0, 7, "nvcross") == 0) continue; // text cannot be sliced
            if ((d.getName() == z.xn || d.getName() == z.yn) && d.getLength() < 4) continue; // keep a usable grid
            if (d.getName() == "pressure" && d.getLength() < 3) continue;
            const size_t L = d.getLength(), keepMin = d.getName() == "time" || d.getName() == "n" ? 1 : 2;
            if (k == "range") { const size_t len = r.range(keepMin, L), st = r.range(0, L - len); ex->reduceDimension(d.getName(), st, len); }
            else {
                std::set<size_t> s;
                for (size_t i = 0; i < L; ++i) if (r.chance(0.6)) s.insert(i);
                while (s.size() < keepMin) s.insert(r.below(L));
                ex->reduceDimension(d.getName(), s);
            }
            if (d.getName() == "time") z.tz = false;
            if (d.getName() == "pressure") z.vz = false;
            ++n;
        }
        if (!n) return false;
        z.rd = ex;
    } else if (k == "ncml") {
        std::string x = "<?xml version=\"1.0\"?><netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\">";
        if (has("series")) x += "<variable name=\"series2\" orgName=\"series\" type=\"double\"/>";
        if (has("orog")) x += "<variable name=\"orog\" type=\"double\"><attribute name=\"extra\" type=\"int\" value=\"1\"/></variable>";
        if (has("scalar")) x += "<variable name=\"scalar\"><values>42.5</values></variable>";
        if (dimlen("n")) x += "<dimension name=\"nn\" orgName=\"n\"/>";
        if (has("mask")) x += "<remove type=\"variable\" name=\"mask\"/>";
        x += "</netcdf>";
        z.rd = std::make_shared<NcmlCDMReader>(z.rd, XMLInputString(x));
    } else if (k == "time") {
        if (!z.tz || z.noTimeDim || z.times.size() < 2) return false;
        auto ti = std::make_shared<CDMTimeInterpolator>(z.rd);
        const int n = r.range(1, 4);
        std::string spec;
        std::set<long> mins;
        for (int i = 0; i < n; ++i) mins.insert(std::lround((z.times.front() + r.uni(-1, 1 + z.times.back() - z.times.front())) * 60));
        for (long m : mins) {
            time_t tt = 946684800 + m * 60;
            struct tm g;
            gmtime_r(&tt, &g);
            char buf[40];
            strftime(buf, sizeof buf, "%Y-%m-%d %H:%M:%S", &g);
            spec += (spec.empty() ? "" : ",") + std::string(buf);
        }
        ti->changeTimeAxis(spec + ";unit=" + r.pick({"hours", "seconds", "days"}) + " since 2000-01-01 00:00:00");
        z.rd = ti;
        z.tz = false;
    } else if (k == "vertical") {
        if (!has("air_temperature") || dimlen("pressure") < 2) return false;
        auto vi = std::make_shared<CDMVerticalInterpolator>(z.rd, "pressure", r.pick({"linear", "log", "nearestneighbor", "linear_weak_extra"}));
        dv l;
        for (double q = r.uni(250, 350); q < 850; q += r.uni(80, 300)) l.push_back(std::round(q));
        vi->interpolateToFixed(l);
        z.rd = vi;
        z.vz = false;
    } else if (k == "project") {
        if (!z.hz) return false;
        auto ip = interp();
        target(*ip, r.pick({MIFI_INTERPOL_NEAREST_NEIGHBOR, MIFI_INTERPOL_BILINEAR, MIFI_INTERPOL_BICUBIC}));
        z.rd = ip;
        z.hz = false;
    } else if (k == "forward") {
        if (!z.hz) return false;
        auto ip = std::make_shared<CDMInterpolator>(z.rd);
        target(*ip, r.pick({MIFI_INTERPOL_FORWARD_SUM, MIFI_INTERPOL_FORWARD_MEAN, MIFI_INTERPOL_FORWARD_MEDIAN, MIFI_INTERPOL_FORWARD_MAX, MIFI_INTERPOL_FORWARD_UNDEF_MIN}));
        z.rd = ip;
        z.hz = false;
    } else if (k == "coordnn") {
        if (!z.hz) return false;
        auto ip = interp();
        target(*ip, r.chance(0.5) ? MIFI_INTERPOL_COORD_NN : MIFI_INTERPOL_COORD_NN_KD);
        z.rd = ip;
        z.hz = false;
    } else if (k == "points" || k == "cross") {
        if (!z.hz) return false;
        auto ip = interp();
        dv lo, la;
        const int n = r.range(1, 4);
        for (int i = 0; i < n; ++i) { double a, b; z.g.lonlat(r.below(z.g.nx()), r.below(z.g.ny()), a, b); lo.push_back(a); la.push_back(b); }
        if (k == "points") ip->changeProjection(r.chance(0.5) ? MIFI_INTERPOL_BILINEAR : MIFI_INTERPOL_NEAREST_NEIGHBOR, lo, la);
        else {
            std::vector<CrossSectionDefinition> cs;
            std::vector<std::pair<double, double>> p;
            for (size_t i = 0; i < lo.size(); ++i) p.push_back({lo[i], la[i]});
            cs.push_back(CrossSectionDefinition("c1", p));
            ip->changeProjectionToCrossSections(MIFI_INTERPOL_BILINEAR, cs);
        }
        z.rd = ip;
        z.hz = false;
    } else if (k == "template") {
        if (!z.hz) return false;
        Dataset td;
        td.attrs.push_back({"_GLOBAL", CDMAttribute("Conventions", "CF-1.6")});
        double clon, clat;
        z.g.lonlat(z.g.nx() / 2, z.g.ny() / 2, clon, clat);
        Grid t = rndGrid(r, clon, std::max(-70., std::min(75., clat)), r.uni(20, 200), -1, 2, 6, false);
        auto xy = addGrid(td, t, r, "_t", true);
        td.add("ref", CDM_FLOAT, {xy.first, xy.second});
        gridAtts(td, t, "ref", "_t", true);
        auto ip = interp();
        ip->changeProjection(r.chance(0.5) ? MIFI_INTERPOL_BILINEAR : MIFI_INTERPOL_NEAREST_NEIGHBOR, std::make_shared<MemReader>(td), "ref");
        z.rd = ip;
        z.hz = false;
    } else if (k == "accumulate") {
        if (!has("precip") || !has("u")) return false;
        auto p = std::make_shared<CDMProcessor>(z.rd);
        p->accumulate("precip");
        if (r.chance(0.5)) p->deAccumulate("u");
        z.rd = p;
    } else if (k == "rotate") {
        if (!z.hz || !has("u") || !has("v")) return false;
        auto p = std::make_shared<CDMProcessor>(z.rd);
        if (r.chance(0.5)) p->rotateAllVectorsToLatLon(r.chance(0.5)); else p->rotateVectorToLatLon(true, {"u"}, {"v"});
        z.rd = p;
    } else if (k == "quality") {
        if (!has("status") || !has("precip") || !z.hz) return false;
        const std::string f = z.path + "quality" + std::to_string(r.below(1000000)) + ".xml";
        std::ofstream(f) << "<cdmQualityConfig><variable name=\"precip\" fillValue=\"-9\"><status_flag_variable name=\"status\"><allowed_values>1,2,4</allowed_values></status_flag_variable></variable></cdmQualityConfig>";
        z.rd = std::make_shared<CDMQualityExtractor>(z.rd, "", f);
    } else if (k == "pressure4d") {
        if (!z.hz || !has("air_temperature")) return false;
        z.rd = std::make_shared<CDMPressureConversions>(z.rd, sv{"add4Dpressure"});
    } else if (k == "union") {
        Dataset o;
        for (auto& d : cdm.getDimensions()) if (d.getName() == z.xn || d.getName() == "time") o.addDim(d.getName(), d.getLength(), d.isUnlimited());
        if (!dimlen(z.xn)) return false;
        o.addDim("extra", 2);
        o.add("added", CDM_INT, {"extra", z.xn});
        fillUnique(o.var("added"), r);
        if (dimlen("time")) { o.add("addedt", CDM_FLOAT, {"extra", "time"}); fillUnique(o.var("addedt"), r); }
        auto a = std::make_shared<AggregationReader>("union");
        a->addReader(z.rd, "a", "");
        a->addReader(std::make_shared<MemReader>(o, r.chance(0.5)), "b", "");
        a->initAggregation();
        z.rd = a;
    } else if (k == "joinExisting") {
        if (!z.tz || !z.hz || !z.vz || z.noTimeDim) return false;
        Dataset o = z.ds; // a second piece in time
        const size_t nt = r.range(1, 3);
        o.dim("time").len = nt;
        for (auto& v : o.vars) {
            bool t = !v.shape.empty() && v.shape.back() == "time";
            if (!t) continue;
            v.val.assign(prod(o.lens(v)), 0);
            for (double& x : v.val) x = r.range(0, 100);
        }
        for (size_t i = 0; i < nt; ++i) o.var("time").val[i] = z.times.back() + 1 + i;
        if (cdmStr(MemReader(z.ds).getCDM()) != cdmStr(cdm)) return false; // only directly on the source
        auto a = std::make_shared<AggregationReader>("joinExisting");
        a->addReader(z.rd, "a", "");
        a->addReader(zooSource(r, z, o, "join" + std::to_string(r.below(1000000))), "b", "");
        a->initAggregation();
        z.rd = a;
        z.tz = false;
    } else if (k == "joinNew") {
        if (z.noTimeDim || !has("orog") || !has("profile")) return false;
        // joining along a new dimension needs members without a dimension of their own being unlimited
        Dataset o;
        o.addDim("p", r.range(1, 3));
        o.addDim("q", r.range(1, 3));
        o.add("stack", CDM_FLOAT, {"p", "q"});
        o.add("single", CDM_SHORT, {"p"});
        auto a = std::make_shared<AggregationReader>("joinNew");
        a->joinNewVars("member", {"stack"});
        for (int i = 0; i < 3; ++i) {
            for (auto& v : o.vars) fillUnique(v, r);
            a->addReader(std::make_shared<MemReader>(o, r.chance(0.5)), std::to_string(i), std::to_string(i));
        }
        a->initAggregation();
        z.keep.push_back(z.rd);
        z.rd = a;
        z.hz = z.vz = z.tz = false;
        z.noTimeDim = true;
    } else if (k == "overlay" || k == "merge" || k == "smooth") {
        if (!z.hz || !z.tz || !z.vz || !dimlen(z.xn) || dimlen(z.xn) != z.g.nx() || dimlen(z.yn) != z.g.ny()) return false;
        if (z.g.p.kind != Proj::LATLON || cdmStr(MemReader(z.ds).getCDM()) != cdmStr(cdm)) return false;
        // a second dataset on a shifted/denser grid of the same projection, same time and levels
        Zoo z2 = z;
        Grid g2 = z.g;
        const double dx = (g2.x.v[1] - g2.x.v[0]) / 2, dy = (g2.y.v[1] - g2.y.v[0]) / 2, x0 = g2.x.v[1], y0 = g2.y.v[1];
        g2.x.v.clear();
        g2.y.v.clear();
        for (int i = 0; i < 5; ++i) { g2.x.v.push_back(x0 + dx * i); g2.y.v.push_back(y0 + dy * i); }
        Rng r2(r.u64());
        Dataset o = zooDataset(r2, z2, &g2);
        if (z2.xn != z.xn) return false;
        for (auto& d : o.dims) if (d.name == "n" && z.ds.dim("n").len != d.len) return false; // variables outside the grid must agree
        if (z2.times.size() != z.times.size() || z2.levels.size() != z.levels.size()) return false;
        o.var("time").val = z.ds.var("time").val;
        o.var("pressure").val = z.ds.var("pressure").val;
        auto inner = std::make_shared<MemReader>(o, r.chance(0.5));
        if (k == "overlay") z.rd = std::make_shared<CDMOverlay>(z.rd, inner, MIFI_INTERPOL_BILINEAR, true);
        else if (k == "smooth") {
            auto b = std::make_shared<CDMBorderSmoothing>(inner, z.rd, MIFI_INTERPOL_BILINEAR);
            b->setSmoothing(std::make_shared<CDMBorderSmoothing_LinearFactory>(1, 0));
            z.rd = b;
        } else {
            auto m = std::make_shared<CDMMerger>(inner, z.rd);
            m->setSmoothing(std::make_shared<CDMBorderSmoothing_LinearFactory>(1, 0));
            m->setTargetGridFromInner();
            z.rd = m;
        }
        z.hz = false;
    } else if (k == "select") {
        auto ex = std::make_shared<CDMExtractor>(z.rd);
        std::set<std::string> s;
        for (auto& v : cdm.getVariables()) if (r.chance(0.7)) s.insert(v.getName());
        for (const char* n : {"air_temperature", "precip", "u", "v", "status", "orog", "profile"}) if (has(n)) s.insert(n);
        ex->selectVariables(s, true);
        z.rd = ex;
    } else if (k == "fill") {
        if (!z.hz) return false;
        auto ip = std::make_shared<CDMInterpolator>(z.rd);
        if (r.chance(0.5)) ip->addPreprocess(std::make_shared<InterpolatorFill2d>(0.01, 1.6, 50)); else ip->addPostprocess(std::make_shared<InterpolatorCreepFillVal2d>(3, 1, 0.f));
        target(*ip, MIFI_INTERPOL_BILINEAR);
        z.rd = ip;
        z.hz = false;
    } else if (k == "reduceTime") {
        if (!z.tz || z.noTimeDim) return false;
        auto ex = std::make_shared<CDMExtractor>(z.rd);
        const size_t i = r.below(z.times.size());
        ex->reduceAxes({CoordinateAxis::Time}, "hours since 2000-01-01 00:00:00", z.times[i], z.times.back());
        z.rd = ex;
        z.tz = false;
    } else if (k == "bbox") {
        if (!z.hz || z.g.nx() < 5 || z.g.ny() < 5) return false;
        double a, b, c, d;
        z.g.lonlat(1, 1, a, b);
        z.g.lonlat(z.g.nx() - 2, z.g.ny() - 2, c, d);
        auto ex = std::make_shared<CDMExtractor>(z.rd);
        if (std::fabs(a - c) > 90) return false;
        try { ex->reduceLatLonBoundingBox(std::min(b, d), std::max(b, d), std::min(a, c), std::max(a, c)); } catch (CDMException&) { return false; }
        for (auto& q : ex->getCDM().getDimensions()) if ((q.getName() == z.xn || q.getName() == z.yn) && q.getLength() < 2) return false;
        z.rd = ex;
    } else
        throw std::logic_error("harness: stage " + k);
    z.desc += "|" + k;
    return true;
}
//! deterministic view; first < 0: random stages
inline Zoo zooBuild(uint64_t seed, const std::string& path, int maxStages = 3, const std::string& first = "", int source = -1)
{
    Rng r(seed);
    Zoo z;
    z.path = path;
    z.ds = zooDataset(r, z);
    z.rd = zooSource(r, z, z.ds, "src", source);
    int n = r.range(first.empty() ? 0 : 1, maxStages);
    if (!first.empty()) { for (int i = 0; i < 1; ++i) { zooStage(r, z, first); --n; } }
    for (int tries = 0; n > 0 && tries < 10; ++tries) if (zooStage(r, z, r.pick(zooStages()))) --n;
    return z;
}
inline szv varDims(const CDMReader_p& rd, const std::string& v)
{
    szv l;
    for (auto& s : rd->getCDM().getVariable(v).getShape()) l.push_back(rd->getCDM().getDimension(s).getLength());
    return l;
}
inline bool isText(const DataPtr& d) { return d->getDataType() == CDM_STRING || d->getDataType() == CDM_STRINGS; }
} // namespace vf
#endif
