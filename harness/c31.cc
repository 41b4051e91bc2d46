// C31: concurrent use. Built with ThreadSanitizer on a pthread OpenMP runtime (omp_shim.c) with injected delays; calls into
// libraries that are not instrumented write shadow variables (shadow.cc). Oracle: no race reported, and every result equal to
// the one of an identical twin used sequentially.
#include "zoo.h"
#include "raw.h"
#include "gribgen.h"
#include "feltworld.h"
#include <fimex/CDMFileReaderFactory.h>
#include <fimex/CDMReaderWriter.h>
#include <fimex/FillWriter.h>
#include <fimex/Null_CDMWriter.h>
#include <fimex/NcmlCDMWriter.h>
#include <fimex/TimeUnit.h>
#include <fimex/Units.h>
#include <fimex/UnitsConverter.h>
#include <fimex/reproject.h>
#include <fimex/coordSys/CoordinateSystem.h>
#include <fimex/coordSys/Projection.h>
#include <pthread.h>
#include <fstream>
#include <thread>
using namespace vf;
extern "C" {
extern int shim_threads;
extern unsigned long long shim_seed, shim_regions, shim_locks, shim_contended, shim_delays, shim_trace;
void shim_delay(void);
}
extern unsigned long long shadow_calls;
static std::atomic<int> reports;
extern "C" void __tsan_on_report(void*) { reports.fetch_add(1, std::memory_order_relaxed); }

namespace {
typedef std::vector<std::string> strs;
//! the values of a request, exactly
std::string bits(const DataPtr& d)
{
    if (!d) return "null";
    if (isText(d)) return "text " + d->asString();
    std::string s = datatype2string(d->getDataType()) + " ";
    const dv v = toD(d);
    for (double x : v) { char b[32]; snprintf(b, sizeof b, std::isnan(x) ? "nan," : "%.17g,", x); s += b; }
    return s;
}
//! equal, or (sums depend on the order in which cached parts were added) equal to rounding
bool same(const std::string& a, const std::string& b, bool sums)
{
    if (a == b) return true;
    if (!sums) return false;
    std::istringstream x(a), y(b);
    std::string p, q;
    x >> p; y >> q;
    if (p != q) return false;
    while (true) {
        const bool m = bool(std::getline(x, p, ',')), n = bool(std::getline(y, q, ','));
        if (m != n) return false;
        if (!m) return true;
        if (p == q) continue;
        const double u = atof(p.c_str()), v = atof(q.c_str());
        if (!(std::abs(u - v) <= 1e-5 * (1 + std::abs(u) + std::abs(v)))) return false;
    }
}
struct Req { int kind; std::string var; size_t pos; std::vector<std::array<size_t, 2>> box; std::string unit; };
std::string answer(const CDMReader_p& rd, const Req& q)
{
    try {
        switch (q.kind) {
        case 0: return bits(rd->getData(q.var));
        case 1: return bits(rd->getDataSlice(q.var, q.pos));
        case 2: return bits(rd->getScaledDataSlice(q.var, q.pos));
        case 3: return bits(rd->getScaledData(q.var));
        case 4: { SliceBuilder sb(rd->getCDM(), q.var); const auto dn = sb.getDimensionNames(); for (size_t i = 0; i < q.box.size(); ++i) sb.setStartAndSize(dn[i], q.box[i][0], q.box[i][1]); return bits(rd->getDataSlice(q.var, sb)); }
        case 5: return bits(rd->getScaledDataInUnit(q.var, q.unit));
        case 6: { std::istringstream i(cdmStr(rd->getCDM())); std::string l, s; while (std::getline(i, l)) if (l.find(" history:") == std::string::npos) s += l + "\n"; return s; } // the history has the time of opening
        default: { std::string s; for (auto& cs : listCoordinateSystems(rd)) { s += cs->id() + ";"; if (cs->hasProjection()) s += cs->getProjection()->getProj4String(); } return s; }
        }
    } catch (std::exception& e) {
        return std::string("error ") ;
    }
}
std::vector<Req> rndReqs(Rng& r, const CDMReader_p& rd, const strs& names, size_t n)
{
    std::vector<Req> q;
    const CDM& cdm = rd->getCDM();
    for (size_t i = 0; i < n; ++i) {
        Req x;
        x.var = r.pick(names);
        const CDMVariable v = cdm.getVariable(x.var);
        const bool text = v.getDataType() == CDM_STRING || v.getDataType() == CDM_STRINGS || v.getDataType() == CDM_NAT;
        x.kind = r.chance(0.05) ? 6 : r.chance(0.05) ? 7 : text ? 0 : r.below(6);
        const CDMDimension* u = cdm.getUnlimitedDim();
        x.pos = u && u->getLength() ? r.below(u->getLength()) : 0;
        if (x.kind == 4) for (auto& d : v.getShape()) { const size_t L = cdm.getDimension(d).getLength(); const size_t s = L ? r.below(L) : 0; x.box.push_back({s, L ? 1 + r.below(L - s) : 0}); }
        x.unit = cdm.getUnits(x.var);
        if (x.kind == 5 && x.unit.empty()) x.kind = 3;
        if (x.kind == 5 && r.chance(0.5)) x.unit = x.unit == "K" ? "degC" : x.unit == "Pa" ? "hPa" : x.unit == "m" ? "km" : x.unit;
        q.push_back(x);
    }
    return q;
}
struct Gate { // start all threads together
    pthread_barrier_t b;
    explicit Gate(int n) { pthread_barrier_init(&b, 0, n); }
    ~Gate() { pthread_barrier_destroy(&b); }
    void wait() { pthread_barrier_wait(&b); }
};
struct Watch { // observations of one case
    Ctx& c;
    const int before = reports.load();
    const unsigned long long r0 = shim_regions, l0 = shim_locks, t0 = shim_contended, d0 = shim_delays, s0 = shadow_calls;
    explicit Watch(Ctx& c) : c(c) { shim_seed = c.r.chance(0.15) ? 0 : (c.r.u64() | 1); shim_trace = 0; }
    void done(const std::string& tag)
    {
        c.cnt("parallel regions", shim_regions - r0);
        c.cnt("locks taken", shim_locks - l0);
        c.cnt("locks contended", shim_contended - t0);
        c.cnt("delays injected", shim_delays - d0);
        c.cnt("shadowed library calls", shadow_calls - s0);
        c.sig(std::to_string(shim_trace) + tag);
        shim_threads = 1;
        VCHECK(c, reports.load() == before, "race:" + tag, reports.load() - before << " ThreadSanitizer reports in this case, see the log");
    }
};
strs varsOf(const CDMReader_p& rd) { strs s; for (auto& v : rd->getCDM().getVariables()) s.push_back(v.getName()); return s; }
std::string lastStage(const std::string& d) { return d.substr(d.rfind('|') == std::string::npos ? 0 : d.rfind('|') + 1); }
//! several threads read one view
void hammer(Ctx& c, const std::string& tag, const CDMReader_p& ref, const CDMReader_p& rd, int K, size_t per, bool sums = false)
{
    const strs names = varsOf(ref);
    if (names.empty()) throw Skip();
    std::vector<std::vector<Req>> q(K);
    std::vector<strs> want(K), got(K);
    // threads asking for the same variable are likelier to disturb each other
    strs few;
    for (int i = 0; i < 3; ++i) few.push_back(c.r.pick(names));
    shim_threads = 1;
    for (int k = 0; k < K; ++k) {
        q[k] = rndReqs(c.r, ref, c.r.chance(0.5) ? few : names, per);
        for (auto& x : q[k]) want[k].push_back(answer(ref, x));
    }
    Watch w(c);
    shim_threads = c.r.pick({1, 1, 2, 3, 4, 5});
    Gate g(K);
    std::vector<std::thread> th;
    for (int k = 0; k < K; ++k) th.emplace_back([&, k] {
        g.wait();
        for (auto& x : q[k]) { shim_delay(); got[k].push_back(answer(rd, x)); }
    });
    for (auto& t : th) t.join();
    c.cnt("threads", K);
    c.cnt("concurrent requests", K * per);
    w.done(tag);
    for (int k = 0; k < K; ++k) for (size_t i = 0; i < q[k].size(); ++i) {
        c.checks++;
        VCHECK(c, same(got[k][i], want[k][i], tag.find("accumulate") != std::string::npos || sums), "result:" + tag, "thread " << k << " request " << q[k][i].kind << " of " << q[k][i].var << " pos " << q[k][i].pos << ": " << got[k][i].substr(0, 300) << " sequentially " << want[k][i].substr(0, 300));
    }
}
void famRead(Ctx& c)
{
    const uint64_t seed = c.r.u64();
    const std::string first = zooStages()[c.idx % zooStages().size()];
    shim_threads = 1;
    shim_seed = 0;
    const int src = c.r.chance(0.4) ? 4 + c.r.below(2) : -1;
    Zoo a = zooBuild(seed, c.file("a" + std::to_string(c.idx)), 2, first, src), b = zooBuild(seed, c.file("b" + std::to_string(c.idx)), 2, first, src);
    c.d << a.desc;
    hammer(c, lastStage(a.desc), a.rd, b.rd, c.r.range(2, 6), c.thorough ? 12 : 6, a.desc.find("accumulate") != std::string::npos);
}
//! grib and felt files
void famFormats(Ctx& c)
{
    Rng& r = c.r;
    shim_threads = 1;
    shim_seed = 0;
    CDMReader_p a, b;
    std::string tag;
    if (r.chance(0.5)) {
        GSet g = rndGSet(c, c.file("g" + std::to_string(c.idx)), true, true);
        const std::string cfg = gribReaderConfig(g);
        sv args;
        for (size_t i = 1; i < g.files.size(); ++i) args.push_back(g.files[i]);
        tag = "grib";
        a = CDMFileReaderFactory::create("grib", g.files[0], XMLInputString(cfg), args);
        b = CDMFileReaderFactory::create("grib", g.files[0], XMLInputString(cfg), args);
    } else {
        World w = rndWorld(c, false);
        const std::string f = c.file("f" + std::to_string(c.idx) + ".felt");
        writeFelt(f, w.ff);
        tag = "felt";
        a = CDMFileReaderFactory::create("felt", f, XMLInputString(w.cfg));
        b = CDMFileReaderFactory::create("felt", f, XMLInputString(w.cfg));
    }
    c.d << tag;
    hammer(c, tag, a, b, r.range(2, 6), 6);
}
//! writers read their source with many threads
std::string content(const std::string& type, const std::string& f)
{
    if (type.compare(0, 2, "nc") == 0 && type != "ncml") {
        NcContent n = ncContent(f);
        std::string s = n.meta;
        for (auto& kv : n.data) s += "\n" + kv.first + "=" + bits(kv.second);
        return s;
    }
    std::ifstream i(f, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>());
}
void famWrite(Ctx& c)
{
    const uint64_t seed = c.r.u64();
    const std::string first = zooStages()[c.idx % zooStages().size()];
    shim_threads = 1;
    shim_seed = 0;
    const std::string base = c.file("w" + std::to_string(c.idx));
    const int src = c.r.chance(0.4) ? 4 + c.r.below(2) : -1;
    Zoo a = zooBuild(seed, base + "a", 2, first, src), b = zooBuild(seed, base + "b", 2, first, src);
    const std::string type = c.r.pick(sv{"nc3", "nc3", "nc4", "nc4", "nc4c", "null", "fill"});
    const std::string tag = "write:" + type + ":" + lastStage(a.desc);
    c.d << a.desc << ">" << type;
    auto write = [&](const CDMReader_p& rd, const std::string& f) -> std::string {
        try {
            if (type == "null") { Null_CDMWriter w(rd, f); return ""; }
            CDMFileReaderFactory::createWriter(rd, type == "fill" ? "nc4" : type, f);
            return "";
        } catch (std::exception& e) { return std::string("error ") + e.what(); }
    };
    const std::string fa = base + "a.out", fb = base + "b.out";
    std::string ea, eb;
    if (type == "fill") {
        ea = write(a.rd, fa); eb = write(b.rd, fb);
        if (!ea.empty() || !eb.empty()) throw Skip();
        auto fill = [&](const Zoo& z, const std::string& f) -> std::string {
            try {
                CDMReaderWriter_p rw = CDMFileReaderFactory::createReaderWriter("netcdf", f);
                FillWriter(z.rd, rw);
                rw->sync();
                return "";
            } catch (std::exception& e) { return std::string("error ") + e.what(); }
        };
        ea = fill(a, fa);
        Watch w(c);
        shim_threads = c.r.pick({2, 3, 4, 6, 8});
        eb = fill(b, fb);
        w.done(tag);
    } else {
        ea = write(a.rd, fa);
        Watch w(c);
        shim_threads = c.r.pick({2, 3, 4, 6, 8});
        eb = write(b.rd, fb);
        w.done(tag);
    }
    c.cnt("writes with several threads");
    VCHECK(c, ea.empty() == eb.empty(), "result:" + tag, "sequential: '" << ea << "' parallel: '" << eb << "'");
    if (ea.empty() && type != "null") {
        const std::string x = content(type == "fill" ? "nc4" : type, fa), y = content(type == "fill" ? "nc4" : type, fb);
        const bool sums = a.desc.find("accumulate") != std::string::npos;
        std::istringstream xs(x), ys(y);
        std::string xl, yl;
        while (true) {
            const bool m = bool(std::getline(xs, xl)), n = bool(std::getline(ys, yl));
            VCHECK(c, m == n && (!m || xl.substr(0, xl.find('=')) == yl.substr(0, yl.find('='))), "result:" + tag, firstDiff(y, x));
            if (!m) break;
            VCHECK(c, same(yl, xl, sums), "result:" + tag, firstDiff(y, x));
        }
        c.cnt("files compared");
    } else if (!ea.empty()) c.cnt("writes refused");
}
//! a source that cannot read some of its slices, written with many threads: refused as with one, never a crash
struct Faulty : CDMReader
{
    CDMReader_p in;
    std::string var;
    std::set<size_t> bad;
    int how;
    Faulty(const CDMReader_p& in, const std::string& var, const std::set<size_t>& bad, int how) : in(in), var(var), bad(bad), how(how) { *cdm_ = in->getCDM(); }
    void fail() const
    {
        switch (how) { case 0: throw CDMException("injected"); case 1: throw std::runtime_error("injected"); case 2: throw std::bad_alloc(); default: throw std::out_of_range("injected"); }
    }
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const std::string& n, size_t pos) override { if ((var.empty() || n == var) && bad.count(pos)) { shim_delay(); fail(); } return in->getDataSlice(n, pos); }
};
void famFault(Ctx& c)
{
    const uint64_t seed = c.r.u64();
    shim_threads = 1;
    shim_seed = 0;
    const std::string base = c.file("x" + std::to_string(c.idx));
    Zoo a = zooBuild(seed, base + "a", 1, c.r.chance(0.5) ? "" : c.r.pick(zooStages()), c.r.chance(0.4) ? 4 + c.r.below(2) : -1);
    const strs names = varsOf(a.rd);
    if (names.empty()) throw Skip();
    const CDMDimension* u = a.rd->getCDM().getUnlimitedDim();
    const size_t nu = u ? u->getLength() : 1;
    std::set<size_t> bad;
    for (int i = 1 + c.r.below(3); i > 0; --i) bad.insert(c.r.below(nu + 1));
    const CDMReader_p rd = std::make_shared<Faulty>(a.rd, c.r.chance(0.3) ? "" : c.r.pick(names), bad, c.r.below(4));
    const std::string type = c.r.pick(sv{"nc3", "nc4", "null", "fill"});
    c.d << a.desc << ">" << type;
    auto write = [&](const std::string& f) -> bool {
        try {
            if (type == "null") { Null_CDMWriter w(rd, f); return true; }
            if (type == "fill") {
                CDMFileReaderFactory::createWriter(a.rd, "nc4", f);
                CDMReaderWriter_p rw = CDMFileReaderFactory::createReaderWriter("netcdf", f);
                FillWriter(rd, rw);
                return true;
            }
            CDMFileReaderFactory::createWriter(rd, type, f);
            return true;
        } catch (std::exception& e) { return false; }
    };
    const bool one = write(base + "a.out");
    Watch w(c);
    shim_threads = c.r.pick({2, 3, 4, 6, 8});
    const bool many = write(base + "b.out");
    w.done("fault:" + type);
    c.cnt(one ? "faults not met" : "faults refused");
    c.checks++;
    VCHECK(c, one == many, "result:fault:" + type, "a source failing in slices of " << c.d.str() << " is " << (one ? "written" : "refused") << " by one thread and " << (many ? "written" : "refused") << " by several");
}
//! every thread has its own dataset
void famOwn(Ctx& c)
{
    const int K = c.r.range(2, 5);
    shim_threads = 1;
    shim_seed = 0;
    const std::string base = c.file("o" + std::to_string(c.idx));
    std::vector<uint64_t> seed(K), rs(K);
    std::vector<int> src(K);
    const uint64_t common = c.r.u64();
    const bool sameData = c.r.chance(0.3);
    for (int k = 0; k < K; ++k) { seed[k] = sameData ? common : c.r.u64(); rs[k] = c.r.u64(); src[k] = c.r.chance(0.6) ? 4 + c.r.below(2) : -1; }
    const std::string first = zooStages()[c.idx % zooStages().size()];
    auto work = [&](int k, const std::string& path) -> strs {
        strs out;
        try {
            Zoo z = zooBuild(seed[k], path, 2, k == 0 ? first : "", src[k]);
            out.push_back(z.desc);
            Rng r(rs[k]);
            const strs names = varsOf(z.rd);
            if (names.empty()) return out;
            for (auto& q : rndReqs(r, z.rd, names, 6)) { shim_delay(); out.push_back(answer(z.rd, q)); }
            if (r.chance(0.5)) {
                const std::string f = path + ".out";
                CDMFileReaderFactory::createWriter(z.rd, r.pick(sv{"nc3", "nc4"}), f);
                CDMReader_p rd = CDMFileReaderFactory::create("netcdf", f);
                for (auto& n : varsOf(rd)) out.push_back(n + answer(rd, Req{0, n, 0, {}, ""}));
            }
        } catch (CDMException& e) { out.push_back("error"); }
        return out;
    };
    std::vector<strs> want(K), got(K);
    for (int k = 0; k < K; ++k) want[k] = work(k, base + "s" + std::to_string(k));
    c.d << want[0][0];
    Watch w(c);
    Gate g(K);
    std::vector<std::thread> th;
    for (int k = 0; k < K; ++k) th.emplace_back([&, k] { g.wait(); got[k] = work(k, base + "p" + std::to_string(k)); });
    for (auto& t : th) t.join();
    c.cnt("threads", K);
    w.done("own:" + lastStage(want[0][0]));
    for (int k = 0; k < K; ++k) {
        VCHECK(c, got[k].size() == want[k].size(), "result:own", got[k].size() << " answers, sequentially " << want[k].size());
        for (size_t i = 0; i < got[k].size(); ++i) { c.checks++; VCHECK(c, same(got[k][i], want[k][i], want[k][0].find("accumulate") != std::string::npos), "result:own", "dataset " << want[k][0] << " answer " << i << ": " << got[k][i].substr(0, 300) << " sequentially " << want[k][i].substr(0, 300)); }
    }
}
//! parsers, units, times, projections, logging: free functions and objects of each thread
void famTools(Ctx& c)
{
    const int K = c.r.range(2, 6);
    shim_threads = 1;
    shim_seed = 0;
    std::vector<uint64_t> seed(K);
    for (auto& s : seed) s = c.r.u64();
    auto work = [](uint64_t s) -> strs {
        Rng r(s);
        strs out;
        for (int i = 0; i < 8; ++i) {
            shim_delay();
            std::ostringstream o;
            o.precision(17);
            try {
                switch (r.below(6)) {
                case 0: { static const sv us = {"K", "degC", "m/s", "knot", "Pa", "hPa", "bar", "m", "km", "kg m-2 s-1", "mm/h", "1", "%", "degrees_north", "seconds since 1970-01-01", "days since 2000-01-01", "nonsense"}; Units u; const std::string a = r.pick(us), b = r.pick(us); o << u.areConvertible(a, b) << u.isTime(a); double sl, of; if (u.areConvertible(a, b)) { u.convert(a, b, sl, of); o << sl << of; auto cv = u.getConverter(a, b); o << cv->convert(3.5); o << cv->convert(2.25f); } break; }
                case 1: { TimeUnit t(r.pick(sv{"seconds since 1970-01-01", "hours since 2000-02-29 12:00:00", "days since 1900-01-01 00:00:00 +01:00"})); o << t.unitTime2epochSeconds(r.range(-1000, 5000)) ; const FimexTime ft = t.unitTime2fimexTime(r.range(0, 3000)); o << ft.getYear() << "-" << ft.getMonth() << "-" << ft.getMDay() << "T" << ft.getHour(); break; }
                case 2: { const sv ps = {"+proj=latlong +R=6371000", "+proj=stere +lat_0=90 +lon_0=0 +lat_ts=60 +R=6371000 +x_0=0 +y_0=0", "+proj=lcc +lat_0=63 +lon_0=15 +lat_1=63 +lat_2=63 +R=6371000", "+proj=merc +lat_ts=10 +R=6371000", "+proj=ob_tran +o_proj=longlat +lon_0=-40 +o_lat_p=22 +R=6371000 +no_defs", "+proj=utm +zone=33 +ellps=WGS84"}; // no invalid strings: PROJ 9.4 itself shares the text of an error between contexts
                    dv x = {5, 10, 15}, y = {55, 60, 65}; reproject::reproject_values(ps[0], r.pick(ps), &x[0], &y[0], 3); for (double v : x) o << v << ','; for (double v : y) o << v << ','; break; }
                case 3: { Projection_cp p = Projection::createByProj4(r.pick(sv{"+proj=stere +lat_0=90 +lon_0=0 +lat_ts=60 +R=6371000", "+proj=lcc +lat_0=63 +lon_0=15 +lat_1=63 +lat_2=63 +R=6371000", "+proj=utm +zone=33 +ellps=WGS84"})); o << p->getName() << p->getProj4String(); break; }
                case 4: { Logger_p l = getLogger("vf." + std::to_string(r.below(4))); o << l->isEnabledFor(Logger::DEBUG); LOG4FIMEX(l, Logger::DEBUG, "tool " << i); break; }
                default: { const std::string x = "<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\"><dimension name=\"x\" length=\"3\"/><variable name=\"x\" type=\"float\" shape=\"x\"><attribute name=\"units\" value=\"m\"/><values>1 2 3</values></variable></netcdf>"; CDMReader_p rd = CDMFileReaderFactory::create("ncml", std::string("memory"), XMLInputString(x)); o << cdmStr(rd->getCDM()) << bits(rd->getData("x")); break; }
                }
            } catch (std::exception& e) { o << "error"; }
            out.push_back(o.str());
        }
        return out;
    };
    std::vector<strs> want(K), got(K);
    for (int k = 0; k < K; ++k) want[k] = work(seed[k]);
    Watch w(c);
    Gate g(K);
    std::vector<std::thread> th;
    for (int k = 0; k < K; ++k) th.emplace_back([&, k] { g.wait(); got[k] = work(seed[k]); });
    for (auto& t : th) t.join();
    c.cnt("threads", K);
    c.d << K << " threads";
    w.done("tools");
    for (int k = 0; k < K; ++k) for (size_t i = 0; i < want[k].size(); ++i) { c.checks++; VCHECK(c, got[k][i] == want[k][i], "result:tools", got[k][i].substr(0, 300) << " sequentially " << want[k][i].substr(0, 300)); }
}
} // namespace
VF_MAIN("C31", "views of every processing stage, formats and writers used by 2-8 threads with injected delays, compared with a sequentially used twin, under ThreadSanitizer; distinct by the order in which threads got the locks",
        {"read", famRead, 300, 4000}, {"write", famWrite, 300, 4000}, {"own", famOwn, 200, 2500}, {"formats", famFormats, 80, 1000}, {"tools", famTools, 100, 2000}, {"fault", famFault, 150, 2000})
