// C35: write failures are reported. Every case runs in a forked child (faults may leave the I/O libraries in any state);
// the child's write calls on the target file are intercepted and fail at an enumerated point.
// Oracle: a writer that returns without exception left a file with all of the source's data and metadata.
#include "raw.h"
#include <cerrno>
#include <climits>
#include <fimex/CDMFileReaderFactory.h>
#include <fimex/CDMWriter.h>
#include <fimex/XMLInputString.h>
#include <signal.h>
#include <sys/resource.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <atomic>
#include <fstream>
using namespace vf;

// ---- fault injection
enum Mode { OFF, COUNT, BUDGET, NTH, NTH_ONCE, META };
static std::atomic<int> gMode{OFF};
static std::string gTarget;
static std::atomic<long> gBudget{0}, gCalls{0}, gBytes{0}, gMetaCalls{0}, gFired{0};
static int gErr = ENOSPC;
static bool isTarget(int fd)
{
    if (gMode == OFF) return false;
    char p[64], b[4096];
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    const long n = syscall(SYS_readlink, p, b, sizeof b - 1);
    if (n <= 0) return false;
    b[n] = 0;
    return gTarget == b;
}
//! number of bytes that may be written; -1 = fail
static long allow(int fd, size_t n)
{
    if (!isTarget(fd)) return n;
    const long k = ++gCalls;
    gBytes += n;
    switch (gMode.load()) {
    case BUDGET: {
        const long left = gBudget.load();
        const long a = std::min<long>(left, n);
        gBudget -= a;
        if (a < (long)n) ++gFired;
        return a == 0 && n > 0 ? -1 : a;
    }
    case NTH: if (k >= gBudget) { ++gFired; return -1; } break;
    case NTH_ONCE: if (k == gBudget) { ++gFired; return -1; } break;
    default: break;
    }
    return n;
}
static bool metaFails(int fd)
{
    if (!isTarget(fd)) return false;
    const long k = ++gMetaCalls;
    if (gMode == META && k == gBudget) { ++gFired; return true; }
    return false;
}
#define FAULT(call) { const long a_ = allow(fd, n); if (a_ < 0) { errno = gErr; return -1; } n = a_; return call; }
extern "C" {
ssize_t write(int fd, const void* p, size_t n) FAULT(syscall(SYS_write, fd, p, n))
ssize_t pwrite(int fd, const void* p, size_t n, off_t o) FAULT(syscall(SYS_pwrite64, fd, p, n, o))
ssize_t pwrite64(int fd, const void* p, size_t n, off_t o) FAULT(syscall(SYS_pwrite64, fd, p, n, o))
ssize_t writev(int fd, const struct iovec* v, int cnt)
{
    size_t n = 0;
    for (int i = 0; i < cnt; ++i) n += v[i].iov_len;
    const long a = allow(fd, n);
    if (a < 0) { errno = gErr; return -1; }
    if ((size_t)a == n) return syscall(SYS_writev, fd, v, cnt);
    long done = 0;
    for (int i = 0; i < cnt && done < a; ++i) {
        const long w = syscall(SYS_write, fd, v[i].iov_base, std::min<long>(v[i].iov_len, a - done));
        if (w < 0) break;
        done += w;
    }
    return done;
}
int ftruncate(int fd, off_t l) { if (metaFails(fd)) { errno = gErr; return -1; } return syscall(SYS_ftruncate, fd, l); }
int ftruncate64(int fd, off_t l) { if (metaFails(fd)) { errno = gErr; return -1; } return syscall(SYS_ftruncate, fd, l); }
int fsync(int fd) { if (metaFails(fd)) { errno = gErr; return -1; } return syscall(SYS_fsync, fd); }
}

// ---- netCDF-C/HDF5 crash by themselves while closing a file after failed writes: note when control is inside nc_close
static volatile int* gInClose = nullptr;
extern "C" int nc_close(int id)
{
    static int (*real)(int) = (int (*)(int))dlsym(RTLD_NEXT, "nc_close");
    if (gInClose) *gInClose = gMode != OFF;
    const int s = real(id);
    if (gInClose) *gInClose = 0;
    return s;
}

// ---- child processes
struct Rep { std::string out; void add(char k, const std::string& a, const std::string& b = "") { out += std::string(1, k) + oneLine(a) + "\t" + oneLine(b) + "\n"; } };
//! run fn in a child; counters and violations come back through a pipe
static std::map<std::string, std::string> inChild(Ctx& c, const std::string& tag, const std::function<void(Rep&)>& fn)
{
    int p[2];
    if (pipe(p) != 0) throw std::runtime_error("pipe");
    if (!gInClose) gInClose = (volatile int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    *gInClose = 0;
    fflush(stdout); fflush(stderr);
    const pid_t pid = fork();
    if (pid < 0) throw std::runtime_error("fork");
    if (pid == 0) {
        ::close(p[0]);
        alarm(120);
        Rep r;
        try { fn(r); }
        catch (Violation& v) { r.add('V', v.key, v.msg); }
        catch (std::exception& e) { r.add('V', tag + ":harness", e.what()); }
        gMode = OFF;
        r.add('E', "end");
        const char* s = r.out.data();
        size_t n = r.out.size();
        while (n > 0) { ssize_t w = syscall(SYS_write, p[1], s, n); if (w <= 0) break; s += w; n -= w; }
        _exit(0);
    }
    ::close(p[1]);
    std::string all;
    char b[4096];
    for (;;) { ssize_t n = ::read(p[0], b, sizeof b); if (n < 0 && errno == EINTR) continue; if (n <= 0) break; all.append(b, n); }
    ::close(p[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    std::map<std::string, std::string> m;
    std::istringstream is(all);
    std::string l;
    bool end = false;
    std::string vk, vm;
    while (std::getline(is, l)) {
        const size_t t = l.find('\t');
        if (t == std::string::npos || l.empty()) continue;
        const std::string k = l.substr(1, t - 1), v = l.substr(t + 1);
        if (l[0] == 'E') end = true;
        else if (l[0] == 'V') { if (vk.empty()) { vk = k; vm = v; } }
        else if (l[0] == 'C') c.cnt(k);
        else m[k] = v;
    }
    c.checks++;
    if (!end && *gInClose) { c.cnt("faults on which netCDF-C/HDF5 itself crashed in nc_close"); return m; }
    if (!end) {
        std::ostringstream o;
        if (WIFSIGNALED(st)) o << "killed by signal " << WTERMSIG(st); else o << "exit status " << WEXITSTATUS(st);
        c.fail(tag + ":process-died", "the writing process died instead of reporting an error: " + o.str());
    }
    if (!vk.empty()) c.fail(vk, vm);
    return m;
}
static std::string realFile(Ctx& c, const std::string& n)
{
    char b[PATH_MAX];
    return std::string(realpath(c.scratch.c_str(), b) ? b : c.scratch.c_str()) + "/" + n;
}
struct Plan { Mode mode; long arg; int err; };
static std::string pstr(const Plan& p)
{
    static const char* n[] = {"off", "count", "space for bytes", "calls fail from", "call fails once", "sync/truncate fails"};
    std::ostringstream o;
    o << n[p.mode] << ' ' << p.arg << (p.err == ENOSPC ? " ENOSPC" : " EIO");
    return o.str();
}
//! nonempty = how the file differs from the source
static std::string ncIncomplete(const std::string& file, RawReader& src)
{
    try {
        NcContent nc = ncContent(file);
        const std::string want = canonMeta(src.getCDM(), true);
        if (nc.meta != want) return "metadata: " + firstDiff(want, nc.meta);
        for (auto& v : src.vars)
            if (dstr(nc.data[v.name]) != dstr(src.whole(v.name))) return "data of " + v.name;
    } catch (NcErr& e) { return "unreadable: " + e.what; }
    return "";
}
//! writes in the current process; returns "" or the reported error
static std::string attempt(const std::function<void()>& w)
{
    try { w(); return ""; }
    catch (std::exception& e) { return std::string("error ") + e.what(); }
    catch (...) { return "error (unknown)"; }
}
static std::shared_ptr<RawReader> bigSource(Rng& r, const std::string& fmt, bool big)
{
    if (fmt == "ncml") { // plain names and attributes: what NcML can carry is the subject of C20
        auto rd = std::make_shared<RawReader>();
        CDMDimension x("x", r.range(1, big ? 200 : 5)), t("time", r.range(1, big ? 20 : 4));
        t.setUnlimited(true);
        rd->cdm().addDimension(x);
        rd->cdm().addDimension(t);
        for (int i = r.range(1, 4); i > 0; --i) {
            RawVar v;
            v.name = "v" + std::to_string(i);
            v.type = r.pick({CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE});
            v.rec = r.chance(0.5);
            v.shape = v.rec ? sv{"x", "time"} : sv{"x"};
            for (size_t k = v.rec ? t.getLength() : 1; k > 0; --k) v.slab.push_back(v.type == CDM_FLOAT || v.type == CDM_DOUBLE ? createData(v.type, size_t(x.getLength()), r.uni()) : rndRaw(r, v.type, x.getLength()));
            rd->vars.push_back(v);
            rd->cdm().addVariable(CDMVariable(v.name, v.type, v.shape));
            rd->cdm().addAttribute(v.name, CDMAttribute("units", "m"));
        }
        return rd;
    }
    RawOpt o;
    o.wide = fmt == "nc4";
    o.strings = false;
    o.text = true;
    o.maxVars = 4;
    o.maxLen = big ? 24 : 5;
    return rndRawReader(r, o);
}
typedef std::function<void(CDMReader_p, const std::string&)> WriteFn;
typedef std::function<std::string(const std::string&, RawReader&)> CompleteFn;
static void faults(Ctx& c, const std::string& kind, std::shared_ptr<RawReader> src, const WriteFn& wr, const CompleteFn& incomplete)
{
    Rng& r = c.r;
    const std::string file = realFile(c, "f" + std::to_string(c.idx) + ".out");
    auto one = [&](const Plan& p) {
        ::unlink(file.c_str());
        auto m = inChild(c, kind + ":fault", [&](Rep& rep) {
            gTarget = file;
            gBudget = p.arg;
            gErr = p.err;
            gMode = p.mode;
            const std::string err = attempt([&]() { wr(src, file); });
            gMode = OFF;
            rep.add('R', "calls", std::to_string(gCalls));
            rep.add('R', "bytes", std::to_string(gBytes));
            rep.add('R', "meta", std::to_string(gMetaCalls));
            rep.add('R', "fired", std::to_string(gFired));
            rep.add('R', "error", err);
            if (err.empty()) {
                const std::string inc = incomplete(file, *src);
                if (!inc.empty()) rep.add('V', kind + (p.mode == COUNT ? ":clean-write-incomplete" : ":success-but-incomplete"), pstr(p) + ", " + std::to_string(gFired) + " failed calls: " + inc);
            } else if (p.mode == COUNT) rep.add('V', kind + ":clean-write-error", err);
            rep.add('C', err.empty() ? "writes reported successful" : "writes reported failed");
        });
        ::unlink(file.c_str());
        if (m["fired"] != "0" && !m["fired"].empty()) { c.cnt("faults hit"); if (m["error"].empty()) c.cnt("faults hit but harmless"); }
        return m;
    };
    auto base = one({COUNT, 0, ENOSPC});
    const long calls = atol(base["calls"].c_str()), bytes = atol(base["bytes"].c_str()), meta = atol(base["meta"].c_str());
    c.d << kind << " calls=" << calls << " bytes=" << bytes << " meta=" << meta << " | " << canonMeta(src->getCDM(), false).substr(0, 600);
    c.sig(kind).sig(calls).sig(bytes).sig(c.idx);
    VCHECK(c, calls > 0, kind + ":no-write-seen", "");
    std::vector<Plan> plans;
    auto points = [&](long n, int max, const std::function<void(long)>& f) {
        if (n <= max) for (long k = 1; k <= n; ++k) f(k);
        else { f(1); f(n); for (int k = 2; k < max; ++k) f(r.range(1, n)); }
    };
    const int dens = c.thorough ? 30 : 6;
    points(calls, dens, [&](long k) { plans.push_back({NTH, k, r.chance(0.5) ? ENOSPC : EIO}); });
    points(calls, dens / 2, [&](long k) { plans.push_back({NTH_ONCE, k, EIO}); });
    points(meta, dens / 2, [&](long k) { plans.push_back({META, k, EIO}); });
    plans.push_back({BUDGET, 0, ENOSPC});
    plans.push_back({BUDGET, bytes - 1, ENOSPC});
    for (int k = 0; k < dens; ++k) plans.push_back({BUDGET, r.range(0, bytes), ENOSPC});
    for (auto& p : plans) { one(p); c.cnt("fault points tried"); c.cnt(std::string("plan ") + (p.mode == BUDGET ? "byte budget" : p.mode == META ? "sync/truncate" : p.mode == NTH ? "from n-th call" : "n-th call once")); }
}
static void ncWrite(CDMReader_p s, const std::string& fmt, const std::string& cfg, const std::string& f)
{
    if (cfg.empty()) CDMFileReaderFactory::createWriter(s, fmt, f); else CDMFileReaderFactory::createWriter(s, fmt, f, XMLInputString(cfg));
}
static void famNc(Ctx& c)
{
    static const sv fmts = {"nc3", "nc4", "nc4c"};
    const std::string fmt = fmts[c.idx % 3];
    auto src = bigSource(c.r, fmt, c.r.chance(0.5));
    std::string cfg;
    if (c.r.chance(0.3)) cfg = "<?xml version=\"1.0\"?><cdm_ncwriter_config><default compressionLevel=\"" + std::to_string(c.r.below(16)) + "\"/></cdm_ncwriter_config>";
    faults(c, fmt, src, [fmt, cfg](CDMReader_p s, const std::string& f) { ncWrite(s, fmt, cfg, f); }, ncIncomplete);
}
static std::string ncmlIncomplete(const std::string& file, RawReader& src)
{
    try {
        CDMReader_p rd = CDMFileReaderFactory::create("ncml", file);
        const CDM& a = src.getCDM();
        if (rd->getCDM().getDimensions().size() != a.getDimensions().size()) return "dimensions";
        if (rd->getCDM().getVariables().size() != a.getVariables().size()) return "variables";
        for (auto& v : src.vars) {
            DataPtr d = rd->getData(v.name);
            const size_t n = src.whole(v.name)->size();
            if (!d || d->size() != n) return "data of " + v.name + " " + std::to_string(d ? d->size() : 0) + " of " + std::to_string(n);
        }
    } catch (std::exception& e) { return std::string("unreadable: ") + e.what(); }
    return "";
}
static void famNcml(Ctx& c)
{
    auto src = bigSource(c.r, "ncml", c.r.chance(0.7));
    faults(c, "ncml", src, [](CDMReader_p s, const std::string& f) { CDMFileReaderFactory::createWriter(s, "ncml", f); }, ncmlIncomplete);
}
//! the data source fails
static void famSource(Ctx& c)
{
    Rng& r = c.r;
    static const sv fmts = {"nc3", "nc4", "nc4c", "ncml"};
    const std::string fmt = fmts[c.idx % 4];
    auto src = bigSource(r, fmt, false);
    const std::string file = realFile(c, "s" + std::to_string(c.idx) + ".out");
    const int kind = r.below(4); // 0 CDMException 1 runtime_error 2 bad_alloc-like foreign type 3 wrong amount of data
    size_t total = 0;
    for (auto& v : src->vars) total += v.slab.size();
    const long at = r.range(1, total);
    const bool less = r.chance(0.5);
    c.d << fmt << " source fails kind " << kind << " at read " << at << "/" << total << " | " << canonMeta(src->getCDM(), false).substr(0, 600);
    c.sig(c.d.str());
    auto run = [&](Rep& rep) {
        auto n = std::make_shared<std::atomic<long>>(0);
        if (kind < 3) src->onRead = [&, n](const std::string&, size_t) {
            if (++*n < at) return;
            if (kind == 0) throw CDMException("injected");
            if (kind == 1) throw std::runtime_error("injected");
            throw 42;
        };
        else {
            long k = 0;
            for (auto& v : src->vars) for (auto& s : v.slab) if (++k == at) {
                const size_t m = s->size() + (less ? -1 : 1);
                rep.add('R', "size", std::to_string(m));
                if (v.type == CDM_STRING) s = createData(std::string(m, 'q')); else s = createData(v.type, m, 1.);
            }
        }
        const std::string err = attempt([&]() { ncWrite(src, fmt, "", file); });
        rep.add('R', "error", err);
    };
    auto m = inChild(c, fmt + ":source", run);
    ::unlink(file.c_str());
    if (kind == 3 && (fmt == "ncml" || (less && m["size"] == "0"))) { c.trivial = true; return; } // NcML carries no sizes; no data at all means missing
    VCHECK(c, !m["error"].empty(), fmt + (kind == 3 ? ":wrong-size-accepted" : ":source-failure-lost"), "the writer reported success");
    c.cnt(std::string("source failures reported, kind ") + std::to_string(kind));
}
//! destinations that cannot be written
static void famPath(Ctx& c)
{
    Rng& r = c.r;
    static const sv fmts = {"nc3", "nc4", "nc4c", "ncml"};
    const std::string fmt = fmts[c.idx % 4];
    auto src = bigSource(r, fmt, false);
    const int kind = r.below(4);
    const std::string base = realFile(c, "p" + std::to_string(c.idx));
    std::string file;
    if (kind == 0) file = base + "/missing/dir/x.nc";
    else if (kind == 1) { file = base; ::mkdir(base.c_str(), 0755); }
    else if (kind == 2) { std::ofstream(base) << "plain file"; file = base + "/x.nc"; }
    else { file = realFile(c, std::string(300, 'n')); }
    c.d << fmt << " destination kind " << kind;
    c.sig(fmt).sig(kind).sig(src->vars.size());
    auto m = inChild(c, fmt + ":path", [&](Rep& rep) { rep.add('R', "error", attempt([&]() { ncWrite(src, fmt, "", file); })); });
    if (kind == 1) ::rmdir(base.c_str()); else ::unlink(base.c_str());
    VCHECK(c, !m["error"].empty(), fmt + ":unwritable-path-accepted", file.substr(0, 200));
    c.cnt("unwritable destinations reported");
}
//! files limited by the operating system (quota-like), crossing internal buffers
static void famLimit(Ctx& c)
{
    Rng& r = c.r;
    static const sv fmts = {"nc3", "nc4", "nc4c", "ncml"};
    const std::string fmt = fmts[c.idx % 4];
    auto src = bigSource(r, fmt, true);
    const std::string file = realFile(c, "l" + std::to_string(c.idx) + ".out");
    auto once = [&](long lim) {
        ::unlink(file.c_str());
        auto m = inChild(c, fmt + ":limit", [&](Rep& rep) {
            signal(SIGXFSZ, SIG_IGN);
            struct rlimit l;
            getrlimit(RLIMIT_FSIZE, &l);
            const rlim_t old = l.rlim_cur;
            if (lim >= 0) { l.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &l); }
            const std::string err = attempt([&]() { ncWrite(src, fmt, "", file); });
            l.rlim_cur = old;
            setrlimit(RLIMIT_FSIZE, &l);
            rep.add('R', "error", err);
            if (err.empty()) {
                const std::string inc = fmt == "ncml" ? ncmlIncomplete(file, *src) : ncIncomplete(file, *src);
                if (!inc.empty()) rep.add('V', fmt + ":limit-success-but-incomplete", "limit " + std::to_string(lim) + ": " + inc);
            }
            rep.add('C', err.empty() ? "limited writes successful" : "limited writes reported failed");
        });
        struct stat st;
        const long size = stat(file.c_str(), &st) == 0 ? st.st_size : 0;
        ::unlink(file.c_str());
        return std::make_pair(size, m["error"]);
    };
    const auto full = once(-1);
    VCHECK(c, full.second.empty(), fmt + ":clean-write-error", full.second);
    c.d << fmt << " size " << full.first << " | " << canonMeta(src->getCDM(), false).substr(0, 400);
    c.sig(fmt).sig(full.first).sig(c.idx);
    for (int k = 0; k < (c.thorough ? 12 : 4); ++k) {
        const long lim = k == 0 ? full.first - 1 : k == 1 ? r.range(0, std::min(full.first - 1, 200L)) : r.range(0, full.first - 1);
        const auto e = once(lim);
        VCHECK(c, !e.second.empty() || fmt != "nc3", fmt + ":limit-lost", "limit " << lim << " of " << full.first); // HDF5 files may end with unused space
    }
}

VF_MAIN("C35", "a case is one dataset written to one format with one family of injected faults; distinct by format, number of write calls/bytes and case",
        {"netcdf", famNc, 60, 600}, {"ncml", famNcml, 30, 200}, {"source", famSource, 240, 3000}, {"path", famPath, 64, 200}, {"limit", famLimit, 48, 600})
