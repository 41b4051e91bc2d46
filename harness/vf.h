// Common monitor framework: case-indexed random workloads, violation records, coverage counters.
#ifndef VF_H_
#define VF_H_
#include <algorithm>
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>

namespace vf {

struct Rng
{
    uint64_t s[2];
    static uint64_t mix(uint64_t& x)
    {
        uint64_t z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t seed = 1) { s[0] = mix(seed); s[1] = mix(seed); }
    uint64_t u64()
    {
        uint64_t a = s[0];
        const uint64_t b = s[1];
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
        return s[1] + b;
    }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
    double uni() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    bool chance(double p) { return uni() < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    template <class T> void shuffle(std::vector<T>& v)
    {
        for (size_t i = v.size(); i > 1; --i)
            std::swap(v[i - 1], v[below(i)]);
    }
};

struct Violation { std::string key, msg; };
struct Skip {};

inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull)
{
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

class Ctx
{
public:
    Rng r;
    std::string family;
    long idx;
    std::string scratch; //!< private directory, emptied by the runner
    bool thorough;
    bool verbose = false;
    bool trivial = false;
    std::ostringstream d; //!< human readable description of the case
    std::string sg;
    long checks = 0;
    std::map<std::string, long>* counters;

    void cnt(const std::string& n, long k = 1) { (*counters)[n] += k; }
    template <class T> Ctx& sig(const T& t)
    {
        std::ostringstream o;
        o << t << '|';
        sg += o.str();
        return *this;
    }
    [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Violation{key, msg}; }
    void check(bool ok, const std::string& key, const std::string& msg = "")
    {
        checks++;
        if (!ok)
            fail(key, msg);
    }
    std::string file(const std::string& n) const { return scratch + "/" + n; }
};

#define VCHECK(c, cond, key, msg)                                                                                                                               \
    do {                                                                                                                                                        \
        (c).checks++;                                                                                                                                           \
        if (!(cond)) {                                                                                                                                          \
            std::ostringstream vf_o_;                                                                                                                           \
            vf_o_.precision(17);                                                                                                                                \
            vf_o_ << msg;                                                                                                                                       \
            (c).fail((key), vf_o_.str());                                                                                                                       \
        }                                                                                                                                                       \
    } while (0)

struct Family
{
    const char* name;
    std::function<void(Ctx&)> fn;
    long nquick, nthorough;
};

inline std::string jstr(const std::string& s)
{
    std::string o = "\"";
    char b[8];
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}

inline int run(int argc, char** argv, const char* id, const char* rule, const std::vector<Family>& fams)
{
    uint64_t seed = 1;
    long shard = 0, nshards = 1, from_fam = 0, from_idx = -1, only_idx = -1;
    std::string tier = "quick", out, state, scratch, only_fam;
    bool verbose = false;
    double scale = 1;
    for (int i = 1; i + 1 < argc; i += 2) {
        const std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--shard") shard = atol(v.c_str());
        else if (a == "--nshards") nshards = atol(v.c_str());
        else if (a == "--tier") tier = v;
        else if (a == "--out") out = v;
        else if (a == "--state") state = v;
        else if (a == "--scratch") scratch = v;
        else if (a == "--from") { sscanf(v.c_str(), "%ld:%ld", &from_fam, &from_idx); }
        else if (a == "--case") { auto p = v.rfind(':'); only_fam = v.substr(0, p); only_idx = atol(v.c_str() + p + 1); }
        else if (a == "--verbose") verbose = v == "1";
        else if (a == "--scale") scale = atof(v.c_str());
    }
    FILE* fo = out.empty() ? stdout : fopen(out.c_str(), "a");
    int fs = state.empty() ? -1 : open(state.c_str(), O_RDWR | O_CREAT, 0644);
    fprintf(fo, "{\"t\":\"rule\",\"rule\":%s}\n", jstr(rule).c_str());
    long nviol = 0;
    int rc = 0;
    for (size_t f = 0; f < fams.size(); ++f) {
        const Family& fam = fams[f];
        if (!only_fam.empty() && only_fam != fam.name && only_fam != "#" + std::to_string(f))
            continue;
        long n = tier == "thorough" ? fam.nthorough : fam.nquick;
        n = std::max(1L, (long)(n * scale));
        if ((long)f < from_fam)
            continue;
        std::map<std::string, long> counters;
        std::string pending;
        long nsample = 0, ran = 0;
        for (long i = 0; i < n; ++i) {
            if (only_idx >= 0 ? i != only_idx : (i % nshards != shard))
                continue;
            if ((long)f == from_fam && i <= from_idx)
                continue;
            if (fs >= 0) {
                char b[64];
                int l = snprintf(b, sizeof b, "%-20zu %-20ld\n", f, i);
                if (pwrite(fs, b, l, 0) < 0) {}
            }
            Ctx c;
            std::ostringstream so;
            so << id << '/' << fam.name << '/' << seed << '/' << i;
            c.r = Rng(fnv(so.str()));
            c.family = fam.name;
            c.idx = i;
            c.scratch = scratch;
            c.thorough = tier == "thorough";
            c.verbose = verbose;
            c.counters = &counters;
            c.d.precision(17);
            std::string vkey, vmsg;
            bool skip = false;
            try {
                fam.fn(c);
            } catch (Violation& v) {
                vkey = v.key; vmsg = v.msg;
            } catch (Skip&) {
                skip = true;
            } catch (std::exception& e) {
                vkey = std::string(fam.name) + ":unexpected-exception"; vmsg = e.what();
            } catch (...) {
                vkey = std::string(fam.name) + ":unexpected-exception"; vmsg = "non-standard exception";
            }
            ++ran;
            if (!vkey.empty()) {
                ++nviol;
                rc = 1;
                fprintf(fo, "{\"t\":\"viol\",\"key\":%s,\"fam\":%s,\"idx\":%ld,\"msg\":%s,\"case\":%s}\n", jstr(vkey).c_str(), jstr(fam.name).c_str(), i,
                        jstr(vmsg.substr(0, 4000)).c_str(), jstr(c.d.str().substr(0, 4000)).c_str());
                fflush(fo);
                if (nviol >= 40) {
                    fprintf(fo, "{\"t\":\"stop\"}\n");
                    fclose(fo);
                    return 1;
                }
            }
            if (verbose)
                fprintf(stderr, "%s:%ld %s%s\n", fam.name, i, c.d.str().c_str(), skip ? " [skipped]" : "");
            char b[160];
            snprintf(b, sizeof b, "{\"t\":\"c\",\"f\":%zu,\"k\":%ld,\"n\":%d,\"h\":\"%016" PRIx64 "\"}\n", f, c.checks, (skip || c.trivial) ? 0 : 1,
                     fnv(c.sg.empty() ? c.d.str() : c.sg, fnv(fam.name)));
            pending += b;
            if (!skip && !c.trivial && nsample < 2 && (i / nshards) % 7 == 3) {
                ++nsample;
                pending += "{\"t\":\"sample\",\"fam\":" + jstr(fam.name) + ",\"idx\":" + std::to_string(i) + ",\"case\":" + jstr(c.d.str().substr(0, 1200)) + "}\n";
            }
            if (ran % 32 == 0) { fputs(pending.c_str(), fo); pending.clear(); fflush(fo); }
        }
        fputs(pending.c_str(), fo);
        for (auto& kv : counters)
            fprintf(fo, "{\"t\":\"cnt\",\"name\":%s,\"n\":%ld}\n", jstr(std::string(fam.name) + "." + kv.first).c_str(), kv.second);
        fflush(fo);
    }
    fprintf(fo, "{\"t\":\"done\"}\n");
    if (fo != stdout)
        fclose(fo);
    else
        fflush(fo);
    return rc;
}

inline bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
inline bool close(double a, double b, double tol) { return same(a, b) || std::fabs(a - b) <= tol; }

template <class V> std::string vstr(const V& v, size_t max = 24)
{
    std::ostringstream o;
    o.precision(17);
    o << '[';
    size_t n = 0;
    for (auto& x : v) {
        if (n) o << ' ';
        if (n++ >= max) { o << "..."; break; }
        o << x;
    }
    o << ']';
    return o.str();
}

} // namespace vf
#endif
