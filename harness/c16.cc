// C16: specification expansion. Oracle: independent exact expansion in integer multiples of a quantum.
#include "vfx.h"
#include <fimex/SpatialAxisSpec.h>
#undef TIMESPEC_H_ // same guard used by SpatialAxisSpec.h
#include <fimex/TimeSpec.h>
#include <fimex/TimeUnit.h>
#include <fimex/TimeUtils.h>
#include <fimex/TokenizeDotted.h>
using namespace vf;

//! list of integer multiples (of a quantum) with dots
struct Spec { std::vector<long> given; std::vector<char> dotsBefore; };
static Spec randSpec(Rng& r, bool nonneg = false, long maxN = 12)
{
    Spec s;
    long v = nonneg ? r.range(0, 20) : r.range(-40, 40);
    s.given.push_back(v);
    s.dotsBefore.push_back(0);
    const int n = r.range(0, 5);
    for (int i = 0; i < n; ++i) {
        const bool can = s.given.size() >= 2 || (s.dotsBefore.size() && s.dotsBefore.back());
        const size_t m = s.given.size();
        long step = r.range(1, 7) * (r.chance(0.3) ? -1 : 1);
        if (can && m >= 2 && !s.dotsBefore[m - 1] && s.given[m - 1] != s.given[m - 2] && r.chance(0.5)) {
            const long d = s.given[m - 1] - s.given[m - 2];
            long e = s.given[m - 1] + d * r.range(1, maxN);
            if (r.chance(0.25)) e += r.range(-std::labs(d) + 1, std::labs(d) - 1); // end off the grid
            if (r.chance(0.05)) e = s.given[m - 1] - d;                              // wrong direction
            if (nonneg) e = std::max(0L, e);
            s.given.push_back(e);
            s.dotsBefore.push_back(1);
        } else {
            long x = s.given[m - 1] + step;
            if (nonneg) x = std::max(0L, x);
            s.given.push_back(x);
            s.dotsBefore.push_back(0);
        }
    }
    return s;
}
static std::vector<long> expand(const Spec& s)
{
    std::vector<long> o;
    for (size_t i = 0; i < s.given.size(); ++i) {
        if (s.dotsBefore[i]) {
            const long d = s.given[i - 1] - s.given[i - 2];
            for (long x = s.given[i - 1] + d; d > 0 ? x < s.given[i] : x > s.given[i]; x += d) o.push_back(x);
        }
        o.push_back(s.given[i]);
    }
    return o;
}
static std::string dec(long n, int digits)
{
    std::string s = std::to_string(std::labs(n));
    while ((int)s.size() <= digits) s = "0" + s;
    if (digits) s.insert(s.size() - digits, ".");
    return (n < 0 ? "-" : "") + s;
}
template <class F> static std::string text(const Spec& s, F fmt, const std::string& delim)
{
    std::string t;
    for (size_t i = 0; i < s.given.size(); ++i) {
        if (i) t += delim;
        if (s.dotsBefore[i]) t += "..." + delim;
        t += fmt(s.given[i]);
    }
    return t;
}
template <class T> static void cmp(Ctx& c, const std::string& key, const std::vector<T>& got, const std::vector<long>& want, double q, double tol)
{
    VCHECK(c, got.size() == want.size(), key + ":count", "got " << vstr(got, 60) << " expected x" << q << " " << vstr(want, 60));
    for (size_t i = 0; i < got.size(); ++i) VCHECK(c, std::fabs((double)got[i] - want[i] * q) <= tol, key + ":value", "at " << i << " got " << vstr(got, 60) << " expected x" << q << " " << vstr(want, 60));
    c.cnt("values", got.size());
}
static std::string pad(Rng& r, const std::string& s) { return r.chance(0.1) ? " " + s + (r.chance(0.5) ? " " : "") : s; }

static void famDotted(Ctx& c)
{
    const int type = c.r.pick({0, 1, 2, 4, 4}); // float: accumulates rounding errors of the order of the documented tolerance
    const int digits = type < 3 ? 0 : c.r.below(4);
    const Spec s = randSpec(c.r, type == 2, c.r.chance(0.1) ? 300 : 12);
    const std::vector<long> want = expand(s);
    const std::string delim = c.r.chance(0.8) ? "," : c.r.pick({";", ":"});
    const std::string t = text(s, [&](long v) { return dec(v, digits); }, delim);
    const double q = std::pow(10., -digits);
    c.d << "type " << type << " '" << t << "'";
    c.sig(type).sig(t);
    c.trivial = s.given.size() < 2;
    switch (type) {
    case 0: cmp(c, "dotted-int", tokenizeDotted<int>(t, delim), want, 1, 0); break;
    case 1: cmp(c, "dotted-long", tokenizeDotted<long>(t, delim), want, 1, 0); break;
    case 2: cmp(c, "dotted-size_t", tokenizeDotted<size_t>(t, delim), want, 1, 0); break;
    default: cmp(c, "dotted-double", tokenizeDotted<double>(t, delim), want, q, 1e-9);
    }
}

static void famAxis(Ctx& c)
{
    const int digits = c.r.below(3);
    const double q = std::pow(10., -digits);
    const bool rel = c.r.chance(0.5);
    if (!rel) {
        const Spec s = randSpec(c.r);
        const std::string t = text(s, [&](long v) { return dec(v, digits); }, ",");
        c.d << "absolute '" << t << "'";
        SpatialAxisSpec sp(t);
        VCHECK(c, !sp.requireStartEnd(), "axis:require", "");
        cmp(c, "axis-absolute", sp.getAxisSteps(), expand(s), q, 1e-9);
        return;
    }
    // relative: "a,b,...[x|x+k|x-k]": 0 is the largest multiple of the step <= start, x the largest multiple <= end
    const long step = c.r.range(1, 9);
    const long a = c.r.range(0, 3) * step;
    const long st = c.r.range(0, 400), en = st + c.r.range(step, 300);
    const long zero = st / step * step, x = en / step * step;
    const int tail = c.r.below(4);
    const long k = c.r.range(0, 3) * step;
    Spec s;
    s.given = {a + zero, a + step + zero};
    s.dotsBefore = {0, 0};
    std::string t = dec(a, digits) + "," + dec(a + step, digits);
    long end = x;
    if (tail == 0) { end = zero + a + step + c.r.range(0, 5) * step; t += ",...," + dec(end - zero, digits); }
    else if (tail == 1) t += ",...,x";
    else if (tail == 2) { end = x + k; t += ",...,x+" + dec(k, digits); }
    else { end = x - k; t += ",...,x-" + dec(k, digits); }
    s.given.push_back(end);
    s.dotsBefore.push_back(1);
    t += ";relativeStart=0";
    c.d << "relative '" << t << "' start " << st * q << " end " << en * q;
    // quotient sits on an exact multiple only for exact decimals: shift the ends a little inside the cell
    SpatialAxisSpec sp(t);
    VCHECK(c, sp.requireStartEnd(), "axis:require-rel", "");
    VCHECK(c, throws([&] { SpatialAxisSpec(t).getAxisSteps(); }), "axis:no-start-end-accepted", t);
    const double eps = digits ? 0.1 * q : 0;
    sp.setStartEnd(st * q + eps, en * q + eps);
    cmp(c, "axis-relative", sp.getAxisSteps(), expand(s), q, 1e-9);
}

static void famTime(Ctx& c)
{
    const bool rel = c.r.chance(0.6);
    const long ref = fimexTime2epochTime(FimexTime(2000, 1, 1));
    static const std::vector<std::pair<std::string, long>> units = {{"seconds", 1}, {"minutes", 60}, {"hours", 3600}, {"days", 86400}};
    auto fmtTime = [&](long sec) { return make_time_string_extended(make_time_from_timet(sec)); };
    std::vector<double> got;
    if (!rel) {
        const long q = c.r.pick({60, 600, 3600, 21600, 86400});
        const Spec s = randSpec(c.r, false, 8);
        std::string t = text(s, [&](long v) { std::string x = fmtTime(ref + v * q); if (v % 2) x[10] = ' '; return x; }, ",");
        if (c.r.chance(0.5)) t += ";unit=" + c.r.pick(units).first + " since " + c.r.pick({"1970-01-01", "2000-01-01 00:00:00", "1999-12-31 12:00:00"});
        c.d << "'" << t << "'";
        TimeSpec ts(t, FimexTime(2000, 1, 1), FimexTime(2000, 1, 2));
        for (auto& f : ts.getTimeSteps()) got.push_back(fimexTime2epochTime(f) + f.getMSecond() / 1000. - ref);
        cmp(c, "time-absolute", got, expand(s), q, 0.01);
        if (t.find(";unit=") != std::string::npos) VCHECK(c, ts.getUnitString() == t.substr(t.find(";unit=") + 6), "time:unit", ts.getUnitString());
        else VCHECK(c, TimeUnit(ts.getUnitString()).unitTime2epochSeconds(1) == 1, "time:default-unit", ts.getUnitString());
        return;
    }
    const auto u = c.r.pick(units);
    const bool refOld = c.r.chance(0.5);
    const std::string unit = u.first + " since " + (refOld ? "1970-01-01" : "2000-01-01 00:00:00");
    const long base = refOld ? 0 : ref;
    const long step = c.r.range(1, 12);
    const long st = ref + c.r.range(0, 5000) * u.second, en = st + c.r.range(step, 60) * u.second;
    const long su = (st - base) / u.second, eu = (en - base) / u.second;
    const long zero = su / step * step, x = eu / step * step;
    const long a = c.r.range(0, 3) * step;
    Spec s;
    s.given = {a + zero, a + step + zero};
    s.dotsBefore = {0, 0};
    const int tail = c.r.below(5);
    const long k = c.r.range(0, 3) * step;
    std::string t = std::to_string(a) + "," + std::to_string(a + step);
    long end = x;
    if (tail == 0) { end = zero + a + step + c.r.range(0, 5) * step; t += ",...," + std::to_string(end - zero); }
    else if (tail == 1) t += ",...,x";
    else if (tail == 2) { end = x + k; t += ",...,x+" + std::to_string(k); }
    else if (tail == 3) { end = x - k; t += ",...,x-" + std::to_string(k); }
    else { end = x + k; t += ",...,x + " + std::to_string(k) + ".0"; }
    s.given.push_back(end);
    s.dotsBefore.push_back(1);
    t += ";relativeUnit=" + unit;
    if (c.r.chance(0.5)) t += ";unit=" + unit;
    c.d << "'" << t << "' start " << fmtTime(st) << " end " << fmtTime(en);
    TimeSpec ts(t, fromTimePoint(make_time_from_timet(st)), fromTimePoint(make_time_from_timet(en)));
    for (auto& f : ts.getTimeSteps()) got.push_back(fimexTime2epochTime(f) + f.getMSecond() / 1000. - base);
    cmp(c, "time-relative", got, expand(s), u.second, 0.01);
}

static void famBad(Ctx& c)
{
    static const std::vector<std::string> badAxis = {"1,2,...", "1,...,3", "...,3", "...", "1,a", "a,b,...,c", "1,2,...,z", "5,5,...,1", "1 2 3", "1;2", "1,2;unit=km", "1,2;foo=3", "1,2;a=b=c", "1,2,...,1e", "--3,4", "1,2x"};
    static const std::vector<std::string> badTime = {"2000-01-01 00:00:00,...,2000-01-02 00:00:00", "2000-01-01 00:00:00,2000-01-01 06:00:00,...", "abc", "1,2;relativeUnit=m", "1;relativeUnit=hours since 2000-01-01", "a,b,...,c;relativeUnit=hours since 2000-01-01", "2000-01-01 00:00:00;unit=parsec", "2000-01-01 00:00:00;foo=bar", "2000-01-01 00:00:00;2000-01-02 00:00:00", "2000-01-01 00:00:00,2000-01-01 00:00:00,...,2000-01-02 00:00:00", "2000-13-01 00:00:00", "x,x+1,...,x+3"};
    static const std::vector<std::string> badInt = {"1,2,...", "1,...,3", "1.5", "a", "1,2,...,b", "3,3,...,9"};
    const int k = c.idx % 3;
    if (k == 0) {
        const std::string s = badAxis[(c.idx / 3) % badAxis.size()];
        c.d << "axis '" << s << "'";
        VCHECK(c, throws([&] { SpatialAxisSpec sp(s); sp.getAxisSteps(); }), "bad:axis-accepted", s);
    } else if (k == 1) {
        const std::string s = badTime[(c.idx / 3) % badTime.size()];
        c.d << "time '" << s << "'";
        VCHECK(c, throws([&] { TimeSpec ts(s, FimexTime(2000, 1, 1), FimexTime(2000, 1, 2)); }), "bad:time-accepted", s);
    } else {
        const std::string s = badInt[(c.idx / 3) % badInt.size()];
        c.d << "int '" << s << "'";
        VCHECK(c, throws([&] { tokenizeDotted<int>(s); }), "bad:int-accepted", s);
        if (s != "1.5") VCHECK(c, throws([&] { tokenizeDotted<double>(s); }), "bad:double-accepted", s);
        VCHECK(c, throws([&] { tokenizeDotted<size_t>(s); }), "bad:size_t-accepted", s);
    }
}

VF_MAIN("C16", "a case is one specification text; non-trivial: at least two listed values; distinct by the text",
        {"dotted", famDotted, 8000, 300000}, {"axis", famAxis, 4000, 200000}, {"time", famTime, 1500, 60000}, {"bad", famBad, 60, 60})
