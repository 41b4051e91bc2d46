// C15: time conversions. Oracle: own proleptic-Gregorian day arithmetic (no library calendar code).
#include "vfx.h"
#include <fimex/FimexTime.h>
#include <fimex/TimeUnit.h>
#include <fimex/TimeUtils.h>
#include <fimex/Units.h>
using namespace vf;

static long daysCivil(long y, int m, int d)
{
    static const int cum[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
    auto leap = [](long yy) { return (yy % 4 == 0 && yy % 100 != 0) || yy % 400 == 0; };
    auto before = [](long yy) { long p = yy - 1; return p * 365 + p / 4 - p / 100 + p / 400; }; // days before Jan 1 of yy (yy>=1)
    return before(y) - before(1970) + cum[m - 1] + (m > 2 && leap(y) ? 1 : 0) + (d - 1);
}
struct T { int y, mo, d, h, mi, s, ms; };
static double epoch(const T& t) { return daysCivil(t.y, t.mo, t.d) * 86400.0 + t.h * 3600 + t.mi * 60 + t.s + t.ms / 1000.0; }
static int mdays(int y, int m)
{
    static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    if (m == 2 && ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0)) return 29;
    return n[m - 1];
}
static T randT(Rng& r, int ylo = 1600, int yhi = 4000)
{
    T t;
    t.y = r.chance(0.7) ? r.range(1850, 2150) : r.range(ylo, yhi);
    if (r.chance(0.15)) t.y = r.pick({1700, 1800, 1900, 2000, 2100, 1904, 2024, 1970, 1969, 2400});
    t.mo = r.range(1, 12);
    t.d = r.range(1, mdays(t.y, t.mo));
    if (r.chance(0.15)) { t.mo = 2; t.d = mdays(t.y, 2); }
    if (r.chance(0.1)) { t.mo = 12; t.d = 31; }
    t.h = r.chance(0.2) ? r.pick({0, 23}) : r.range(0, 23);
    t.mi = r.chance(0.2) ? r.pick({0, 59}) : r.range(0, 59);
    t.s = r.chance(0.3) ? r.pick({0, 59}) : r.range(0, 59);
    t.ms = r.chance(0.5) ? 0 : r.range(1, 999);
    return t;
}
static FimexTime ft(const T& t) { return FimexTime(t.y, t.mo, t.d, t.h, t.mi, t.s, t.ms); }
static T un(const FimexTime& f) { return T{f.getYear(), (unsigned char)f.getMonth(), (unsigned char)f.getMDay(), (unsigned char)f.getHour(), (unsigned char)f.getMinute(), (unsigned char)f.getSecond(), f.getMSecond()}; }
static std::string str(const T& t) { char b[64]; snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d.%03d", t.y, t.mo, t.d, t.h, t.mi, t.s, t.ms); return b; }
static bool valid(const T& t) { return t.mo >= 1 && t.mo <= 12 && t.d >= 1 && t.d <= mdays(t.y, t.mo) && t.h <= 23 && t.mi <= 59 && t.s <= 59 && t.ms <= 999; }

struct U { std::string name; double sec; };
static const std::vector<U> UN = {{"seconds", 1}, {"minutes", 60}, {"hours", 3600}, {"days", 86400}, {"weeks", 7 * 86400}, {"milliseconds", 1e-3}, {"second", 1}, {"hour", 3600}, {"day", 86400}, {"min", 60}, {"h", 3600}, {"s", 1}, {"6 hours", 21600}};

static void famUnit(Ctx& c)
{
    const U u = c.r.pick(UN);
    T ref = randT(c.r);
    ref.ms = 0;
    char b[128];
    double tz = 0;
    std::string tzs;
    if (c.r.chance(0.25)) { tz = c.r.range(-12, 12) * 3600; snprintf(b, sizeof b, " %+03d:00", (int)(tz / 3600)); tzs = b; }
    else if (c.r.chance(0.2)) tzs = c.r.pick({" +00:00", " UTC", "Z"});
    snprintf(b, sizeof b, "%s since %04d-%02d-%02d %02d:%02d:%02d", u.name.c_str(), ref.y, ref.mo, ref.d, ref.h, ref.mi, ref.s);
    const std::string us = b + tzs;
    const double refE = epoch(ref) - tz;
    T t = randT(c.r);
    const double e = epoch(t);
    const double val = (e - refE) / u.sec;
    c.d << us << " time " << str(t) << " unit value " << val;
    c.sig(us).sig(str(t));
    TimeUnit tu(us);
    // double precision available for this magnitude
    const double span = std::max({std::fabs(e - refE), std::fabs(e), std::fabs(refE), 7e10}); // udunits works relative to 2001
    const double ulp = span * 4.5e-16;
    const double secTol = 4 * ulp + 1e-6;
    VCHECK(c, std::fabs(tu.unitTime2epochSeconds(val) - e) <= secTol, "unit:to-epoch", "got " << tu.unitTime2epochSeconds(val) << " expected " << e);
    VCHECK(c, std::fabs(tu.epochSeconds2unitTime(e) - val) * u.sec <= secTol, "unit:from-epoch", "got " << tu.epochSeconds2unitTime(e) << " expected " << val);
    const double cal = tu.fimexTime2unitTime(ft(t));
    // milliseconds travel through a float
    VCHECK(c, std::fabs(cal - val) * u.sec <= secTol + 1e-5, "unit:from-calendar", "got " << cal << " expected " << val);
    const T back = un(tu.unitTime2fimexTime(val));
    VCHECK(c, valid(back), "unit:to-calendar-invalid", str(back));
    VCHECK(c, std::fabs(epoch(back) - e) <= secTol + 0.6e-3, "unit:to-calendar", "got " << str(back) << " expected " << str(t));
    const T back2 = un(tu.unitTime2fimexTime(cal));
    VCHECK(c, std::fabs(epoch(back2) - e) <= secTol + 0.6e-3, "unit:calendar-roundtrip", "got " << str(back2) << " expected " << str(t));
    if (t.ms == 0) {
        const long es = fimexTime2epochTime(ft(t));
        VCHECK(c, es == (long)e, "unit:epochTime", "got " << es << " expected " << (long)e);
    }
    c.cnt("conversions", 6);
    // monotone
    const double v2 = val + c.r.uni(1, 1e6) / u.sec;
    VCHECK(c, tu.unitTime2fimexTime(val) < tu.unitTime2fimexTime(v2), "unit:monotone", val << " " << v2);
}

static void famIso(Ctx& c)
{
    const T t = randT(c.r, 1, 9999);
    c.d << str(t);
    c.sig(str(t));
    // text forms
    const std::string ext = make_time_string_extended(ft(t));
    FimexTime p;
    VCHECK(c, p.parseISO8601(ext) && p == ft(t), "iso:roundtrip", "text " << ext << " parsed " << str(un(p)));
    std::ostringstream o;
    o << ft(t);
    VCHECK(c, o.str() == ext, "iso:stream", o.str() << " vs " << ext);
    char b[96];
    T q = t;
    const int form = c.r.below(5);
    switch (form) {
    case 0: snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d.%03d", t.y, t.mo, t.d, t.h, t.mi, t.s, t.ms); break;
    case 1: snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d", t.y, t.mo, t.d, t.h, t.mi, t.s); q.ms = 0; break;
    case 2: snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d", t.y, t.mo, t.d, t.h, t.mi); q.ms = q.s = 0; break;
    case 3: snprintf(b, sizeof b, "%04d-%02d-%02d", t.y, t.mo, t.d); q.ms = q.s = q.mi = q.h = 0; break;
    default: snprintf(b, sizeof b, "  %04d-%02d-%02dT%02d:%02d:%02d.%01d ", t.y, t.mo, t.d, t.h, t.mi, t.s, t.ms / 100); q.ms = t.ms / 100 * 100;
    }
    FimexTime p2;
    VCHECK(c, p2.parseISO8601(b), "iso:rejected", b);
    VCHECK(c, p2 == ft(q), "iso:parsed", "'" << b << "' parsed " << str(un(p2)) << " expected " << str(q));
    c.sig(form);
    // time_point
    T w = t;
    w.ms = 0;
    if (t.y >= 1600) {
        const time_point tp = asTimePoint(ft(w));
        VCHECK(c, (double)timePoint2epochTime(tp) == epoch(w), "iso:timepoint", timePoint2epochTime(tp) << " vs " << epoch(w));
        VCHECK(c, fromTimePoint(tp) == ft(w), "iso:timepoint-roundtrip", str(un(fromTimePoint(tp))));
        VCHECK(c, make_time_from_timet((long)epoch(w)) == tp, "iso:timet", "");
        VCHECK(c, make_time_point(w.y, w.mo, w.d, w.h, w.mi, w.s) == tp, "iso:make", "");
        VCHECK(c, make_time_string_extended(tp) == str(w).substr(0, 19), "iso:tp-text", make_time_string_extended(tp));
        snprintf(b, sizeof b, "%04d%02d%02dT%02d%02d%02d", w.y, w.mo, w.d, w.h, w.mi, w.s);
        VCHECK(c, make_time_string(tp) == b, "iso:tp-short", make_time_string(tp));
        VCHECK(c, make_time_string(ft(w)) == b, "iso:ft-short", make_time_string(ft(w)));
        VCHECK(c, make_time_from_string(make_time_string_extended(tp)) == tp, "iso:tp-parse", "");
    }
    VCHECK(c, !ft(t).invalid(), "iso:invalid-flag", "");
    c.cnt("texts", 2);
}

static void famOrder(Ctx& c)
{
    T a = randT(c.r), b = randT(c.r);
    // make near pairs differing in exactly one component (or equal)
    const int k = c.r.below(9);
    if (k < 8) {
        b = a;
        switch (k) {
        case 0: b.y = c.r.range(1600, 4000); break;
        case 1: b.mo = c.r.range(1, 12); break;
        case 2: b.d = c.r.range(1, 28); break;
        case 3: b.h = c.r.range(0, 23); break;
        case 4: b.mi = c.r.range(0, 59); break;
        case 5: b.s = c.r.range(0, 59); break;
        case 6: b.ms = c.r.range(0, 999); break;
        default: break;
        }
        b.d = std::min(b.d, mdays(b.y, b.mo));
    }
    c.d << str(a) << " vs " << str(b);
    c.sig(str(a)).sig(str(b));
    const double ea = epoch(a), eb = epoch(b);
    const FimexTime A = ft(a), B = ft(b);
    const bool eq = str(a) == str(b);
    VCHECK(c, (A == B) == eq && (A != B) == !eq, "order:eq", "");
    VCHECK(c, (A < B) == (!eq && ea < eb), "order:lt", "");
    VCHECK(c, (A > B) == (!eq && ea > eb), "order:gt", "");
    VCHECK(c, (A <= B) == (eq || ea < eb), "order:le", "");
    VCHECK(c, (A >= B) == (eq || ea > eb), "order:ge", "");
    VCHECK(c, FimexTime::fromEncoded(A.toEncoded()) == A, "order:encode", "");
    VCHECK(c, FimexTime(FimexTime::min_date_time) < A && A < FimexTime(FimexTime::max_date_time), "order:special", "");
}

static void famBad(Ctx& c)
{
    T t = randT(c.r);
    char b[128];
    const int k = c.r.below(16);
    std::string s;
    switch (k) {
    case 0: t.mo = c.r.pick({0, 13, 14, 99, 256 + 3}); break;
    case 1: t.d = c.r.pick({0, 32, 33, 99, 256 + 3}); break;
    case 2: t.h = c.r.pick({25, 30, 99, 256 + 3}); break;
    case 3: t.mi = c.r.pick({60, 61, 99, 256 + 3}); break;
    case 4: t.s = c.r.pick({61, 62, 99, 256 + 3}); break;
    case 5: t.y = c.r.pick({65536 + 2000, 100000}); break;
    case 6: s = ""; break;
    case 7: s = "   "; break;
    case 8: s = c.r.pick({"hello", "2001", "2001-02", "2001-02-aa", "20010203", "2001-02-03Tab:cd", "2001-02-03T", "12:30:00 foo bar", "2001-02-03 12", "2001-02-03 12:xx:00", "2001/02/03", "2001-02-03 12:30:00 extra"}); break;
    default: {
        // mutate one character of a valid text to a letter
        snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", t.y, t.mo, t.d, t.h, t.mi, t.s);
        s = b;
        size_t p = c.r.below(s.size());
        while (!isdigit(s[p])) p = c.r.below(s.size());
        s[p] = c.r.pick({'a', 'x', '?', '+', 'g', '#'});
    }
    }
    if (k < 6) {
        snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d", t.y, t.mo, t.d, t.h, t.mi, t.s);
        s = b;
    }
    c.d << "'" << s << "'";
    bool rejected = false;
    FimexTime f;
    try {
        rejected = !f.parseISO8601(s);
    } catch (std::exception&) {
        rejected = true;
    }
    VCHECK(c, rejected, "bad:accepted", "'" << s << "' accepted as " << str(un(f)));
    VCHECK(c, throws([&] { string2FimexTime(s); }), "bad:no-exception", s);
    c.cnt("rejected");
    if (c.idx % 4 == 0) {
        const std::string u = c.r.pick({"m", "hours", "K", "kg m-2", "hours since", "foo since 1970-01-01", "hours since 1970-13-01 00:00:00", "", "parsec since yesterday"});
        if (u == "hours since 1970-13-01 00:00:00") return; // left to udunits
        VCHECK(c, throws([&] { TimeUnit x(u); }), "bad:unit-accepted", u);
    }
    // invalid times
    TimeUnit tu("hours since 2000-01-01 00:00:00");
    VCHECK(c, std::isnan(tu.fimexTime2unitTime(FimexTime(2000, 13, 1))), "bad:invalid-nan", "");
    VCHECK(c, tu.fimexTime2unitTime(FimexTime(2000, 0, 1), -7.) == -7., "bad:invalid-value", "");
    VCHECK(c, tu.fimexTime2unitTime(FimexTime(FimexTime::min_date_time)) < -1e300 && tu.fimexTime2unitTime(FimexTime(FimexTime::max_date_time)) > 1e300, "bad:special", "");
    VCHECK(c, is_invalid_time_point(make_invalid_time_point()) && is_invalid_time_point(asTimePoint(FimexTime(2000, 13, 1))), "bad:tp", "");
}

VF_MAIN("C15", "a case is a (unit,reference,instant) triple, a text form, an ordered pair or a malformed text; non-trivial: all; distinct by the texts involved",
        {"unit", famUnit, 6000, 300000}, {"iso", famIso, 6000, 300000}, {"order", famOrder, 6000, 300000}, {"bad", famBad, 3000, 100000})
