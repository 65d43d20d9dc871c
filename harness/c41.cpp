#include "pbt.h"
#include <cmath>
#include <stdlib.h>
#include <time.h>
#include <system/time_util.h>
using namespace pbt;
using namespace pfi::system::time;
typedef __int128 I;
// proleptic Gregorian calendar from day numbers
static int64_t days(int64_t y, int m, int d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; int64_t yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
static bool leap(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int mdays(int64_t y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : d[m - 1]; }
struct F { int64_t y; int mo, d, h, mi, s, wd, yd; };
static F civil(int64_t t) {   // t: seconds of local time
  int64_t z = t / 86400, r = t % 86400; if (r < 0) { r += 86400; z--; } F f; f.h = (int)(r / 3600); f.mi = (int)(r / 60 % 60); f.s = (int)(r % 60); f.wd = (int)(((z + 4) % 7 + 7) % 7);
  int64_t y = 1970 + z / 366; if (z < 0) y -= 2; while (days(y + 1, 1, 1) <= z) y++; while (days(y, 1, 1) > z) y--; f.y = y; f.yd = (int)(z - days(y, 1, 1)); int m = 1, d = f.yd; while (d >= mdays(y, m)) { d -= mdays(y, m); m++; } f.mo = m; f.d = d + 1; return f;
}
static int64_t local(const F &f) { return days(f.y, f.mo, f.d) * 86400 + f.h * 3600 + f.mi * 60 + f.s; }
// zones as POSIX rules, so the oracle knows them without the system's tables
struct Z { const char *tz; int std, dst; int m1, w1, h1, m2, w2, h2; };
static const Z zones[] = {{"UTC0", 0, 0, 0, 0, 0, 0, 0, 0}, {"JST-9", 9 * 3600, 9 * 3600, 0, 0, 0, 0, 0, 0}, {"NPT-5:45", 20700, 20700, 0, 0, 0, 0, 0, 0}, {"XST12", -43200, -43200, 0, 0, 0, 0, 0, 0},
  {"EST5EDT,M3.2.0/2,M11.1.0/2", -18000, -14400, 3, 2, 2, 11, 1, 2}, {"CET-1CEST,M3.5.0/2,M10.5.0/3", 3600, 7200, 3, 5, 2, 10, 5, 3}, {"AEST-10AEDT,M10.1.0/2,M4.1.0/3", 36000, 39600, 10, 1, 2, 4, 1, 3}, {"NST3:30NDT,M3.2.0/2,M11.1.0/2", -12600, -9000, 3, 2, 2, 11, 1, 2}};
static int64_t sunday(int64_t y, int m, int w) { int64_t d = days(y, m, 1); int wd = (int)(((d + 4) % 7 + 7) % 7); int64_t x = d + (7 - wd) % 7 + (w - 1) * 7; while (x >= d + mdays(y, m)) x -= 7; return x; }
static int offset(const Z &z, int64_t t, bool &dst) {
  dst = false; if (!z.m1) return z.std; int64_t y = civil(t + z.std).y; int64_t on = sunday(y, z.m1, z.w1) * 86400 + z.h1 * 3600 - z.std, off = sunday(y, z.m2, z.w2) * 86400 + z.h2 * 3600 - z.dst;
  dst = on < off ? (t >= on && t < off) : (t >= on || t < off); return dst ? z.dst : z.std;
}
static const Z &zone(Src &s, Ctx &c) { const Z &z = zones[s.choose(sizeof zones / sizeof *zones)]; setenv("TZ", z.tz, 1); tzset(); NOTE("zone " << z.tz); if (z.m1) c.label("zone with daylight saving time"); return z; }
static int64_t instant(Src &s, const Z &z) {
  switch (s.choose(5)) {
    case 0: return (int64_t)s.uedge(32); case 1: return (int64_t)s.choose(253402300800ull);   // year 9999
    case 2: { int64_t y = 1971 + s.choose(2200); int64_t t = days(y, 1 + (int)s.choose(12), 1) * 86400 - z.std; return t + s.range(-2, 2); }   // month and year boundaries
    case 3: if (z.m1) { int64_t y = 1971 + s.choose(200); int64_t t = s.coin() ? sunday(y, z.m1, z.w1) * 86400 + z.h1 * 3600 - z.std : sunday(y, z.m2, z.w2) * 86400 + z.h2 * 3600 - z.dst; return t + s.range(-2, 2) * s.pick<int64_t>({1, 1800, 3600, 3599}); } return (int64_t)s.uedge(31);
    default: return days(1972 + 4 * (int64_t)s.choose(500), 2, 28) * 86400 + s.range(0, 3 * 86400) - z.std;
  }
}
static void calendar(Src &s, Ctx &c) {
  const Z &z = zone(s, c); int64_t t = instant(s, z); int us = (int)s.pick<int64_t>({0, 1, 999999, s.range(0, 999999)}); NOTE("time " << t << "." << us); c.nt(t > 86400);
  bool dst; int off = offset(z, t, dst); F f = civil(t + off); calendar_time k((clock_time((uint64_t)t, us)));
#define EQ(a, b) CHECK((int64_t)(a) == (int64_t)(b), #a " is " << (a) << ", not " << (b) << " (" << z.tz << ")")
  EQ(k.year, f.y); EQ(k.mon, f.mo); EQ(k.mday, f.d); EQ(k.hour, f.h); EQ(k.min, f.mi); EQ(k.sec, f.s); EQ(k.usec, us); EQ(k.wday, f.wd); EQ(k.yday, f.yd); EQ(k.isdst, dst);
  clock_time b(k); CHECK((int64_t)b.sec == t && b.usec == us, "converted back to " << (int64_t)b.sec << "." << b.usec << " instead of " << t << "." << us << " in " << z.tz);
}
static void fields(Src &s, Ctx &c) {
  const Z &z = zone(s, c); F f; f.y = s.coin() ? 1971 + s.choose(100) : 1971 + s.choose(1000); f.mo = 1 + (int)s.choose(12); f.d = s.coin(1, 3) ? mdays(f.y, f.mo) : 1 + (int)s.choose(mdays(f.y, f.mo)); f.h = (int)s.choose(24); f.mi = (int)s.choose(60); f.s = (int)s.choose(60); int us = (int)s.pick<int64_t>({0, 1, 999999, s.range(0, 999999)});
  if (z.m1 && s.coin(1, 3)) { bool on = s.coin(); F q = civil(sunday(f.y, on ? z.m1 : z.m2, on ? z.w1 : z.w2) * 86400); f.mo = q.mo; f.d = q.d; f.h = (int)s.choose(5); }
  int nargs = s.coin(1, 4) ? (int)s.choose(4) : 4; if (nargs < 4) us = 0; if (nargs < 3) f.s = 0; if (nargs < 2) f.mi = 0; if (nargs < 1) f.h = 0;
  int64_t l = local(f); bool d1, d2; bool asstd = offset(z, l - z.std, d1) == z.std, asdst = offset(z, l - z.dst, d2) == z.dst; if (!asstd && !asdst) { c.label("no such local time"); return; } F w = civil(l); NOTE(f.y << "-" << f.mo << "-" << f.d << " " << f.h << ":" << f.mi << ":" << f.s << "." << us); c.nt(); if (asstd && asdst && z.m1) c.label("ambiguous local time");
  char dirty[sizeof(calendar_time)]; memset(dirty, (int)s.choose(256), sizeof dirty); calendar_time *p = reinterpret_cast<calendar_time *>(dirty);
  switch (nargs) { case 0: p = new (dirty) calendar_time((int)f.y, f.mo, f.d); break; case 1: p = new (dirty) calendar_time((int)f.y, f.mo, f.d, f.h); break; case 2: p = new (dirty) calendar_time((int)f.y, f.mo, f.d, f.h, f.mi); break; case 3: p = new (dirty) calendar_time((int)f.y, f.mo, f.d, f.h, f.mi, f.s); break; default: p = new (dirty) calendar_time((int)f.y, f.mo, f.d, f.h, f.mi, f.s, us); }
  calendar_time &k = *p; EQ(k.year, f.y); EQ(k.mon, f.mo); EQ(k.mday, f.d); EQ(k.hour, f.h); EQ(k.min, f.mi); EQ(k.sec, f.s); EQ(k.usec, us); EQ(k.wday, w.wd); EQ(k.yday, w.yd);
  clock_time t(k); bool ok = ((int64_t)t.sec == l - z.std && asstd) || ((int64_t)t.sec == l - z.dst && asdst); CHECK(ok && t.usec == us, "is the time " << (int64_t)t.sec << "." << t.usec << ", local " << l << " in " << z.tz); bool dd; offset(z, (int64_t)t.sec, dd); EQ(k.isdst, dd);
}
static void arithmetic(Src &s, Ctx &c) {
  struct M { uint64_t sec; int us; }; std::vector<clock_time> v; std::vector<M> m; size_t n = 2 + s.choose(3);
  for (size_t i = 0; i < n; i++) { uint64_t a = s.uedge(40); int u = (int)s.pick<int64_t>({0, 1, 500000, 999999, s.range(0, 999999)}); v.push_back(clock_time(a, u)); m.push_back({a, u}); }
  size_t ops = 1 + s.size(12); c.nt(ops > 1);
  auto same = [&](const clock_time &t, const M &w, const char *what) { CHECK(t.sec == w.sec && t.usec == w.us, what << " is " << (int64_t)t.sec << "s " << t.usec << "us, not " << (int64_t)w.sec << "s " << w.us << "us"); };
  for (size_t k = 0; k < ops; k++) {
    size_t i = s.choose(n), j = s.choose(n); bool sub = s.coin(), as = s.coin(); int u = sub ? m[i].us - m[j].us : m[i].us + m[j].us; uint64_t x = sub ? m[i].sec - m[j].sec : m[i].sec + m[j].sec; if (u < 0) { u += 1000000; x--; } if (u >= 1000000) { u -= 1000000; x++; } M w{x, u}; NOTE("v" << i << (sub ? " -" : " +") << (as ? "= v" : " v") << j);
    if (as) { clock_time &r = sub ? v[i] -= v[j] : v[i] += v[j]; CHECK(&r == &v[i], "compound assignment returns another object"); m[i] = w; } else { clock_time r = sub ? v[i] - v[j] : v[i] + v[j]; same(r, w, sub ? "difference" : "sum"); }
    for (size_t q = 0; q < n; q++) same(v[q], m[q], "value");
    bool lt = m[i].sec < m[j].sec || (m[i].sec == m[j].sec && m[i].us < m[j].us); CHECK((v[i] < v[j]) == lt, "ordering of v" << i << " and v" << j);
    double d = (double)v[i], e = (double)m[i].sec + m[i].us * 1e-6; CHECK(d == e || std::abs(d - e) <= std::abs(e) * 1e-15, "as seconds: " << d);
  }
  // operands that are not normalised
  int a = (int)s.range(-3000000, 3000000), b = (int)s.range(-3000000, 3000000); uint64_t p = 1000 + s.choose(1000), q = s.choose(900); bool sub = s.coin(); clock_time r = sub ? clock_time(p, a) - clock_time(q, b) : clock_time(p, a) + clock_time(q, b); int64_t tot = (sub ? (int64_t)p - (int64_t)q : (int64_t)p + (int64_t)q) * 1000000 + (sub ? a - b : a + b); CHECK(r.usec >= 0 && r.usec < 1000000, "microseconds are " << r.usec); CHECK((int64_t)r.sec * 1000000 + r.usec == tot, "total is " << (int64_t)r.sec << "s " << r.usec << "us, not " << tot << "us");
  clock_time n1 = get_clock_time(); timespec ts; clock_gettime(CLOCK_REALTIME, &ts); CHECK(n1.usec >= 0 && n1.usec < 1000000 && std::llabs((int64_t)n1.sec - (int64_t)ts.tv_sec) <= 2, "current time is " << n1.sec << "." << n1.usec);
}
Suite pbt::suite() {
  Suite u; u.property = "C41";
  u.rule = "Instants from 1970 to 9999 (biased to month, year, leap-day and daylight-saving boundaries) in eight zones given as POSIX rules, compared with an independent Gregorian/zone-rule calculation and converted back; local date fields with 3 to 7 arguments built in memory with arbitrary previous contents; sequences of clock-time additions and subtractions against integer microseconds. Non-trivial: instant after the first day / existing local time / more than one operation.";
  u.props = {{"calendar", calendar, 60000, 1000000, false}, {"fields", fields, 60000, 1000000, false}, {"arithmetic", arithmetic, 60000, 1000000, false}};
  u.assumptions = {"times from 1970 on", "seconds are unsigned 64-bit, so differences below zero are modulo 2^64", "of an ambiguous local time either instant is accepted"};
  return u;
}
