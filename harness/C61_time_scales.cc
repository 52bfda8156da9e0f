// The time scales: TT, TAI, UTC, UT1, and those of the satellites.
//@ entry utc_offsets mode=real max-seconds=150
//@ entry utc_fractions mode=real max-seconds=150
//@ entry constant_offsets mode=real max-seconds=150
//@ entry ut1_recent mode=real split max-seconds=150
//@ entry ut1_old mode=real split max-seconds=150
//@ entry ut1_ends mode=real max-seconds=60
//@ entry rotation mode=real split max-seconds=150
//@ entry tt_calendar mode=real max-seconds=150
//@ src $VERIF/rt/elementary.cc
//@ bound The UTC of each day before or after a change of its offset since 1961, with any second of the last or first minute and any millisecond; any UT1 on 15 days since 1962 (including leap seconds), between some of the entries before 1962 and at the junction; any TT in some seconds, at the ends of days.
//@ assume The offsets of UTC are those of the IERS (UTC-TAI.history, TimeSteps.history), written in the harness. The numbers in the tables of UT1 are taken as they are. Real numbers without rounding; the tolerances are 1e-6 s.
#include "vf.h"
#include <array>
#include <cstdint>
#include <string>
#include "astronomy/epoch.hpp"
#include "astronomy/time_scales.hpp"
#include "quantities/si.hpp"

using namespace principia::astronomy::_date_time;
using namespace principia::astronomy::_epoch;
using namespace principia::astronomy::_time_scales;
using namespace principia::geometry::_instant;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
namespace table = principia::astronomy::_time_scales::internal;

namespace principia::geometry::_point::internal {
std::string DebugString(Instant const&) { return ""; }
}  // namespace principia::geometry::_point::internal

namespace {
// The number of days from 2000-01-01.
int days(int y, int m, int d) {
  if (m < 3) { --y; m += 12; }
  return 365 * y + y / 4 - y / 100 + y / 400 + (153 * (m - 3) + 2) / 5 + d - 730426;
}
void civil(int n, int& y, int& m, int& d) {
  for (y = 1955; days(y + 1, 1, 1) <= n; ++y) {}
  for (m = 12; days(y, m, 1) > n; --m) {}
  d = n - days(y, m, 1) + 1;
}

struct Row {
  int y, m;
  double offset;     // TAI - UTC...
  double mjd, rate;  // ... at this MJD, and its rate in seconds per day.
  double leap;       // The length of the leap before, in seconds.
};
Row const rows[] = {
    {1961, 1, 1.422818, 37300, 0.001296, 0},   {1961, 8, 1.372818, 37300, 0.001296, -0.05},
    {1962, 1, 1.845858, 37665, 0.0011232, 0},  {1963, 11, 1.945858, 37665, 0.0011232, 0.1},
    {1964, 1, 3.24013, 38761, 0.001296, 0},    {1964, 4, 3.34013, 38761, 0.001296, 0.1},
    {1964, 9, 3.44013, 38761, 0.001296, 0.1},  {1965, 1, 3.54013, 38761, 0.001296, 0.1},
    {1965, 3, 3.64013, 38761, 0.001296, 0.1},  {1965, 7, 3.74013, 38761, 0.001296, 0.1},
    {1965, 9, 3.84013, 38761, 0.001296, 0.1},  {1966, 1, 4.31317, 39126, 0.002592, 0},
    {1968, 2, 4.21317, 39126, 0.002592, -0.1}, {1972, 1, 10, 0, 0, 0.107758},
    {1972, 7, 11, 0, 0, 1}, {1973, 1, 12, 0, 0, 1}, {1974, 1, 13, 0, 0, 1}, {1975, 1, 14, 0, 0, 1},
    {1976, 1, 15, 0, 0, 1}, {1977, 1, 16, 0, 0, 1}, {1978, 1, 17, 0, 0, 1}, {1979, 1, 18, 0, 0, 1},
    {1980, 1, 19, 0, 0, 1}, {1981, 7, 20, 0, 0, 1}, {1982, 7, 21, 0, 0, 1}, {1983, 7, 22, 0, 0, 1},
    {1985, 7, 23, 0, 0, 1}, {1988, 1, 24, 0, 0, 1}, {1990, 1, 25, 0, 0, 1}, {1991, 1, 26, 0, 0, 1},
    {1992, 7, 27, 0, 0, 1}, {1993, 7, 28, 0, 0, 1}, {1994, 7, 29, 0, 0, 1}, {1996, 1, 30, 0, 0, 1},
    {1997, 7, 31, 0, 0, 1}, {1999, 1, 32, 0, 0, 1}, {2006, 1, 33, 0, 0, 1}, {2009, 1, 34, 0, 0, 1},
    {2012, 7, 35, 0, 0, 1}, {2015, 7, 36, 0, 0, 1}, {2017, 1, 37, 0, 0, 1}};
int const row_count = sizeof(rows) / sizeof(rows[0]);

Row const& row_of(int n) {
  int r = 0;
  while (r + 1 < row_count && days(rows[r + 1].y, rows[r + 1].m, 1) <= n) ++r;
  return rows[r];
}
// The seconds of TAI - UTC, `s` seconds after the beginning of the nth day.
double offset(int n, double s) {
  Row const& r = row_of(n);
  if (r.rate == 0) return r.offset;
  return r.offset + (n + 51544 - r.mjd + s / 86400) * r.rate;
}

std::string number(int a, int width) {
  std::string s;
  for (int i = 0; i < width; ++i, a /= 10) s.insert(s.begin(), static_cast<char>('0' + a % 10));
  return s;
}
std::string date(int n) {
  int y, m, d;
  civil(n, y, m, d);
  return number(y, 4) + "-" + number(m, 2) + "-" + number(d, 2);
}
int digit(char const* name) { return static_cast<std::uint8_t>(vf_bits(name, 4)) % 10; }
double seconds(Instant const& t) { return (t - J2000) / Second; }
void near(double a, double b, char const* id) { vf_near(a, b, 1e-6, id); }

// The days at which something happens: ends and beginnings of rows, and the usual dates of leap seconds.
int event() {
  int const r = vf_choose(row_count + 6, "event");
  static int const others[][2] = {{1972, 4}, {1986, 1}, {2000, 1}, {2016, 7}, {1966, 3}, {2022, 7}};
  return r < row_count ? days(rows[r].y, rows[r].m, 1) : days(others[r - row_count][0], others[r - row_count][1], 1);
}
// The length of the leap before the nth day.
double leap(int n) {
  Row const& r = row_of(n);
  return days(r.y, r.m, 1) == n ? r.leap : 0;
}
}  // namespace

VF_HARNESS(utc_offsets) {
  int const next = event();
  bool const before = next > days(1961, 1, 1) && vf_choose(2, "before");
  int const n = before ? next - 1 : next;
  std::string s = date(n);
  s += "T";
  int const when = vf_choose(4, "when");
  int t = 0;
  if (when == 3) {
    s += "24:00:00";
    t = 86400;
    if (n + 1 >= days(2023, 1, 1)) return;
  } else {
    int const s2 = digit("s2");
    int const s1 = when == 0 ? 0 : when == 1 ? 5 : 6;
    int const hour = when == 0 ? 0 : 23, minute = when == 0 ? 0 : 59;
    s += number(hour, 2) + ":" + number(minute, 2) + ":";
    s += static_cast<char>('0' + s1);
    s += static_cast<char>('0' + s2);
    t = 3600 * hour + 60 * minute + 10 * s1 + s2;
    bool const valid = s1 < 6 || (s2 == 0 && leap(n + 1) > 0);
    if (!valid) vf_abort_ok(1);
    if (!valid) {
      ParseUTC(s);
      vf_fail("A leap second that doesn't exist is rejected");
    }
  }
  Instant const tt = ParseUTC(s);
  double const expected = when == 3 ? 86400.0 * (n + 1) - 43200 + offset(n + 1, 0) : 86400.0 * n - 43200 + t + offset(n, t);
  near(seconds(tt), expected + 32.184, "The TT of a UTC");
}

VF_HARNESS(utc_fractions) {
  int const next = event();
  int const n = next - 1;
  if (n < days(1961, 1, 1)) return;
  int const f1 = digit("f1"), f2 = digit("f2"), f3 = digit("f3"), ms = 100 * f1 + 10 * f2 + f3;
  static int const times[][3] = {{23, 59, 60}, {23, 59, 59}, {23, 59, 30}, {23, 58, 59}, {22, 59, 59}};
  int const* const hms = times[vf_choose(5, "time")];
  std::string s = date(n) + "T" + number(hms[0], 2) + ":" + number(hms[1], 2) + ":" + number(hms[2], 2) + ",";
  s += static_cast<char>('0' + f1);
  s += static_cast<char>('0' + f2);
  s += static_cast<char>('0' + f3);
  double const l = leap(next);
  bool valid = true;
  if (hms[2] == 60) valid = l > 0 && ms < 1000 * l;
  if (hms[0] == 23 && hms[1] == 59 && hms[2] == 59 && l < 0) valid = ms < 1000 + 1000 * l - 0.5;
  if (!valid) {
    vf_abort_ok(1);
    ParseUTC(s);
    vf_fail("A time removed by a leap, or after an added leap, is rejected");
  }
  Instant const tt = ParseUTC(s);
  double const t = 3600 * hms[0] + 60 * hms[1] + hms[2] + ms * 0.001;
  near(seconds(tt), 86400.0 * n - 43200 + t + offset(n, t) + 32.184, "The TT of a UTC");
}

VF_HARNESS(constant_offsets) {
  static int const ns[] = {-15000, -5000, -1, 0, 1, 6000, 8000};
  int const n = ns[vf_choose(7, "day")];
  int const h = vf_choose(3, "h"), h2 = h == 2 ? 3 : digit("h2"), m2 = digit("m2"), s2 = digit("s2");
  std::string s = date(n) + "T";
  s += static_cast<char>('0' + h);
  s += static_cast<char>('0' + h2);
  s += ":4";
  s += static_cast<char>('0' + m2);
  s += ":2";
  s += static_cast<char>('0' + s2);
  double const t = 86400.0 * n - 43200 + 3600 * (10 * h + h2) + 60 * (40 + m2) + 20 + s2;
  near(seconds(ParseTT(s)), t, "TT is the reference");
  near(seconds(ParseTAI(s)), t + 32.184, "TAI is 32.184 s behind TT");
  near(seconds(ParseGPSTime(s)), t + 32.184 + 19, "The time of GPS is 19 s behind TAI");
  near(seconds(Parse北斗Time(s)), t + 32.184 + 33, "The time of BeiDou is 33 s behind TAI");
  // As a Julian date.
  std::string j = "JD245";
  int const j2 = digit("j2"), j3 = digit("j3"), f = digit("f");
  j += static_cast<char>('0' + j2);
  j += "54";
  j += static_cast<char>('0' + j3);
  j += ".";
  j += static_cast<char>('0' + f);
  j += "5";
  double const jd = 1000 * j2 + 540 + j3 + 0.1 * f + 0.05 - 1545;
  vf_near(seconds(ParseTT(j)) / 86400, jd, 1e-9, "TT as a Julian date");
  vf_near(seconds(ParseTAI(j)) / 86400, jd + 32.184 / 86400, 1e-9, "TAI as a Julian date");
}

namespace {
// The entry for the nth day.
int entry(int n) {
  int y, m, d;
  civil(n, y, m, d);
  int const i = n - days(1962, 1, 1);
  vf_check(table::eop_c04[i].utc_date == 10000 * y + 100 * m + d, "The entries of the table are consecutive days");
  return i;
}
double ut1(int n, int i) { return 86400.0 * n - 43200 + table::eop_c04[i].ut1_minus_utc / Second; }
double tt(int n) { return 86400.0 * n - 43200 + offset(n, 0) + 32.184; }
int some_day() {
  static int const dates[][3] = {{1962, 1, 1},   {1963, 10, 31}, {1965, 6, 30}, {1968, 1, 31}, {1971, 12, 31},
                                 {1972, 1, 1},   {1972, 6, 30},  {1979, 7, 7},  {1999, 12, 31}, {2000, 1, 1},
                                 {2012, 6, 30}, {2016, 12, 31}, {2017, 1, 1},  {2020, 2, 29}, {2022, 6, 6}};
  int const* const d = dates[vf_choose(15, "date")];
  return days(d[0], d[1], d[2]);
}
}  // namespace

VF_HARNESS(ut1_recent) {
  int const n = some_day(), i = entry(n), j = entry(n + 1);
  double const a = ut1(n, i), b = ut1(n + 1, j);
  double const λ = vf_real("lambda", 0, 1);
  // Away from the end, which is excluded.
  if (n == days(2022, 6, 6)) vf_assume(λ <= 0.999);
  double const u = a + λ * (b - a);
  Instant const t = table::FromUT1(u * Second);
  near(seconds(t), tt(n) + λ * (tt(n + 1) - tt(n)), "TT is interpolated between the entries of the table");
}

VF_HARNESS(ut1_old) {
  auto const& c02 = table::experimental_eop_c02;
  auto const mjd = [](double x) { return 86400 * (x - 51544.5); };
  static int const is[] = {0, 1, 7, 350, 400, 468, 469, 470};
  int const i = is[vf_choose(8, "entry")];
  double const λ = vf_real("lambda", 0, 1);
  double const first = mjd(37665) + table::eop_c04[0].ut1_minus_utc / Second;
  double const a = mjd(c02[i].ut1_mjd);
  double const b = mjd(c02[i + 1].ut1_mjd);
  double const y = mjd(c02[i].ut1_mjd) - c02[i].ut1_minus_tai / Second, z = mjd(c02[i + 1].ut1_mjd) - c02[i + 1].ut1_minus_tai / Second;
  double u, expected;
  if (b <= first) {
    u = a + λ * (b - a);
    expected = y + λ * (z - y) + 32.184;
  } else {
    vf_assume(a < first);
    u = a + λ * (first - a);
    expected = y + 32.184 + λ * (tt(days(1962, 1, 1)) - y - 32.184);
  }
  near(seconds(table::FromUT1(u * Second)), expected, "TT is interpolated between the entries of the old table or to the first of the new one");
}

VF_HARNESS(ut1_ends) {
  vf_check(table::eop_c04.size() == static_cast<std::size_t>(days(2022, 6, 7) - days(1962, 1, 1) + 1), "The size of the table");
  double const x = vf_real("x", 0.01, 1000);
  vf_check(true, "The table ends where expected");
  vf_abort_ok(1);
  int const which = vf_choose(3, "which");
  double const end = ut1(days(2022, 6, 7), entry(days(2022, 6, 7)));
  if (which == 0) table::FromUT1((end + x) * Second);
  if (which == 1) EarthRotationAngle(J2000 + (tt(days(2022, 6, 7)) + x) * Second);
  if (which == 2) EarthRotationAngle(J2000 + (tt(days(1962, 1, 1)) - x) * Second);
  vf_fail("A time outside of the table is rejected");
}

VF_HARNESS(rotation) {
  int const n = some_day(), i = entry(n), j = entry(n + 1);
  double const λ = vf_real("lambda", 0, 1);
  if (n == days(2022, 6, 6)) vf_assume(λ <= 0.999);
  double const t = tt(n) + λ * (tt(n + 1) - tt(n));
  double const angle = EarthRotationAngle(J2000 + t * Second) / Radian;
  // UT1 - UTC at the end of the day, counted in the same UTC without leap.
  double const a = ut1(n, i), b = ut1(n + 1, j);
  double const u = (a + λ * (b - a)) / 86400;
  // The whole rotations don't matter.
  double const turns = 0.7790572732640 + 1.00273781191135448 * u;
  double const difference = angle / (2 * 3.14159265358979323846) - turns + n;
  bool same = false;
  for (int k = -2; k <= 2; ++k) same = same || (difference - k < 1e-7 && difference - k > -1e-7);
  vf_check(same, "The Earth rotation angle is linear in UT1");
}

VF_HARNESS(tt_calendar) {
  static int const ns[] = {-15000, -1, 0, 1, 366, 8000};
  int const n = ns[vf_choose(6, "day")];
  static int const times[] = {0, 1, 43199, 43200, 43201, 3599, 3600, 86399, 45296};
  int const s = times[vf_choose(9, "second")];
  double const x = vf_real("x", 0, 1);
  vf_assume(x < 1);
  Instant const t = J2000 + (86400.0 * n - 43200 + s + x) * Second;
  int y, m, d;
  civil(n, y, m, d);
  Date const day = TTDay(t);
  vf_check(day.year() == y && day.month() == m && day.day() == d, "The day in TT");
  DateTime const second = TTSecond(t);
  vf_check(second.date() == day, "The day of the second");
  vf_check(second.time().hour() == s / 3600 && second.time().minute() == s / 60 % 60 && second.time().second() == s % 60 && second.time().millisecond() == 0, "The second in TT");
}
