// Dates, times of the day and their representations as strings.
//@ entry date_calendar max-seconds=150
//@ entry date_ordinal max-seconds=150
//@ entry date_shapes max-seconds=150
//@ entry time_strings max-seconds=150
//@ entry time_shapes max-seconds=150
//@ entry date_time_strings max-seconds=150
//@ entry julian_strings max-seconds=150
//@ entry calendars max-seconds=200
//@ bound All the digits of a time or Julian date (up to 7 digits and 3 decimals); the day and the last digit of the year of a date in each format, for three decades and five months (valid or not); strings of 6 to 12 characters with up to 2 changed, inserted or removed; the numbers of the days for 93 years around the changes of calendar, of century and of sign, each month, each day at the ends of the months and one other.
//@ assume The numbers of the days are computed from the civil calendar by counting the leap years.
#include "vf.h"
#include <cstdint>
#include <optional>
#include <string>
#include "astronomy/date_time.hpp"

using namespace principia::astronomy::_date_time;

namespace {
using Cal = Calendar;

bool leap(int y, bool julian) { return y % 4 == 0 && (julian || y % 100 != 0 || y % 400 == 0); }
int length(int y, int m, bool julian) {
  if (m == 2) return leap(y, julian) ? 29 : 28;
  return m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31;
}
int floor_div(int a, int b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
// The number of days from 0000-03-01 in the same calendar.
int days(int y, int m, int d, bool julian) {
  if (m < 3) { --y; m += 12; }
  int n = 365 * y + floor_div(y, 4);
  if (!julian) n += floor_div(y, 400) - floor_div(y, 100);
  static int const before[] = {0, 31, 61, 92, 122, 153, 184, 214, 245, 275, 306, 337};
  return n + before[m - 3] + d - 1;
}
// The Julian date of noon, as an integer: 2000-01-01 at noon is 2451545, and 1582-10-15 follows the Julian 1582-10-04.
int jdn(int y, int m, int d, bool julian) {
  int const gregorian = 2451545 - days(2000, 1, 1, false);
  if (!julian) return days(y, m, d, false) + gregorian;
  return days(y, m, d, true) + (days(1582, 10, 15, false) + gregorian - 1) - days(1582, 10, 4, true);
}

// Digits.
int digit(char const* name) {
  return static_cast<std::uint8_t>(vf_bits(name, 4)) % 10;
}
std::string two(int a, int b) { std::string s; s.reserve(40); s += static_cast<char>('0' + a); s += static_cast<char>('0' + b); return s; }

void expect(Date const& d, int y, int m, int day, Cal c) {
  vf_check(d.year() == y, "The year");
  vf_check(d.month() == m, "The month");
  vf_check(d.day() == day, "The day");
  vf_check(d.calendar() == c, "The calendar");
}
}  // namespace

// All calendar dates in all the formats.
VF_HARNESS(date_calendar) {
  static int const centuries[] = {4, 15, 20};
  int const century = centuries[vf_choose(3, "century")], y1 = century / 10, y2 = century % 10, y3 = 8, y4 = digit("y4"), d1 = digit("d1"), d2 = digit("d2");
  int const months = vf_choose(5, "month");
  static int const all_months[] = {0, 2, 9, 12, 13};
  int const m1 = all_months[months] / 10, m2 = all_months[months] % 10;
  int const y = 1000 * y1 + 100 * y2 + 10 * y3 + y4, m = 10 * m1 + m2, d = 10 * d1 + d2;
  static int const shapes[][3] = {{0, 0, 0}, {0, 1, 1}, {1, 2, 1}, {2, 2, 0}, {2, 0, 1}, {0, 2, 0}};
  int const shape = vf_choose(6, "shape");
  int const prefix = shapes[shape][0], sign = shapes[shape][1];
  bool const extended = shapes[shape][2];
  std::string s;
  s.reserve(40);
  if (prefix == 1) s += 'J';
  if (prefix == 2) s += 'G';
  if (sign == 1) s += '+';
  if (sign == 2) s += '-';
  s += two(y1, y2) + two(y3, y4);
  if (extended) s += '-';
  s += two(m1, m2);
  if (extended) s += '-';
  s += two(d1, d2);
  int const year = sign == 2 ? -y : y;
  bool const julian = prefix == 1;
  bool const valid = (prefix != 0 || year >= 1583) && m >= 1 && m <= 12 && d >= 1 && d <= length(year, m, julian);
  if (!valid) vf_abort_ok(1);
  Date const date = operator""_Date(s.c_str(), s.size());
  vf_check(valid, "An invalid date is rejected");
  expect(date, year, m, d, julian ? Cal::Julian : Cal::Gregorian);
}

// Dates by ordinal or by week are rejected if they don't exist.
VF_HARNESS(date_ordinal) {
  static int const years[] = {1583, 1600, 1700, 1999, 2000, 2004, 2009, 2015, 2020, 2026, 9999};
  int const y = years[vf_choose(11, "year")];
  bool const extended = vf_choose(2, "extended");
  std::string s = std::to_string(y);
  s.reserve(40);
  // The weekday of January 1st, Monday being 0.
  int const first = jdn(y, 1, 1, false) % 7;
  int const length_of_year = leap(y, false) ? 366 : 365;
  if (vf_choose(2, "week") == 0) {
    int const d1 = vf_choose(5, "d1"), d2 = vf_choose(10, "d2"), d3 = vf_choose(10, "d3");
    int const d = 100 * d1 + 10 * d2 + d3;
    if (extended) s += '-';
    s += static_cast<char>('0' + d1);
    s += two(d2, d3);
    bool const valid = d >= 1 && d <= length_of_year;
    if (!valid) vf_abort_ok(1);
    Date const date = operator""_Date(s.c_str(), s.size());
    vf_check(valid, "An ordinal that doesn't exist is rejected");
    vf_check(date.jd() == jdn(y, 1, 1, false) + d - 1 - 0.5, "The date with an ordinal");
    vf_check(date.year() == y && date.ordinal() == d, "The year and the ordinal");
  } else {
    int const w1 = vf_choose(6, "w1"), w2 = vf_choose(10, "w2"), d = vf_choose(10, "d");
    int const w = 10 * w1 + w2;
    if (extended) s += '-';
    s += 'W';
    s += two(w1, w2);
    if (extended) s += '-';
    s += static_cast<char>('0' + d);
    // The first week is that of January 4th; the last one is that of December 28th.
    int const monday = jdn(y, 1, 4, false) - (first + 3) % 7;
    int const n = monday + 7 * (w - 1) + d - 1;
    bool const valid = w >= 1 && d >= 1 && d <= 7 && monday + 7 * (w - 1) <= jdn(y, 12, 28, false);
    if (!valid) vf_abort_ok(1);
    Date const date = operator""_Date(s.c_str(), s.size());
    vf_check(valid, "A week that doesn't exist is rejected");
    vf_check(date.jd() == n - 0.5, "The date with a week");
  }
}

// Strings that are almost in one of the formats.
VF_HARNESS(date_shapes) {
  static char const* const models[] = {"20040229", "2004-02-29", "2004061", "2004-061", "2004W095", "2004-W09-5"};
  int const model = vf_choose(6, "model");
  std::string s = models[model];
  s.reserve(40);
  // Change some characters.
  static char const alphabet[] = {'0', '1', '-', 'W', 'x'};
  int const n = s.size();
  int const changes = vf_choose(3, "changes");
  for (int i = 0; i < changes; ++i) s[vf_choose(n, "position")] = alphabet[vf_choose(5, "character")];
  switch (vf_choose(3, "size")) {
    case 1: s.pop_back(); break;
    case 2: s.insert(vf_choose(n + 1, "where"), 1, '1'); break;
  }
  // The format.
  int format = -1;
  for (int f = 0; f < 6; ++f) {
    std::string const m = models[f];
    if (m.size() != s.size()) continue;
    bool same = true;
    for (std::size_t i = 0; i < s.size(); ++i) {
      bool const digit = s[i] >= '0' && s[i] <= '9', expected = m[i] >= '0' && m[i] <= '9';
      same &= expected ? digit : s[i] == m[i];
    }
    if (same) format = f;
  }
  // A negative date or one without enough digits is something else.
  if (s[0] == '-') format = -2;
  if (format == -2) return;
  // The other entries cover the dates in one of the formats.
  vf_check(true, "The string has a known shape");
  if (format >= 0) return;
  vf_abort_ok(1);
  operator""_Date(s.c_str(), s.size());
  vf_fail("A string that is not in one of the formats is rejected");
}

namespace {
struct Clock {
  int h, m, s, ms;
  bool valid() const {
    return (h == 24 && m == 0 && s == 0 && ms == 0) || (h == 23 && m == 59 && s == 60) || (h <= 23 && m <= 59 && s <= 59);
  }
};
Clock clock(std::string& s, bool extended, int decimals, char mark, bool symbolic = true) {
  int const h1 = digit("h1"), h2 = digit("h2"), m1 = digit("m1"), m2 = digit("m2"), s1 = digit("s1"), s2 = digit("s2");
  s += two(h1, h2);
  if (extended) s += ':';
  s += two(m1, m2);
  if (extended) s += ':';
  s += two(s1, s2);
  Clock c{10 * h1 + h2, 10 * m1 + m2, 10 * s1 + s2, 0};
  if (decimals > 0) {
    s += mark;
    int scale = 100;
    for (int i = 0; i < decimals; ++i) {
      int const f = digit("f");
      s += static_cast<char>('0' + f);
      c.ms += f * scale;
      scale /= 10;
    }
  }
  return c;
}
void expect(TimeOfDay const& t, Clock const& c) {
  vf_check(t.hour() == c.h, "The hour");
  vf_check(t.minute() == c.m, "The minute");
  vf_check(t.second() == c.s, "The second");
  vf_check(t.millisecond() == c.ms, "The millisecond");
  vf_check(t.is_leap_second() == (c.s == 60), "Whether it is a leap second");
  vf_check(t.is_end_of_day() == (c.h == 24), "Whether it is the end of the day");
}
}  // namespace

VF_HARNESS(time_strings) {
  std::string s;
  s.reserve(40);
  bool const extended = vf_choose(2, "extended");
  int const decimals = vf_choose(5, "decimals");
  Clock const c = clock(s, extended, decimals, vf_choose(2, "mark") ? '.' : ',');
  bool const valid = decimals <= 3 && c.valid();
  if (!valid) vf_abort_ok(1);
  TimeOfDay const t = operator""_Time(s.c_str(), s.size());
  vf_check(valid, "An invalid time is rejected");
  expect(t, c);
}

VF_HARNESS(time_shapes) {
  static char const* const models[] = {"123456", "12:34:56", "123456,7", "12:34:56,7", "123456.789", "12:34:56.789"};
  int const model = vf_choose(6, "model");
  std::string s = models[model];
  s.reserve(40);
  static char const alphabet[] = {'0', ':', ',', '.', 'x'};
  int const n = s.size();
  int const changes = 1 + vf_choose(2, "changes");
  for (int i = 0; i < changes; ++i) s[vf_choose(n, "position")] = alphabet[vf_choose(5, "character")];
  auto const number = [](std::string const& x) {
    for (char c : x) if (c < '0' || c > '9') return false;
    return true;
  };
  // The part before the mark and the one after.
  std::size_t mark = 0;
  while (mark < s.size() && s[mark] != ',' && s[mark] != '.') ++mark;
  std::string const head = s.substr(0, mark), tail = mark == s.size() ? "" : s.substr(mark + 1);
  bool const right_head = (head.size() == 6 && number(head)) ||
                          (head.size() == 8 && number(head.substr(0, 2) + head.substr(3, 2) + head.substr(6, 2)) && head[2] == ':' && head[5] == ':');
  if (right_head && number(tail) && tail.size() <= 3) {
    vf_check(true, "The string is in one of the formats");
    return;
  }
  vf_abort_ok(1);
  operator""_Time(s.c_str(), s.size());
  vf_fail("A string that is not in one of the formats is rejected");
}

VF_HARNESS(date_time_strings) {
  static int const dates[][3] = {{2004, 2, 29}, {2000, 12, 31}, {1999, 6, 30}, {2016, 12, 30}, {1900, 2, 28}};
  int const* const d = dates[vf_choose(5, "date")];
  bool const extended_date = vf_choose(2, "extended_date"), extended_time = vf_choose(2, "extended_time");
  std::string s;
  s.reserve(40);
  s += std::to_string(d[0]);
  if (extended_date) s += '-';
  s += two(d[1] / 10, d[1] % 10);
  if (extended_date) s += '-';
  s += two(d[2] / 10, d[2] % 10);
  s += 'T';
  Clock const c = clock(s, extended_time, vf_choose(2, "decimals"), ',');
  bool const valid = extended_date == extended_time && c.valid() && (c.s != 60 || d[2] == length(d[0], d[1], false));
  if (!valid) vf_abort_ok(1);
  DateTime const t = operator""_DateTime(s.c_str(), s.size());
  vf_check(valid, "An invalid date and time is rejected");
  expect(t.date(), d[0], d[1], d[2], Cal::Gregorian);
  expect(t.time(), c);
  DateTime const n = t.normalized_end_of_day();
  if (c.h == 24) {
    vf_check(n.date().jd() == jdn(d[0], d[1], d[2], false) + 0.5, "The end of a day is the beginning of the next one");
    vf_check(n.time().hour() == 0 && n.time().minute() == 0 && n.time().second() == 0 && n.time().millisecond() == 0, "The time at the beginning of a day");
  } else {
    expect(n.date(), d[0], d[1], d[2], Cal::Gregorian);
    expect(n.time(), c);
  }
  vf_check(n == t, "The end of a day compares equal to the beginning of the next one");
}

VF_HARNESS(julian_strings) {
  int const integers = 1 + vf_choose(7, "integers"), decimals = vf_choose(4, "decimals");
  bool const modified = vf_choose(2, "modified"), mark = decimals > 0;
  std::string s;
  s.reserve(40);
  s += modified ? "MJD" : "JD";
  std::int64_t integer = 0, numerator = 0, denominator = 1;
  for (int i = 0; i < integers; ++i) {
    int const d = digit("d");
    s += static_cast<char>('0' + d);
    integer = 10 * integer + d;
  }
  if (mark) s += '.';
  for (int i = 0; i < decimals; ++i) {
    int const d = digit("f");
    s += static_cast<char>('0' + d);
    numerator = 10 * numerator + d;
    denominator *= 10;
  }
  vf_check(IsJulian(s.c_str(), s.size()), "A Julian date is recognized");
  JulianDate const j = operator""_Julian(s.c_str(), s.size());
  std::int64_t const p = j.fraction_numerator(), q = j.fraction_denominator();
  vf_check(p >= 0 && p < q, "The fraction is less than 1");
  vf_check(q == denominator || q == 10 * denominator, "The denominator");
  std::int64_t const k = q / denominator, j2000 = 2451545;
  if (!modified) {
    vf_check(j.day() == integer - j2000 && p == numerator * k, "The Julian date is that of the string");
  } else if (2 * numerator < denominator) {
    vf_check(j.day() == integer + 2400000 - j2000 && 2 * p == (2 * numerator + denominator) * k, "The modified Julian date is that of the string");
  } else {
    vf_check(j.day() == integer + 2400001 - j2000 && 2 * p == (2 * numerator - denominator) * k, "The modified Julian date is that of the string, in the next Julian day");
  }
}

// The numbers of the days.
VF_HARNESS(calendars) {
  static int const starts[] = {-4712, -405, -301, -201, -101, -5, -1, 3, 99, 1499, 1581, 1699, 1899, 1970, 1999, 2019, 2099, 2399, 9995};
  int const y = starts[vf_choose(19, "start")] + vf_choose(5, "year");
  bool const julian = vf_choose(2, "julian");
  int const m = 1 + vf_choose(12, "month");
  if (!julian && y < -4700) return;  // Before the first Julian day.
  if (y > 9999) return;
  int const l = length(y, m, julian);
  int const candidates[] = {1, 2, 9, l - 1, l};
  int const d = candidates[vf_choose(5, "day")];
  Date const date = Date::Calendar(y, m, d, julian ? Cal::Julian : Cal::Gregorian);
  expect(date, y, m, d, julian ? Cal::Julian : Cal::Gregorian);
  int const n = jdn(y, m, d, julian);
  vf_check(date.jd() == n - 0.5, "The Julian date of midnight");
  vf_check(date.mjd() == n - 2400001, "The modified Julian date");
  vf_check(date.ordinal() == n - jdn(y, 1, 1, julian) + 1, "The ordinal");
  Date const tomorrow = date.next_day();
  vf_check(tomorrow.jd() == n + 0.5 && date < tomorrow && date != tomorrow, "The next day");
  // The proleptic calendar is the Julian one before 1582-10-15.
  Date const same = Date::JD(n - 0.5);
  vf_check(same == date && same.jd() == n - 0.5, "The date is recovered from the Julian date");
  vf_check((same.calendar() == Cal::Gregorian) == (n >= 2299161), "The calendar of a Julian date");
  if (julian == (n < 2299161)) expect(same, y, m, d, julian ? Cal::Julian : Cal::Gregorian);
  Date const ordinal = Date::Ordinal(y, date.ordinal(), julian ? Cal::Julian : Cal::Gregorian);
  vf_check(ordinal == date, "The date with the same ordinal");
  // The strings with an ordinal or a sign.
  std::string s;
  s.reserve(40);
  s += julian ? 'J' : 'G';
  if (y < 0) s += '-';
  int const a = y < 0 ? -y : y, o = date.ordinal();
  s += two(a / 1000, a / 100 % 10) + two(a / 10 % 10, a % 10);
  std::string t = s;
  s += static_cast<char>('0' + o / 100);
  s += two(o / 10 % 10, o % 10);
  vf_check(operator""_Date(s.c_str(), s.size()) == date, "The string with an ordinal");
  t += '-';
  t += two(m / 10, m % 10);
  t += '-';
  t += two(d / 10, d % 10);
  vf_check(operator""_Date(t.c_str(), t.size()) == date, "The string with a month");
}
