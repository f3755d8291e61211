// C35: timestamps as dates and as text, both ways, against an independent calendar written here.
#include "bricks/time/chrono.h"
#include "bricks/strings/time.h"

#include <cstdlib>
#include <set>

#include "enum.h"

using std::string;
using us_t = std::chrono::microseconds;

namespace {
void Sure(bool b, const char* sig, const string& on) {
  if (!b) en::Violation(sig, on);
}
struct Civil { int y, m, d, hh, mm, ss, wd, yd; };
bool Leap(int y) { return (y % 4 == 0 && y % 100) || y % 400 == 0; }
int DaysIn(int y, int m) {
  static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && Leap(y) ? 29 : n[m - 1];
}
// By counting, for it to be beyond doubt. The days of the starts of the years are counted once.
const std::vector<int64_t>& YearStarts() {  // From 1970.
  static const std::vector<int64_t> v = []() {
    std::vector<int64_t> r;
    int64_t d = 0;
    for (int y = 1970; y <= 2201; ++y) {
      r.push_back(d);
      d += Leap(y) ? 366 : 365;
    }
    return r;
  }();
  return v;
}
Civil FromSeconds(int64_t s) {
  Civil c;
  int64_t day = s / 86400;
  const int64_t left = s % 86400;
  c.hh = static_cast<int>(left / 3600);
  c.mm = static_cast<int>(left / 60 % 60);
  c.ss = static_cast<int>(left % 60);
  c.wd = static_cast<int>((day + 4) % 7);  // Jan 1, 1970 was a Thursday.
  size_t i = 0;
  while (YearStarts()[i + 1] <= day) ++i;
  c.y = 1970 + static_cast<int>(i);
  day -= YearStarts()[i];
  c.yd = static_cast<int>(day);
  c.m = 1;
  while (day >= DaysIn(c.y, c.m)) day -= DaysIn(c.y, c.m++);
  c.d = static_cast<int>(day) + 1;
  return c;
}
string F(const char* f, ...) {
  char b[200];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof(b), f, a);
  va_end(a);
  return b;
}
const char* const kDays[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
const char* const kMonths[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};

string S(us_t t) { return std::to_string(t.count()); }

void Zone(const char* tz) {
  ::setenv("TZ", tz, 1);
  ::tzset();
}

// All that is to hold for a moment in time, in UTC.
void CheckUTC(int64_t s, int64_t us) {
  using namespace current;
  const us_t t(s * 1000000 + us);
  const Civil c = FromSeconds(s);
  const string on = S(t) + "us";
  const string imf = F("%.3s, %02d %s %04d %02d:%02d:%02d GMT", kDays[c.wd], c.d, kMonths[c.m - 1], c.y, c.hh, c.mm, c.ss);
  Sure(FormatDateTimeAsIMFFix(t) == imf, "imf", FormatDateTimeAsIMFFix(t) + " vs. " + imf + " for " + on);
  const string rfc = F("%s, %02d-%s-%02d %02d:%02d:%02d GMT", kDays[c.wd], c.d, kMonths[c.m - 1], c.y % 100, c.hh, c.mm, c.ss);
  Sure(FormatDateTimeAsRFC850(t) == rfc, "rfc850", FormatDateTimeAsRFC850(t) + " vs. " + rfc + " for " + on);
  const string dflt = F("%04d/%02d/%02d %02d:%02d:%02d", c.y, c.m, c.d, c.hh, c.mm, c.ss);
  Sure(FormatDateTime<time::TimeRepresentation::UTC>(t) == dflt, "default-format", FormatDateTime<time::TimeRepresentation::UTC>(t) + " for " + on);
  const us_t lower(s * 1000000), upper(s * 1000000 + 999999);
  const auto low = time::SecondsToMicrosecondsPadding::Lower, up = time::SecondsToMicrosecondsPadding::Upper;
  Sure(IMFFixDateTimeStringToTimestamp(imf) == lower, "imf-back", imf + " is " + S(IMFFixDateTimeStringToTimestamp(imf)));
  Sure(IMFFixDateTimeStringToTimestamp(imf.c_str(), low) == lower, "imf-back", imf);
  Sure(IMFFixDateTimeStringToTimestamp(imf, up) == upper, "imf-upper", imf + " is " + S(IMFFixDateTimeStringToTimestamp(imf, up)));
  if (c.y < 2069) {  // The two digits of the year are of these hundred years.
    Sure(RFC850DateTimeStringToTimestamp(rfc) == lower, "rfc850-back", rfc + " is " + S(RFC850DateTimeStringToTimestamp(rfc)));
    Sure(RFC850DateTimeStringToTimestamp(rfc, up) == upper, "rfc850-upper", rfc);
  }
  static const char* const formats[] = {"%Y/%m/%d %H:%M:%S", "%Y-%m-%dT%H:%M:%SZ", "%d.%m.%Y %H.%M.%S", "%Y%m%d%H%M%S"};
  for (const char* f : formats) {
    const string text = FormatDateTime<time::TimeRepresentation::UTC>(t, f);
    Sure(UTCDateTimeStringToTimestamp(text, f) == lower, "utc-back", text + " is " + S(UTCDateTimeStringToTimestamp(text, f)));
    Sure(UTCDateTimeStringToTimestamp(text, f, up) == upper, "utc-upper", text);
    Sure((DateTimeStringToTimestamp<time::TimeRepresentation::UTC>(text, f, up)) == upper, "utc-upper", text);
  }
  // To the day.
  const string day = FormatDateTime<time::TimeRepresentation::UTC>(t, "%Y-%m-%d");
  Sure(UTCDateTimeStringToTimestamp(day, "%Y-%m-%d") == us_t(s / 86400 * 86400 * 1000000), "utc-day", day);
}
}  // namespace

EN_SCENARIO(utc_days) {
  // Every day of these years, at its first and last second, and elsewhere.
  const int years = static_cast<int>(en::Param("years", 200));
  const int y = en::Choose(years);
  Zone((en::Thorough() ? en::Choose(2) : y % 2) ? "EST5EDT,M3.2.0,M11.1.0" : "UTC0");  // The zone is of no importance.
  int64_t n = 0;
  const std::vector<int64_t> seconds = en::Thorough() ? std::vector<int64_t>{0, 1, 3599, 3600, 43200, 45296, 86398, 86399} : std::vector<int64_t>{0, 45296, 86399};
  for (int64_t d = YearStarts()[y]; d < YearStarts()[y + 1]; ++d)
    for (int64_t s : seconds)
      for (int64_t us : {0, 999999}) {
        CheckUTC(d * 86400 + s, us);
        ++n;
      }
  en::Note(std::to_string(1970 + y));
  en::Evaluations(n);
}
EN_SCENARIO(utc_seconds) {
  // Every second of a day, next to the ends of years, Februaries, and thirty-two bits.
  static const std::vector<int64_t> days = {0, 59, 365, 789, 11016, 11017, 11323, 24855, 24856, 47540, 47541};
  const int64_t day = days[en::Choose(static_cast<int>(days.size()))];
  static const std::vector<int> some = {0, 11, 22, 23};
  const int hour = en::Thorough() ? en::Choose(24) : some[en::Choose(4)];
  Zone("UTC0");
  for (int64_t s = 0; s < 3600; ++s) CheckUTC(day * 86400 + hour * 3600 + s, (s * 7919) % 1000000);
  en::Evaluations(3600);
  en::Note(std::to_string(day) + ", " + std::to_string(hour));
}

EN_SCENARIO(local) {
  // The rules of these zones are known: the offset, and the summer time's.
  struct Z { const char* tz; int offset; bool dst; };
  static const std::vector<Z> zones = {{"UTC0", 0, false}, {"XXX-3", 3 * 3600, false}, {"NPT-5:45", 5 * 3600 + 45 * 60, false},
                                       {"AAA+12", -12 * 3600, false}, {"ZZZ-14", 14 * 3600, false}, {"EST5EDT,M3.2.0,M11.1.0", -5 * 3600, true}};
  const Z& z = zones[en::Choose(static_cast<int>(zones.size()))];
  const int year = 2014 + en::Choose(en::Thorough() ? 30 : 6);
  Zone(z.tz);
  using namespace current;
  const int64_t begin = YearStarts()[year - 1970] * 86400, end = YearStarts()[year + 1 - 1970] * 86400;
  // The second Sunday of March, and the first one of November, at 2am by the clock on the wall.
  const auto sunday = [&](int m, int nth) {
    int64_t d = YearStarts()[year - 1970];
    for (int k = 1; k < m; ++k) d += DaysIn(year, k);
    while ((d + 4) % 7) ++d;
    return d + 7 * (nth - 1);
  };
  const int64_t dst_begin = sunday(3, 2) * 86400 + 2 * 3600 + 5 * 3600, dst_end = sunday(11, 1) * 86400 + 2 * 3600 + 4 * 3600;
  const auto check = [&](int64_t s) {
    if (s < 20 * 86400) return;
    const bool dst = z.dst && s >= dst_begin && s < dst_end;
    const Civil c = FromSeconds(s + z.offset + (dst ? 3600 : 0));
    const us_t t(s * 1000000 + 123456);
    const string want = F("%04d/%02d/%02d %02d:%02d:%02d", c.y, c.m, c.d, c.hh, c.mm, c.ss);
    const string text = FormatDateTime(t);
    Sure(text == want, "local", text + " vs. " + want + string(" in ") + z.tz);
    const us_t back = LocalDateTimeStringToTimestamp(text, "%Y/%m/%d %H:%M:%S");
    const us_t upper = LocalDateTimeStringToTimestamp(text, "%Y/%m/%d %H:%M:%S", time::SecondsToMicrosecondsPadding::Upper);
    // The hour which takes place twice is any of the two.
    const bool twice = z.dst && s >= dst_end - 3600 && s < dst_end + 3600;
    const bool fine = back == us_t(s * 1000000) || (twice && (back == us_t((s + 3600) * 1000000) || back == us_t((s - 3600) * 1000000)));
    Sure(fine, "local-back", text + " is " + S(back) + string(" in ") + z.tz);
    if (!twice) Sure(upper == back + us_t(999999), "local-upper", text + " is " + S(upper));
  };
  int64_t n = 0;
  for (int64_t s = begin; s < end; s += 1800) { check(s); check(s + 1799); n += 2; }
  if (z.dst)
    for (int64_t e : {dst_begin, dst_end})
      for (int64_t s = e - 7300; s < e + 7300; ++s) { check(s); ++n; }
  en::Evaluations(n);
  en::Note(string(z.tz) + " " + std::to_string(year));
}

EN_SCENARIO(malformed) {
  // A date with one character cut, replaced, or inserted: it is either not a date, or the date it then denotes.
  const string date = "2016/02/28 13:59:07";
  const int what = en::Choose(2), at = en::Choose(static_cast<int>(date.size()));
  string text = date;
  if (what == 0) text = text.substr(0, at);
  else text[at] = 'x';
  en::Note(text);
  using namespace current;
  for (auto p : {time::SecondsToMicrosecondsPadding::Lower, time::SecondsToMicrosecondsPadding::Upper}) {
    const us_t t = UTCDateTimeStringToTimestamp(text, "%Y/%m/%d %H:%M:%S", p);
    // A number may be of one digit, then a shorter text is a date still.
    const us_t shortened = us_t((1456667940ll) * 1000000 + (p == time::SecondsToMicrosecondsPadding::Upper ? 999999 : 0));
    const bool one_digit = text == "2016/02/28 13:59:0" || text == "2016/02/28 13:59:0x";
    Sure(t == (one_digit ? shortened : us_t(0)), "malformed", S(t));
  }
}

EN_SCENARIO(intervals) {
  using namespace current::strings;
  const int d = en::Choose(3), h = en::Choose(24), m = en::Choose(60);
  const int64_t days = d == 2 ? 10000 : d;
  int64_t n = 0;
  for (int64_t s = 0; s < 60; ++s)
    for (int64_t us : {0, 1, 500000, 999999}) {
      const int64_t t = ((days * 24 + h) * 60 + m) * 60 * 1000000 + s * 1000000 + us;
      string want = std::to_string(s) + "s";
      if (days || h || m) want = std::to_string(m) + "m " + want;
      if (days || h) want = std::to_string(h) + "h " + want;
      if (days) want = std::to_string(days) + "d " + want;
      Sure(TimeIntervalAsHumanReadableString(us_t(t)) == want, "interval", std::to_string(t) + " is " + TimeIntervalAsHumanReadableString(us_t(t)));
      if (t) Sure(TimeIntervalAsHumanReadableString(us_t(-t)) == "-" + want, "interval-negative", std::to_string(t));
      const bool now = t < 50000;
      Sure(TimeDifferenceAsHumanReadableString(us_t(t)) == (now ? "just now" : want + " into the future"), "difference", std::to_string(t));
      Sure(TimeDifferenceAsHumanReadableString(us_t(-t)) == (now ? "just now" : want + " ago"), "difference-ago", std::to_string(t));
      // The fixed size form: of the size it says, read back as it was, and in the order of time.
      using fss = FixedSizeSerializer<us_t>;
      const string packed = fss::PackToString(us_t(t));
      Sure(packed.size() == fss::size_in_bytes && fss::UnpackFromString(packed) == us_t(t), "fixed-size", packed);
      Sure(packed < fss::PackToString(us_t(t + 1)), "fixed-size-order", packed);
      ++n;
    }
  en::Evaluations(n);
  en::Note(std::to_string(days) + "d " + std::to_string(h) + "h " + std::to_string(m) + "m");
}

EN_SCENARIO(sleep_until) {
  // Returns no earlier than asked to; at once for what is in the past.
  const int ms = en::Choose(4) * 7 - 7;
  const auto begin = current::time::Now();
  current::time::SleepUntil(begin + us_t(ms * 1000));
  const auto elapsed = current::time::Now() - begin;
  Sure(elapsed >= us_t(ms * 1000), "sleep-short", S(elapsed));
  en::Note(std::to_string(ms));
}
