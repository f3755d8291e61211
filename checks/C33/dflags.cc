// C33 (command-line flags): every short command line over an alphabet of well-formed and malformed arguments, and every
// type of flag with every value of a list, against an independent reading of the documentation in `dflags.h`.
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include "bricks/port.h"
#include "bricks/util/singleton.h"

struct Exited { int code; };
namespace std { [[noreturn]] inline void c33_exit(int code) { throw ::Exited{code}; } }
[[noreturn]] inline void c33_exit(int code) { throw Exited{code}; }
#define exit c33_exit
#include "bricks/dflags/dflags.h"
#undef exit

#include "enum.h"

using std::string;
using strings_t = std::vector<string>;

namespace {

string Show(const strings_t& v) {
  string r;
  for (const auto& s : v) r += " '" + s + "'";
  return r;
}

// Exact values of the documented forms. Returns false if `s` is not such a value.
bool Integer(const string& s, bool is_signed, int bits, __int128& v) {
  size_t i = 0;
  bool negative = false;
  if (is_signed && i < s.size() && s[i] == '-') { negative = true; ++i; }
  if (i == s.size() || s.size() > 25) return false;
  v = 0;
  for (; i < s.size(); ++i) {
    if (s[i] < '0' || s[i] > '9') return false;
    v = v * 10 + (s[i] - '0');
  }
  if (negative) v = -v;
  const __int128 one = 1;
  const __int128 lo = is_signed ? -(one << (bits - 1)) : 0, hi = is_signed ? (one << (bits - 1)) - 1 : (one << bits) - 1;
  return v >= lo && v <= hi;
}
bool Double(const string& s, double& v) {
  if (s.find_first_not_of("0123456789.eE-") != string::npos || s.find_first_of("0123456789") == string::npos) return false;
  char* end;
  v = strtod(s.c_str(), &end);
  return *end == 0 && v - v == 0;
}
bool Boolean(const string& s, bool& v) {
  static const std::map<string, bool> m = {{"0", false}, {"false", false}, {"False", false}, {"no", false}, {"No", false}, {"1", true}, {"true", true}, {"True", true}, {"yes", true}, {"Yes", true}};
  auto it = m.find(s);
  if (it == m.end()) return false;
  v = it->second;
  return true;
}

struct Registerer : dflags::FlagsManager::DefaultRegisterer {
  mutable std::ostringstream help;
  std::ostream& HelpPrinterOStream() const override { return help; }
};

struct CommandLine {
  std::vector<std::vector<char>> storage;
  std::vector<char*> pointers;
  int argc;
  char** argv;
  explicit CommandLine(const strings_t& args) {
    for (const auto& a : args) {
      storage.emplace_back(a.begin(), a.end());
      storage.back().push_back(0);
    }
    for (auto& s : storage) pointers.push_back(s.data());
    pointers.push_back(nullptr);
    argc = static_cast<int>(args.size());
    argv = pointers.data();
  }
};

EN_SCENARIO(command_lines) {
  static const strings_t alphabet = {"--i", "-i", "--i=5", "5", "--s", "-s=a=b", "--s=", "--b", "-b", "--b=no", "true", "x", "", "--i=1x", "---i", "--u", "--u=-1", "--nope", "--nope=1", "--help", "-", "--", "-5", "--=3", "--d=1.5", "--d=1.5x", "--b=maybe", "--bb", "No", "-help=1", "--i_", "=", "--i =5"};
  const int n = en::Choose(static_cast<int>(en::Param("args", 3)) + 1);
  strings_t args = {"./binary"};
  for (int i = 0; i < n; ++i) args.push_back(en::Pick(alphabet));

  // The model.
  int32_t want_i = -7;
  uint32_t want_u = 8;
  string want_s = "default";
  bool want_b = false, want_bb = true;
  double want_d = 0.25;
  strings_t want_args = {"./binary"};
  int want_exit = -100;
  for (size_t i = 1; i < args.size() && want_exit == -100; ++i) {
    const string& a = args[i];
    if (a.empty() || a[0] != '-') { want_args.push_back(a); continue; }
    size_t dashes = 0;
    while (dashes < a.size() && a[dashes] == '-') ++dashes;
    if (dashes > 2) { want_exit = -1; break; }
    const size_t eq = a.find('=', dashes);
    const string name = a.substr(dashes, eq == string::npos ? string::npos : eq - dashes);
    if (name == "help") { want_exit = 0; break; }
    if (name != "i" && name != "u" && name != "s" && name != "b" && name != "bb" && name != "d") { want_exit = -1; break; }
    string value;
    const bool boolean = name[0] == 'b';
    bool unused;
    if (eq != string::npos) value = a.substr(eq + 1);
    else if (boolean && (i + 1 == args.size() || !Boolean(args[i + 1], unused))) value = "1";
    else if (i + 1 == args.size()) { want_exit = -1; break; }
    else value = args[++i];
    __int128 v;
    bool ok = true;
    if (name == "i") { if ((ok = Integer(value, true, 32, v))) want_i = static_cast<int32_t>(v); }
    else if (name == "u") { if ((ok = Integer(value, false, 32, v))) want_u = static_cast<uint32_t>(v); }
    else if (name == "s") want_s = value;
    else if (name == "b") ok = Boolean(value, want_b);
    else if (name == "bb") ok = Boolean(value, want_bb);
    else ok = Double(value, want_d);
    if (!ok) want_exit = -1;
  }

  Registerer registerer;
  dflags::FlagsManager::ScopedSingletonInjector injector(registerer);
  DEFINE_int32(i, -7, "An integer.");
  DEFINE_uint32(u, 8, "An unsigned.");
  DEFINE_string(s, "default", "A string.");
  DEFINE_bool(b, false, "A boolean.");
  DEFINE_bool(bb, true, "Another boolean.");
  DEFINE_double(d, 0.25, "A double.");
  CommandLine c(args);
  int exited = -100;
  try {
    ParseDFlags(&c.argc, &c.argv);
  } catch (const Exited& e) {
    exited = e.code;
  }
  const string on = "command line" + Show(args);
  if (exited != want_exit) {
    en::Violation(exited == -100 ? "accepted" : want_exit == -100 ? "rejected" : "exit-code", on + ": exit code " + std::to_string(exited) + ", want " + std::to_string(want_exit) + " (-100: none)");
  }
  if (exited == 0) {
    const string& h = registerer.help.str();
    for (const char* needle : {"6 flags registered.", "\t--i , int32_t", "An unsigned.", "'default'", "Default value: True", "\t--bb , bool", "\t--d , double"})
      if (h.find(needle) == string::npos) en::Violation("help", "no '" + string(needle) + "' in: " + h);
    return;
  }
  if (exited != -100) return;
  if (FLAGS_i != want_i || FLAGS_u != want_u || FLAGS_s != want_s || FLAGS_b != want_b || FLAGS_bb != want_bb || FLAGS_d != want_d) {
    std::ostringstream os;
    os << on << " sets i=" << FLAGS_i << " u=" << FLAGS_u << " s=" << FLAGS_s << " b=" << FLAGS_b << " bb=" << FLAGS_bb << " d=" << FLAGS_d << ", want " << want_i << ' ' << want_u << ' ' << want_s << ' ' << want_b << ' ' << want_bb << ' ' << want_d;
    en::Violation("values", os.str());
  }
  strings_t got_args;
  for (int i = 0; i < c.argc; ++i) got_args.push_back(c.argv[i]);
  if (got_args != want_args) en::Violation("remaining-arguments", on + " leaves" + Show(got_args));
  // A second call is an error.
  bool second = false;
  try {
    ParseDFlags(&c.argc, &c.argv);
  } catch (const Exited& e) {
    second = e.code == -1;
  }
  if (!second) en::Violation("parsed-twice", on + ": the second ParseDFlags() is accepted");
}

const strings_t numbers = {"0", "1", "-1", "5", "9", "48", "65", "99", "007", "-0", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1e3", "1.5", "0x10", "1x", "x", "-", "", "1-", "--1", "1,000", "true", "a", "A1", "5 5", "5;", "1.5.5", "1e", "1e5x", "1e400", "-1e400", "-2.5e-3", "12345678901234567890123", ".5", "5."};
string Value() {
  if (en::Thorough() && en::Flip()) {  // All the short strings.
    static const string alphabet = "01579-.ex a";
    string s;
    const int n = en::Choose(5);
    for (int i = 0; i < n; ++i) s += alphabet[en::Choose(static_cast<int>(alphabet.size()))];
    if (!s.empty() && (s[0] == ' ' || s.back() == ' ')) en::Skip();  // Spaces around are not specified.
    return s;
  }
  return en::Pick(numbers);
}

template <class T>
void IntegerFlag(T& flag, const char* type) {
  const string value = Value();
  const bool separate = en::Flip();
  __int128 want = 0;
  const bool ok = Integer(value, std::is_signed<T>::value, sizeof(T) * 8, want);
  CommandLine c(separate ? strings_t{"a", "--flag", value, "rest"} : strings_t{"a", "-flag=" + value, "rest"});
  const T before = flag;
  bool exited = false;
  try {
    ParseDFlags(&c.argc, &c.argv);
  } catch (const Exited& e) {
    exited = true;
    EN_CHECK_EQ(e.code, -1, "exit-code");
  }
  if (exited == ok) en::Violation(ok ? "value-rejected" : "value-accepted", string(type) + ": '" + value + "'" + (ok ? "" : " is taken as " + std::to_string(flag)));
  if (ok && flag != static_cast<T>(want)) en::Violation("value", string(type) + ": '" + value + "' is taken as " + std::to_string(flag) + ", was " + std::to_string(before));
  if (ok && !(c.argc == 2 && !strcmp(c.argv[1], "rest"))) en::Violation("remaining-arguments", value);
}
template <class T>
void FloatFlag(T& flag, const char* type) {
  const string value = Value();
  double want = 0;
  const bool ok = Double(value, want) && (sizeof(T) == 8 || (want < 3e38 && want > -3e38));
  CommandLine c({"a", "-flag=" + value, "rest"});
  bool exited = false;
  try {
    ParseDFlags(&c.argc, &c.argv);
  } catch (const Exited&) {
    exited = true;
  }
  if (exited == ok) en::Violation(ok ? "value-rejected" : "value-accepted", string(type) + ": '" + value + "'");
  if (ok && flag != static_cast<T>(want)) en::Violation("value", string(type) + ": '" + value + "' is taken as " + std::to_string(flag));
}

#define INTEGER(T)                                                            \
  {                                                                           \
    DEFINE_##T(flag, 42, "");                                                 \
    IntegerFlag(FLAGS_flag, #T);                                  \
  }

EN_SCENARIO(values) {
  Registerer registerer;
  dflags::FlagsManager::ScopedSingletonInjector injector(registerer);
  switch (en::Choose(11)) {
    case 0: INTEGER(int8) break;
    case 1: INTEGER(uint8) break;
    case 2: INTEGER(int16) break;
    case 3: INTEGER(uint16) break;
    case 4: INTEGER(int32) break;
    case 5: INTEGER(uint32) break;
    case 6: INTEGER(int64) break;
    case 7: INTEGER(uint64) break;
    case 8: INTEGER(size_t) break;
    case 9: {
      DEFINE_float(flag, 42, "");
      FloatFlag(FLAGS_flag, "float");
      break;
    }
    default: {
      DEFINE_double(flag, 42, "");
      FloatFlag(FLAGS_flag, "double");
    }
  }
}

EN_SCENARIO(booleans) {  // Every way to write a boolean, followed by every argument.
  static const strings_t words = {"0", "1", "true", "false", "True", "False", "yes", "no", "Yes", "No", "TRUE", "y", "", "2", "00", "true ", "--b", "--c", "x", "on"};
  const int form = en::Choose(3);
  const string value = form ? en::Pick(words) : "";
  const bool more = en::Flip();
  strings_t args = {"a", form == 1 ? "--b=" + value : "--b"};
  if (form == 2) args.push_back(value);
  if (more) args.push_back(en::Pick(words));
  Registerer registerer;
  dflags::FlagsManager::ScopedSingletonInjector injector(registerer);
  DEFINE_bool(b, false, "");
  DEFINE_bool(c, false, "");
  bool pb = false, pc = false, fail = false, v;
  strings_t rest = {"a"};
  for (size_t i = 1; i < args.size() && !fail; ++i) {
    if (args[i].compare(0, 4, "--b=") == 0) {
      fail = !Boolean(args[i].substr(4), pb);
    } else if (args[i] == "--b" || args[i] == "--c") {
      bool& x = args[i] == "--b" ? pb : pc;
      x = true;
      if (i + 1 < args.size() && Boolean(args[i + 1], v)) x = v, ++i;
    } else {
      rest.push_back(args[i]);
    }
  }
  CommandLine c(args);
  bool exited = false;
  try {
    ParseDFlags(&c.argc, &c.argv);
  } catch (const Exited&) {
    exited = true;
  }
  EN_CHECK_EQ(exited, fail, exited ? "rejected" : "accepted");
  if (exited) return;
  strings_t got;
  for (int i = 0; i < c.argc; ++i) got.push_back(c.argv[i]);
  if (FLAGS_b != pb || FLAGS_c != pc) en::Violation("values", "command line" + Show(args));
  if (got != rest) en::Violation("remaining-arguments", "command line" + Show(args) + " leaves" + Show(got));
}

}  // namespace
