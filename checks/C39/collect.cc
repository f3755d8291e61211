// C39: every request of a family, by the real server over a network in memory, against a model of what is to be logged.
#define CURRENT_MOCK_TIME

#include "midichlorians/server/server.h"

#include "../common/fakenet.h"
#include "enum.h"

using namespace current::midichlorians::ios;
using namespace current::midichlorians::web;
using namespace current::midichlorians::server;
using std::string;

namespace {

constexpr uint16_t kPort = 7;

// What has reached the consumer, as text.
struct Consumer {
  std::vector<string> log;
  int inside = 0;
  void operator()(const TickLogEntry&) { log.push_back("tick"); }
  void operator()(const EventLogEntry& e) { log.push_back(Stamp(e) + JSON(e.event)); }
  void operator()(const UnparsableLogEntry& e) {
    string s = Stamp(e) + "unparsable " + e.method + " [";
    for (const auto& h : e.headers) s += h.first + "=" + h.second + ";";
    log.push_back(s + "] cookies=" + e.cookies + " body=" + e.body);
  }
  static string Stamp(const LogEntryBase& e) { return std::to_string(e.server_us.count()) + ": "; }
};

struct Fixture {
  Consumer consumer;
  midichloriansHTTPServer<Consumer>* server;
  Fixture() {
    const int fd = fakenet::Listening(kPort);
    HTTP(current::net::ReservedLocalPort(
        current::net::ReservedLocalPort::Construct(), kPort, current::net::SocketHandle(current::net::SocketHandle::FromAcceptedHandle(fd))));
    server = new midichloriansHTTPServer<Consumer>(kPort, consumer, std::chrono::microseconds(0), "/log", "Thanks\n");
  }
};
Fixture& F() {
  static Fixture* f = new Fixture;
  return *f;
}

string Decode(const string& s) {
  string r;
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] == '%') r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16)), i += 2;
    else r += s[i] == '+' ? ' ' : s[i];
  return r;
}
using Map = std::map<string, string>;

// The lines of the applications: the text and the event it is, if it is one.
template <class T>
T App(int k) {
  T e;
  e.customer_id = "c" + std::to_string(k);
  e.user_ms = std::chrono::milliseconds(k);
  e.client_id = "\"quoted\\\"";
  e.device_id = "d";
  return e;
}
struct Line {
  string text;
  string event;  // Empty: not an event.
};
const std::vector<Line>& Lines() {
  static const std::vector<Line> lines = [] {
    std::vector<Line> r;
    const auto add = [&r](auto e) {
      using T = decltype(e);
      Variant<ios_events_t> v;
      event_variant_t w;
      v = e;
      w = e;
      static_cast<void>(sizeof(T));
      r.push_back({JSON(v), JSON(w)});
    };
    add(App<iOSFirstLaunchEvent>(1));
    auto launch = App<iOSAppLaunchEvent>(2);
    launch.cf_version = "1.0";
    launch.app_install_time = 18446744073709551615ull;
    add(launch);
    auto info = App<iOSDeviceInfo>(3);
    info.info["k"] = "v\n";
    add(info);
    add(App<iOSIdentifyEvent>(4));
    auto focus = App<iOSFocusEvent>(5);
    focus.gained_focus = true;
    add(focus);
    auto generic = App<iOSGenericEvent>(6);
    generic.event = "e";
    generic.fields["a"] = "b";
    generic.unparsable_fields.push_back("c");
    add(generic);
    r.push_back({" " + r[3].text + "\r", r[3].event});
    const size_t events = r.size();
    for (const char* bad : {"", "blah", "{}", "5", "null", "[]", "\"x\"", "{\"iOSFocusEvent\":{}}", "{\"iOSFocusEvent\":5}", "{\"Unknown\":{},\"\":\"T1\"}"}) r.push_back({bad, ""});
    r.push_back({r[4].text.substr(0, r[4].text.size() - 1), ""});
    r.push_back({r[4].text + r[4].text, ""});
    for (size_t i = 0; i < events; ++i) {  // One byte of the first letter of every key: a field is missing.
      string s = r[i].text;
      const size_t at = s.find("\"client_id\"");
      s[at + 1] = 'C';
      r.push_back({s, ""});
    }
    Variant<web_events_t> web;
    web = WebEnterEvent();
    r.push_back({JSON(web), ""});
    return r;
  }();
  return lines;
}

struct Req {
  string method, query, body;
  Map headers;
  Map query_map, body_map;
  std::vector<Line> lines;
};

string WebEvent(const Req& r) {
  if (r.method != "GET" && r.method != "HEAD" && r.method != "POST") return "";
  Map q = r.query_map;
  if (r.method == "POST") {
    q = r.body_map;
    q.insert(r.query_map.begin(), r.query_map.end());
  }
  for (const char* k : {"_t", "CUSTOMER_ACCOUNT", "cid", "ea"})
    if (!q.count(k)) return "";
  for (const char* k : {"X-Forwarded-For", "User-Agent", "Referer"})
    if (!r.headers.count(k)) return "";
  const string referer = r.headers.at("Referer");
  if (referer.empty()) return "";
  const string& a = q["ea"];
  event_variant_t v;
  const auto fill = [&](auto e) {
    e.user_ms = std::chrono::milliseconds(std::stoull(q["_t"]));
    e.customer_id = q["CUSTOMER_ACCOUNT"];
    e.client_id = q["cid"];
    e.ip = r.headers.at("X-Forwarded-For");
    e.user_agent = r.headers.at("User-Agent");
    if (referer == "http://h.com/p?x=1&y=%41+b") {
      e.referer_host = "h.com";
      e.referer_path = "/p";
      e.referer_querystring = {{"x", "1"}, {"y", "A b"}};
    } else {  // "h.com"
      e.referer_host = "h.com";
      e.referer_path = "/";
    }
    v = e;
  };
  if (a == "En") fill(WebEnterEvent());
  else if (a == "Ex") fill(WebExitEvent());
  else if (a == "Fg") fill(WebForegroundEvent());
  else if (a == "Bg") fill(WebBackgroundEvent());
  else {
    if (!q.count("ec")) return "";
    fill(WebGenericEvent(q["ec"], a));
  }
  return JSON(v);
}

void Send(const Req& r, int64_t now) {
  Fixture& f = F();
  f.consumer.log.clear();
  current::time::ResetToZero();
  current::time::SetNow(std::chrono::microseconds(now));
  string text = r.method + " /log" + (r.query.empty() ? "" : "?" + r.query) + " HTTP/1.1\r\n";
  Map headers = r.headers;
  if (r.method == "POST" || r.method == "PUT" || r.method == "PATCH") headers["Content-Length"] = std::to_string(r.body.size());
  string cookies;
  for (const auto& h : headers) text += h.first + ": " + h.second + "\r\n";
  if (headers.count("Cookie")) {
    cookies = headers["Cookie"];
    headers.erase("Cookie");
  }
  text += "\r\n" + r.body;
  // The model.
  std::vector<string> expected;
  const string stamp = std::to_string(now) + ": ";
  string unparsable = stamp + "unparsable " + r.method + " [";
  for (const auto& h : headers) unparsable += h.first + "=" + h.second + ";";
  unparsable += "] cookies=" + cookies + " body=" + r.body;
  uint64_t events = 0;
  const auto whole = [&] {
    const string web = WebEvent(r);
    events += !web.empty();
    expected.push_back(web.empty() ? unparsable : stamp + web);
  };
  if (r.method == "POST" && !r.body.empty()) {
    for (const auto& line : r.lines) {
      if (line.event.empty()) {
        whole();
      } else {
        expected.push_back(stamp + line.event);
        ++events;
      }
    }
  } else if (r.method == "GET" || r.method == "HEAD") {
    whole();
  } else {
    expected.push_back(unparsable);
  }
  const uint64_t before = f.server->EventsPushed();
  // The real thing.
  auto e = std::make_shared<fakenet::Endpoint>();
  e->in = text;
  fakenet::Push(kPort, e);
  fakenet::WaitClosed(e);
  en::Note(text);
  if (e->out.substr(0, 13) != "HTTP/1.1 200 ") en::Violation("response-code", text + " -> " + e->out);
  if (r.method != "HEAD" && (e->out.size() < 11 || e->out.substr(e->out.size() - 11) != "\r\n\r\nThanks\n")) {
    en::Violation("response-body", text + " -> " + e->out);
  }
  for (size_t i = 0; i < std::max(expected.size(), f.consumer.log.size()); ++i) {
    const string a = i < expected.size() ? expected[i] : "nothing", b = i < f.consumer.log.size() ? f.consumer.log[i] : "nothing";
    if (a != b) en::Violation("logged", text + "\nshould have been logged as " + a + ", is " + b);
  }
  const uint64_t pushed = f.server->EventsPushed() - before;
  if (pushed != events) en::Violation("events-pushed", text + ": " + std::to_string(pushed) + " instead of " + std::to_string(events));
  en::Transition();
}

const std::vector<std::pair<string, string>> kAll = {
    {"User-Agent", "Mozilla/5.0 (X; Y)"}, {"X-Forwarded-For", "10.0.0.1, 10.0.0.2"}, {"Referer", "http://h.com/p?x=1&y=%41+b"}};

Req Make(const string& method) {
  Req r;
  r.method = method;
  for (const auto& h : kAll) r.headers[h.first] = h.second;
  return r;
}
void SetQuery(Req& r, const string& q, bool body) {
  (body ? r.body : r.query) = q;
  Map& m = body ? r.body_map : r.query_map;
  size_t at = 0;
  while (at < q.size()) {
    size_t e = q.find('&', at);
    if (e == string::npos) e = q.size();
    const string kv = q.substr(at, e - at);
    const size_t eq = kv.find('=');
    if (!kv.empty()) m[Decode(kv.substr(0, eq))] = eq == string::npos ? "" : Decode(kv.substr(eq + 1));
    at = e + 1;
  }
}

}  // namespace

// The events of web pages: every set of parameters and headers, every place to put the parameters to.
EN_SCENARIO(web) {
  Req r = Make(en::Pick(std::vector<string>{"GET", "HEAD", "POST", "PUT", "DELETE", "PATCH"}));
  const std::vector<std::vector<string>> values = {
      {"ea=En", "ea=Ex", "ea=Fg", "ea=Bg", "ea=click", "ea=", ""}, {"ec=c%26+d", ""}, {"_t=18446744073709", ""}, {"cid=unit%20test", ""}, {"CUSTOMER_ACCOUNT=me", ""}};
  const int where = r.method == "POST" ? en::Choose(4) : 0;  // in the URL; in the body; some here, some there; both, different
  if (r.method == "PATCH" || r.method == "DELETE" || r.method == "PUT") r.headers.erase("Referer");
  string q[2];
  int i = 0;
  for (const auto& v : values) {
    const string p = en::Pick(v);
    const bool body = where == 1 || (where == 2 && i % 2) || where == 3;
    if (!p.empty()) q[body] += (q[body].empty() ? "" : "&") + p;
    if (where == 3 && !p.empty()) q[0] += (q[0].empty() ? "" : "&") + p.substr(0, p.find('=')) + "=" + (p[0] == '_' ? "7" : "other");
    ++i;
  }
  SetQuery(r, q[0], false);
  SetQuery(r, q[1], true);
  if (!r.body.empty()) r.lines = {{r.body, ""}};
  Send(r, 1000);
}
EN_SCENARIO(headers) {
  Req r = Make(en::Pick(std::vector<string>{"GET", "HEAD", "POST"}));
  SetQuery(r, "ea=click&ec=button&_t=0&cid=&CUSTOMER_ACCOUNT=me", r.method == "POST");
  if (!r.body.empty()) r.lines = {{r.body, ""}};
  r.headers.clear();
  if (en::Flip()) r.headers["User-Agent"] = en::Pick(std::vector<string>{"ua", "Mozilla/5.0 (a; b: c)"});
  if (en::Flip()) r.headers["X-Forwarded-For"] = en::Pick(std::vector<string>{"1.2.3.4", "::1"});
  if (en::Flip()) r.headers["Referer"] = en::Pick(std::vector<string>{"http://h.com/p?x=1&y=%41+b", "h.com"});
  if (en::Flip()) r.headers["Cookie"] = en::Pick(std::vector<string>{"a=b", "a=b; c=d"});
  if (en::Flip()) r.headers["X-Other"] = "x";
  Send(r, 2000);
}
// The events of applications: every list of lines.
EN_SCENARIO(lines) {
  Req r = Make("POST");
  const int mode = en::Choose(3);
  if (mode == 0) r.headers.clear();
  if (mode == 1) SetQuery(r, "ea=En&_t=5&cid=c&CUSTOMER_ACCOUNT=me", false);
  const int n = en::Choose(en::Thorough() ? 4 : 3) + 1;
  for (int i = 0; i < n; ++i) {
    if (i) r.body += '\n';
    // With three and more lines, a shorter list.
    const auto& all = Lines();
    const Line& line = n < 3 ? all[en::Choose(static_cast<int>(all.size()))] : all[std::vector<int>{3, 5, 8, 9, 15}[en::Choose(5)]];
    r.body += line.text;
    r.lines.push_back(line);
  }
  if (en::Flip()) r.body += '\n';
  else if (r.lines.back().text.empty()) r.lines.pop_back();  // Nothing follows the last end of line.
  SetQuery(r, "", true);
  {
    // The parameters in the body, for those lines that look like them, are of no use without the rest.
    Map ignored;
    r.body_map = ignored;
  }
  Send(r, 3000);
}
EN_SCENARIO(sequences) {
  const int n = en::Thorough() ? 5 : 4;
  int64_t now = 5000;
  for (int i = 0; i < n; ++i) {
    switch (en::Choose(5)) {
      case 0: {
        Req r = Make("GET");
        SetQuery(r, "ea=Ex&_t=5&cid=c&CUSTOMER_ACCOUNT=me", false);
        Send(r, now);
        break;
      }
      case 1: Send(Make("GET"), now); break;
      case 2: {
        Req r = Make("POST");
        r.lines = {Lines()[4], Lines()[9], Lines()[5]};
        r.body = r.lines[0].text + "\n" + r.lines[1].text + "\n" + r.lines[2].text + "\n";
        Send(r, now);
        break;
      }
      case 3: Send(Make("POST"), now); break;
      default: {
        Req r = Make("PUT");
        r.body = Lines()[0].text;
        Send(r, now);
      }
    }
    now += 1000;
  }
}
