// C14: dialogues with the REST API of a storage, against a model of the resources; through the real server.
#include "storage/storage.h"
#include "storage/api.h"
#include "storage/persister/stream.h"
#include "storage/rest/plain.h"
#include "storage/rest/simple.h"
#include "storage/rest/hypermedia.h"

#include "../common/fakenet.h"
#include "../common/httpwire.h"
#include "enum.h"

#include <ctime>

using std::string;
using us_t = std::chrono::microseconds;

CURRENT_STRUCT(RItemBrief) {
  CURRENT_FIELD(key, std::string);
  CURRENT_FIELD(v, int32_t, 0);
};
CURRENT_STRUCT(RItem, RItemBrief) {
  using brief_t = RItemBrief;
  CURRENT_FIELD(note, Optional<std::string>);
  void InitializeOwnKey() { this->key = "p" + std::to_string(this->v); }
};
CURRENT_STRUCT(RCell) {
  CURRENT_FIELD(row, std::string);
  CURRENT_FIELD(col, int32_t, 0);
  CURRENT_FIELD(v, int32_t, 0);
};
CURRENT_STRUCT(RPostCell) {
  CURRENT_FIELD(row, std::string);
  CURRENT_FIELD(col, int32_t, 0);
  CURRENT_FIELD(v, int32_t, 0);
  void InitializeOwnKey() {}
};
namespace c14 {
CURRENT_STORAGE_FIELD_ENTRY(OrderedDictionary, RItem, FItem);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedDictionary, RItem, FHash);
CURRENT_STORAGE_FIELD_ENTRY(OrderedManyToOrderedMany, RCell, FMM);
CURRENT_STORAGE_FIELD_ENTRY(OrderedOneToOrderedMany, RPostCell, FOM);
CURRENT_STORAGE_FIELD_ENTRY(OrderedOneToOrderedOne, RCell, FOO);
CURRENT_STORAGE_FIELD_ENTRY(OrderedDictionary, RItem, FHidden);
CURRENT_STORAGE(RStorage) {
  CURRENT_STORAGE_FIELD(item, FItem);
  CURRENT_STORAGE_FIELD(hash, FHash);
  CURRENT_STORAGE_FIELD(mm, FMM);
  CURRENT_STORAGE_FIELD(om, FOM);
  CURRENT_STORAGE_FIELD(oo, FOO);
  CURRENT_STORAGE_FIELD(hidden, FHidden);
};
}  // namespace c14
using storage_t = c14::RStorage<StreamInMemoryStreamPersister>;
CURRENT_STORAGE_FIELD_EXCLUDE_FROM_REST(c14::FHidden);

CURRENT_STRUCT(CountQuery) {
  CURRENT_FIELD(min, int32_t, 0);
  CURRENT_FIELD(fail, Optional<bool>);
  template <typename F>
  Response Query(F fields, const current::storage::rest::cqs::CQSParameters& p) {
    if (Exists(fail)) throw std::logic_error("no");
    int n = 0;
    for (const auto& e : fields.item) n += e.v >= min;
    return Response(p.restful_url_prefix + " " + std::to_string(n) + "\n");
  }
};
CURRENT_STRUCT(AddCommand) {
  CURRENT_FIELD(keys, std::vector<std::string>);
  CURRENT_FIELD(how, std::string);
  template <typename F>
  Response Command(F fields, const current::storage::rest::cqs::CQSParameters& p) {
    RItem e;
    int n = 0;
    for (const auto& k : keys) {
      e.key = k;
      e.v = ++n;
      fields.item.Add(e);
    }
    if (how == "throw") throw std::logic_error("no");
    if (how == "current") CURRENT_THROW(current::Exception("no"));
    if (how == "rollback") CURRENT_STORAGE_THROW_ROLLBACK();
    if (how == "with") CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(Response, Response("rolled back\n", HTTPResponseCode.PreconditionFailed));
    return Response(p.restful_url_prefix + " added " + std::to_string(n) + "\n");
  }
};

namespace {

using namespace current::storage::rest;
constexpr uint16_t kPort = 7;

void EnsureServer() {
  static bool once = false;
  if (once) return;
  once = true;
  HTTP(current::net::ReservedLocalPort(current::net::ReservedLocalPort::Construct(), kPort,
                                       current::net::SocketHandle(current::net::SocketHandle::FromAcceptedHandle(fakenet::Listening(kPort)))));
}

httpwire::Raw Ask(const string& method, const string& target, const string& body = "", const string& headers = "") {
  auto e = std::make_shared<fakenet::Endpoint>();
  e->in = method + " " + target + " HTTP/1.1\r\n" + headers;
  if (method == "POST" || method == "PUT" || method == "PATCH" || !body.empty()) e->in += "Content-Length: " + std::to_string(body.size()) + "\r\n";
  e->in += "\r\n" + body;
  fakenet::Push(kPort, e);
  fakenet::WaitClosed(e);
  const auto r = httpwire::Read(e->out);
  if (!r.ok) en::Violation("malformed-response", method + " " + target + ": " + r.why + ": " + e->out);
  return r;
}

string HTTPDate(int64_t us) {
  const time_t t = static_cast<time_t>(us / 1000000);
  struct tm tm;
  gmtime_r(&t, &tm);
  static const char* const d[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
  static const char* const m[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
  char b[64];
  snprintf(b, sizeof b, "%s, %02d %s %d %02d:%02d:%02d GMT", d[tm.tm_wday], tm.tm_mday, m[tm.tm_mon], tm.tm_year + 1900, tm.tm_hour, tm.tm_min, tm.tm_sec);
  return b;
}

struct Item {
  int v;
  string note;  // with the quotes, or null
  int64_t us;
};
using CellKey = std::pair<string, int>;
struct Cell {
  int v;
  int64_t us;
};
enum Kind { MM, OM, OO };
const char* const kField[] = {"mm", "om", "oo"};
enum API { P, S, H };
const char* const kAPI[] = {"/p", "/s", "/h"};

struct Model {
  std::map<string, Item> item, hash;
  std::map<CellKey, Cell> cells[3];
};
string ItemJSON(const string& key, const Item& i) { return "{\"key\":\"" + key + "\",\"v\":" + std::to_string(i.v) + ",\"note\":" + i.note + "}"; }
string BriefJSON(const string& key, const Item& i) { return "{\"key\":\"" + key + "\",\"v\":" + std::to_string(i.v) + "}"; }
string CellJSON(const CellKey& k, const Cell& c) { return "{\"row\":\"" + k.first + "\",\"col\":" + std::to_string(k.second) + ",\"v\":" + std::to_string(c.v) + "}"; }

struct World {
  current::Owned<storage_t> storage;
  int64_t now = 1500000000250000ll;
  RESTfulStorage<storage_t> p;
  RESTfulStorage<storage_t, Simple> s;
  RESTfulStorage<storage_t, Hypermedia> h;
  Model m;
  string note;

  static current::Owned<storage_t> New() {
    EnsureServer();
    current::time::ResetToZero();
    return storage_t::CreateMasterStorage();
  }
  World() : storage(New()), p(*storage, kPort, "/p", "U"), s(*storage, kPort, "/s", "U"), h(*storage, kPort, "/h", "U") { Tick(); }
  void Tick() {
    now += 300000;  // Several times a second.
    current::time::SetNow(us_t(now), us_t(now + 100000));
  }
  uint64_t Records() { return storage->UnderlyingStream()->Data()->Size(); }

  string Dump() {
    std::ostringstream os;
    current::Value(storage->ReadOnlyTransaction([&os](ImmutableFields<storage_t> f) {
      for (const auto& e : f.item) os << JSON(e) << '@' << current::Value(f.item.LastModified(e.key)).count() << ' ';
      std::map<string, string> hash;
      for (const auto& e : f.hash) hash[e.key] = JSON(e) + '@' + std::to_string(current::Value(f.hash.LastModified(e.key)).count()) + ' ';
      for (const auto& e : hash) os << e.second;
      const auto cells = [&os](const auto& field) {
        std::map<CellKey, string> all;
        for (const auto& e : field) all[CellKey(e.row, e.col)] = JSON(e) + '@' + std::to_string(current::Value(field.LastModified(std::make_pair(e.row, e.col))).count()) + ' ';
        os << "; ";
        for (const auto& e : all) os << e.second;
      };
      cells(f.mm);
      cells(f.om);
      cells(f.oo);
    }).Go());
    return os.str();
  }
  string Want() const {
    std::ostringstream os;
    for (const auto& e : m.item) os << ItemJSON(e.first, e.second) << '@' << e.second.us << ' ';
    for (const auto& e : m.hash) os << ItemJSON(e.first, e.second) << '@' << e.second.us << ' ';
    for (const auto& k : m.cells) {
      os << "; ";
      for (const auto& e : k) os << CellJSON(e.first, e.second) << '@' << e.second.us << ' ';
    }
    return os.str();
  }
  void Fail(const string& sig, const string& what) { en::Violation(sig, note + ": " + what); }

  // The time of the change, as reported.
  int64_t Modified(const httpwire::Raw& r) {
    const string us = r.Header("X-Current-Last-Modified"), date = r.Header("Last-Modified");
    const int64_t t = atoll(us.c_str());
    if (std::to_string(t) != us) Fail("last-modified", "X-Current-Last-Modified: " + us);
    if (date != HTTPDate(t)) Fail("last-modified", "Last-Modified: " + date + " for " + us);
    return t;
  }
  int64_t Changed(API api, const httpwire::Raw& r) {
    if (api == P) return -1;
    const int64_t t = Modified(r);
    if (t < now || t > now + 100000) Fail("last-modified", "reported " + std::to_string(t) + " at " + std::to_string(now));
    return t;
  }
  void Expect(const httpwire::Raw& r, int code, const string& body, const string& sig) {
    if (r.code != code) Fail(sig + "-status", "expected " + std::to_string(code) + ", got " + std::to_string(r.code) + " " + r.body);
    if (r.body != body) Fail(sig + "-body", "expected `" + body + "`, got `" + r.body + "`");
  }
  void Error(API api, const httpwire::Raw& r, int code, const string& name, const string& sig) {
    if (r.code != code) Fail(sig + "-status", "expected " + std::to_string(code) + ", got " + std::to_string(r.code) + " " + r.body);
    if (api == P || name.empty()) return;
    if (r.body.compare(0, 16, "{\"success\":false") || r.body.find("\"name\":\"" + name + "\"") == string::npos) Fail(sig + "-body", r.body);
  }
  static string Updated(const string& message, const string& url) {
    return "{\"success\":true,\"message\":\"" + message + "\",\"error\":null,\"resource_url\":" + (url.empty() ? "null" : "\"" + url + "\"") + "}\n";
  }

  // A request that may change something, and the check that exactly what is expected has changed.
  struct Watch {
    World& w;
    uint64_t records;
    explicit Watch(World& w) : w(w), records(w.Records()) {}
    void Unchanged(const string& sig) {
      if (w.Records() != records) w.Fail(sig + "-recorded", "the log has grown");
      w.Compare(sig);
    }
    void Once(const string& sig) {
      if (w.Records() != records + 1) w.Fail(sig + "-recorded", "the log has grown by " + std::to_string(w.Records() - records));
      w.Compare(sig);
    }
  };
  void Compare(const string& sig) {
    const string a = Dump(), b = Want();
    if (a != b) Fail(sig + "-data", "expected `" + b + "`, got `" + a + "`");
    en::Transition();
  }

  // What a precondition says of a resource last modified at `us`.
  struct Pre {
    string headers;
    bool bad = false, holds = true;
  };
  static Pre Precondition(int i, int64_t us) {
    switch (i) {
      case 0: return {"", false, true};
      case 1: return {"X-Current-If-Unmodified-Since: " + std::to_string(us) + "\r\n", false, true};
      case 2: return {"X-Current-If-Unmodified-Since: " + std::to_string(us - 1) + "\r\n", false, false};
      case 3: return {"If-Unmodified-Since: " + HTTPDate(us) + "\r\n", false, true};
      case 4: return {"If-Unmodified-Since: " + HTTPDate(us - 1000000) + "\r\n", false, false};
      case 5: return {"X-Current-If-Unmodified-Since: x\r\n", true, false};
      case 6: return {"If-Unmodified-Since: yesterday\r\n", true, false};
      case 7: return {"X-Current-If-Unmodified-Since: " + std::to_string(us - 1) + "\r\nIf-Unmodified-Since: " + HTTPDate(us) + "\r\n", false, false};
      default: return {"If-Unmodified-Since: " + HTTPDate(us - 1000000) + "\r\nX-Current-If-Unmodified-Since: " + std::to_string(us) + "\r\n", false, true};
    }
  }
  enum { kPreconditions = 9 };

  // ---- Dictionaries.
  void Post(API api, bool hash, int v, bool overwrite) {
    auto& f = hash ? m.hash : m.item;
    const string field = hash ? "hash" : "item";
    const string key = "p" + std::to_string(v);
    note += string(" POST") + kAPI[api] + " v=" + std::to_string(v) + (overwrite ? "!" : "");
    Tick();
    Watch w(*this);
    const Item e{v, "\"posted\"", 0};
    const auto r = Ask("POST", kAPI[api] + ("/data/" + field) + (overwrite ? "?overwrite" : ""), ItemJSON("", e));
    if (f.count(key) && !overwrite) {
      Error(api, r, 409, "ResourceAlreadyExists", "post-conflict");
      return w.Unchanged("post-conflict");
    }
    if (r.code != 201 && !(f.count(key) && r.code == 200)) Fail("post-status", std::to_string(r.code) + " " + r.body);
    Expect(r, r.code, api == P ? key : Updated("Resource created.", "U/data/" + field + "/" + key), "post");
    f[key] = e;
    Stamp(api, r, f[key].us, [&]() { return LastModified(hash, key); });
    w.Once("post");
  }
  int64_t LastModified(bool hash, const string& key) {
    int64_t t = -1;
    current::Value(storage->ReadOnlyTransaction([&](ImmutableFields<storage_t> f) {
      const auto x = hash ? f.hash.LastModified(key) : f.item.LastModified(key);
      if (Exists(x)) t = current::Value(x).count();
    }).Go());
    return t;
  }
  template <class F>
  void Stamp(API api, const httpwire::Raw& r, int64_t& us, F real) {
    us = api == P ? real() : Changed(api, r);
    if (us < now || us > now + 100000) Fail("last-modified", "changed at " + std::to_string(us) + ", at " + std::to_string(now));
  }
  void Put(API api, bool hash, const string& key, int v, int body, int pre) {
    auto& f = hash ? m.hash : m.item;
    const string field = hash ? "hash" : "item";
    note += string(" PUT") + kAPI[api] + " " + key + "=" + std::to_string(v) + " body " + std::to_string(body) + " pre " + std::to_string(pre);
    const bool exists = f.count(key) != 0;
    const auto c = Precondition(pre, exists ? f[key].us : now);
    Tick();
    Watch w(*this);
    const Item e{v, v % 2 ? "null" : "\"put\"", 0};
    string b = ItemJSON(key, e);
    if (body == 1) b = ItemJSON(key + "x", e);
    if (body == 2) b.pop_back();
    if (body == 3) b = "{\"key\":\"" + key + "\",\"v\":\"1\",\"note\":null}";
    if (body == 4) b = "{\"key\":\"" + key + "\"}";
    if (body == 5) b = "";
    const string collection = kAPI[api] + ("/data/" + field);
    const auto r = Ask("PUT", body == 6 ? collection : body == 7 ? collection + "?key=" + key : collection + "/" + key, b, c.headers);
    if (c.bad) {
      Error(api, r, 400, "InvalidHeader", "put-bad-header");
      return w.Unchanged("put-bad-header");
    }
    if (body && body < 7) {
      Error(api, r, 400, body == 1 ? "InvalidKey" : body == 6 ? "" : "ParseJSONError", "put-bad");
      return w.Unchanged("put-bad");
    }
    if (exists && !c.holds) {
      Error(api, r, 412, "ResourceWasModifiedError", "put-modified");
      return w.Unchanged("put-modified");
    }
    if (api == P) Expect(r, exists ? 200 : 201, exists ? "Updated.\n" : "Created.\n", "put");
    else Expect(r, exists ? 200 : 201, Updated(exists ? "Resource updated." : "Resource created.", "U/data/" + field + "/" + key), "put");
    f[key] = e;
    Stamp(api, r, f[key].us, [&]() { return LastModified(hash, key); });
    w.Once("put");
  }
  void Patch(API api, bool hash, const string& key, int v, int body, int pre) {
    auto& f = hash ? m.hash : m.item;
    const string field = hash ? "hash" : "item";
    note += string(" PATCH") + kAPI[api] + " " + key + "=" + std::to_string(v) + " body " + std::to_string(body) + " pre " + std::to_string(pre);
    const bool exists = f.count(key) != 0;
    const auto c = Precondition(pre, exists ? f[key].us : now);
    Tick();
    Watch w(*this);
    string b;
    Item e = exists ? f[key] : Item{0, "null", 0};
    const string vs = std::to_string(v);
    bool bad_json = false, bad_key = false;
    switch (body) {
      case 0: b = "{\"v\":" + vs + "}", e.v = v; break;
      case 1: b = "{\"note\":\"patched\"}", e.note = "\"patched\""; break;
      case 2: b = "{\"note\":null}", e.note = "null"; break;
      case 3: b = "{}"; break;
      case 4: b = "{\"key\":\"" + key + "\",\"v\":" + vs + "}", e.v = v; break;
      case 5: b = "{\"key\":\"other\",\"v\":" + vs + "}", bad_key = true; break;
      case 6: b = "{\"v\":" + vs, bad_json = true; break;
      case 7: b = "{\"v\":" + vs + ",\"note\":5}", bad_json = true; break;
      case 8: b = "{\"v\":\"x\"}", bad_json = true; break;
      case 9: b = "[]", bad_json = true; break;
      case 10: b = "", bad_json = true; break;
    }
    const auto r = Ask("PATCH", kAPI[api] + ("/data/" + field) + "/" + key, b, c.headers);
    if (c.bad) {
      Error(api, r, 400, "InvalidHeader", "patch-bad-header");
      return w.Unchanged("patch-bad-header");
    }
    if (!exists) {
      Error(api, r, 404, "ResourceNotFound", "patch-missing");
      return w.Unchanged("patch-missing");
    }
    if (!c.holds) {
      Error(api, r, 412, "ResourceWasModifiedError", "patch-modified");
      return w.Unchanged("patch-modified");
    }
    if (bad_json || bad_key) {
      Error(api, r, 400, bad_json ? "ParseJSONError" : "InvalidKey", "patch-bad");
      return w.Unchanged("patch-bad");
    }
    if (api == P) Expect(r, 200, "Patched.\n", "patch");
    else Expect(r, 200, Updated("Resource patched.", "U/data/" + field + "/" + key), "patch");
    f[key] = e;
    Stamp(api, r, f[key].us, [&]() { return LastModified(hash, key); });
    w.Once("patch");
  }
  void Delete(API api, bool hash, const string& key, int pre) {
    auto& f = hash ? m.hash : m.item;
    const string field = hash ? "hash" : "item";
    note += string(" DELETE") + kAPI[api] + " " + key + " pre " + std::to_string(pre);
    const bool exists = f.count(key) != 0;
    const auto c = Precondition(pre, exists ? f[key].us : now);
    Tick();
    Watch w(*this);
    const auto r = Ask("DELETE", kAPI[api] + ("/data/" + field) + "/" + key, "", c.headers);
    if (c.bad) {
      Error(api, r, 400, "InvalidHeader", "delete-bad-header");
      return w.Unchanged("delete-bad-header");
    }
    if (exists && !c.holds) {
      Error(api, r, 412, "ResourceWasModifiedError", "delete-modified");
      return w.Unchanged("delete-modified");
    }
    if (api == P) Expect(r, 200, "Deleted.\n", "delete");
    else Expect(r, 200, Updated(exists ? "Resource deleted." : "Resource didn't exist.", ""), "delete");
    if (exists) Changed(api, r);
    f.erase(key);
    if (exists) w.Once("delete");
    else Compare("delete");
  }

  // ---- Matrices.
  static string CellURL(const CellKey& k) { return k.first + "/" + std::to_string(k.second); }
  void Place(Kind kind, const CellKey& k, const Cell& c) {
    auto& f = m.cells[kind];
    for (auto it = f.begin(); it != f.end();) {
      const bool same_row = it->first.first == k.first, same_col = it->first.second == k.second;
      if (it->first != k && ((kind != MM && same_col) || (kind == OO && same_row))) it = f.erase(it);
      else ++it;
    }
    f[k] = c;
  }
  int64_t CellModified(Kind kind, const CellKey& k) {
    int64_t t = -1;
    current::Value(storage->ReadOnlyTransaction([&](ImmutableFields<storage_t> f) {
      const auto key = std::make_pair(k.first, k.second);
      const auto x = kind == MM ? f.mm.LastModified(key) : kind == OM ? f.om.LastModified(key) : f.oo.LastModified(key);
      if (Exists(x)) t = current::Value(x).count();
    }).Go());
    return t;
  }
  string Data(API api, Kind kind) const { return kAPI[api] + ("/data/" + string(kField[kind])); }
  void PutCell(API api, Kind kind, const CellKey& k, int v, int how, int pre = 0) {
    note += string(" PUT") + Data(api, kind) + "/" + CellURL(k) + "=" + std::to_string(v) + " how " + std::to_string(how) + " pre " + std::to_string(pre);
    auto& f = m.cells[kind];
    const bool exists = f.count(k) != 0;
    const auto c = Precondition(pre, exists ? f[k].us : now);
    Tick();
    Watch w(*this);
    const Cell e{v, 0};
    string b = CellJSON(k, e), url = Data(api, kind) + "/" + CellURL(k);
    if (how == 1) b = CellJSON(CellKey(k.first, k.second + 1), e);
    if (how == 2) b = CellJSON(CellKey(k.first + "z", k.second), e);
    if (how == 3) b = "{";
    if (how == 4) url = Data(api, kind) + "/" + k.first;
    if (how == 5) url = Data(api, kind) + "?row=" + k.first + "&col=" + std::to_string(k.second);
    if (how == 6) url = Data(api, kind) + "?key2=" + std::to_string(k.second) + "&key1=" + k.first;
    if (how == 7) url = Data(api, kind) + "?1=" + k.first + "&2=" + std::to_string(k.second);
    const auto r = Ask("PUT", url, b, c.headers);
    if (how && how < 5) {
      Error(api, r, 400, how == 3 ? "ParseJSONError" : how == 4 ? "" : "InvalidKey", "put-cell-bad");
      return w.Unchanged("put-cell-bad");
    }
    if (exists && !c.holds) {
      Error(api, r, 412, "ResourceWasModifiedError", "put-cell-modified");
      return w.Unchanged("put-cell-modified");
    }
    if (api == P) Expect(r, exists ? 200 : 201, exists ? "Updated.\n" : "Created.\n", "put-cell");
    else Expect(r, exists ? 200 : 201, Updated(exists ? "Resource updated." : "Resource created.", string("U/data/") + kField[kind] + "/" + CellURL(k)), "put-cell");
    Place(kind, k, e);
    Stamp(api, r, f[k].us, [&]() { return CellModified(kind, k); });
    w.Once("put-cell");
  }
  void PostCell(API api, Kind kind, const CellKey& k, int v, bool overwrite) {
    note += string(" POST") + Data(api, kind) + " " + CellURL(k) + "=" + std::to_string(v) + (overwrite ? "!" : "");
    auto& f = m.cells[kind];
    Tick();
    Watch w(*this);
    const bool exists = f.count(k) != 0;
    const auto r = Ask("POST", Data(api, kind) + (overwrite ? "?overwrite=1" : ""), CellJSON(k, Cell{v, 0}));
    if (kind != OM) {
      Error(api, r, 405, "MethodNotAllowed", "post-cell-not-allowed");
      return w.Unchanged("post-cell-not-allowed");
    }
    if (exists && !overwrite) {
      Error(api, r, 409, "ResourceAlreadyExists", "post-cell-conflict");
      return w.Unchanged("post-cell-conflict");
    }
    if (r.code != 201 && !(exists && r.code == 200)) Fail("post-cell-status", std::to_string(r.code) + " " + r.body);
    Expect(r, r.code, api == P ? CellURL(k) : Updated("Resource created.", string("U/data/") + kField[kind] + "/" + CellURL(k)), "post-cell");
    Place(kind, k, Cell{v, 0});
    Stamp(api, r, f[k].us, [&]() { return CellModified(kind, k); });
    w.Once("post-cell");
  }
  void PatchCell(API api, Kind kind, const CellKey& k, int v, int body) {
    note += string(" PATCH") + Data(api, kind) + "/" + CellURL(k) + "=" + std::to_string(v) + " body " + std::to_string(body);
    auto& f = m.cells[kind];
    Tick();
    Watch w(*this);
    const string vs = std::to_string(v);
    const auto r = Ask("PATCH", Data(api, kind) + "/" + CellURL(k), body == 0 ? "{\"v\":" + vs + "}" : body == 1 ? "{\"v\":" + vs + ",\"col\":9}" : body == 2 ? "{\"row\":\"other\"}" : "{\"v\":[]}");
    if (!f.count(k)) {
      Error(api, r, 404, "ResourceNotFound", "patch-cell-missing");
      return w.Unchanged("patch-cell-missing");
    }
    if (body) {
      Error(api, r, 400, body == 3 ? "ParseJSONError" : "InvalidKey", "patch-cell-bad");
      return w.Unchanged("patch-cell-bad");
    }
    if (api == P) Expect(r, 200, "Patched.\n", "patch-cell");
    else Expect(r, 200, Updated("Resource patched.", string("U/data/") + kField[kind] + "/" + CellURL(k)), "patch-cell");
    f[k].v = v;
    Stamp(api, r, f[k].us, [&]() { return CellModified(kind, k); });
    w.Once("patch-cell");
  }
  void DeleteCell(API api, Kind kind, const CellKey& k, int pre) {
    note += string(" DELETE") + Data(api, kind) + "/" + CellURL(k) + " pre " + std::to_string(pre);
    auto& f = m.cells[kind];
    const bool exists = f.count(k) != 0;
    const auto c = Precondition(pre, exists ? f[k].us : now);
    Tick();
    Watch w(*this);
    const auto r = Ask("DELETE", Data(api, kind) + "/" + CellURL(k), "", c.headers);
    if (exists && !c.holds) {
      Error(api, r, 412, "ResourceWasModifiedError", "delete-cell-modified");
      return w.Unchanged("delete-cell-modified");
    }
    if (api == P) Expect(r, 200, "Deleted.\n", "delete-cell");
    else Expect(r, 200, Updated(exists ? "Resource deleted." : "Resource didn't exist.", ""), "delete-cell");
    f.erase(k);
    if (exists) w.Once("delete-cell");
    else Compare("delete-cell");
  }

  // ---- Reading, every way there is. Collections that have no order of their own are compared as sets.
  static string Sorted(const std::vector<string>& v) {
    std::multiset<string> s(v.begin(), v.end());
    string r;
    for (const auto& e : s) r += e + '\n';
    return r;
  }
  // The elements of `"data":[...]` at the end of a response.
  std::vector<string> DataOf(const string& body) {
    std::vector<string> r;
    const size_t at = body.find("\"data\":[");
    if (at == string::npos || body.size() < at + 11 || body.substr(body.size() - 3) != "]}\n") Fail("collection", body);
    int depth = 0;
    string cur;
    for (size_t i = at + 8; i + 3 < body.size(); ++i) {
      const char c = body[i];
      if (c == '{' || c == '[') ++depth;
      if (c == '}' || c == ']') --depth;
      if (c == ',' && !depth) r.push_back(cur), cur.clear();
      else cur += c;
    }
    if (!cur.empty()) r.push_back(cur);
    return r;
  }
  static std::vector<string> LinesOf(const string& s) {
    std::vector<string> r;
    std::istringstream is(s);
    string l;
    while (std::getline(is, l)) r.push_back(l);
    return r;
  }
  void ReadItem(bool hash, const string& key) {
    const auto& f = hash ? m.hash : m.item;
    const string field = hash ? "hash" : "item";
    const auto it = f.find(key);
    for (const API api : {P, S, H})
      for (const string& url : {"/data/" + field + "/" + key, "/data/" + field + "?key=" + key, "/data/" + field + ".key/" + key}) {
        const auto r = Ask("GET", kAPI[api] + url);
        if (it == f.end()) {
          Error(api, r, 404, "ResourceNotFound", "get-missing");
          continue;
        }
        const string j = ItemJSON(key, it->second), u = "U/data/" + field + "/" + key;
        if (api == P) Expect(r, 200, j + "\n", "get");
        if (api == S) Expect(r, 200, "{\"success\":true,\"url\":\"" + u + "\",\"data\":" + j + "}\n", "get");
        if (api == H) Expect(r, 200, Single(u, "U/data/" + field, j), "get");
        if (api != P && Modified(r) != it->second.us) Fail("get-last-modified", r.Header("X-Current-Last-Modified"));
      }
    if (it != f.end()) {
      const string u = "U/data/" + field + "/" + key;
      for (const char* q : {"?brief", "?fields=brief"}) Expect(Ask("GET", "/h/data/" + field + "/" + key + q), 200, Single(u, "U/data/" + field, BriefJSON(key, it->second)), "get-brief");
      for (const char* q : {"?full", "?fields=full", "?brief&full"}) Expect(Ask("GET", "/h/data/" + field + "/" + key + q), 200, Single(u, "U/data/" + field, ItemJSON(key, it->second)), "get-full");
      Expect(Ask("GET", "/s/data/" + field + "/" + key + "?export"), 200, ItemJSON(key, it->second) + "\n", "export");
      Expect(Ask("GET", "/h/data/" + field + "/" + key + "?export=detailed"), 200,
             "{\"key\":\"" + key + "\",\"timestamp_us\":" + std::to_string(it->second.us) + ",\"timestamp_http\":\"" + HTTPDate(it->second.us) + "\",\"data\":" + ItemJSON(key, it->second) + "}\n", "export");
    } else {
      Error(S, Ask("GET", "/s/data/" + field + "/" + key + "?export"), 404, "ResourceNotFound", "export-missing");
    }
  }
  static string Single(const string& u, const string& dir, const string& j) {
    return "{\"success\":true,\"url\":\"" + u + "\",\"url_full\":\"" + u + "?full\",\"url_brief\":\"" + u + "?brief\",\"url_directory\":\"" + dir + "\",\"data\":" + j + "}\n";
  }
  void ReadItems(bool hash) {
    const auto& f = hash ? m.hash : m.item;
    const string field = hash ? "hash" : "item";
    std::vector<string> plain, urls, records;
    for (const auto& e : f) {
      plain.push_back(e.first + "\t" + ItemJSON(e.first, e.second));
      urls.push_back("\"U/data/" + field + "/" + e.first + "\"");
      records.push_back("{\"url\":\"U/data/" + field + "/" + e.first + "\",\"brief\":" + BriefJSON(e.first, e.second) + "}");
    }
    Collection(P, "/p/data/" + field, plain, !hash, "", "");
    Collection(S, "/s/data/" + field, urls, !hash, "U/data/" + field, "");
    Collection(H, "/h/data/" + field, records, !hash, "U/data/" + field, "U/data/" + field);
  }
  void Collection(API api, const string& url, const std::vector<string>& want, bool ordered, const string& own, const string& directory) {
    const auto r = Ask("GET", url);
    if (r.code != 200) Fail("collection-status", url + ": " + std::to_string(r.code));
    const auto got = api == P ? LinesOf(r.body) : DataOf(r.body);
    if (ordered ? got != want : Sorted(got) != Sorted(want)) Fail("collection", url + ": expected `" + Sorted(want) + "`, got `" + r.body + "`");
    string head;
    if (api == S) head = "{\"success\":true,\"message\":null,\"error\":null,\"url\":\"" + own + "\",\"data\":[";
    if (api == H) {
      const string n = std::to_string(want.size());
      head = "{\"success\":true,\"url\":\"" + own + "?i=0&n=10\",\"url_directory\":\"" + directory + "\",\"i\":0,\"n\":" + n + ",\"total\":" + n + ",\"url_next_page\":null,\"url_previous_page\":null,\"data\":[";
    }
    if (r.body.compare(0, head.size(), head)) Fail("collection-head", url + ": expected `" + head + "`, got `" + r.body + "`");
  }
  void ReadCell(Kind kind, const CellKey& k) {
    const auto& f = m.cells[kind];
    const auto it = f.find(k);
    for (const API api : {P, S, H})
      for (const string& url : {Data(api, kind) + "/" + CellURL(k), Data(api, kind) + "?row=" + k.first + "&col=" + std::to_string(k.second)}) {
        const auto r = Ask("GET", url);
        if (it == f.end()) {
          Error(api, r, 404, "ResourceNotFound", "get-cell-missing");
          continue;
        }
        const string j = CellJSON(k, it->second), dir = string("U/data/") + kField[kind], u = dir + "/" + CellURL(k);
        if (api == P) Expect(r, 200, j + "\n", "get-cell");
        if (api == S) Expect(r, 200, "{\"success\":true,\"url\":\"" + u + "\",\"data\":" + j + "}\n", "get-cell");
        if (api == H) Expect(r, 200, Single(u, dir, j), "get-cell");
        if (api != P && Modified(r) != it->second.us) Fail("get-cell-last-modified", r.Header("X-Current-Last-Modified"));
      }
  }
  void ReadCells(Kind kind) {
    const auto& f = m.cells[kind];
    const string dir = string("U/data/") + kField[kind];
    std::vector<string> plain, urls, records;
    for (const auto& e : f) {
      plain.push_back(e.first.first + "\t" + std::to_string(e.first.second) + "\t" + CellJSON(e.first, e.second));
      urls.push_back("\"" + dir + "/" + CellURL(e.first) + "\"");
      records.push_back("{\"url\":\"" + dir + "/" + CellURL(e.first) + "\",\"data\":" + CellJSON(e.first, e.second) + "}");
    }
    Collection(P, Data(P, kind), plain, false, "", "");
    Collection(S, Data(S, kind), urls, false, dir, "");
    Collection(H, Data(H, kind), records, false, dir, dir);
    for (const bool by_col : {false, true}) {
      std::map<string, std::vector<std::pair<CellKey, Cell>>> parts;
      for (const auto& e : f) parts[by_col ? std::to_string(e.first.second) : e.first.first].push_back(e);
      const std::vector<string> suffixes = by_col ? std::vector<string>{".2", ".col", ".right", ".l", ".r", ".R"} : std::vector<string>{".1", ".row", ".left", ".l", ".L"};
      const string own = dir + (by_col ? ".2" : ".1");
      std::vector<string> p, u, h;
      for (const auto& part : parts) {
        p.push_back(part.first + "\t" + std::to_string(part.second.size()));
        u.push_back("\"" + own + "/" + part.first + "\"");
        string preview;
        for (size_t i = 0; i < part.second.size() && i < 3; ++i) preview += (i ? "," : "") + CellJSON(part.second[i].first, part.second[i].second);
        h.push_back("{\"url\":\"" + own + "/" + part.first + "\",\"data\":{\"total\":" + std::to_string(part.second.size()) + ",\"preview\":[" + preview + "]}}");
      }
      for (const auto& suffix : suffixes) {
        if (by_col && suffix == ".l") continue;
        Collection(P, Data(P, kind) + suffix, p, true, "", "");
      }
      Collection(S, Data(S, kind) + suffixes[0], u, true, own, "");
      Collection(H, Data(H, kind) + suffixes[1], h, true, own, own);
      for (const string& key : by_col ? std::vector<string>{"1", "2", "7"} : std::vector<string>{"a", "b", "z"}) {
        const auto part = parts.find(key);
        for (const API api : {P, S, H}) {
          const auto url = Data(api, kind) + suffixes[1] + "/" + key;
          if (part == parts.end()) {
            Error(api, Ask("GET", url), 404, "ResourceNotFound", "get-part-missing");
            continue;
          }
          std::vector<string> want;
          for (const auto& e : part->second) {
            const string j = CellJSON(e.first, e.second), full = dir + "/" + CellURL(e.first);
            want.push_back(api == P ? j : api == S ? "\"" + full + "\"" : "{\"url\":\"" + full + "\",\"data\":" + j + "}");
          }
          Collection(api, url, want, true, own + "/" + key, dir);
        }
      }
      for (const char* method : {"PUT", "POST", "PATCH", "DELETE"})
        Error(S, Ask(method, Data(S, kind) + suffixes[0] + "/a", CellJSON(CellKey("a", 1), Cell{1, 0})), 405, "MethodNotAllowed", "part-method");
    }
  }
};

string Keys(int i) { return string(1, static_cast<char>('a' + i)); }

// The n-th of the requests on a dictionary.
int ItemOps() { return 3 * (2 * 2 + 8 + (World::kPreconditions - 1) + 11 + 4 + 3) + 12; }
void ItemOp(World& w, int n, bool hash) {
  // Requests with a body, per API.
  const API api = static_cast<API>(n % 3);
  int i = n / 3;
  const int v = 3 + static_cast<int>(w.note.size() % 7);
  if (i < 4) return w.Post(api, hash, i % 2, i / 2 != 0);
  if ((i -= 4) < 8) return w.Put(api, hash, "a", v, i, 0);
  if ((i -= 8) < World::kPreconditions - 1) {
    if (api == P) return w.Put(api, hash, "b", v, i == 0 ? 0 : 1, 0);
    return w.Put(api, hash, "a", v, 0, i + 1);
  }
  if ((i -= World::kPreconditions - 1) < 11) return w.Patch(api, hash, "a", v, i, 0);
  if ((i -= 11) < 4) return w.Patch(api, hash, i % 2 ? "p1" : "a", v, i, api == P ? 0 : 2 + i);
  if ((i -= 4) < 3) return w.Delete(api, hash, i == 0 ? "a" : i == 1 ? "b" : "p1", 0);
  i = (n - 3 * (2 * 2 + 8 + (World::kPreconditions - 1) + 11 + 4 + 3));
  w.Delete(i % 2 ? S : H, hash, "a", i % World::kPreconditions);
}
void ReadAllItems(World& w, bool hash) {
  const uint64_t records = w.Records();
  for (const char* k : {"a", "b", "p0", "p1"}) w.ReadItem(hash, k);
  w.ReadItems(hash);
  if (w.Records() != records) w.Fail("read-recorded", "reading has changed the log");
  w.Compare("read");
}

}  // namespace

// Pages: the given range of the collection, and links that lead through all of it.
EN_SCENARIO(pages) {
  World w;
  const bool hash = en::Flip();
  const int total = en::Choose(6);
  for (int i = 0; i < total; ++i) w.Put(H, hash, Keys(i), i, 0, 0);
  const string field = hash ? "hash" : "item";
  std::vector<string> all;
  for (const auto& e : hash ? w.m.hash : w.m.item) all.push_back("{\"url\":\"U/data/" + field + "/" + e.first + "\",\"brief\":" + BriefJSON(e.first, e.second) + "}");
  if (hash) all = w.DataOf(Ask("GET", "/h/data/hash").body);
  const uint64_t i = static_cast<uint64_t>(en::Choose(8));
  const std::vector<uint64_t> ns = {1, 2, 3, 4, 5, 6, 10, 11, 1000, 1000000000000ull, 1ull << 62, 1ull << 63, ~0ull};
  const uint64_t n = en::Pick(ns);
  w.note += " i=" + std::to_string(i) + " n=" + std::to_string(n);
  const auto page = [&](uint64_t i, uint64_t n) {
    const auto r = Ask("GET", "/h/data/" + field + "?i=" + std::to_string(i) + "&n=" + std::to_string(n));
    if (r.code != 200) w.Fail("page-status", std::to_string(r.code) + " " + r.body);
    return r.body;
  };
  const string body = page(i, n);
  const uint64_t size = static_cast<uint64_t>(total), from = std::min(i, size), count = std::min(n, size - from);
  if (w.DataOf(body) != std::vector<string>(all.begin() + static_cast<long>(from), all.begin() + static_cast<long>(from + count))) w.Fail("page-data", body);
  const auto has = [&](const string& s) { return body.find(s) != string::npos; };
  if (!has("\"i\":" + std::to_string(from) + ",\"n\":" + std::to_string(count) + ",\"total\":" + std::to_string(size) + ",")) w.Fail("page-numbers", body);
  if (has("\"url_next_page\":null") != (from + count >= size)) w.Fail("page-next", body);
  if (has("\"url_previous_page\":null") != (from == 0)) w.Fail("page-previous", body);
  // Follow the links.
  for (const bool next : {true, false}) {
    string at = body;
    std::set<string> met;
    for (const auto& e : w.DataOf(at)) met.insert(e);
    int steps = 0;
    while (true) {
      const string name = next ? "\"url_next_page\":\"" : "\"url_previous_page\":\"";
      const size_t p = at.find(name);
      if (p == string::npos) break;
      const string url = at.substr(p + name.size(), at.find('"', p + name.size()) - p - name.size());
      if (url.compare(0, 1, "U")) w.Fail("page-link", url);
      const auto r = Ask("GET", "/h" + url.substr(1));
      if (r.code != 200 || ++steps > 20) w.Fail("page-link", url + ": " + std::to_string(r.code));
      at = r.body;
      for (const auto& e : w.DataOf(at)) met.insert(e);
    }
    for (uint64_t j = next ? from : 0; j < (next ? size : from + count); ++j)
      if (!met.count(all[j])) w.Fail("page-links", all[j] + " is not on any of the pages");
  }
  en::Note(w.note);
}

// Keys of all sorts.
EN_SCENARIO(keys) {
  World w;
  const std::vector<std::pair<string, string>> keys = {{"x%20y", "x y"}, {"%D1%8F", "\xd1\x8f"}, {"a.b", "a.b"}, {"-", "-"}, {"%2B", "+"}, {"~", "~"}, {"0", "0"}, {"a%3Fb", "a?b"}, {"%25", "%"}, {"a%26b", "a&b"}, {"a%3Db", "a=b"}};
  const API api = static_cast<API>(en::Choose(3));
  const auto& k = en::Pick(keys);
  const bool by_query = en::Flip();
  const string url = kAPI[api] + string("/data/item") + (by_query ? "?key=" : "/") + k.first;
  w.note = url;
  const string j = ItemJSON(k.second, Item{5, "null", 0});
  const auto code = [&](int got, int want, const char* what) {
    if (got != want) w.Fail(what, std::to_string(got));
  };
  code(Ask("GET", url).code, 404, "key-get-missing");
  code(Ask("PUT", url, j).code, 201, "key-put");
  code(Ask("PUT", url, j).code, 200, "key-put-again");
  EN_CHECK_EQ(Ask("GET", kAPI[P] + string("/data/item") + (by_query ? "/" : "?key=") + k.first).body, j + "\n", "key-get");
  code(Ask("PATCH", url, "{\"v\":6}").code, 200, "key-patch");
  EN_CHECK_EQ(Ask("GET", kAPI[P] + string("/data/item/") + k.first).body, ItemJSON(k.second, Item{6, "null", 0}) + "\n", "key-get");
  code(Ask("DELETE", url).code, 200, "key-delete");
  code(Ask("GET", url).code, 404, "key-get-deleted");
}

// The follower only reads; exports are from the followers.
EN_SCENARIO(follower) {
  current::time::ResetToZero();
  EnsureServer();
  auto stream = storage_t::stream_t::CreateStream();
  auto master = storage_t::CreateMasterStorageAtopExistingStream(stream);
  current::time::SetNow(us_t(1500000000000000ll), us_t(1600000000000000ll));
  const int total = en::Choose(5);
  const int shards = en::Choose(4);
  const API api = static_cast<API>(1 + en::Choose(2));
  const bool hash = en::Flip();
  const string field = hash ? "hash" : "item";
  std::map<string, std::pair<string, int64_t>> all;
  for (int i = 0; i < total; ++i) {
    RItem e;
    e.key = Keys(i);
    e.v = i;
    current::Value(master->ReadWriteTransaction([&](MutableFields<storage_t> f) { f.item.Add(e), f.hash.Add(e); }).Go());
    current::Value(master->ReadOnlyTransaction([&](ImmutableFields<storage_t> f) { all[e.key] = {JSON(e), current::Value(hash ? f.hash.LastModified(e.key) : f.item.LastModified(e.key)).count()}; }).Go());
  }
  struct Serve {
    std::unique_ptr<RESTfulStorage<storage_t, Simple>> s;
    std::unique_ptr<RESTfulStorage<storage_t, Hypermedia>> h;
    Serve(storage_t& storage, API api) {
      if (api == S) s = std::make_unique<RESTfulStorage<storage_t, Simple>>(storage, kPort, "/f", "U");
      else h = std::make_unique<RESTfulStorage<storage_t, Hypermedia>>(storage, kPort, "/f", "U");
    }
  };
  {
    Serve serve(*master, api);
    EN_CHECK_EQ(Ask("GET", "/f/data/" + field + "?export").code, 403, "export-off-master");
  }
  auto follower = storage_t::CreateFollowingStorageAtopExistingStream(stream);
  while (true) {
    size_t n = 0;
    current::Value(follower->ReadOnlyTransaction([&](ImmutableFields<storage_t> f) { n = f.item.Size(); }).Go());
    if (n == static_cast<size_t>(total)) break;
    std::this_thread::yield();
  }
  Serve serve(*follower, api);
  const uint64_t records = stream->Data()->Size();
  for (const char* method : {"POST", "PUT", "PATCH", "DELETE"}) {
    const auto r = Ask(method, "/f/data/" + field + (method == string("POST") ? "" : "/a"), ItemJSON("a", Item{9, "null", 0}));
    EN_CHECK_EQ(r.code, 405, "follower-method");
    EN_CHECK(r.body.find("MethodNotAllowed") != string::npos, "follower-method");
  }
  EN_CHECK_EQ(Ask("POST", "/f/cqs/command/add", "{}").code, 503, "follower-command");
  EN_CHECK_EQ(Ask("GET", "/f/data/" + field + "/a").code, total ? 200 : 404, "follower-get");
  std::multiset<string> plain, detailed, want_plain, want_detailed;
  for (const auto& e : all) {
    want_plain.insert(e.second.first);
    want_detailed.insert("{\"key\":\"" + e.first + "\",\"timestamp_us\":" + std::to_string(e.second.second) + ",\"timestamp_http\":\"" + HTTPDate(e.second.second) + "\",\"data\":" + e.second.first + "}");
  }
  // The shards, together, are everything, once.
  for (int i = 0; i < std::max(shards, 1); ++i) {
    const string q = shards ? "&nshards=" + std::to_string(shards) + "&shard=" + std::to_string(i) : "";
    const auto p = Ask("GET", "/f/data/" + field + "?export" + q), d = Ask("GET", "/f/data/" + field + "?export=detailed" + q);
    EN_CHECK_EQ(p.code, 200, "export-status");
    EN_CHECK_EQ(d.code, 200, "export-status");
    for (auto l : World::LinesOf(p.body)) {
      const size_t at = l.find(",\"note\":null");  // the minimalistic format need not have the missing ones
      if (at == string::npos) l.insert(l.size() - 1, ",\"note\":null");
      plain.insert(l);
    }
    if (d.body.size() < 3 || d.body[0] != '[' || d.body.substr(d.body.size() - 2) != "]\n") en::Violation("export-detailed", d.body);
    int depth = 0;
    string cur;
    for (size_t j = 1; j + 2 < d.body.size(); ++j) {
      const char c = d.body[j];
      if (c == '{') ++depth;
      if (c == '}' && depth == 2 && cur.find("\"note\"") == string::npos) cur += ",\"note\":null";
      if (c == '}') --depth;
      if (!depth && c == ',') continue;
      cur += c;
      if (!depth) detailed.insert(cur), cur.clear();
    }
    if (!cur.empty()) en::Violation("export-detailed", d.body);
  }
  EN_CHECK(plain == want_plain, "export");
  if (detailed != want_detailed) en::Violation("export-detailed", (detailed.empty() ? "" : *detailed.begin()) + " vs. " + (want_detailed.empty() ? "" : *want_detailed.begin()));
  EN_CHECK_EQ(stream->Data()->Size(), records, "follower-recorded");
  en::State(static_cast<uint64_t>(total * 100 + shards * 10 + api + 3 * hash));
}

// Queries and commands.
EN_SCENARIO(cqs) {
  World w;
  const API api = static_cast<API>(en::Choose(3));
  const string base = kAPI[api] + string("/cqs");
  const auto ask = [&](const string& method, const string& url, const string& body = "") {
    w.note += " " + method + " " + url + " " + body;
    w.Tick();
    return Ask(method, base + url, body);
  };
  const auto code = [&](const httpwire::Raw& r, int want, const char* sig) {
    if (r.code != want) w.Fail(sig, std::to_string(r.code) + " " + r.body);
  };
  {
    World::Watch watch(w);
    code(ask("GET", "/query"), 404, "query-unnamed");
    code(ask("GET", "/query/count"), 404, "query-unknown");
    code(ask("POST", "/command"), 404, "command-unnamed");
    code(ask("POST", "/command/add", "{\"keys\":[],\"how\":\"\"}"), 404, "command-unknown");
    watch.Unchanged("cqs-unknown");
  }
  const auto add = [](auto& rest) {
    rest.template AddCQSQuery<CountQuery>("count");
    rest.template AddCQSCommand<AddCommand>("add");
    bool twice = false;
    try {
      rest.template AddCQSQuery<CountQuery>("count");
      twice = true;
    } catch (const current::Exception&) {
    }
    try {
      rest.template AddCQSCommand<AddCommand>("add");
      twice = true;
    } catch (const current::Exception&) {
    }
    EN_CHECK(!twice, "registered-twice");
  };
  if (api == P) add(w.p);
  if (api == S) add(w.s);
  if (api == H) add(w.h);
  const std::vector<string> hows = {"", "throw", "current", "rollback", "with"};
  for (int step = 0; step < 2; ++step) {
    const int op = en::Choose(24);
    World::Watch watch(w);
    if (op < 15) {
      const string& how = hows[static_cast<size_t>(op % 5)];
      const std::vector<string> keys = op < 5 ? std::vector<string>{"a", "b"} : op < 10 ? std::vector<string>{"b"} : std::vector<string>{};
      const bool by_url = step == 1;
      const string method = op % 3 == 0 ? "POST" : op % 3 == 1 ? "PUT" : "PATCH";
      string list;
      for (const auto& k : keys) list += (list.empty() ? "" : ",") + ("\"" + k + "\"");
      const auto r = by_url ? ask(method, "/command/add?how=" + how + "&keys=[" + list + "]") : ask(method, "/command/add", "{\"keys\":[" + list + "],\"how\":\"" + how + "\"}");
      if (how == "") {
        w.Expect(r, 200, "U added " + std::to_string(keys.size()) + "\n", "command");
        int n = 0;
        for (const auto& k : keys) w.m.item[k] = Item{++n, "null", w.LastModified(false, k)};
        if (keys.empty()) w.Compare("command");
        else watch.Once("command");
      } else {
        if (how == "with") w.Expect(r, 412, "rolled back\n", "command-rolled-back");
        else code(r, 500, "command-failed");
        watch.Unchanged("command-failed");
      }
      continue;
    }
    int n = 0, n2 = 0;
    for (const auto& e : w.m.item) n += e.second.v >= 0, n2 += e.second.v >= 2;
    if (op == 15) w.Expect(ask("GET", "/query/count"), 200, "U " + std::to_string(n) + "\n", "query");
    if (op == 16) w.Expect(ask("GET", "/query/count?min=2"), 200, "U " + std::to_string(n2) + "\n", "query");
    if (op == 17) code(ask("GET", "/query/count?fail=true"), 500, "query-failed");
    if (op == 18) code(ask("POST", "/query/count"), 405, "query-method");
    if (op == 19) code(ask("GET", "/command/add"), 405, "command-method");
    if (op == 20) code(ask("DELETE", "/command/add"), 405, "command-method");
    if (op == 21) code(ask("POST", "/command/add", "{}"), 400, "command-bad-body");
    if (op == 22) code(ask("POST", "/command/add?how="), 400, "command-bad-url");
    if (op == 23) code(ask("POST", "/command/add", "{\"keys\":[1],\"how\":\"\"}"), 400, "command-bad-body");
    watch.Unchanged("query");
  }
  en::State(w.note);
}

// The rest of the routes, the hidden field, aliases, and the shutdown.
EN_SCENARIO(routes) {
  World w;
  w.Put(H, false, "a", 1, 0, 0);
  const string fields = "\"url_data\":{\"hash\":\"U/data/hash\",\"item\":\"U/data/item\",\"mm\":\"U/data/mm\",\"om\":\"U/data/om\",\"oo\":\"U/data/oo\"}";
  const API api = static_cast<API>(en::Choose(3));
  const string base = kAPI[api];
  const auto down = [&]() {
    if (api == P) w.p.SwitchHTTPEndpointsTo503s();
    if (api == S) w.s.SwitchHTTPEndpointsTo503s();
    if (api == H) w.h.SwitchHTTPEndpointsTo503s();
  };
  const auto alias = [&](const string& target) {
    if (api == P) w.p.RegisterAlias(target, "alias");
    if (api == S) w.s.RegisterAlias(target, "alias");
    if (api == H) w.h.RegisterAlias(target, "alias");
  };
  const auto top = [&](bool up) {
    const auto r = Ask("GET", base), s = Ask("GET", base + "/status");
    if (api == P) {
      EN_CHECK_EQ(r.code, 404, "top-level");
      return;
    }
    const string u = up ? "true" : "false";
    w.Expect(r, up ? 200 : 503, "{\"url\":\"U\",\"url_status\":\"U/status\"," + fields + ",\"up\":" + u + "}\n", "top-level");
    w.Expect(s, up ? 200 : 503, "{\"up\":" + u + "}\n", "status");
  };
  top(true);
  for (const char* u : {"/data/hidden", "/data/hidden/a", "/schema/hidden", "/data/nothing", "/data", "/data/item.row", "/data/mm.key", "/data/alias"}) {
    const int code = Ask("GET", base + u).code;
    if (code != 404) en::Violation("exposed", base + u + ": " + std::to_string(code));
  }
  EN_CHECK_EQ(Ask("PUT", base + "/data/hidden/a", ItemJSON("a", Item{1, "null", 0})).code, 404, "exposed");
  EN_CHECK_EQ(Ask("GET", base + "/schema/item").body, "RItem", "schema");
  EN_CHECK_EQ(Ask("GET", base + "/schema/mm").body, "RCell", "schema");
  EN_CHECK_EQ(Ask("GET", base + "/schema/item.h").code, 200, "schema");
  for (const char* method : {"OPTIONS", "TRACE", "FOO"}) EN_CHECK_EQ(Ask(method, base + "/data/item/a").code, 405, "unknown-method");
  w.Compare("routes");
  const bool dictionary = en::Flip();
  alias(dictionary ? "item" : "mm");
  EN_CHECK_EQ(Ask("GET", base + "/data/alias").body, Ask("GET", base + (dictionary ? "/data/item" : "/data/mm")).body, "alias");
  EN_CHECK_EQ(Ask("GET", base + "/schema/alias").body, dictionary ? "RItem" : "RCell", "alias");
  EN_CHECK_EQ(Ask("GET", base + (dictionary ? "/data/alias/a" : "/data/alias.row")).code, 200, "alias");
  if (en::Flip()) {
    const uint64_t records = w.Records();
    for (int i = 0; i < 2; ++i) {
      down();
      top(false);
      for (const char* method : {"GET", "PUT", "POST", "PATCH", "DELETE"})
        for (const char* u : {"/data/item/a", "/data/item", "/data/mm/a/1", "/data/mm.row", "/schema/item", "/cqs/query/count", "/cqs/command/add"}) {
          const int code = Ask(method, base + u, "{}").code;
          if (code != 503) en::Violation("served-after-shutdown", string(method) + " " + base + u + ": " + std::to_string(code));
        }
    }
    EN_CHECK_EQ(w.Records(), records, "changed-after-shutdown");
    EN_CHECK_EQ(Ask("GET", kAPI[(api + 1) % 3] + string("/data/item/a")).code, 200, "the-others-still-up");
  }
  w.Compare("routes");
}

// Dialogues on dictionaries, and on matrices.
EN_SCENARIO(dictionary, (en::Opts{60})) {
  World w;
  const bool hash = en::Flip();
  const int before = en::Choose(4);
  if (before & 1) w.Put(H, hash, "a", 1, 0, 0);
  if (before & 2) w.Post(P, hash, 1, false);
  const int depth = en::Thorough() ? 3 : 2;
  for (int i = 0; i < depth; ++i) {
    if (i == 2) ItemOp(w, en::Choose(36) * 3 + 1, hash);
    else if (i + 1 < depth && !en::Thorough()) ItemOp(w, en::Choose(hash ? 8 : 36) * 3 + 1 + i, hash);
    else ItemOp(w, en::Choose(ItemOps()), hash);
  }
  ReadAllItems(w, hash);
  en::State(w.Want());
  en::Note(w.note);
}

EN_SCENARIO(matrix, (en::Opts{60})) {
  World w;
  const Kind kind = static_cast<Kind>(en::Choose(3));
  const std::vector<CellKey> keys = {{"a", 1}, {"a", 2}, {"b", 1}, {"b", 2}};
  const int depth = en::Thorough() ? 4 : 3;
  for (int i = 0; i < depth; ++i) {
    const CellKey& k = keys[static_cast<size_t>(en::Choose(4))];
    const API api = static_cast<API>((i + static_cast<int>(w.note.size())) % 3);
    const int what = en::Choose(i + 1 == depth ? 26 : i || en::Thorough() ? 3 : 1);
    if (what == 0) w.PutCell(api, kind, k, i, 0);
    else if (what == 1) w.DeleteCell(api, kind, k, 0);
    else if (what == 2) w.PostCell(api, kind, k, 10 + i, false);
    else if (what < 10) w.PutCell(api, kind, k, i, what - 2);
    else if (what < 14) w.PatchCell(api, kind, k, 20 + i, what - 10);
    else if (what == 14) w.PostCell(api, kind, k, 10 + i, true);
    else if (what < 20) w.PutCell(what % 2 ? S : H, kind, k, i, 0, what - 15 < 4 ? what - 14 : what - 12);
    else if (what < 25) w.DeleteCell(what % 2 ? S : H, kind, k, what - 20 < 4 ? what - 19 : 7);
    else w.DeleteCell(H, kind, k, 8);
  }
  const uint64_t records = w.Records();
  for (const auto& k : keys) w.ReadCell(kind, k);
  w.ReadCells(kind);
  if (w.Records() != records) w.Fail("read-recorded", "reading has changed the log");
  w.Compare("read");
  en::State(w.Want());
  en::Note(w.note);
}
