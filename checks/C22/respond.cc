// C22: what the handler sends against what the client decodes: every shape of a response in one piece, every sequence of chunks
// up to a depth around the sizes of the cache, every sequence of operations on the connection.
#include "blocks/http/api.h"

#include "../common/fakenet.h"
#include "../common/httpwire.h"
#include "enum.h"

using namespace current::http;
using current::net::ChunkFlush;
using current::net::HTTPServerConnection;
using current::net::http::Headers;
using std::string;
using httpwire::Raw;
using httpwire::Read;

CURRENT_STRUCT(C22Object) {
  CURRENT_FIELD(s, std::string);
  CURRENT_FIELD(n, int32_t, 0);
};
CURRENT_STRUCT(C22Other) { CURRENT_FIELD(q, std::vector<int32_t>); };
CURRENT_VARIANT(C22Variant, C22Object, C22Other);

namespace {

fakenet::ep_t Scripted(const string& bytes, fakenet::End end) {
  auto e = std::make_shared<fakenet::Endpoint>();
  e->in = bytes;
  e->end = end;
  return e;
}
std::unique_ptr<HTTPServerConnection> Serve(const fakenet::ep_t& e) {
  return std::make_unique<HTTPServerConnection>(
      current::net::Connection(current::net::SocketHandle(current::net::SocketHandle::FromAcceptedHandle(fakenet::Open(e))),
                               current::net::IPAndPort("127.0.0.1", 1),
                               current::net::IPAndPort("127.0.0.1", 2)));
}
fakenet::ep_t GetRequest() { return Scripted("GET /x HTTP/1.1\r\n\r\n", fakenet::End::Block); }

fakenet::ep_t g_peer;
fakenet::ep_t ThePeer(const string&, uint16_t) { return g_peer; }
struct Wire {  // The client talks to a peer that answers with these bytes.
  explicit Wire(const string& bytes, fakenet::End end = fakenet::End::Eof, size_t segment = static_cast<size_t>(-1)) {
    g_peer = Scripted(bytes, end);
    g_peer->max_segment = segment;
    fakenet::N().on_connect = ThePeer;
  }
  ~Wire() {
    fakenet::N().on_connect = nullptr;
    g_peer = nullptr;
  }
};

string Show(const string& s) {
  string r;
  char b[8];
  for (unsigned char c : s.substr(0, 600)) {
    if (c >= 32 && c < 127 && c != '\\') r += static_cast<char>(c);
    else snprintf(b, sizeof b, c == '\r' ? "\\r" : c == '\n' ? "\\n" : "\\x%02x", c), r += b;
  }
  return r;
}


struct Expected {
  int code = 200;
  string content_type = "text/plain";
  Headers headers;
  string body;
};

// Both on the wire and through the real client.
void Compare(const string& wire, const Expected& x) {
  const Raw raw = Read(wire);
  if (!raw.ok) en::Violation("framing", raw.why + " in `" + Show(wire) + "`");
  EN_CHECK_EQ(raw.code, x.code, "code");
  EN_CHECK_EQ(raw.Header("Content-Type"), x.content_type, "content-type");
  if (raw.body != x.body) en::Violation("body", "sent `" + Show(x.body) + "`, on the wire `" + Show(wire) + "`");
  std::vector<std::pair<string, string>> sent, got;
  for (const auto& h : x.headers) sent.emplace_back(h.header, h.value);
  size_t set_cookies = 0;
  for (const auto& h : raw.headers) {
    if (h.first == "Set-Cookie") ++set_cookies;
    else if (h.first != "Content-Type" && h.first != "Connection" && h.first != "Content-Length" && h.first != "Transfer-Encoding") got.push_back(h);
  }
  if (sent != got) en::Violation("headers", "on the wire `" + Show(wire) + "`");
  EN_CHECK_EQ(set_cookies, x.headers.cookies.size(), "cookies");

  for (size_t segment : {static_cast<size_t>(-1), static_cast<size_t>(7)}) {
    Wire w(wire, fakenet::End::Block, segment);
    try {
      const auto r = HTTP(GET("http://h:81/x"));
      EN_CHECK_EQ(static_cast<int>(r.code), x.code, "client-code");
      if (r.body != x.body) en::Violation("client-body", "sent `" + Show(x.body) + "`, received `" + Show(r.body) + "`");
      for (const auto& h : x.headers) {
        EN_CHECK(r.headers.Has(h.header), "client-headers");
        EN_CHECK_EQ(r.headers.Get(h.header), h.value, "client-headers");
      }
      EN_CHECK_EQ(r.headers.size(), x.headers.size() + 3, "client-headers");  // Content-Type, Connection, Content-Length / Transfer-Encoding.
      EN_CHECK_EQ(r.headers.Get("Content-Type"), x.content_type, "client-content-type");
      EN_CHECK_EQ(r.headers.cookies.size(), x.headers.cookies.size(), "client-cookies");
      for (const auto& c : x.headers.cookies) {
        const auto it = r.headers.cookies.find(c.first);
        if (it == r.headers.cookies.end() || it->second.value != c.second.value || it->second.params != c.second.params)
          en::Violation("client-cookies", "cookie " + c.first + " on the wire `" + Show(wire) + "`");
      }
    } catch (const current::Exception& e) {
      en::Violation("client-exception", string(e.what()) + " on `" + Show(wire) + "`");
    }
  }
}

const std::vector<string> kBodies = {"", "x", string("a\0\r\n\r\n0\r\n\xff", 10), string(20000, 'q')};
const std::vector<current::net::HTTPResponseCodeValue> kCodes = {HTTPResponseCode.OK, HTTPResponseCode.Created, HTTPResponseCode.NoContent, HTTPResponseCode.NotFound, HTTPResponseCode.InternalServerError, HTTPResponseCode(299), HTTPResponseCode(599)};

Headers PickHeaders() {
  switch (en::Choose(6)) {
    case 0: return Headers();
    case 1: return Headers({{"A", "b"}});
    case 2: return Headers({{"B-c", "1"}, {"A", "x y: z"}, {"b_C", "2"}});
    case 3: return Headers().SetCORSHeader();
    case 4: return Headers().SetCookie("k", "v").SetCookie("e", "").SetCookie("s", "a=b==");
    default: return Headers({{"Z", "z"}}).SetCookie("k", "v", {{"Path", "/"}, {"Secure", ""}, {"Expires", "Thu, 01 Jan 1970 00:00:00 GMT"}}).SetCookie("x", "y");
  }
}

}  // namespace

// A response in one piece.
EN_SCENARIO(single, (en::Opts{60})) {
  auto e = GetRequest();
  Expected x;
  const string body = en::Pick(kBodies);
  {
    Request r(Serve(e));
    const int shape = en::Choose(12);
    en::Note("shape " + std::to_string(shape));
    x.body = body;
    C22Object object;
    object.s = "q\"\r\n";
    object.n = 42;
    C22Other other;
    other.q = {1, 2};
    const string object_json = "{\"s\":\"q\\\"\\r\\n\",\"n\":42}\n";
    const auto pick_code = [&] {
      const auto c = en::Pick(kCodes);
      x.code = static_cast<int>(c);
      return c;
    };
    const string json_type = "application/json; charset=utf-8";
    switch (shape) {
      case 0: r(body); break;
      case 1: r(body, pick_code()); break;
      case 2: {
        x.headers = PickHeaders();
        r(body, pick_code(), x.headers);
        break;
      }
      case 3: {
        x.headers = PickHeaders();
        x.content_type = "image/png";
        r(body, pick_code(), x.headers, x.content_type);
        break;
      }
      case 4: {
        x.content_type = "image/png";
        r(body, pick_code(), x.content_type);
        break;
      }
      case 5: r.connection.SendHTTPResponse(std::vector<char>(body.begin(), body.end())); break;
      case 6: {
        const std::vector<uint8_t> v(body.begin(), body.end());
        x.headers = PickHeaders();
        x.content_type = "t/t";
        if (en::Flip()) r.connection.SendHTTPResponse(v, pick_code(), x.headers, x.content_type);
        else r.connection.SendHTTPResponse(v, pick_code(), x.content_type, x.headers);
        break;
      }
      case 7: {
        if (body != "x") en::Skip();
        x.body = object_json;
        x.content_type = json_type;
        const int k = en::Choose(4);
        if (k == 0) r(object);
        else if (k == 1) r(object, pick_code());
        else if (k == 2) x.headers = PickHeaders(), r(object, pick_code(), x.headers);
        else x.headers = PickHeaders(), x.content_type = "t/t", r(object, pick_code(), x.headers, x.content_type);
        break;
      }
      case 8: {
        if (body != "x") en::Skip();
        x.content_type = json_type;
        C22Variant v;
        if (en::Flip()) v = object, x.body = "{\"C22Object\":" + object_json.substr(0, object_json.size() - 1);
        else v = other, x.body = "{\"C22Other\":{\"q\":[1,2]}";
        const string json = JSON(v);
        EN_CHECK_EQ(json.compare(0, x.body.size(), x.body), 0, "variant-json");
        x.body = json + "\n";
        r(v, pick_code());
        break;
      }
      case 9: {  // struct Response
        x.headers = PickHeaders();
        const auto headers = x.headers;
        const bool cors = en::Flip();
        Response response(body, pick_code(), headers);
        if (!cors) response.DisableCORS();
        else if (!x.headers.Has("Access-Control-Allow-Origin")) x.headers.Set("Access-Control-Allow-Origin", "*");
        const int how = en::Choose(4);
        if (how == 0) {
          r(response);
        } else if (how == 1) {
          r(Response(response));
        } else if (how == 2) {
          Response assigned(string("other"), HTTPResponseCode.Accepted, Headers({{"A", "old"}, {"Gone", "old"}}).SetCookie("gone", "1"));
          assigned = response;
          r(assigned);
        } else {
          Response moved(std::move(response));
          r(std::move(moved));
        }
        break;
      }
      case 10: {  // built step by step
        Response response;
        response.Body(body).Code(pick_code()).ContentType("t/t").SetHeader("A", "1").SetHeader("a", "2").SetHeader("B", "3").SetCookie("k", "v").SetCookie("k", "w", {{"Path", "/"}}).DisableCORS();
        if (en::Flip()) response.EnableCORS();
        x.content_type = "t/t";
        x.headers = Headers({{"A", "2"}, {"B", "3"}});
        if (response.cors_header) x.headers.Set("Access-Control-Allow-Origin", "*");
        x.headers.SetCookie("k", "w", {{"Path", "/"}});
        r(response);
        break;
      }
      default: {
        if (body != "x") en::Skip();
        x.headers.Set("Access-Control-Allow-Origin", "*");
        x.content_type = json_type;
        x.body = object_json;
        if (en::Flip()) {
          r(Response(object, pick_code()));
        } else if (en::Flip()) {
          r(Response().JSON(object).Code(pick_code()));
        } else {
          x.body = "{\"name\":" + object_json.substr(0, object_json.size() - 1) + "}\n";
          r(Response(object, string("name"), pick_code()));
        }
      }
    }
    bool refused = false;
    try {
      if (r.unique_connection) r("second");
      else refused = true;
    } catch (const current::net::AttemptedToSendHTTPResponseMoreThanOnce&) {
      refused = true;
    }
    EN_CHECK(refused, "second-response");
  }
  EN_CHECK(e->closed, "connection-not-closed");
  Compare(e->out, x);
}

namespace {

template <uint64_t CACHE>
void Chunks() {
  const int c = static_cast<int>(CACHE > 1000 ? 1000 : CACHE);
  std::vector<int> sizes = {0, 1, 2, c - 6, c - 5, c - 4, c, c + 1, 2 * c + 3};
  std::sort(sizes.begin(), sizes.end());
  sizes.erase(std::unique(sizes.begin(), sizes.end()), sizes.end());
  sizes.erase(std::remove_if(sizes.begin(), sizes.end(), [](int n) { return n < 0; }), sizes.end());
  const long depth = en::Param("chunks", 3) - (CACHE == 8 ? 0 : 1);
  auto e = GetRequest();
  std::vector<string> sent;
  string body, note;
  bool failed = false;
  Expected x;
  x.headers = Headers({{"A", "b"}});
  x.code = 201;
  x.content_type = "t/t";
  const int fail_at = en::Choose(3);  // The receiver goes away: never, or after so many bytes.
  size_t out_when_failed = 0;
  {
    Request r(Serve(e));
    {
      auto sender = r.SendChunkedResponse<CACHE>(HTTPResponseCode.Created, x.headers, x.content_type);
      if (fail_at) e->fail_send_after = static_cast<long>(e->out.size()) + (fail_at == 1 ? 0 : c + 8);
      const int n = en::Choose(static_cast<int>(depth) + 1);
      for (int i = 0; i < n; ++i) {
        const int size = en::Pick(sizes);
        const bool flush = en::Flip();
        string data(static_cast<size_t>(size), static_cast<char>('a' + i));
        if (size > 2) data[0] = '\r', data[1] = '\n', data[static_cast<size_t>(size) - 1] = '\0';
        note += std::to_string(size) + (flush ? "! " : " ");
        try {
          const int how = i % 4;
          if (how == 0) sender.Send(data, flush ? ChunkFlush::Flush : ChunkFlush::NoFlush);
          else if (how == 1) sender(std::vector<char>(data.begin(), data.end()), flush ? ChunkFlush::Flush : ChunkFlush::NoFlush);
          else if (how == 2) sender(std::vector<uint8_t>(data.begin(), data.end()), flush ? ChunkFlush::Flush : ChunkFlush::NoFlush);
          else sender.Send(std::move(data), flush ? ChunkFlush::Flush : ChunkFlush::NoFlush);
        } catch (const current::net::SocketException&) {
          EN_CHECK(fail_at, "chunk-exception");
          failed = true;
          out_when_failed = e->out.size();
          break;
        }
        if (size) sent.push_back(string(static_cast<size_t>(size), static_cast<char>('a' + i))), body += string();
        if (size > 2) {
          string& s = sent.back();
          s[0] = '\r', s[1] = '\n', s[static_cast<size_t>(size) - 1] = '\0';
        }
        if (flush) {
          const Raw raw = Read(e->out);
          if (!raw.ok || raw.chunks != sent || raw.terminated) en::Violation("flush", "not everything is sent after a flush: " + note + raw.why);
          if (!sent.empty()) EN_CHECK_EQ(e->pushed, e->out.size(), "flush-held");
        }
      }
      if (en::Flip()) {
        auto moved = std::move(sender);  // The moved-from one must not end the response.
        EN_CHECK(failed || !Read(e->out).terminated, "moved-sender");
      }
    }
    en::Note(note);
    EN_CHECK(!failed || e->out.size() == out_when_failed, "write-after-failure");
    bool refused = false;
    try {
      r("second");
    } catch (const current::net::AttemptedToSendHTTPResponseMoreThanOnce&) {
      refused = true;
    }
    EN_CHECK(refused, "second-response");
  }
  en::State(note);
  en::Transition();
  if (failed) return;
  const Raw raw = Read(e->out);
  if (fail_at && (!raw.ok || !raw.terminated)) return;  // The failure happened at the end.
  if (!raw.ok || !raw.terminated) en::Violation("framing", note + ": " + raw.why + " in `" + Show(e->out) + "`");
  if (raw.chunks != sent) en::Violation("chunks", note + ": on the wire `" + Show(e->out) + "`");
  EN_CHECK_EQ(e->pushed, e->out.size(), "terminator-held");
  for (const string& s : sent) x.body += s;
  Compare(e->out, x);
  Wire w(e->out, fakenet::End::Block, 5);
  std::vector<string> got;
  int done = 0;
  try {
    const auto code = HTTP(ChunkedGET("http://h:81/x", [](const string&, const string&) {}, [&](const string& s) { got.push_back(s); }, [&] { ++done; }));
    EN_CHECK_EQ(static_cast<int>(code), 201, "client-code");
  } catch (const current::Exception& ex) {
    en::Violation("client-exception", ex.what());
  }
  EN_CHECK(got == sent, "client-chunks");
  EN_CHECK_EQ(done, 1, "client-done");
}

}  // namespace

EN_SCENARIO(chunks_8, (en::Opts{60})) { Chunks<8>(); }
EN_SCENARIO(chunks_32, (en::Opts{60})) { Chunks<32>(); }
EN_SCENARIO(chunks_1m, (en::Opts{60})) { Chunks<1024 * 1024>(); }

// Every sequence of operations on a connection results in exactly one answer, and the connection is closed.
EN_SCENARIO(protocol, (en::Opts{60})) {
  auto e = GetRequest();
  std::vector<string> sent;
  int state = 0;  // 0: nothing; 1: one piece; 2: chunks; 3: deliberately nothing
  string note;
  bool threw = false;
  {
    auto r = std::make_unique<Request>(Serve(e));
    std::unique_ptr<HTTPServerConnection::ChunkedResponseSender<16>> sender;
    for (int i = 0; i < en::Param("operations", 4); ++i) {
      const int op = en::Choose(8);
      note += std::to_string(op) + " ";
      bool refused = false;
      bool responding = true;
      try {
        switch (op) {
          case 0: i = 100; responding = false; break;
          case 1: (*r)("one"); break;
          case 2: if (sender) en::Skip();  // The request, with the connection, is consumed.
                  (*r)(Response("two", HTTPResponseCode.Accepted)); break;
          case 3: {
            auto s = r->SendChunkedResponse<16>();
            sender = std::make_unique<HTTPServerConnection::ChunkedResponseSender<16>>(std::move(s));
            break;
          }
          case 4: {
            if (!sender) en::Skip();
            sender->Send(string("chunk"), ChunkFlush::NoFlush);
            sent.push_back("chunk");
            responding = false;
            break;
          }
          case 5: {
            r = std::make_unique<Request>(std::move(*r));
            responding = false;
            break;
          }
          case 6: {
            if (!sender) en::Skip();
            sender = nullptr;
            responding = false;
            break;
          }
          default: r->connection.DoNotSendAnyResponse(); break;
        }
      } catch (const current::net::AttemptedToSendHTTPResponseMoreThanOnce&) {
        refused = true;
      }
      if (responding) {
        if (refused != (state != 0)) en::Violation("second-response", note + (refused ? ": refused" : ": accepted"));
        if (!refused) state = op == 3 ? 2 : op == 7 ? 3 : 1;
        if (!refused && (op == 1 || op == 2)) sent = {op == 1 ? "one" : "two"};
        if (!r->unique_connection) break;  // Response consumes the request.
      } else {
        EN_CHECK(!refused, "refused");
      }
    }
    (void)threw;
    sender = nullptr;
  }
  en::Note(note);
  en::State(note);
  en::Transition();
  EN_CHECK(e->closed, "connection-not-closed");
  if (state == 3) {
    EN_CHECK_EQ(e->out, string(), "unexpected-answer");
    return;
  }
  const Raw raw = Read(e->out);
  if (!raw.ok) en::Violation("framing", note + ": " + raw.why + " in `" + Show(e->out) + "`");
  if (state == 0) {
    EN_CHECK_EQ(raw.code, 500, "no-response");
  } else if (state == 1) {
    EN_CHECK_EQ(raw.body, sent[0], "body");
    EN_CHECK_EQ(raw.code, sent[0] == "one" ? 200 : 202, "code");
  } else {
    EN_CHECK(raw.chunked && raw.terminated && raw.chunks == sent, "chunks");
  }
}

// The container of headers against a list.
EN_SCENARIO(headers, (en::Opts{60})) {
  struct Model {
    std::vector<std::pair<string, string>> h;
    std::map<string, string> cookies;
    static string Fold(string s) {
      for (char& c : s) c = c == '_' ? '-' : static_cast<char>(tolower(c));
      return s;
    }
    std::pair<string, string>* Find(const string& k) {
      for (auto& x : h)
        if (Fold(x.first) == Fold(k)) return &x;
      return nullptr;
    }
    void Set(const string& k, const string& v) {
      auto* x = Find(k);
      if (!x) h.emplace_back(k, v);
      else if (!v.empty()) x->second += (x->second.empty() ? "" : ", ") + v;
    }
    void Assign(const string& k, const string& v) {
      auto* x = Find(k);
      if (!x) h.emplace_back(k, v);
      else x->second = v;
    }
    void Remove(const string& k) {
      h.erase(std::remove_if(h.begin(), h.end(), [&](const std::pair<string, string>& x) { return Fold(x.first) == Fold(k); }), h.end());
    }
  };
  const std::vector<string> keys = {"X-a", "x_A", "B"};
  Headers real[2];
  Model model[2];
  string note;
  for (int i = 0; i < en::Param("header_operations", 4); ++i) {
    const int op = en::Choose(9);
    const int who = op && op < 6 ? en::Choose(2) : 0;
    note += std::to_string(op) + "@" + std::to_string(who);
    switch (op) {
      case 0: i = 100; break;
      case 1: {
        const string k = en::Pick(keys), v = en::Flip() ? "v" + std::to_string(i) : "";
        note += k + "=" + v;
        real[who].Set(k, v);
        model[who].Set(k, v);
        break;
      }
      case 2: {
        const string k = en::Pick(keys), v = "w" + std::to_string(i);
        note += k + ":=" + v;
        real[who][k] = v;
        model[who].Assign(k, v);
        break;
      }
      case 3: {
        const string k = en::Pick(keys);
        note += "-" + k;
        real[who].Remove(k);
        model[who].Remove(k);
        break;
      }
      case 4: {
        real[who].SetCORSHeader();
        model[who].Assign("Access-Control-Allow-Origin", "*");
        break;
      }
      case 5: {
        real[who].SetCookie("c", std::to_string(i));
        model[who].cookies["c"] = std::to_string(i);
        break;
      }
      case 6: {
        real[0] = real[1];
        model[0] = model[1];
        break;
      }
      case 7: {
        const Headers& alias = real[0];
        real[0] = alias;
        break;
      }
      default: {
        Headers copy(real[0]);
        real[1] = std::move(copy);
        model[1] = model[0];
      }
    }
    note += " ";
    en::Transition();
    for (int w = 0; w < 2; ++w) {
      std::vector<std::pair<string, string>> got;
      for (const auto& h : real[w]) got.emplace_back(h.header, h.value);
      if (got != model[w].h) {
        string s;
        for (const auto& g : got) s += g.first + "=" + g.second + "|";
        en::Violation("header-container", note + ": holds " + s);
      }
      EN_CHECK_EQ(real[w].size(), model[w].h.size(), "header-container-size");
      for (const string& k : keys) {
        const auto* m = model[w].Find(k);
        EN_CHECK_EQ(real[w].Has(k), m != nullptr, "header-lookup");
        EN_CHECK_EQ(real[w].GetOrDefault(k, "-"), m ? m->second : "-", "header-lookup");
      }
      EN_CHECK_EQ(real[w].cookies.size(), model[w].cookies.size(), "header-cookies");
      for (const auto& c : model[w].cookies) EN_CHECK_EQ(real[w].cookies.at(c.first).value, c.second, "header-cookies");
    }
  }
  en::Note(note);
  en::State(note);
}
