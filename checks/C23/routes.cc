// C23: histories of registrations, against a model of the table of routes; every probe goes through the real server.
#include "blocks/http/api.h"

#include "../common/fakenet.h"
#include "enum.h"

using namespace current::http;
using std::string;
using Mask = URLPathArgs::CountMask;
using Scope = HTTPServerPOSIX::HTTPRoutesScope;

namespace {

std::unique_ptr<HTTPServerPOSIX> NewServer(uint16_t port) {
  const int fd = fakenet::Listening(port);
  return std::make_unique<HTTPServerPOSIX>(current::net::ReservedLocalPort(
      current::net::ReservedLocalPort::Construct(), port, current::net::SocketHandle(current::net::SocketHandle::FromAcceptedHandle(fd))));
}

string Ask(uint16_t port, const string& path, const string& method = "GET") {
  auto e = std::make_shared<fakenet::Endpoint>();
  e->in = method + " " + path + " HTTP/1.1\r\n\r\n";
  fakenet::Push(port, e);
  fakenet::WaitClosed(e);
  return e->out;
}
string Body(const string& response) {
  const size_t p = response.find("\r\n\r\n");
  return p == string::npos ? "<no response>" : response.substr(p + 4);
}

// The model: path -> number of arguments -> the handler.
struct Model {
  std::map<string, std::map<int, int>> routes;

  static std::vector<string> Components(const string& path) {
    std::vector<string> r;
    size_t at = 0;
    while (at < path.size()) {
      size_t e = path.find('/', at);
      if (e == string::npos) e = path.size();
      if (e > at) r.push_back(path.substr(at, e - at));
      at = e + 1;
    }
    return r;
  }
  static string Decode(const string& s) {
    string r;
    for (size_t i = 0; i < s.size(); ++i)
      if (s[i] == '%') r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16)), i += 2;
      else r += s[i] == '+' ? ' ' : s[i];  // As DecodeURIComponent() does.
    return r;
  }
  string Answer(const string& request) const {
    const auto components = Components(request);
    for (size_t n = components.size() + 1; n-- > 0;) {
      // The prefix is literal: a double slash within it is not a single one.
      string prefix = request;
      while (prefix.size() > 1 && prefix.back() == '/') prefix.pop_back();
      for (size_t i = n; i < components.size(); ++i) {
        prefix.resize(prefix.rfind('/') + 1);
        while (prefix.size() > 1 && prefix.back() == '/') prefix.pop_back();
      }
      const auto it = routes.find(prefix);
      if (it == routes.end()) continue;
      const int args = static_cast<int>(components.size() - n);
      const auto h = it->second.find(args);
      if (h == it->second.end()) continue;
      string r = "h" + std::to_string(h->second) + " base=" + prefix + " url=" + prefix + (request.size() > 1 && request.back() == '/' ? " slash" : request == "/" ? " slash" : "");
      for (size_t i = n; i < components.size(); ++i) r += " [" + Decode(components[i]) + "]";
      return r;
    }
    return "404";
  }
};

std::function<void(Request)> Handler(int id) {
  return [id](Request r) {
    string s = "h" + std::to_string(id) + " base=" + r.url_path_args.base_path + " url=" + r.url.path + (r.url_path_had_trailing_slash ? " slash" : "");
    for (const auto& a : r.url_path_args) s += " [" + a + "]";
    for (size_t i = 0; i < r.url_path_args.size(); ++i)
      if (r.url_path_args[i] != *(std::vector<string>(r.url_path_args.begin(), r.url_path_args.end()).begin() + static_cast<long>(i))) s += " !index";
    r(s);
  };
}

struct Entry {
  string path;
  unsigned mask;
  std::unique_ptr<Scope> scope;
};

const std::vector<string> kProbes = {"/", "//", "/a", "/a/", "/a/b", "/a/b/", "/a//b", "/a/%20%2F+", "/a/b/c", "/a/b/c/d", "/a/b/c/", "/ab", "/x", "/x/y", "/b/a", "/a/b//", "/A"};

}  // namespace

EN_SCENARIO(histories, (en::Opts{60})) {
  static const uint16_t port = 7;
  static HTTPServerPOSIX* server = nullptr;
  if (!server) server = NewServer(port).release();
  const std::vector<string> paths = {"/", "/a", "/a/b"};
  std::vector<unsigned> masks = {1, 2, 3, 6, 0xffff};
  if (!en::Thorough()) masks = {1, 3, 6};
  Model model;
  std::vector<Entry> entries;  // the scopes alive
  string note;
  // What is left must not survive this execution, however it ends.
  struct Cleanup {
    std::vector<Entry>& entries;
    Model& model;
    ~Cleanup() {
      entries.clear();
      for (const auto& p : std::map<string, std::map<int, int>>(model.routes)) {
        for (const auto& h : p.second) {
          try {
            server->UnRegister(p.first, static_cast<Mask>(1u << h.first));
          } catch (const current::Exception&) {
          }
        }
      }
      model.routes.clear();
    }
  } cleanup{entries, model};
  const auto owned_by_scope = [&](const string& path, int n) {
    for (const auto& e : entries)
      if (e.path == path && (e.mask >> n & 1)) return true;
    return false;
  };
  const auto erase = [&](const string& path, unsigned mask) {
    for (int i = 0; i < 16; ++i)
      if (mask >> i & 1) model.routes[path].erase(i);
    if (model.routes[path].empty()) model.routes.erase(path);
  };
  const long depth = en::Param("depth", 3);
  for (long step = 0; step < depth; ++step) {
    const int op = en::Choose(7);
    int id = static_cast<int>(step) + 1;
    if (op == 0) break;
    if (op == 1 || op == 2 || op == 3) {  // Register: with the scope kept, with the scope released, as an update.
      const string path = en::Pick(paths);
      const unsigned mask = en::Pick(masks);
      note += (op == 1 ? "register " : op == 2 ? "register-unscoped " : "update ") + path + ":" + std::to_string(mask) + "; ";
      bool any = false, all = true;
      for (int i = 0; i < 16; ++i)
        if (mask >> i & 1) {
          const bool has = model.routes.count(path) && model.routes[path].count(i);
          any |= has;
          all &= has;
        }
      if (model.routes.count(path) && model.routes[path].empty()) model.routes.erase(path);
      const bool ok = op == 3 ? all : !any;
      bool did = true;
      try {
        if (op == 3) {
          const auto scope = server->Register<ReRegisterRoute::SilentlyUpdateExisting>(path, static_cast<Mask>(mask), Handler(id));
        } else {
          auto scope = std::make_unique<Scope>(server->Register(path, static_cast<Mask>(mask), Handler(id)));
          if (op == 1) entries.push_back(Entry{path, mask, std::move(scope)});
          else static_cast<void>(scope.release());  // Deliberately leaked: to be unregistered by hand.
        }
      } catch (const HandlerAlreadyExistsException&) {
        did = false;
        EN_CHECK(op != 3, "wrong-exception");
      } catch (const HandlerDoesNotExistException&) {
        did = false;
        EN_CHECK(op == 3, "wrong-exception");
      }
      if (did != ok) en::Violation("registration", note + (did ? "accepted" : "refused"));
      if (did)
        for (int i = 0; i < 16; ++i)
          if (mask >> i & 1) model.routes[path][i] = id;
    } else if (op == 4) {  // UnRegister
      const string path = en::Pick(paths);
      const unsigned mask = en::Pick(masks);
      note += "unregister " + path + ":" + std::to_string(mask) + "; ";
      bool all = true, scoped = false;
      for (int i = 0; i < 16; ++i)
        if (mask >> i & 1) {
          all &= model.routes.count(path) && model.routes.at(path).count(i);
          scoped |= owned_by_scope(path, i);
        }
      if (all && scoped) en::Skip();  // Taking away what a scope has to unregister is a mistake of the user.
      bool did = true;
      try {
        server->UnRegister(path, static_cast<Mask>(mask));
      } catch (const HandlerDoesNotExistException&) {
        did = false;
      }
      if (did != all) en::Violation("unregistration", note + (did ? "accepted" : "refused"));
      if (did) erase(path, mask);
    } else if (op == 5) {  // Drop a scope
      if (entries.empty()) en::Skip();
      const int i = en::Choose(static_cast<int>(entries.size()));
      note += "drop " + std::to_string(i) + "; ";
      erase(entries[i].path, entries[i].mask);
      entries.erase(entries.begin() + i);
    } else {  // Invalid registrations
      const std::vector<string> invalid = {"", "a", "/a/", "//", "/a b", "/a?b", "/%20", "/a#", "/\n"};
      const string path = en::Pick(invalid);
      note += "invalid `" + path + "`; ";
      bool refused = false;
      try {
        static_cast<void>(server->Register(path, Mask::None, Handler(id)));
      } catch (const InvalidHandlerPathException&) {
        refused = true;
      }
      EN_CHECK(refused, "invalid-path-accepted");
    }
    en::Transition();
    if (server->PathHandlersCount() != model.routes.size())
      en::Violation("count", note + "PathHandlersCount() is " + std::to_string(server->PathHandlersCount()) + ", expected " + std::to_string(model.routes.size()));
  }
  en::Note(note);
  string state;
  for (const auto& p : model.routes)
    for (const auto& h : p.second) state += p.first + std::to_string(h.first) + "=" + std::to_string(h.second) + ";";
  en::State(state);
  for (const string& probe : kProbes) {
    const string response = Ask(port, probe);
    const string expected = model.Answer(probe);
    const string got = response.compare(0, 12, "HTTP/1.1 404") == 0 ? "404" : Body(response);
    if (got != expected) en::Violation("dispatch", note + "request " + probe + " is answered `" + got + "`, expected `" + expected + "`");
  }
}

// The number of arguments, up to the limit and past it, by every single mask.
EN_SCENARIO(arguments) {
  static const uint16_t port = 8;
  static HTTPServerPOSIX* server = nullptr;
  if (!server) server = NewServer(port).release();
  const string base = en::Flip() ? "/" : "/r/s";
  const int bit = en::Choose(17);
  const unsigned mask = bit == 16 ? 0xffffu : 1u << bit;
  const auto scope = server->Register(base, static_cast<Mask>(mask), Handler(1));
  Model model;
  for (int i = 0; i < 16; ++i)
    if (mask >> i & 1) model.routes[base][i] = 1;
  string request = base == "/" ? "" : base;
  for (int n = 0; n <= 18; ++n) {
    const string probe = request.empty() ? "/" : request;
    const string response = Ask(port, probe);
    const string got = response.compare(0, 12, "HTTP/1.1 404") == 0 ? "404" : Body(response);
    if (got != model.Answer(probe)) en::Violation("dispatch", "mask " + std::to_string(mask) + ": request " + probe + " is answered `" + got + "`, expected `" + model.Answer(probe) + "`");
    request += "/" + std::to_string(n) + "%2f";
  }
  en::Evaluations(18);
}

// Scopes: accumulated, moved, assigned, dropped; they unregister exactly what is theirs.
EN_SCENARIO(scopes) {
  static const uint16_t port = 9;
  static HTTPServerPOSIX* server = nullptr;
  if (!server) server = NewServer(port).release();
  const std::vector<string> paths = {"/p", "/q", "/r", "/s"};
  std::vector<Scope> scopes(3);
  std::vector<std::set<string>> model(3);
  string note;
  size_t next = 0;
  for (long step = 0; step < en::Param("scope_operations", 4); ++step) {
    const int op = en::Choose(5);
    if (op == 0) break;
    const int i = en::Choose(3);
    note += std::to_string(op) + "@" + std::to_string(i) + " ";
    if (op == 1) {
      if (next == paths.size()) en::Skip();
      scopes[i] += server->Register(paths[next], Handler(static_cast<int>(next)));
      model[i].insert(paths[next++]);
    } else if (op == 2) {
      const int j = (i + 1) % 3;
      scopes[i] = std::move(scopes[j]);
      model[i] = model[j];
      model[j].clear();
    } else if (op == 3) {
      scopes[i] = nullptr;
      model[i].clear();
    } else {
      const int j = (i + 1) % 3;
      scopes[i] += std::move(scopes[j]);
      model[i].insert(model[j].begin(), model[j].end());
      model[j].clear();
    }
    en::Transition();
    std::set<string> all;
    for (const auto& m : model) all.insert(m.begin(), m.end());
    EN_CHECK_EQ(server->PathHandlersCount(), all.size(), "scope-count");
    for (const string& p : paths) {
      const bool served = Ask(port, p).compare(0, 12, "HTTP/1.1 200") == 0;
      if (served != (all.count(p) != 0)) en::Violation("scope", note + p + (served ? " is served" : " is not served"));
    }
  }
  en::State(note);
}

// Static files: what is served is what is in the directory.
EN_SCENARIO(static_files, (en::Opts{60})) {
  static const uint16_t port = 10;
  static HTTPServerPOSIX* server = nullptr;
  if (!server) server = NewServer(port).release();
  struct F {
    string name, content, type;
    bool hidden, index;
  };
  const std::vector<F> all = {{"index.html", "<root>", "text/html", false, true}, {"a.txt", string("A\0\r\n", 4), "text/plain", false, false}, {"sub/index.html", "<sub>", "text/html", false, true}, {"sub/b.js", "", "application/javascript", false, false},
                              {".hidden.txt", "h", "", true, false}, {"sub/.h/c.txt", "h", "", true, false}, {"sub/deep/d.png", "png", "image/png", false, false}, {"unknown.zzz", "?", "", false, false}, {"index.htm", "second", "text/html", false, true}};
  const string dir = en::TmpDir() + "/static";
  if (system(("rm -rf '" + dir + "' && mkdir -p '" + dir + "'").c_str())) abort();
  std::vector<F> files;
  for (const auto& f : all)
    if (en::Flip()) {
      files.push_back(f);
      const string full = dir + "/" + f.name;
      if (system(("mkdir -p '" + full.substr(0, full.rfind('/')) + "'").c_str())) abort();
      current::FileSystem::WriteStringToFile(f.content, full.c_str());
    }
  const std::vector<string> prefixes = {"/", "/st", "/st/x"};
  const string prefix = en::Pick(prefixes);
  const bool taken = en::Flip();  // One of the routes is taken already.
  Scope other;
  if (taken) other = server->Register((prefix == "/" ? "" : prefix) + "/a.txt", Handler(99));
  const size_t before = server->PathHandlersCount();
  bool expect_throw = false;
  std::map<string, F> served;  // route -> file
  std::set<string> directories;
  int root_indexes = 0;
  const string base = prefix == "/" ? "" : prefix;
  for (const auto& f : files) {
    if (f.name == "unknown.zzz") expect_throw = true;
    if (f.hidden) continue;
    if (f.name == "a.txt" && taken) expect_throw = true;
    if (f.name.compare(0, 6, "index.") == 0 && ++root_indexes == 2) expect_throw = true;
    served[base + "/" + f.name] = f;
    if (f.index) directories.insert(f.name.find('/') == string::npos ? (base.empty() ? "/" : base) : base + "/" + f.name.substr(0, f.name.rfind('/')));
  }
  string note = prefix;
  for (const auto& f : files) note += " " + f.name;
  en::Note(note + (taken ? " (taken)" : ""));
  Scope scope;
  bool threw = false;
  try {
    scope = server->ServeStaticFilesFrom(dir, ServeStaticFilesFromOptions(prefix));
  } catch (const current::Exception&) {
    threw = true;
  }
  if (threw != expect_throw) en::Violation("static-refused", note + (threw ? ": refused" : ": accepted"));
  if (threw) {
    EN_CHECK_EQ(server->PathHandlersCount(), before, "static-side-effects");
    return;
  }
  EN_CHECK_EQ(server->PathHandlersCount(), before + served.size() + directories.size(), "static-count");
  for (const auto& f : all) {
    const string route = base + "/" + f.name;
    const string response = Ask(port, route);
    if (served.count(route)) {
      if (response.compare(0, 12, "HTTP/1.1 200") || Body(response) != f.content || response.find("Content-Type: " + f.type) == string::npos) en::Violation("static-content", route + ": " + response);
      EN_CHECK(Ask(port, route + "/").compare(0, 12, "HTTP/1.1 404") == 0, "static-file-with-slash");
      EN_CHECK(Ask(port, route, "HEAD").compare(0, 12, "HTTP/1.1 405") == 0, "static-method");
    } else if (!(taken && f.name == "a.txt")) {
      if (response.compare(0, 12, "HTTP/1.1 404")) en::Violation("static-extra", route + ": " + response);
    }
  }
  for (const string& d : {base.empty() ? string("/") : base, base + "/sub", base + "/sub/deep"}) {
    const string with_slash = d == "/" ? "/" : d + "/";
    const string response = Ask(port, with_slash);
    if (directories.count(d)) {
      const string content = d == (base.empty() ? "/" : base) ? (served.count(base + "/index.html") ? "<root>" : "second") : "<sub>";
      if (response.compare(0, 12, "HTTP/1.1 200") || Body(response) != content) en::Violation("static-directory", d + ": " + response);
      if (d != "/") {
        const string r = Ask(port, d);
        if (r.compare(0, 12, "HTTP/1.1 302") || r.find("Location: " + with_slash + "\r\n") == string::npos) en::Violation("static-redirect", d + ": " + r);
      }
    } else {
      EN_CHECK(response.compare(0, 12, "HTTP/1.1 404") == 0, "static-directory-extra");
    }
  }
  scope = nullptr;
  EN_CHECK_EQ(server->PathHandlersCount(), before, "static-scope");
}
