// C23: the routing table while requests are being served: every schedule (bounded) of the thread of the server against the
// threads that register, update and unregister the routes, or construct and destroy the server.
#define FAKENET_SCHED
#include "mc.h"

#include "blocks/http/api.h"

#include "../common/fakenet.h"

using namespace current::http;
using std::string;
using Scope = HTTPServerPOSIX::HTTPRoutesScope;

namespace {

constexpr uint16_t kPort = 7;

std::unique_ptr<HTTPServerPOSIX> NewServer() {
  return std::make_unique<HTTPServerPOSIX>(current::net::ReservedLocalPort(
      current::net::ReservedLocalPort::Construct(), kPort, current::net::SocketHandle(current::net::SocketHandle::FromAcceptedHandle(fakenet::Listening(kPort)))));
}

// For what is to be unregistered by hand.
void Forget(Scope&& scope) {
  current::AccumulativeScopedDeleter<HTTPServerPOSIX::ScopedRegistererDifferentiator, false> forgotten;
  forgotten += std::move(scope);
}

struct Client {
  fakenet::ep_t e;
  explicit Client(const string& path = "/a") : e(std::make_shared<fakenet::Endpoint>()) { e->in = "GET " + path + " HTTP/1.1\r\n\r\n"; }
  void Send() { fakenet::Push(kPort, e); }
  string Answer() {  // waits for the server to be done with it
    fakenet::WaitClosed(e);
    return Parse();
  }
  string Parse() const {
    if (e->out.substr(0, 9) != "HTTP/1.1 ") return e->out.empty() ? "" : "?" + e->out;
    const string code = e->out.substr(9, 3);
    const size_t i = e->out.find("\r\n\r\n");
    return code == "200" && i != string::npos ? e->out.substr(i + 4) : code;
  }
};

// What a handler uses, and what must not be used once the handler is gone.
struct Context {
  string reply;
  bool alive = true;
  int running = 0;
  explicit Context(string s) : reply(std::move(s)) {}
  void Serve(Request r) {
    MC_CHECK(alive, "handler-called-after-unregistration");
    ++running;
    r(reply);
    MC_CHECK(alive, "handler-running-after-unregistration");
    --running;
  }
  void Gone() {
    MC_CHECK_EQ(running, 0, "handler-running-after-unregistration");
    alive = false;
  }
};

}  // namespace

// A route goes away while a request to it is on its way.
MC_SCENARIO(unregister) {
  auto server = NewServer();
  auto context = std::make_unique<Context>("A");
  Scope scope = server->Register("/a", [c = context.get()](Request r) { c->Serve(std::move(r)); });
  Client one, two;
  one.Send();
  if (mc::Choose(2)) scope = nullptr;
  else server->UnRegister("/a"), Forget(std::move(scope));
  context->Gone();
  context = nullptr;
  two.Send();
  const string r1 = one.Answer(), r2 = two.Answer();
  MC_CHECK(r1 == "A" || r1 == "404", "wrong-answer");
  MC_CHECK_EQ(r2, "404", "served-after-unregistration");
  mc::Observe(r1);
  MC_CHECK_EQ(server->PathHandlersCount(), 0u, "wrong-count");
  server = nullptr;
}

// A route is updated while requests to it are on their way.
MC_SCENARIO(update) {
  auto server = NewServer();
  auto a = std::make_unique<Context>("A");
  Context b("B");
  const Scope scope = server->Register("/a", [c = a.get()](Request r) { c->Serve(std::move(r)); });
  Client one, two;
  one.Send();
  const Scope none = server->Register<ReRegisterRoute::SilentlyUpdateExisting>("/a", [&b](Request r) { b.Serve(std::move(r)); });
  a->Gone();
  a = nullptr;
  two.Send();
  const string r1 = one.Answer(), r2 = two.Answer();
  MC_CHECK(r1 == "A" || r1 == "B", "wrong-answer");
  MC_CHECK_EQ(r2, string("B"), "wrong-answer");
  mc::Observe(r1);
}

// Handlers that themselves use the server, with the routes changing.
MC_SCENARIO(reentrant) {
  auto server = NewServer();
  Scope other;
  HTTPServerPOSIX& s = *server;
  const int what = mc::Choose(4), how = mc::Choose(2);
  Scope scope = server->Register("/a", [&](Request r) {
    string reply = "A";
    if (what == 0) reply += s.PathHandlersCount() <= 2u ? "" : "?";
    if (what == 1) other += s.Register("/b", [](Request rb) { rb("B"); });
    if (what == 2) {
      Scope temporary = s.Register("/c", [](Request rc) { rc("C"); });
    }
    if (what == 3) {
      try {
        s.UnRegister("/nope");
        reply = "no exception";
      } catch (const HandlerDoesNotExistException&) {
      }
    }
    r(reply);
  });
  Client one;
  one.Send();
  string replaced;
  if (how == 0) scope = nullptr;
  else Scope none = server->Register<ReRegisterRoute::SilentlyUpdateExisting>("/a", [](Request r) { r("N"); });
  const string r1 = one.Answer();
  MC_CHECK(r1 == "A" || (how ? r1 == "N" : r1 == "404"), "wrong-answer");
  mc::Observe(r1);
  scope = nullptr;
  // The handler may be past its reply, but not past its return.
  Client two("/b");
  two.Send();
  MC_CHECK_EQ(two.Answer(), string(what == 1 && r1 == "A" ? "B" : "404"), "wrong-answer");
  other = nullptr;
  server = nullptr;
}

// Two threads register routes, the same one or different ones, with requests coming in.
MC_SCENARIO(two_registrars) {
  auto server = NewServer();
  const bool same = mc::Choose(2);
  int failed[2] = {0, 0};
  Client one("/a"), two(same ? "/a" : "/b");
  Scope scopes[2];
  auto body = [&](int i) {
    try {
      scopes[i] = server->Register(i && !same ? "/b" : "/a", [i](Request r) { r(i ? "1" : "0"); });
    } catch (const HandlerAlreadyExistsException&) {
      failed[i] = 1;
    }
  };
  one.Send();
  std::thread t([&]() { body(1); });
  body(0);
  t.join();
  two.Send();
  const string r1 = one.Answer(), r2 = two.Answer();
  MC_CHECK_EQ(failed[0] + failed[1], same ? 1 : 0, "wrong-number-of-registrations");
  MC_CHECK_EQ(r2, string(same && failed[1] ? "0" : "1"), "wrong-answer");
  MC_CHECK(r1 == "404" || r1 == (same && failed[0] ? "1" : "0"), "wrong-answer");
  MC_CHECK_EQ(server->PathHandlersCount(), same ? 1u : 2u, "wrong-count");
  mc::Observe(r1 + std::to_string(failed[0]));
  scopes[0] = nullptr;
  scopes[1] = nullptr;
  MC_CHECK_EQ(server->PathHandlersCount(), 0u, "wrong-count");
}

// The requests that come in before the server is constructed, and those in the air when it is destroyed.
MC_SCENARIO(lifetime) {
  Client one, two;
  const int when = mc::Choose(3);
  if (when == 0) one.Send();
  auto server = NewServer();
  Context context("A");
  Scope scope = server->Register("/a", [&context](Request r) { context.Serve(std::move(r)); });
  if (when == 1) one.Send();
  if (when != 2) {
    const string r = one.Answer();
    MC_CHECK(r == "A" || (when == 0 && r == "404"), "wrong-answer");
    mc::Observe(r);
  }
  two.Send();
  if (mc::Choose(2)) {
    scope = nullptr;
    context.Gone();
  } else {
    server->UnRegister("/a");
    Forget(std::move(scope));
    context.Gone();
  }
  server = nullptr;
  // Once the server is destroyed it is over with the requests: it has answered, or it never will.
  const string r = two.Parse();
  MC_CHECK(r == "A" || r == "404" || r == "", "wrong-answer");
  mc::Observe(r);
}

// The request is answered by another thread, after the route, and perhaps the server, are gone.
MC_SCENARIO(answered_later) {
  auto server = NewServer();
  std::unique_ptr<Request> pending;
  std::mutex mutex;
  std::condition_variable cv;
  Scope scope = server->Register("/a", [&](Request r) {
    std::lock_guard<std::mutex> lock(mutex);
    pending = std::make_unique<Request>(std::move(r));
    cv.notify_all();
  });
  Client one;
  one.Send();
  std::thread t([&]() {
    std::unique_lock<std::mutex> lock(mutex);
    cv.wait(lock, [&]() { return static_cast<bool>(pending); });
    std::unique_ptr<Request> r = std::move(pending);
    lock.unlock();
    (*r)("later");
  });
  if (mc::Choose(2)) {
    t.join();
    scope = nullptr;
    server = nullptr;
  } else {
    Client two("/b");
    two.Send();
    MC_CHECK_EQ(two.Answer(), string("404"), "wrong-answer");
    scope = nullptr;
    server = nullptr;
    t.join();
  }
  MC_CHECK_EQ(one.Answer(), string("later"), "wrong-answer");
}

// Static files being added while another thread registers and unregisters routes, and requests come in.
MC_SCENARIO(static_files) {
  static const string here = string(__FILE__).substr(0, string(__FILE__).rfind('/'));
  auto server = NewServer();
  Client one("/s/sub/file.txt");
  one.Send();
  const bool two_sets = mc::Choose(2);
  Scope other;
  std::thread t([&]() {
    if (two_sets) other = server->ServeStaticFilesFrom(here + "/static", ServeStaticFilesFromOptions("/t"));
    else other = server->Register("/b", [](Request r) { r("B"); });
  });
  Scope scope = server->ServeStaticFilesFrom(here + "/static", ServeStaticFilesFromOptions("/s"));
  t.join();
  MC_CHECK_EQ(server->PathHandlersCount(), two_sets ? 6u : 4u, "wrong-count");
  const string r1 = one.Answer();
  MC_CHECK(r1 == "404" || r1 == "file\n", "wrong-answer");
  mc::Observe(r1);
  Client two(two_sets ? "/t/" : "/s/");
  two.Send();
  MC_CHECK_EQ(two.Answer(), string("<p>index</p>\n"), "wrong-answer");
  scope = nullptr;
  other = nullptr;
  MC_CHECK_EQ(server->PathHandlersCount(), 0u, "wrong-count");
}
