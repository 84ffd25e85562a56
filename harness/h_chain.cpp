// vf: libs=asio
// C08 chains of servers
#include "server.h"
#include "joedb/concurrency/Local_Channel.h"
#include "joedb/concurrency/Robust_Connection.h"
#include "joedb/concurrency/Server_Connection.h"
#include "joedb/concurrency/Server_File.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/interpreted/Database.h"
#include "joedb/journal/Writable_Journal.h"
#include <functional>
#include <list>
#include <map>
#include <algorithm>
#include <sys/syscall.h>
#include <time.h>
using namespace joedb;
using namespace vf;
using server::Raw; using server::i64; using server::get64;

// Robust_Connection waits for seconds before it connects again
extern "C" int nanosleep(const timespec *t, timespec *)
{
 timespec s = *t;
 if (s.tv_sec > 0 || s.tv_nsec > 1000000) {s.tv_sec = 0; s.tv_nsec = 1000000;}
 return int(::syscall(SYS_clock_nanosleep, CLOCK_MONOTONIC, 0, &s, nullptr));
}

namespace
{
 std::string bytes_of(const std::function<void(Writable_Journal &)> &f)
 {
  Memory_File m;
  Writable_Journal j(m);
  f(j);
  j.soft_checkpoint();
  return m.get_data().substr(41, size_t(j.get_checkpoint() - 41));
 }
 std::string file_of(const std::string &data)
 {
  Memory_File f;
  Writable_Journal j(f);
  if (!data.empty())
  {
   f.pwrite(data.data(), data.size(), 41);
   j.soft_checkpoint_at(41 + int64_t(data.size()));
  }
  return f.get_data();
 }
 std::string history(const std::string &file)
 {
  if (file.empty()) return {};
  Memory_File m(Open_Mode::read_existing);
  m.get_data() = file;
  Readonly_Journal j(m);
  return file.substr(41, size_t(j.get_checkpoint() - 41));
 }
 bool consistent(const std::string &a, const std::string &b)
 {
  const size_t n = std::min(a.size(), b.size());
  return a.compare(0, n, b, 0, n) == 0;
 }
 std::string describe(const std::string &got, const std::string &expected)
 {
  size_t i = 0; while (i < got.size() && i < expected.size() && got[i] == expected[i]) i++;
  return std::to_string(got.size()) + " bytes instead of " + std::to_string(expected.size()) + ", the same until " + std::to_string(i);
 }

 struct Flaky_Channel: Local_Channel
 {
  int64_t &after;
  int &injected;
  Flaky_Channel(const std::string &e, int64_t &after, int &injected): Local_Channel(e), after(after), injected(injected) {}
  void tick()
  {
   if (after == 0) {after = -1; injected++; socket.close();}
   else if (after > 0) after--;
  }
  size_t write_some(const char *d, size_t n) override {tick(); return Local_Channel::write_some(d, n);}
  size_t read_some(char *d, size_t n) override {tick(); return Local_Channel::read_some(d, n);}
 };
 struct Local: Connector
 {
  std::string endpoint;
  Local(std::string e): endpoint(std::move(e)) {}
  std::unique_ptr<Channel> new_channel() const override {return std::make_unique<Local_Channel>(endpoint);}
 };
 struct Readonly_Server_Client: Readonly_Client
 {
  using Readonly_Client::Readonly_Client;
 };

 enum Kind {memory, exclusive, shared, readonly, kinds};
 static const char *const kind_name[] = {"memory file", "exclusive file", "shared file", "read-only file"};

 struct Node
 {
  int id;
  Node *parent = nullptr;
  Kind kind = memory;
  bool robust = false, keep_alive = false, up = false, broken = false;
  std::string f; // model of the checkpointed data
  std::string path, endpoint;
  int64_t fault = -1;
  int injected = 0;
  std::unique_ptr<Abstract_File> file;
  std::unique_ptr<Local> connector;
  std::unique_ptr<Channel> channel;
  std::unique_ptr<Connection> connection;
  std::unique_ptr<Client> client;
  std::unique_ptr<joedb::Server> server;

  ~Node() {if (server) try {server->stop();} catch (...) {}}
  bool writable() const {return kind != readonly && (!parent || parent->writable());}
  // holds the lock of its parent for its whole life
  bool holds() const {return parent && kind != shared && writable();}
  int64_t end() const {return 41 + int64_t(f.size());}
  std::string content() const {return history(kind == memory ? static_cast<Memory_File &>(*file).get_data() : server::slurp(path));}
 };

 struct Leaf
 {
  int id;
  Node *n;
  std::unique_ptr<Memory_File> file;
  std::string f;
  std::unique_ptr<Local> connector;
  std::unique_ptr<Channel> channel;
  std::unique_ptr<Connection> connection;
  std::unique_ptr<Server_File> sf;
  std::unique_ptr<Writable_Journal_Client> client;
  std::string content() const {return sf ? std::string() : history(file->get_data());}
 };

 struct Chain
 {
  Ctx &c;
  std::list<Node> nodes;
  std::list<Leaf> leaves;
  std::string s; // what is in the file of the root
  int leaf_ids = 0, texts = 0, passed = 0, refused = 0, restarts = 0, conflicts = 0, failures = 0, depth = 0, ahead = 0, waits = 0, pulled = 0;

  std::string text()
  {
   static const int sizes[] = {3, 20, 60, 700, 3000, 9000};
   std::string t(size_t(1 + c.below(uint64_t(sizes[c.chance(1, 4) ? c.below(6) : c.below(3)]))), 0);
   uint64_t h = 99 + uint64_t(texts++) * 7919;
   for (auto &x: t) {h = h * 6364136223846793005ull + 1442695040888963407ull; x = char('a' + ((h >> 58) % 26));}
   return t;
  }
  std::string some_bytes() {const std::string t = text(); return bytes_of([&](Writable_Journal &j) {j.comment(t);});}

  Node &root() {return nodes.front();}
  std::string name(const Node &n) const {return "server " + std::to_string(n.id);}
  bool below(const Node *n, const Node *top) const {for (; n; n = n->parent) if (n == top) return true; return false;}
  enum Reach {ok, cut, stuck};
  // can a pull, or a transaction, of this server reach what it needs?
  Reach reach(const Node &n, bool lock) const
  {
   if (!n.up) return cut;
   bool robust = false; // it tries again forever
   for (const Node *p = &n; p->parent; p = p->parent)
   {
    if (!lock && p->holds()) return ok;
    if (p->broken) return robust ? stuck : cut;
    robust |= p->robust;
    if (!p->parent->up) return robust ? stuck : cut;
   }
   return ok;
  }
  // is the lock of this server taken by servers, or will it be when servers
  // between them are restarted?
  bool has_holder(const Node &n, const Node *except = nullptr) const
  {
   for (auto &m: nodes)
    if (m.parent == &n && &m != except && (m.up && !m.broken ? m.holds() || (m.kind == shared && has_holder(m)) : has_holder(m))) return true;
   return false;
  }
  bool can_lock(const Node &n, const Node *except = nullptr) const
  {
   if (has_holder(n, except)) return false;
   if (n.parent && n.kind == shared) return can_lock(*n.parent, &n);
   return true;
  }
  // the model of a pull
  void refresh(Node &n)
  {
   if (!n.parent) n.f = s;
   else if (n.holds()) return;
   else {refresh(*n.parent); if (n.f.size() < n.parent->f.size()) n.f = n.parent->f;}
  }
  void add(Node &n, const std::string &d)
  {
   for (Node *p = &n; p; p = p->parent) p->f += d;
   s += d;
  }

  void open(Node &n)
  {
   if (n.kind == memory)
   {
    auto m = std::make_unique<Memory_File>(Open_Mode::write_existing);
    m->get_data() = file_of(n.f);
    n.file = std::move(m);
   }
   else n.file = std::make_unique<File>(n.path, n.kind == shared ? Open_Mode::shared_write : n.kind == readonly ? Open_Mode::read_existing : Open_Mode::write_existing);
   if (!n.parent)
   {
    if (n.kind == readonly) n.client = std::make_unique<Readonly_Server_Client>(*n.file);
    else n.client = std::make_unique<Writable_Journal_Client>(*n.file);
    return;
   }
   if (n.robust)
   {
    n.connector = std::make_unique<Local>(n.parent->endpoint);
    if (n.keep_alive) n.connector->set_keep_alive_interval(std::chrono::milliseconds(1));
    n.connection = std::make_unique<Robust_Connection>(*n.connector, Logger::dummy_logger);
   }
   else
   {
    n.channel = std::make_unique<Flaky_Channel>(n.parent->endpoint, n.fault, n.injected);
    n.connection = std::make_unique<Server_Connection>(*n.channel, Logger::dummy_logger);
   }
   n.client = std::make_unique<Writable_Journal_Client>(*n.file, *n.connection, c.flag() ? Content_Check::fast : Content_Check::full);
   if (c.chance(1, 4)) static_cast<Writable_Journal_Client &>(*n.client).set_hard_checkpoint(true);
  }
  void serve(Node &n)
  {
   ::unlink(n.endpoint.c_str());
   n.server = std::make_unique<joedb::Server>(std::getenv("VF_LOG") ? static_cast<Logger &>(server::stderr_log) : Logger::dummy_logger, 4, 1, n.endpoint, *n.client, std::chrono::milliseconds(0));
  }
  void close(Node &n)
  {
   n.server.reset(); n.client.reset(); n.connection.reset(); n.channel.reset(); n.connector.reset(); n.file.reset();
   n.up = false; n.broken = false; n.fault = -1;
  }
  // the file of a server that is not running
  void write_file(Node &n, const std::string &data)
  {
   n.f = data;
   if (n.kind != memory) std::ofstream(n.path, std::ios::binary | std::ios::trunc) << file_of(data);
  }

  void start(Node &n)
  {
   if (n.up) return;
   if (!n.parent)
   {
    c.notef(name(n), " starts: ", kind_name[n.kind]);
    write_file(n, s);
    open(n); serve(n); n.up = true;
    return;
   }
   if (reach(*n.parent, true) != ok) return;
   if (n.writable() && !can_lock(*n.parent, &n)) return;
   // a ping is a pull
   n.keep_alive = n.robust && !n.parent->parent && (n.parent->kind == memory || n.parent->kind == exclusive) && c.chance(1, 3);
   if (n.f.size() > n.parent->f.size()) probe(*n.parent);
   if (!n.writable() && n.f.size() > n.parent->f.size()) n.f.resize(n.parent->f.size()); // it could not push
   const bool same = consistent(n.f, n.parent->f), alone = can_lock(*n.parent);
   const bool is_ahead = n.f.size() > n.parent->f.size();
   c.notef(name(n), " starts: ", kind_name[n.kind], " with a ", n.robust ? "robust " : "", "connection to ", name(*n.parent), same ? is_ahead ? " (ahead)" : "" : " (diverged)");
   if (n.kind != memory) std::ofstream(n.path, std::ios::binary | std::ios::trunc) << file_of(n.f);
   bool conflict = false;
   const std::string before = s;
   std::string phase = "connection";
   try
   {
    open(n);
    c.check(same, "a server whose file differs from its connection was accepted");
    if (same && n.writable() && alone && c.chance(1, 6))
    {
     // somebody else adds to the connection before the server starts
     const std::string d = some_bytes();
     c.note("  data are added to its connection meanwhile");
     push(*n.parent, d);
     conflict = is_ahead;
    }
    phase = "server";
    serve(n);
    c.check(!conflict, "a server that cannot push its data was started");
   }
   catch (const Fail &) {throw;}
   catch (const std::exception &e)
   {
    c.notef("  ", phase, ": ", e.what());
    c.check(phase == "server" ? conflict : !same, "the " + phase + " failed: " + e.what());
    conflicts++;
    c.check(::access(n.endpoint.c_str(), F_OK) != 0, "the socket of a server that could not start remains");
    close(n);
    stop_below(n);
    // the connection is not locked, and not changed
    std::string copy = n.f;
    if (phase == "server" && alone) {const std::string d = some_bytes(); push(*n.parent, d);}
    write_file(n, s.substr(0, copy.size() < s.size() && consistent(copy, s) ? copy.size() : 0));
    return;
   }
   n.up = true;
   if (n.writable())
   {
    if (is_ahead)
    {
     ahead++;
     const std::string d = n.f.substr(n.parent->f.size());
     for (Node *p = n.parent; p; p = p->parent) p->f += d;
     s += d;
    }
    else if (n.holds()) {refresh(*n.parent); n.f = n.parent->f;}
   }
   if (n.holds() && c.chance(1, 3))
   {
    // nobody else can lock
    Raw r(c, n.parent->endpoint, "a session of " + name(*n.parent));
    r.send(Raw::hello() + "E" + i64(0) + i64(41));
    r.exactly(30, "the handshake");
    if (r.wait(10)) c.fail("the lock of " + name(*n.parent) + " was given to two clients");
    waits++;
    refresh(*n.parent);
   }
  }
  // someone adds data to a server
  void push(Node &n, const std::string &d)
  {
   Raw r(c, n.endpoint, "a session of " + name(n));
   r.send(Raw::hello() + "E" + i64(0) + i64(41));
   r.exactly(30, "the handshake");
   const std::string a = r.exactly(9, "a lock");
   refresh(n);
   c.check(a == "E" + i64(n.end()), "wrong reply to a lock: " + hex(a));
   r.send("O" + i64(n.end()) + i64(n.end() + int64_t(d.size())) + d);
   r.reply("O", "a push");
   add(n, d);
   r.send("Q");
  }
  // check a server
  void probe(Node &n)
  {
   Raw r(c, n.endpoint, "a session of " + name(n));
   r.send(Raw::hello());
   const std::string h = r.exactly(30, "the handshake");
   c.equal(get64(h, 21), n.end(), "checkpoint of " + name(n));
   c.equal(h[29], n.writable() ? 'W' : 'R', "mode of " + name(n));
   r.send("r" + i64(41) + i64(n.end()));
   r.reply("r" + i64(n.end()) + n.f, "a read");
   if (reach(n, false) != ok) return;
   refresh(n);
   const int64_t from = 41 + int64_t(c.below(n.f.size() + 1));
   r.send("F" + i64(0) + i64(from));
   r.reply("F" + i64(n.end()) + n.f.substr(size_t(from - 41)), "a pull");
   r.send("Q");
  }

  // robust connections to a server that does not start again
  void stop_below(Node &n)
  {
   for (auto &m: nodes) if (m.parent == &n)
   {
    stop_below(m);
    if (m.up) {c.notef("  ", name(m), " stops"); drop_below(m); try {m.server->stop();} catch (const std::exception &) {} write_file(m, m.content()); close(m);}
   }
  }
  void drop(Leaf &l) {for (auto i = leaves.begin(); i != leaves.end(); ++i) if (&*i == &l) {leaves.erase(i); return;}}

  void connect(Node &n)
  {
   if (!n.up || leaves.size() >= 5) return;
   if (reach(n, false) == stuck) return;
   leaves.emplace_back();
   Leaf &l = leaves.back();
   l.id = leaf_ids++; l.n = &n;
   const bool sf = reach(n, true) == ok && c.chance(1, 6);
   c.notef("client ", l.id, " of ", name(n), sf ? ": Server_File" : "");
   l.connector = std::make_unique<Local>(n.endpoint);
   if (sf)
   {
    l.sf = std::make_unique<Server_File>(*l.connector);
    l.client = std::make_unique<Writable_Journal_Client>(*l.sf, *l.sf);
    l.f = n.f;
    return;
   }
   l.file = std::make_unique<Memory_File>(Open_Mode::write_existing);
   const size_t k = c.below(3);
   l.f = k == 0 ? "" : k == 1 ? n.f : n.f.substr(0, size_t(0));
   l.file->get_data() = file_of(l.f);
   l.channel = l.connector->new_channel();
   l.connection = std::make_unique<Server_Connection>(*l.channel);
   l.client = std::make_unique<Writable_Journal_Client>(*l.file, *l.connection);
  }
  void check_leaf(Leaf &l, const std::string &what)
  {
   c.equal(l.client->get_journal_checkpoint(), 41 + int64_t(l.f.size()), "checkpoint of client " + std::to_string(l.id) + " after " + what);
   if (l.sf)
   {
    std::string got(l.f.size(), 0);
    size_t i = 0;
    while (i < got.size()) {const size_t k = l.sf->pread(&got[i], got.size() - i, 41 + int64_t(i)); if (!k) break; i += k;}
    c.check(got == l.f, "a Server_File has other bytes than its server after " + what);
   }
   else
   {
    const std::string a = l.content();
    if (a != l.f) c.fail("client " + std::to_string(l.id) + " has another history than expected after " + what + ": " + describe(a, l.f));
   }
  }

  void pull(Leaf &l)
  {
   Node &n = *l.n;
   const Reach e = reach(n, false);
   if (e == stuck) return;
   if (l.sf && e == cut) {drop(l); return;} // it would try again forever
   const bool fails = e == cut;
   c.notef("client ", l.id, " pulls", fails ? " (cut)" : "");
   const size_t old = l.f.size();
   try
   {
    l.client->pull();
    // a server that is locked does not pull
    if (fails) {c.check(n.kind == shared, "a pull succeeded without a connection"); l.f = n.f; check_leaf(l, "a pull"); return;}
   }
   catch (const Fail &) {throw;}
   catch (const std::exception &e)
   {
    c.notef("  ", e.what());
    c.check(fails, std::string("a pull failed: ") + e.what());
    failures++;
    drop(l);
    return;
   }
   refresh(n);
   l.f = n.f;
   if (l.f.size() > old) pulled++;
   check_leaf(l, "a pull");
  }

  void transaction(Leaf &l)
  {
   Node &n = *l.n;
   const Reach e = reach(n, true);
   if (e == stuck) return;
   if (l.sf && (e == cut || !n.writable())) {drop(l); return;}
   const bool pullonly = !n.writable(), fails = pullonly || e == cut;
   if (!pullonly && !can_lock(n)) return;
   c.notef("client ", l.id, " runs a transaction", pullonly ? " (pull-only)" : fails ? " (cut)" : "");
   // a failure of a connection above
   std::vector<Node *> faulty;
   if (!fails && c.chance(1, 6)) for (Node *p = &n; p; p = p->parent) if (p->parent && !p->robust) faulty.push_back(p);
   Node *bad = faulty.empty() || l.sf ? nullptr : c.pick(faulty);
   if (bad) {bad->fault = int64_t(c.below(12)); bad->injected = 0; c.notef("  a fault of ", name(*bad), " after ", bad->fault);}
   const bool abort = !fails && c.chance(1, 5);
   const std::string t = text(), d = bytes_of([&](Writable_Journal &j) {j.comment(t);});
   // a waiting pull, that can be woken by the push
   std::vector<Node *> waiting;
   if (!fails && !bad && !abort && c.chance(1, 4)) for (Node *p = &n; p; p = p->parent) waiting.push_back(p);
   Node *w = waiting.empty() ? nullptr : c.pick(waiting);
   std::unique_ptr<Raw> r;
   if (w)
   {
    probe(*w);
    r = std::make_unique<Raw>(c, w->endpoint, "a waiting session of " + name(*w));
    r->send(Raw::hello() + "F" + i64(15000) + i64(w->end()));
    r->exactly(30, "the handshake");
    c.notef("  a pull waits at ", name(*w));
    if (c.flag()) r->wait(1);
   }
   const int64_t wend = w ? w->end() : 0;
   struct Abort {};
   bool threw = false, aborted = false;
   try
   {
    l.client->transaction([&](Writable_Journal &j)
    {
     j.comment(t);
     if (abort) throw Abort();
    });
    if (!bad || bad->injected == 0) c.check(!fails, pullonly ? "a transaction of a pull-only server succeeded" : "a transaction succeeded without a connection");
   }
   catch (const Fail &) {throw;}
   catch (const Abort &) {aborted = true;}
   catch (const std::exception &e)
   {
    c.notef("  ", e.what());
    c.check(fails || (bad && bad->injected), std::string("a transaction failed: ") + e.what());
    threw = true;
    failures++;
   }
   if (bad)
   {
    bad->fault = -1;
    if (bad->injected) {after_fault(n, *bad, threw || aborted ? "" : d, d); drop_below(*bad); return;}
   }
   if (threw)
   {
    if (pullonly) {refused++; if (reach(n, false) == ok) refresh(n);}
    // a server that could not push has data that its connection does not have
    Node *top = nullptr;
    for (Node *p = &n; p->parent && n.up && !pullonly; p = p->parent) if (p->broken || !p->parent->up) {top = p; break;}
    drop(l);
    if (top) after_fault(n, *top, "", d);
    return;
   }
   c.check(aborted == abort, "an aborted transaction returned");
   refresh(n);
   for (Node *p = &n; p->parent; p = p->parent) if (p->kind == shared) refresh(*p);
   if (!abort) {add(n, d); passed++; int k = 0; for (Node *p = &n; p->parent; p = p->parent) k++; depth = std::max(depth, k);}
   if (!abort) l.f = n.f;
   if (abort) drop(l); // its journal has data after the checkpoint
   else check_leaf(l, "a transaction");
   if (r)
   {
    waits++;
    const int64_t from = wend;
    r->reply("F" + i64(w->end()) + w->f.substr(size_t(from - 41)), "a pull that waits");
   }
  }
  void drop_below(Node &n) {for (auto i = leaves.begin(); i != leaves.end();) if (below(i->n, &n)) i = leaves.erase(i); else ++i;}
  // the connection of a server failed during a transaction
  void after_fault(Node &n, Node &bad, const std::string &sure, const std::string &d)
  {
   failures++;
   std::vector<Node *> path;
   for (Node *p = &n; ; p = p->parent) {path.push_back(p); if (p == &bad) break;}
   // all that depends on the bad node is stopped, in any order
   drop_below(bad);
   std::map<Node *, std::string> now;
   std::vector<Node *> all;
   for (auto &m: nodes) if (m.up && below(&m, &bad)) all.push_back(&m);
   while (!all.empty())
   {
    const size_t i = c.below(all.size());
    Node &m = *all[i];
    try {m.server->stop();} catch (const std::exception &) {} // it may be unable to unlock
    now[&m] = m.content();
    close(m);
    for (auto &k: nodes) if (k.parent == &m && k.up && !k.robust) k.broken = true;
    all.erase(all.begin() + std::ptrdiff_t(i));
   }
   // the data may have been added
   Node &up = *bad.parent;
   bool above = false;
   if (up.up && reach(up, true) == ok && can_lock(up, &bad))
   {
    Raw r(c, up.endpoint, "a session of " + name(up));
    // after the lock of the failed connection
    r.send(Raw::hello() + "E" + i64(0) + i64(41));
    r.exactly(30, "the handshake");
    r.exactly(9, "a lock");
    r.send("F" + i64(0) + i64(41));
    const std::string h = r.exactly(9, "a pull");
    const std::string got = r.exactly(size_t(get64(h, 1) - 41), "a pull");
    refresh(up);
    above = got != up.f;
    if (above || !sure.empty()) c.check(got == up.f + d, (sure.empty() ? "unexpected data after a failure: " : "a transaction that succeeded was lost by a failure: ") + describe(got, up.f + d));
    if (above) add(up, d);
    r.send("M");
    r.reply("M", "an unlock");
   }
   for (auto &m: now)
   {
    const std::string &old = m.first->f, &a = m.second;
    c.check(a == old + d || consistent(a, above ? s : s + d), "the file of " + name(*m.first) + " has unexpected data after a failure: " + describe(a, s));
    c.check(a.size() >= old.size(), "the file of " + name(*m.first) + " lost data after a failure: " + describe(a, old));
    if (above && std::find(path.begin(), path.end(), m.first) != path.end()) c.check(a == s, name(*m.first) + " pushed data that it does not have");
    write_file(*m.first, a);
   }
  }

  // several pushes with the same lock
  void locked(Leaf &l)
  {
   Node &n = *l.n;
   if (l.sf || reach(n, true) != ok || !n.writable() || !can_lock(n)) return;
   c.notef("client ", l.id, " locks");
   refresh(n);
   for (Node *p = &n; p->parent; p = p->parent) if (p->kind == shared) refresh(*p);
   l.f = n.f;
   Writable_Journal_Client_Lock lock(*l.client);
   for (uint64_t k = 1 + c.below(3); k-- > 0;)
   {
    const std::string t = text();
    lock.get_journal().comment(t);
    const std::string d = bytes_of([&](Writable_Journal &j) {j.comment(t);});
    c.note("  push");
    lock.checkpoint_and_push();
    add(n, d); l.f = n.f; passed++;
    if (c.flag()) look();
   }
   if (c.flag()) {c.note("  unlock"); lock.unlock();}
   else
   {
    const std::string t = text();
    lock.get_journal().comment(t);
    c.note("  push and unlock");
    lock.checkpoint_and_push_unlock();
    add(n, bytes_of([&](Writable_Journal &j) {j.comment(t);})); l.f = n.f;
   }
   check_leaf(l, "a lock");
  }
  // check some server
  void look()
  {
   std::vector<Node *> l;
   for (auto &n: nodes) if (n.up && reach(n, false) != stuck) l.push_back(&n);
   if (l.empty()) return;
   Node &n = *c.pick(l);
   c.notef("look at ", name(n));
   probe(n);
  }

  void stop(Node &n)
  {
   if (!n.up) return;
   c.notef(name(n), " stops");
   const bool before = c.flag();
   if (before) for (auto i = leaves.begin(); i != leaves.end();) if (i->n == &n) i = leaves.erase(i); else ++i;
   bool connected = !n.broken;
   for (const Node *p = n.parent; p; p = p->parent) if (!p->up || p->broken) connected = false;
   try {n.server->stop();}
   catch (const std::exception &e) {c.check(!connected, "a server failed to stop: " + std::string(e.what()));}
   c.check(::access(n.endpoint.c_str(), F_OK) != 0, "the socket of a server remains after its end");
   const std::string a = n.content();
   const std::string &expected = n.parent ? n.f : s;
   if (a != expected) c.fail("the file of " + name(n) + " has other data than expected: " + describe(a, expected));
   close(n);
   for (auto i = leaves.begin(); i != leaves.end();) if (i->n == &n && i->sf) i = leaves.erase(i); else ++i;
   for (auto &m: nodes) if (m.parent == &n && m.up && !m.robust) m.broken = true;
  }
  void restart(Node &n)
  {
   // clients of the previous server
   for (auto i = leaves.begin(); i != leaves.end();) if (i->n == &n) i = leaves.erase(i); else ++i;
   restarts++;
   start(n);
  }
  // the file of a server that is not running changes
  void offline(Node &n)
  {
   if (n.up) return;
   for (auto &m: nodes) if (m.parent == &n && m.up) return;
   c.notef("the file of ", name(n), " changes");
   if (!n.parent) {s += some_bytes(); return;}
   std::string h = n.f;
   switch (c.below(3))
   {
    case 0: h.clear(); break;
    case 1: h += some_bytes(); break;
    default:
    {
     // another branch
     Memory_File m(Open_Mode::read_existing);
     m.get_data() = file_of(h);
     Readonly_Journal j(m);
     Database dummy;
     std::vector<int64_t> ends = {41};
     for (int64_t p = 41; p < 41 + int64_t(h.size());) {j.play_until(dummy, p + 1); p = j.get_position(); ends.push_back(p);}
     h.resize(size_t(c.pick(ends) - 41));
     if (c.chance(3, 4)) h += some_bytes();
    }
   }
   write_file(n, h);
  }
  // somebody else writes to the file of the root
  void outside()
  {
   Node &n = root();
   if (!n.up || (n.kind != readonly && n.kind != shared) || (n.kind == shared && !can_lock(n))) return;
   if (n.kind == readonly && c.chance(1, 2) && s.empty()) return;
   c.notef("another program writes to the file of ", name(n));
   if (n.kind == shared) probe(n); // notice that a lock ended
   const std::string t = text();
   {
    File f(n.path, Open_Mode::shared_write);
    Writable_Journal_Client w(f);
    w.transaction([&](Writable_Journal &j) {j.comment(t);});
   }
   s += bytes_of([&](Writable_Journal &j) {j.comment(t);});
  }

  Node &add_node(Node *parent)
  {
   nodes.emplace_back();
   Node &n = nodes.back();
   n.id = int(nodes.size()) - 1;
   n.parent = parent;
   n.kind = Kind(c.below(parent ? 3 : 4));
   n.robust = parent && c.flag();
   n.path = c.scratch + "/f" + std::to_string(n.id);
   n.endpoint = c.scratch + "/e" + std::to_string(n.id);
   return n;
  }
  void run()
  {
   clear_scratch(c);
   Destructor_Logger::set_logger(nullptr);
   if (c.flag()) for (uint64_t n = 1 + c.below(3); n-- > 0;) s += some_bytes();
   add_node(nullptr);
   start(root());
   const uint64_t count = 1 + c.below(4);
   for (uint64_t i = 0; i < count; i++)
   {
    auto p = nodes.begin(); std::advance(p, c.flag() ? nodes.size() - 1 : c.below(nodes.size()));
    Node &n = add_node(&*p);
    if (c.flag()) n.f = s;
    start(n);
   }
   const uint64_t ops = 4 + c.below(24);
   for (uint64_t k = 0; k < ops; k++)
   {
    auto node = [&]() -> Node & {auto i = nodes.begin(); std::advance(i, c.below(nodes.size())); return *i;};
    const uint64_t a = c.below(24);
    if (leaves.empty() ? a < 12 : a < 3) connect(node());
    else if (a < 14 && !leaves.empty())
    {
     auto i = leaves.begin(); std::advance(i, c.below(leaves.size()));
     if (a < 7) pull(*i); else if (a < 12) transaction(*i); else if (a < 13) locked(*i); else {c.notef("client ", i->id, " disconnects"); leaves.erase(i);}
    }
    else if (a < 16) look();
    else if (a < 17) outside();
    else if (a < 18) offline(node());
    else if (a < 20) stop(node());
    else {Node &n = node(); if (n.up && c.flag()) stop(n); if (!n.up) restart(n);}
   }
   // everything is the same in the end
   c.note("the end");
   for (auto &n: nodes) c.notef(n.id, " ", n.f.size(), " ", s.size(), " up ", n.up);
   leaves.clear();
   for (auto i = nodes.rbegin(); i != nodes.rend(); ++i) if (i->up && (i->broken || reach(*i, true) != ok)) stop(*i);
   for (auto &n: nodes) {for (int k = 0; k < 3 && !n.up; k++) restart(n);}
   for (auto i = nodes.rbegin(); i != nodes.rend(); ++i) if (i->up) probe(*i);
   for (auto &n: nodes) if (n.up) c.check(n.f == s || (n.kind == readonly && n.f.size() == s.size()), name(n) + " has other data than the first server in the end: " + describe(n.f, s));
   for (auto i = nodes.rbegin(); i != nodes.rend(); ++i) stop(*i);
   c.label("transactions", uint64_t(passed));
   c.label("transactions through a chain", uint64_t(depth > 0));
   c.label("transactions through two servers", uint64_t(depth > 1));
   c.label("refused transactions", uint64_t(refused));
   c.label("servers that pushed at start", uint64_t(ahead));
   c.label("servers that could not start", uint64_t(conflicts));
   c.label("restarts", uint64_t(restarts));
   c.label("failed operations", uint64_t(failures));
   c.label("waits", uint64_t(waits));
   if (passed + pulled > 0 && nodes.size() > 1) c.nontrivial();
  }
 };
}

static void run_c08(Ctx &c) {Chain r{c}; r.run();}
static const Register r8({.id = "C08", .rule = "data passes through a chain of servers", .quick = 10000, .thorough = 1000000, .run = run_c08});
