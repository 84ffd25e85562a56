// vf: libs=asio
// C03 replicas and their connection
#include "server.h"
#include "joedb/concurrency/File_Connection.h"
#include "joedb/concurrency/Local_Channel.h"
#include "joedb/concurrency/Readonly_Database_Client.h"
#include "joedb/concurrency/Robust_Connection.h"
#include "joedb/concurrency/Server_Connection.h"
#include "joedb/concurrency/Server_File.h"
#include "joedb/concurrency/Writable_Database_Client.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/interpreted/Database.h"
#include "joedb/journal/Writable_Journal.h"
#include <functional>
#include <list>
#include <map>
#include <sys/syscall.h>
#include <time.h>
using namespace joedb;
using namespace vf;
using server::Raw; using server::Srv; using server::i64; using server::get64;

// Robust_Connection waits for seconds before it connects again
extern "C" int nanosleep(const timespec *t, timespec *)
{
 timespec s = *t;
 if (s.tv_sec > 0 || s.tv_nsec > 1000000) {s.tv_sec = 0; s.tv_nsec = 1000000;}
 return int(::syscall(SYS_clock_nanosleep, CLOCK_MONOTONIC, 0, &s, nullptr));
}

namespace
{
 std::string bytes_of(const std::function<void(Writable_Journal &)> &f)
 {
  Memory_File m;
  Writable_Journal j(m);
  f(j);
  j.soft_checkpoint();
  return m.get_data().substr(41, size_t(j.get_checkpoint() - 41));
 }
 std::string file_of(const std::string &data)
 {
  Memory_File f;
  Writable_Journal j(f);
  if (!data.empty())
  {
   f.pwrite(data.data(), data.size(), 41);
   j.soft_checkpoint_at(41 + int64_t(data.size()));
  }
  return f.get_data();
 }
 // the checkpointed bytes of a file
 std::string history(const std::string &file)
 {
  if (file.empty()) return {};
  Memory_File m(Open_Mode::read_existing);
  m.get_data() = file;
  Readonly_Journal j(m);
  return file.substr(41, size_t(j.get_checkpoint() - 41));
 }
 std::string tables_of(const Database &db)
 {
  std::string s;
  for (auto &t: db.get_tables()) s += std::to_string(to_underlying(t.first)) + t.second + ' ';
  return s;
 }
 std::string replay(const std::string &data)
 {
  Memory_File m(Open_Mode::read_existing);
  m.get_data() = file_of(data);
  Readonly_Journal j(m);
  Database db;
  j.replay_log(db);
  return tables_of(db);
 }
 bool consistent(const std::string &a, const std::string &b)
 {
  const size_t n = std::min(a.size(), b.size());
  return a.compare(0, n, b, 0, n) == 0;
 }

 // faults
 struct Faults {int64_t after = -1; int injected = 0;};
 struct Flaky_Channel: Local_Channel
 {
  Faults &f;
  Flaky_Channel(const std::string &e, Faults &f): Local_Channel(e), f(f) {}
  void tick()
  {
   if (f.after == 0) {f.after = -1; f.injected++; socket.close();}
   else if (f.after > 0) f.after--;
  }
  size_t write_some(const char *d, size_t n) override {tick(); return Local_Channel::write_some(d, f.after >= 0 && n > 3 ? n / 2 + 1 : n);}
  size_t read_some(char *d, size_t n) override {tick(); return Local_Channel::read_some(d, f.after >= 0 && n > 3 ? n / 2 + 1 : n);}
 };
 struct Flaky_Connector: Connector
 {
  std::string endpoint;
  Faults &f;
  Flaky_Connector(std::string e, Faults &f): endpoint(std::move(e)), f(f) {}
  std::unique_ptr<Channel> new_channel() const override {return std::make_unique<Flaky_Channel>(endpoint, f);}
 };

 enum Remote {file, pullonly_file, srv, remotes};
 enum Flavour {journal, database, server_file};

 struct Replica
 {
  std::string r; // model
  bool real = false;
  std::string path;
  std::unique_ptr<Memory_File> memory;
  int users = 0;
  std::string actual() const {return history(real ? server::slurp(path) : memory->get_data());}
  std::string raw() const {return real ? server::slurp(path) : memory->get_data();}
  void set(const std::string &data)
  {
   r = data;
   if (real) std::ofstream(path, std::ios::binary | std::ios::trunc) << file_of(data);
   else {memory = std::make_unique<Memory_File>(Open_Mode::write_existing); memory->get_data() = file_of(data);}
  }
 };

 struct Online
 {
  int id;
  Replica *p = nullptr;
  Flavour flavour;
  Content_Check cc;
  bool robust = false;
  int64_t k = 41, seen = 41;
  Faults faults;
  std::unique_ptr<File> local, remote;
  std::unique_ptr<Readonly_Journal> remote_journal;
  std::unique_ptr<Flaky_Connector> connector;
  std::unique_ptr<Channel> channel;
  std::unique_ptr<Connection> connection;
  std::unique_ptr<Server_File> sf;
  std::unique_ptr<Writable_Journal_Client> jc;
  std::unique_ptr<Writable_Database_Client> dc;
  Writable_Client &client() {return jc ? static_cast<Writable_Client &>(*jc) : *dc;}
  Abstract_File &file() {return sf ? static_cast<Abstract_File &>(*sf) : local ? static_cast<Abstract_File &>(*local) : *p->memory;}
  ~Online() {if (p) p->users--;}
 };

 struct Replicas
 {
  Ctx &c;
  Remote remote = file;
  server::Kind kind = server::memory;
  std::string s; // model of the history of the connection
  std::string remote_path;
  std::unique_ptr<Srv> server;
  std::unique_ptr<Raw> probe;
  std::vector<Replica> replicas;
  std::list<Online> online;
  int next = 0, texts = 0, faulty = 0, conflicts = 0, mismatches = 0, pulled = 0, pushed = 0, offline = 0, restarts = 0;
  bool faults_allowed = false;

  bool pullonly() const {return remote == pullonly_file || (remote == srv && kind == server::readonly);}
  int64_t end() const {return 41 + int64_t(s.size());}

  std::string text()
  {
   static const int sizes[] = {3, 20, 60, 700, 3000, 9000};
   std::string t(size_t(1 + c.below(uint64_t(sizes[c.chance(1, 4) ? c.below(6) : c.below(3)]))), 0);
   uint64_t h = 99 + uint64_t(texts++) * 7919;
   for (auto &x: t) {h = h * 6364136223846793005ull + 1442695040888963407ull; x = char('a' + ((h >> 58) % 26));}
   return t;
  }
  void write(Writable &w)
  {
   const int n = int(c.range(1, 3));
   for (int i = 0; i < n; i++)
    if (c.chance(1, 4)) w.create_table("T" + std::to_string(1000 + texts++)); else w.comment(text());
  }
  std::string some_bytes() {return bytes_of([&](Writable_Journal &j) {write(j);});}

  void start()
  {
   if (remote == srv) {server = std::make_unique<Srv>(c, kind, file_of(s), 4, std::chrono::milliseconds(0)); remote_path = server->db;}
   else
   {
    remote_path = c.scratch + "/remote.joedb";
    std::ofstream(remote_path, std::ios::binary | std::ios::trunc) << file_of(s);
   }
  }
  std::string actual()
  {
   if (remote != srv) return history(server::slurp(remote_path));
   if (!probe)
   {
    probe = std::make_unique<Raw>(c, server->endpoint, "probe");
    probe->send(Raw::hello());
    probe->exactly(30, "the handshake");
   }
   probe->send("F" + i64(0) + i64(41));
   const std::string h = probe->exactly(9, "a pull");
   return probe->exactly(size_t(get64(h, 1) - 41), "a pull");
  }

  // is a difference between these histories in the domain of the content check?
  bool detects(Content_Check cc, const std::string &a, const std::string &b) const
  {
   if (cc == Content_Check::none) return false;
   if (cc == Content_Check::full || remote == srv) return true;
   const size_t n = std::min(a.size(), b.size());
   if (n + 41 <= 4096) return true;
   return a.compare(0, 2048 - 41, b, 0, 2048 - 41) || a.compare(n - 2048, 2048, b, n - 2048, 2048);
  }

  void compare(const std::string &what)
  {
   const std::string a = actual();
   if (a != s) c.fail("the connection has another history than expected after " + what + ": " + describe(a, s));
   for (size_t i = 0; i < replicas.size(); i++)
   {
    const std::string x = replicas[i].actual();
    if (x != replicas[i].r) c.fail("replica " + std::to_string(i) + " has another history than expected after " + what + ": " + describe(x, replicas[i].r));
   }
   for (auto &o: online)
   {
    c.equal(o.client().get_journal_checkpoint(), o.seen, "checkpoint of client " + std::to_string(o.id) + " after " + what);
    c.equal(o.client().get_connection_checkpoint(), o.k, "connection checkpoint of client " + std::to_string(o.id) + " after " + what);
    if (o.sf && o.seen > 41)
    {
     const int64_t from = 41 + int64_t(c.below(uint64_t(o.seen - 41)));
     std::string got(size_t(o.seen - from), 0);
     size_t n = 0;
     while (n < got.size()) {const size_t k = o.sf->pread(got.data() + n, got.size() - n, from + int64_t(n)); if (k == 0) break; n += k;}
     c.check(n == got.size() && got == s.substr(size_t(from - 41), got.size()), "a Server_File has other bytes than its server after " + what);
    }
    if (o.dc) c.check(tables_of(o.dc->get_database()) == replay((o.sf ? s : o.p->r).substr(0, size_t(o.seen - 41))), "client " + std::to_string(o.id) + " has other tables than a replay of its file after " + what);
   }
  }
  static std::string describe(const std::string &got, const std::string &expected)
  {
   size_t i = 0; while (i < got.size() && i < expected.size() && got[i] == expected[i]) i++;
   return std::to_string(got.size()) + " bytes instead of " + std::to_string(expected.size()) + ", the same until " + std::to_string(i);
  }

  void connect()
  {
   if (remote == file && !online.empty()) return;
   if (online.size() >= 4) return;
   Replica *p = nullptr;
   const bool sf = remote == srv && c.chance(1, 6);
   if (!sf)
   {
    std::vector<Replica *> free;
    for (auto &r: replicas) if (r.users == 0 || (r.real && r.users < 2)) free.push_back(&r);
    if (free.empty()) return;
    p = c.pick(free);
   }
   Content_Check cc = Content_Check(c.below(3));
   const std::string r = sf ? s : p->r;
   const bool same = consistent(r, s);
   if (!same && !detects(cc, r, s)) cc = Content_Check::full;
   online.emplace_back();
   Online &o = online.back();
   o.id = next++; o.cc = cc;
   o.flavour = sf ? server_file : c.flag() ? journal : database;
   o.robust = sf || (remote == srv && c.flag());
   const bool keep_alive = remote == srv && !faults_allowed && c.chance(1, 6); // pings would be among the calls that are counted
   static const char *const checks[] = {"no", "fast", "full"};
   c.notef("client ", o.id, " connects ", sf ? "by Server_File" : "replica " + std::to_string(p - &replicas[0]) + (o.robust ? " by Robust_Connection" : ""), o.flavour == journal ? ", journal" : ", database", ", ", checks[int(cc)], " content check", keep_alive ? ", keep-alive" : "", same ? r.size() > s.size() ? " (ahead)" : "" : " (diverged)");
   try
   {
    if (remote == file)
    {
     o.remote = std::make_unique<File>(remote_path, Open_Mode::write_existing);
     o.connection = std::make_unique<File_Connection>(*o.remote);
    }
    else if (remote == pullonly_file)
    {
     o.remote = std::make_unique<File>(remote_path, Open_Mode::read_existing);
     o.remote_journal = std::make_unique<Readonly_Journal>(*o.remote);
     o.connection = std::make_unique<Pullonly_Journal_Connection>(*o.remote_journal);
    }
    else
    {
     o.connector = std::make_unique<Flaky_Connector>(server->endpoint, o.faults);
     if (keep_alive) o.connector->set_keep_alive_interval(std::chrono::milliseconds(1));
     if (sf) o.sf = std::make_unique<Server_File>(*o.connector);
     else if (o.robust) o.connection = std::make_unique<Robust_Connection>(*o.connector, Logger::dummy_logger);
     else
     {
      o.channel = o.connector->new_channel();
      o.connection = std::make_unique<Server_Connection>(*o.channel, Logger::dummy_logger, o.connector->get_keep_alive_interval());
     }
    }
    if (p)
    {
     o.p = p; p->users++;
     if (p->real) o.local = std::make_unique<File>(p->path, Open_Mode::shared_write);
    }
    Connection &connection = sf ? static_cast<Connection &>(*o.sf) : *o.connection;
    if (o.flavour == journal || (sf && c.flag())) o.jc = std::make_unique<Writable_Journal_Client>(o.file(), connection, cc);
    else o.dc = std::make_unique<Writable_Database_Client>(o.file(), connection, cc);
   }
   catch (const Content_Mismatch &)
   {
    c.check(!same, "a content mismatch was reported between identical histories");
    mismatches++;
    online.pop_back();
    if (c.chance(2, 3) && p->users == 0) {c.note("  a new copy"); p->set(c.flag() ? s : std::string());}
    return;
   }
   catch (const Fail &) {throw;}
   catch (const std::exception &e)
   {
    c.fail(std::string("the connection failed: ") + e.what());
   }
   c.check(same, "a replica that differs from its connection was accepted");
   o.k = end();
   o.seen = 41 + int64_t(r.size());
  }

  // a pull, by the model. false: refused
  enum Result {ok, diverged, refused, skip};
  Result model_pull(Online &o, bool lock, std::string &r) const
  {
   if (lock && pullonly()) return refused;
   if (!consistent(r, s))
   {
    if (!detects(o.cc, r, s)) return skip;
    return diverged;
   }
   if (r.size() < s.size()) r = s;
   return ok;
  }

  void drop(Online &o)
  {
   for (auto i = online.begin(); i != online.end(); ++i) if (&*i == &o) {online.erase(i); return;}
  }
  // after an exception caused by a fault
  void tolerate(Online &o, const std::vector<std::string> &rs, const std::vector<std::string> &ss, const std::string &what)
  {
   Replica *p = o.p;
   faulty++;
   if (p) for (auto i = online.begin(); i != online.end();) if (i->p == p && &*i != &o) i = online.erase(i); else ++i;
   drop(o);
   // the server notices the end of the session
   for (int i = 0; i < 20; i++) actual();
   const std::string a = actual();
   bool good = false;
   for (auto &x: ss) good |= a == x;
   c.check(good, "the connection has an unexpected history after a failure during " + what);
   if (p)
   {
    const std::string b = p->actual();
    good = false;
    for (auto &x: rs) good |= b == x;
    c.check(good, "the replica has an unexpected history after a failure during " + what);
    p->set(b); // it may have an aborted transaction
   }
   s = a;
  }

  void prepare(Online &o)
  {
   if (faults_allowed && remote == srv && c.chance(1, 4)) {o.faults.after = int64_t(c.below(12)); c.notef("a fault after ", o.faults.after);}
   o.faults.injected = 0;
  }

  void pull(Online &o)
  {
   std::string r = o.sf ? s.substr(0, size_t(o.seen - 41)) : o.p->r;
   const std::string old = r;
   const Result e = model_pull(o, false, r);
   if (e == skip) return;
   c.notef("client ", o.id, " pulls", e == diverged ? " (diverged)" : "");
   prepare(o);
   try
   {
    const int64_t n = o.client().pull(std::chrono::milliseconds(c.chance(1, 6) && r != old ? 1000 : 0));
    o.faults.after = -1;
    c.check(e == ok, "a pull from a diverged history succeeded");
    c.equal(n, 41 + int64_t(r.size()) - o.seen, "result of the pull");
   }
   catch (const Fail &) {throw;}
   catch (const std::exception &x)
   {
    if (o.faults.injected) {tolerate(o, {old, r}, {s}, "a pull"); return;}
    c.notef("  ", x.what());
    c.check(e == diverged, std::string("a pull failed: ") + x.what());
    conflicts++;
    drop(o);
    return;
   }
   if (r != old) pulled++;
   if (o.p) o.p->r = r;
   o.k = end(); o.seen = 41 + int64_t(r.size());
  }

  void in_lock(Online &o, const std::function<void(Writable &)> &f)
  {
   if (o.jc) o.jc->transaction([&](Writable_Journal &j) {f(j);});
   else o.dc->transaction([&](const Readable &, Writable &w) {f(w);});
  }

  void transaction(Online &o)
  {
   std::string r = o.sf ? s.substr(0, size_t(o.seen - 41)) : o.p->r;
   const std::string old = r, s0 = s;
   const Result e = model_pull(o, true, r);
   if (e == skip) return;
   c.notef("client ", o.id, " runs a transaction", e == diverged ? " (diverged)" : "");
   prepare(o);
   const std::string was = r;
   std::string d;
   bool began = false;
   try
   {
    in_lock(o, [&](Writable &w)
    {
     began = true;
     Memory_File m;
     Writable_Journal j(m);
     std::vector<std::function<void(Writable &)>> ops;
     // the same events, in another journal, to know the bytes
     const int n = int(c.range(0, 3));
     for (int i = 0; i < n; i++)
      if (c.chance(1, 4)) {const std::string t = "T" + std::to_string(1000 + texts++); w.create_table(t); j.create_table(t);}
      else {const std::string t = text(); w.comment(t); j.comment(t);}
     j.soft_checkpoint();
     d = m.get_data().substr(41, size_t(j.get_checkpoint() - 41));
    });
    o.faults.after = -1;
    c.check(e == ok, e == refused ? "a transaction succeeded on a pull-only connection" : "a transaction on a diverged history succeeded");
   }
   catch (const Fail &) {throw;}
   catch (const std::exception &x)
   {
    if (o.faults.injected) {tolerate(o, {old, was, was + d}, {s0, was + d}, "a transaction"); return;}
    c.notef("  ", x.what());
    c.check(e != ok, std::string("a transaction failed: ") + x.what());
    c.check(!began, "a transaction began before the conflict was reported");
    conflicts++;
    drop(o);
    return;
   }
   r += d;
   if (o.p) o.p->r = r;
   s = r; pushed++;
   o.k = end(); o.seen = end();
  }

  void locked(Online &o)
  {
   std::string r = o.sf ? s.substr(0, size_t(o.seen - 41)) : o.p->r;
   const std::string old = r, s0 = s;
   const Result e = model_pull(o, true, r);
   if (e == skip || o.sf) return;
   c.notef("client ", o.id, " locks", e == diverged ? " (diverged)" : "");
   int64_t k = end();
   auto body = [&](Client_Lock &lock, Writable &w)
   {
    auto add = [&] {const std::string t = text(); w.comment(t); r += bytes_of([&](Writable_Journal &j) {j.comment(t);});};
    for (uint64_t n = c.below(4); n-- > 0;)
     switch (c.below(3))
     {
      case 0: c.note("  local checkpoint"); add(); lock.do_checkpoint(); break;
      case 1: c.note("  push if ahead"); lock.push_if_ahead(); if (41 + int64_t(r.size()) > k) {s = r; k = end();} break;
      default: c.note("  checkpoint and push"); add(); lock.checkpoint_and_push(); s = r; k = end(); break;
     }
    if (c.flag()) {c.note("  checkpoint, push and unlock"); if (c.flag()) add(); lock.checkpoint_and_push_unlock(); s = r; k = end();}
    else {c.note("  unlock"); lock.unlock();}
   };
   bool began = false;
   try
   {
    if (o.jc) {Writable_Journal_Client_Lock l(*o.jc); began = true; body(l, l.get_journal());}
    else {Writable_Database_Client_Lock l(*o.dc); began = true; body(l, l.get_writable());}
    c.check(e == ok, e == refused ? "a lock of a pull-only connection succeeded" : "a lock with a diverged history succeeded");
   }
   catch (const Fail &) {throw;}
   catch (const std::exception &x)
   {
    c.notef("  ", x.what());
    c.check(e != ok && !began, std::string("a lock failed: ") + x.what());
    conflicts++;
    drop(o);
    return;
   }
   o.p->r = r; pushed++;
   o.k = k; o.seen = 41 + int64_t(r.size());
  }

  void push_if_ahead(Online &o)
  {
   if (o.sf) return;
   const bool ahead = o.seen > o.k;
   const bool conflict = ahead && (pullonly() || o.k != end());
   int64_t until = o.seen;
   const bool partial = ahead && c.chance(1, 4);
   const std::string old = o.p->r;
   std::vector<int64_t> ends;
   if (partial)
   {
    // at the end of some event
    Memory_File m(Open_Mode::read_existing);
    m.get_data() = file_of(old.substr(0, size_t(o.seen - 41)));
    Readonly_Journal j(m);
    Database db;
    for (int64_t p = 41; p < o.seen;) {j.play_until(db, p + 1); p = j.get_position(); if (p >= o.k) ends.push_back(p);}
    if (ends.empty()) return;
    until = c.pick(ends);
   }
   c.notef("client ", o.id, " pushes if ahead", ahead ? " (ahead)" : "", conflict ? " (conflict)" : "", partial ? " until " + std::to_string(until) : std::string());
   prepare(o);
   const std::string after = old.substr(0, size_t(until - 41));
   try
   {
    const int64_t n = partial ? o.client().push_if_ahead(until) : o.client().push_if_ahead();
    o.faults.after = -1;
    c.check(!conflict, "a push to a connection that has moved on succeeded");
    c.equal(n, ahead ? until : o.k, "result of push_if_ahead");
   }
   catch (const Fail &) {throw;}
   catch (const std::exception &x)
   {
    if (o.faults.injected) {tolerate(o, {old}, conflict ? std::vector<std::string>{s} : std::vector<std::string>{s, after}, "a push"); return;}
    c.notef("  ", x.what());
    c.check(conflict, std::string("a push failed: ") + x.what());
    conflicts++;
    drop(o);
    return;
   }
   if (ahead) {s = after; o.k = end(); pushed++;}
  }

  // changes of a file that nobody has open
  bool change(std::string &h)
  {
   switch (c.below(6))
   {
    case 0: case 1: case 2: c.note("  new data"); h += some_bytes(); return true;
    case 3:
    {
     std::vector<size_t> letters;
     auto l = [&](size_t i) {return h[i] >= 'a' && h[i] <= 'z';};
     for (size_t i = 1; i + 1 < h.size(); i++) if (l(i - 1) && l(i) && l(i + 1)) letters.push_back(i);
     if (letters.empty()) return false;
     const size_t i = c.flag() ? letters[c.below(letters.size())] : c.flag() ? letters.front() : letters.back();
     c.notef("  byte ", i + 41, " of ", h.size() + 41, " changes");
     h[i] = h[i] == 'a' ? 'b' : 'a';
     return true;
    }
    case 4: c.note("  reset"); h.clear(); return true;
    default:
    {
     // another branch
     Memory_File m(Open_Mode::read_existing);
     m.get_data() = file_of(h);
     Readonly_Journal j(m);
     Database db;
     std::vector<int64_t> ends = {41};
     for (int64_t p = 41; p < 41 + int64_t(h.size());) {j.play_until(db, p + 1); p = j.get_position(); ends.push_back(p);}
     h.resize(size_t(c.pick(ends) - 41));
     if (c.chance(3, 4)) h += some_bytes();
     c.notef("  another branch");
     return true;
    }
   }
  }
  void offline_change()
  {
   std::vector<Replica *> free;
   for (auto &r: replicas) if (!r.users) free.push_back(&r);
   if (free.empty()) return;
   Replica &p = *c.pick(free);
   c.notef("replica ", &p - &replicas[0], " changes offline");
   std::string h = p.r;
   if (!change(h)) return;
   p.set(h);
   offline++;
  }
  // somebody else
  void external()
  {
   if (remote == file && !online.empty()) return;
   c.note("another client adds to the connection");
   if (remote == srv && kind != server::readonly)
   {
    const std::string d = bytes_of([&](Writable_Journal &j) {j.comment(text());});
    actual();
    probe->send("O" + i64(end()) + i64(end() + int64_t(d.size())) + d);
    probe->reply("O", "a push");
    s += d;
   }
   else
   {
    File f(remote_path, Open_Mode::write_existing);
    Writable_Journal_Client w(f);
    w.transaction([&](Writable_Journal &j) {const std::string t = text(); j.comment(t);});
    s = history(server::slurp(remote_path));
   }
  }
  // the connection restarts, maybe with another history
  void restart()
  {
   if (remote != srv && !online.empty()) return;
   c.note("the connection restarts");
   restarts++;
   std::string h = s;
   if (c.flag() && !change(h)) h = s;
   probe.reset();
   server.reset();
   s = h;
   start();
   std::list<Online *> l;
   for (auto &o: online) l.push_back(&o);
   for (Online *o: l)
   {
    if (o->robust && !o->sf)
    {
     std::string r = o->p->r;
     const bool same = consistent(r, s);
     if (!same && !detects(o->cc, r, s)) {drop(*o); continue;}
     // the next operation connects again. A pull does not depend on the previous position
     if (!same) c.label("a robust connection with another history");
     try
     {
      o->client().pull();
      c.check(same, "a robust connection was made again with another history");
      if (r.size() < s.size()) o->p->r = s;
      o->k = end(); o->seen = 41 + int64_t(o->p->r.size());
     }
     catch (const Fail &) {throw;}
     catch (const std::exception &x)
     {
      c.notef("  client ", o->id, ": ", x.what());
      c.check(!same, std::string("a robust connection did not survive: ") + x.what());
      drop(*o);
     }
    }
    else if (o->robust) drop(*o);
    else
    {
     bool threw = false;
     try {o->client().pull();} catch (const std::exception &) {threw = true;}
     c.check(threw, "a pull from a server that was stopped succeeded");
     drop(*o);
    }
   }
  }
  // joedb_push
  void readonly_push()
  {
   if (remote == file && !online.empty()) return;
   std::vector<Replica *> free;
   for (auto &r: replicas) if (r.real && !r.users) free.push_back(&r);
   if (free.empty()) return;
   Replica &p = *c.pick(free);
   Content_Check cc = c.flag() ? Content_Check::fast : Content_Check::full;
   if (!consistent(p.r, s) && !detects(cc, p.r, s)) cc = Content_Check::full;
   const bool same = consistent(p.r, s);
   c.notef("a read-only client pushes replica ", &p - &replicas[0], same ? "" : " (diverged)");
   bool threw = false, expected = !same || pullonly();
   std::string r = p.r;
   // the initial empty push to a server is until the end of the file
   int64_t k = remote == srv ? 41 + int64_t(std::min(r.size(), s.size())) : end();
   try
   {
    File f(p.path, Open_Mode::read_existing);
    std::unique_ptr<File> rf;
    std::unique_ptr<Channel> ch;
    std::unique_ptr<Connection> co;
    std::unique_ptr<Readonly_Journal> rj;
    if (remote == file) {rf = std::make_unique<File>(remote_path, Open_Mode::write_existing); co = std::make_unique<File_Connection>(*rf);}
    else if (remote == pullonly_file) {rf = std::make_unique<File>(remote_path, Open_Mode::read_existing); rj = std::make_unique<Readonly_Journal>(*rf); co = std::make_unique<Pullonly_Journal_Connection>(*rj);}
    else {ch = std::make_unique<Local_Channel>(server->endpoint); co = std::make_unique<Server_Connection>(*ch);}
    Readonly_Database_Client client(f, *co, cc);
    c.check(!expected, "a read-only client was connected to a diverged history, or a pull-only connection");
    for (uint64_t n = 1 + c.below(3); n-- > 0;)
    {
     if (c.flag())
     {
      File w(p.path, Open_Mode::shared_write);
      Writable_Journal_Client wc(w);
      const std::string t = text();
      wc.transaction([&](Writable_Journal &j) {j.comment(t);});
      r += bytes_of([&](Writable_Journal &j) {j.comment(t);});
     }
     const bool push = 41 + int64_t(r.size()) > k;
     c.notef("  push ", r.size() + 41, " from ", k, " to ", end());
     if (push && k != end()) expected = true;
     if (push && !consistent(r, s)) {if (!detects(cc, r, s)) break; expected = true;}
     client.pull();
     static_cast<Client &>(client).push_if_ahead();
     c.check(!expected, "a read-only client pushed a diverged history");
     if (push) {s = r; k = end(); pushed++;}
     c.equal(client.get_connection_checkpoint(), k, "connection checkpoint of the read-only client");
     c.check(tables_of(client.get_database()) == replay(r), "the read-only client has other tables");
    }
   }
   catch (const Fail &) {throw;}
   catch (const std::exception &x) {threw = true; c.notef("  ", x.what()); mismatches++;}
   c.check(threw == expected, "a read-only client failed to push");
   p.r = r;
  }

  void run()
  {
   clear_scratch(c);
   Destructor_Logger::set_logger(nullptr);
   remote = Remote(c.below(remotes));
   if (c.flag()) remote = srv;
   kind = server::Kind(c.below(server::kinds));
   if (kind == server::readonly && c.flag()) kind = server::memory;
   faults_allowed = c.chance(1, 3);
   static const char *const names[] = {"file", "pull-only file", "server: "};
   c.notef("connection: ", names[remote], remote == srv ? server::kind_name[kind] : "");
   if (c.flag()) s = some_bytes();
   if (c.chance(1, 5)) for (int i = 0; i < 3; i++) s += some_bytes();
   start();
   replicas.resize(size_t(1 + c.below(3)));
   for (size_t i = 0; i < replicas.size(); i++)
   {
    auto &p = replicas[i];
    p.real = c.flag();
    p.path = c.scratch + "/replica" + std::to_string(i);
    p.set(c.flag() ? s : std::string());
   }
   const uint64_t ops = 4 + c.below(24);
   for (uint64_t n = 0; n < ops; n++)
   {
    auto any = [&]() -> Online & {auto i = online.begin(); std::advance(i, c.below(online.size())); return *i;};
    const uint64_t a = c.below(24);
    const bool none = online.empty();
    if (none ? a < 14 : a < 3) connect();
    else if (none ? a < 17 : a == 3) offline_change();
    else if (none ? a < 20 : a < 6) external();
    else if (none ? a < 22 : a == 6) restart();
    else if (none || a == 7) readonly_push();
    else if (a < 11) pull(any());
    else if (a < 15) transaction(any());
    else if (a < 18) locked(any());
    else if (a < 21) push_if_ahead(any());
    else {Online &o = any(); c.notef("client ", o.id, " disconnects"); drop(o);}
    compare("this");
   }
   online.clear();
   probe.reset();
   if (server) server->stop();
   c.label("conflicts", uint64_t(conflicts));
   c.label("content mismatches", uint64_t(mismatches));
   c.label("pulls of new data", uint64_t(pulled));
   c.label("pushes", uint64_t(pushed));
   c.label("offline changes", uint64_t(offline));
   c.label("restarts", uint64_t(restarts));
   c.label("failed connections", uint64_t(faulty));
   if (pushed + pulled > 0 && next > 0) c.nontrivial();
  }
 };
}

static void run_c03(Ctx &c) {Replicas r{c}; r.run();}
static const Register r3({.id = "C03", .rule = "a client connects, and data is pushed or pulled", .quick = 24000, .thorough = 2000000, .run = run_c03});
