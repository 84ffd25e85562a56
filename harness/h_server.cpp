// vf: libs=asio
// C04 the server serializes its clients, C05 malformed requests
#include "server.h"
#include "joedb/journal/File_Hasher.h"
#include "joedb/journal/Writable_Journal.h"
#include <chrono>
#include <condition_variable>
#include <list>
#include <mutex>
#include <set>
#include <thread>
using namespace joedb;
using namespace vf;
using server::Raw; using server::Srv; using server::i64; using server::get64; using server::Kind;

namespace
{
 struct Payload {static std::string make(Ctx &c, int id)
 {
  size_t n;
  switch (c.below(4))
  {
   case 0: case 1: n = 1 + size_t(c.below(40)); break;
   case 2: n = 1 + size_t(c.below(3000)); break;
   default: n = 8170 + size_t(c.below(40)) + 8192 * size_t(c.below(4)); break;
  }
  std::string s(n, 0);
  uint64_t h = 77 + uint64_t(id) * 1000003;
  for (auto &x: s) {h = h * 6364136223846793005ull + 1442695040888963407ull; x = char(h >> 56);}
  return s;
 }};

 std::string empty_journal()
 {
  Memory_File f;
  Writable_Journal j(f);
  return f.get_data();
 }

 std::string hash_of(const std::string &bytes) {Memory_File f; f.get_data() = bytes; const auto h = File_Hasher::get_hash(f); return std::string((const char *)h.data(), sizeof h);}

 std::string with_header(const std::string &data)
 {
  Memory_File f;
  {
   Writable_Journal j(f);
   if (!data.empty())
   {
    f.pwrite(data.data(), data.size(), 41);
    j.soft_checkpoint_at(41 + int64_t(data.size()));
   }
  }
  return f.get_data();
 }

 struct Session
 {
  Raw raw;
  int id;
  enum State {idle, queued, waiting, pushing} state = idle;
  bool dead = false, ended = false;
  char code = 0;
  int64_t wanted = 0; // position of the pending pull
  int64_t replica = 41;
  // push
  int64_t from = 0, until = 0;
  std::string payload;
  size_t sent = 0;
  char status = 0;
  Session(Ctx &c, const std::string &e, int id): raw(c, e, "session " + std::to_string(id)), id(id) {}
 };

 struct World
 {
  Ctx &c;
  Kind kind;
  std::string data; // bytes of the file from 41
  int64_t seen = 41; // checkpoint known to the server
  std::list<Session> sessions;
  Session *holder = nullptr;
  std::deque<Session *> lock_queue, waiters;
  std::set<int64_t> ids;
  std::unique_ptr<Srv> srv;
  std::unique_ptr<Raw> probe;
  int next_id = 0, accepted = 0, refused = 0, handed = 0, answered = 0, halves = 0, external = 0, deaths = 0, locks = 0, waits = 0;

  World(Ctx &c, Kind kind): c(c), kind(kind) {}
  int64_t end() const {return 41 + int64_t(data.size());}

  void observe() {if (kind == server::readonly || (kind == server::shared && !holder)) seen = end();}

  void hello(Raw &r)
  {
   c.check(r.send(Raw::hello()), r.who + ": cannot send the handshake");
   const std::string s = r.exactly(30, "the handshake");
   c.check(s.substr(0, 5) == "joedb" && get64(s, 5) == server::version, r.who + ": wrong handshake");
   c.check(ids.insert(get64(s, 13)).second, r.who + ": the session identifier was used before");
   c.equal(get64(s, 21), seen, r.who + ": checkpoint of the handshake");
   c.equal(s[29], kind == server::readonly ? 'R' : 'W', r.who + ": mode of the server");
  }
  void sync()
  {
   if (!probe) {probe = std::make_unique<Raw>(c, srv->endpoint, "probe"); hello(*probe);}
   for (int i = 0; i < 2; i++)
   {
    observe();
    c.check(probe->send("D" + i64(0) + i64(41)), "the server closed the probe");
    probe->reply("D" + i64(seen), "a probe");
   }
  }

  std::string pull_reply(Session &s)
  {
   std::string r;
   const bool lock = s.code & 1, with = s.code & 2;
   r += lock && kind == server::readonly ? 'R' : s.code;
   r += i64(seen);
   if (with && s.wanted < seen) r += data.substr(size_t(s.wanted - 41), size_t(seen - s.wanted));
   return r;
  }
  void answer(Session &s, const std::string &what)
  {
   s.raw.reply(pull_reply(s), what);
   if (s.code & 2) s.replica = std::max(s.replica, seen);
   s.state = Session::idle;
  }
  // s asks for the lock, as part of a pull
  void want_lock(Session &s)
  {
   if (holder)
   {
    s.state = Session::queued;
    lock_queue.push_back(&s);
    c.label("waits for the lock");
   }
   else if (s.dead) return;
   else
   {
    if (kind == server::shared) seen = end();
    holder = &s; locks++;
    answer(s, "a pull with lock");
   }
  }
  void release()
  {
   holder = nullptr;
   while (!lock_queue.empty())
   {
    Session *s = lock_queue.front();
    lock_queue.pop_front();
    if (s->dead) continue;
    handed++;
    if (kind == server::shared) seen = end();
    holder = s; locks++;
    answer(*s, "a lock request, when the lock becomes available");
    return;
   }
  }
  void wake(bool with_data)
  {
   auto w = std::move(waiters);
   waiters.clear();
   for (Session *s: w)
   {
    if (s->dead) continue;
    if (!with_data && !(s->code & 1))
    {
     // it may be answered, without data
     sync();
     if (s->raw.quiet()) {waiters.push_back(s); continue;}
    }
    answered++;
    if (s->code & 1) want_lock(*s); else answer(*s, "a waiting pull");
   }
  }
  void end_session(Session &s) // the server is expected to close
  {
   c.check(s.raw.closed("an error"), s.raw.who + ": the server should close the connection");
   s.raw.close();
   s.ended = s.dead = true;
   if (holder == &s) release();
  }
  void kill(Session &s, bool polite)
  {
   if (polite && s.state == Session::idle) s.raw.send("Q");
   s.raw.close();
   s.dead = true;
   deaths++;
   if (s.state == Session::pushing) halves++;
   sync();
   if (holder == &s) release();
   // a dead session stays in its queue until its turn
   s.ended = true;
  }
  void start_push(Session &s, char code, int64_t from, const std::string &payload)
  {
   s.code = code; s.from = from; s.until = from + int64_t(payload.size()); s.payload = payload; s.sent = 0;
   const std::string header = std::string(1, code) + i64(s.from) + i64(s.until);
   if (holder && holder != &s)
   {
    s.raw.send(header);
    c.label("pushes without the lock of another");
    end_session(s);
    return;
   }
   c.check(s.raw.send(header), s.raw.who + ": closed before a push");
   if (!holder)
   {
    if (kind == server::shared) seen = end();
    holder = &s;
   }
   s.status = kind == server::readonly ? 'R' : from != seen ? 'C' : code;
   s.state = Session::pushing;
   sync(); // so that the lock is taken before what follows
  }
  void continue_push(Session &s, size_t n)
  {
   n = std::min(n, s.payload.size() - s.sent);
   c.check(s.raw.send(s.payload.substr(s.sent, n)), s.raw.who + ": closed during a push");
   s.sent += n;
   if (s.sent < s.payload.size()) {sync(); return;}
   s.raw.reply(std::string(1, s.status), "a push");
   s.state = Session::idle;
   const bool ok = s.status == s.code;
   if (ok)
   {
    data += s.payload; seen = end(); s.replica = std::max(s.replica, s.from == s.replica ? s.until : s.replica);
    accepted++;
   }
   else refused++;
   if (s.code == 'O') release();
   wake(ok && !s.payload.empty());
  }
  // another process writes to the file
  void write_file()
  {
   if (kind == server::memory || kind == server::exclusive) return;
   if (kind == server::shared && holder) return;
   File f(srv->db, kind == server::shared ? Open_Mode::shared_write : Open_Mode::write_existing);
   Writable_Journal_Client w(f, Connection::dummy, Content_Check::none, Recovery::overwrite);
   const std::string s = Payload::make(c, 1000 + next_id++);
   w.transaction([&](Writable_Journal &j) {j.comment(s.substr(0, 500));});
   const std::string all = server::slurp(srv->db);
   c.check(all.compare(41, data.size(), data) == 0, "the file of the server has another content");
   data = all.substr(41, size_t(w.get_journal_checkpoint()) - 41);
   external++;
  }
  void finish()
  {
   probe.reset();
   srv->stop();
   const std::string f = srv->content();
   Memory_File m(Open_Mode::read_existing);
   m.get_data() = f;
   Readonly_Journal j(m);
   c.equal(j.get_checkpoint(), end(), "checkpoint of the file of the server");
   c.check(f.size() >= size_t(end()) && f.compare(41, data.size(), data) == 0, "the file of the server is not the history of accepted pushes");
  }
 };

 void serial(Ctx &c)
 {
  World w(c, Kind(c.below(server::kinds)));
  clear_scratch(c);
  for (uint64_t n = c.below(3); n-- > 0;) w.data += Payload::make(c, 500 + int(n));
  w.seen = w.end();
  c.note(server::kind_name[w.kind]);
  w.srv = std::make_unique<Srv>(c, w.kind, with_header(w.data), c.flag() ? 0 : 4, std::chrono::milliseconds(0));
  const uint64_t ops = 6 + c.below(40);
  for (uint64_t o = 0; o < ops; o++)
  {
   std::vector<Session *> alive, idle, pushing;
   for (auto &s: w.sessions) if (!s.ended && !s.dead)
   {
    alive.push_back(&s);
    if (s.state == Session::idle) idle.push_back(&s);
    if (s.state == Session::pushing) pushing.push_back(&s);
   }
   const int a = int(c.below(16));
   if (idle.empty() && pushing.empty() || (a == 0 && alive.size() < 6))
   {
    if (alive.size() >= 6) {w.kill(*c.pick(alive), false); continue;}
    c.notef("session ", w.next_id, " connects");
    w.sessions.emplace_back(c, w.srv->endpoint, w.next_id++);
    w.hello(w.sessions.back().raw);
   }
   else if (!pushing.empty() && (a <= 4 || idle.empty()))
   {
    Session &s = *c.pick(pushing);
    const size_t n = c.flag() ? s.payload.size() : 1 + size_t(c.below(s.payload.size()));
    c.notef(s.raw.who, " sends ", n, " bytes of its push");
    w.continue_push(s, n);
   }
   else if (a <= 7 && !idle.empty())
   {
    Session &s = *c.pick(idle);
    s.code = char('D' + c.below(4));
    if (w.holder == &s && c.chance(5, 6)) s.code = char('D' + 2 * c.below(2));
    const bool wait = c.chance(1, 3);
    s.wanted = c.chance(1, 6) ? w.end() : c.chance(1, 6) ? 41 + c.range(0, w.end() - 41) : s.replica;
    c.notef(s.raw.who, " pulls ", s.code, " from ", s.wanted, wait ? " and waits" : "");
    w.observe();
    const bool already = (s.code & 1) && w.holder == &s;
    const int64_t ms = !wait ? 0 : (s.code & 1) || c.flag() ? 3600000 : 1; // a lock request after a short wait would arrive at an unknown time
    c.check(s.raw.send(std::string(1, s.code) + i64(ms) + i64(s.wanted)), s.raw.who + ": closed before a pull");
    if (ms > 1 && s.wanted == w.seen && w.holder != &s) // no data can come while it has the lock
    {
     s.state = Session::waiting; w.waiters.push_back(&s); w.waits++;
     w.sync();
     c.check(s.raw.quiet(), s.raw.who + ": a pull that waits was answered before data arrives");
    }
    else if (already) {c.label("locks twice"); w.end_session(s);}
    else if (s.code & 1) {w.want_lock(s); w.sync();}
    else w.answer(s, "a pull");
   }
   else if (a <= 10 && !idle.empty())
   {
    Session &s = c.chance(2, 3) && w.holder && w.holder->state == Session::idle ? *w.holder : *c.pick(idle);
    bool lockers = false;
    for (auto *p: w.waiters) lockers |= (p->code & 1) != 0;
    const bool right = lockers || c.chance(3, 4);
    if (lockers && (w.kind == server::readonly)) continue;
    if (w.kind == server::shared && !w.holder) w.seen = w.end();
    std::string p = !lockers && c.chance(1, 10) ? std::string() : Payload::make(c, w.next_id++);
    const int64_t from = right ? w.seen : std::max<int64_t>(41, w.seen + c.range(-30, 30));
    const char code = c.flag() ? 'N' : 'O';
    c.notef(s.raw.who, " starts a push ", code, " of ", p.size(), " bytes from ", from, from == w.seen ? "" : " (conflict)");
    w.start_push(s, code, from, p);
    if (s.state == Session::pushing && (p.empty() || c.chance(2, 5))) w.continue_push(s, p.size());
   }
   else if (a <= 12 && !idle.empty())
   {
    Session &s = w.holder && w.holder->state == Session::idle && c.chance(3, 4) ? *w.holder : *c.pick(idle);
    c.notef(s.raw.who, " unlocks");
    c.check(s.raw.send("M"), s.raw.who + ": closed before an unlock");
    s.raw.reply("M", "an unlock");
    if (w.holder == &s) w.release();
   }
   else if (a == 13 && !idle.empty())
   {
    Session &s = *c.pick(idle);
    if (c.flag())
    {
     const int64_t from = 41 + c.range(0, w.end() - 41 + 20), until = 41 + c.range(0, w.end() - 41 + 20);
     c.notef(s.raw.who, " reads from ", from, " until ", until);
     const int64_t u = std::min(until, w.seen), f = std::min(from, u);
     c.check(s.raw.send("r" + i64(from) + i64(until)), s.raw.who + ": closed before a read");
     s.raw.reply("r" + i64(u) + w.data.substr(size_t(f - 41), size_t(u - f)), "a read");
    }
    else
    {
     const char code = c.flag() ? 'H' : 'I';
     const int64_t cp = 41 + c.range(0, w.end() - 41 + 5);
     const bool right = c.flag() && cp <= w.seen;
     std::string h = hash_of(w.data.substr(0, size_t(std::min(cp, w.seen) - 41)));
     if (!right) h[size_t(c.below(32))] ^= char(1 << c.below(8));
     c.notef(s.raw.who, " checks the hash at ", cp, right ? "" : " (different)");
     c.check(s.raw.send(std::string(1, code) + i64(cp) + h), s.raw.who + ": closed before a hash check");
     s.raw.reply(std::string(1, right ? code : 'h'), "a hash check");
    }
   }
   else if (a == 14) {if (w.external + 1 > 0) {c.note("another process writes to the file"); w.write_file();}}
   else if (!alive.empty())
   {
    Session &s = *c.pick(alive);
    static const char *const st[] = {"idle", "waiting for the lock", "waiting for data", "pushing"};
    c.notef(s.raw.who, " disconnects while ", st[s.state], w.holder == &s ? ", with the lock" : "");
    w.kill(s, c.flag());
   }
   w.sync();
   for (auto &s: w.sessions) if (!s.ended && !s.dead)
    if (!s.raw.quiet())
     c.fail(s.raw.who + (s.state == Session::queued ? " got a reply, although another session has the lock" : s.state == Session::waiting ? " got a reply, although there is no new data" : " got an unexpected reply, or was disconnected"));
  }
  w.finish();
  c.label("accepted pushes", uint64_t(w.accepted));
  c.label("refused pushes", uint64_t(w.refused));
  c.label("locks", uint64_t(w.locks));
  c.label("locks handed over", uint64_t(w.handed));
  c.label("waiting pulls", uint64_t(w.waits));
  c.label("waiting pulls answered", uint64_t(w.answered));
  c.label("disconnections", uint64_t(w.deaths));
  c.label("disconnections during a push", uint64_t(w.halves));
  c.label("writes by another process", uint64_t(w.external));
  if (w.next_id > 1 && w.accepted + w.external > 0 && w.locks > 0) c.nontrivial();
 }
 // Lock timeouts: the order of events depends on time, so that the model only
 // says what each reply means for the history
 void timeouts(Ctx &c)
 {
  World w(c, Kind(c.below(server::readonly)));
  clear_scratch(c);
  const bool slow = c.chance(1, 4); // long requests, during which several things happen
  if (slow) w.data = std::string(size_t(1000000 + c.below(3000000)), 'z');
  for (uint64_t n = c.below(3); n-- > 0;) w.data += Payload::make(c, 500 + int(n));
  w.seen = w.end();
  const int timeout = int(c.range(1, 12));
  c.notef(server::kind_name[w.kind], ", lock timeout ", timeout, " ms");
  w.srv = std::make_unique<Srv>(c, w.kind, with_header(w.data), 4, std::chrono::milliseconds(timeout));
  auto connect = [&]() -> Session &
  {
   w.sessions.emplace_back(c, w.srv->endpoint, w.next_id++);
   w.seen = w.end();
   w.hello(w.sessions.back().raw);
   return w.sessions.back();
  };
  auto sleep = [&]
  {
   const int ms = c.flag() ? 0 : int(c.range(1, 2 * timeout + 2));
   if (ms) {c.notef("sleep ", ms, " ms"); std::this_thread::sleep_for(std::chrono::milliseconds(ms));}
  };
  int expired = 0, rounds = 1 + int(c.below(3));
  for (int r = 0; r < rounds; r++)
  {
   // A: takes the lock, and stops in the middle
   Session &a = connect();
   const std::string pa = Payload::make(c, w.next_id++);
   const bool locked = c.flag();
   int64_t base = w.end();
   if (locked)
   {
    c.notef(a.raw.who, " locks");
    a.raw.send("G" + i64(0) + i64(base));
    a.raw.reply("G" + i64(base), "a lock");
    sleep();
   }
   size_t part = 0;
   const bool pushes = !locked || c.flag();
   if (pushes)
   {
    part = size_t(c.below(pa.size()));
    c.notef(a.raw.who, " sends ", part, " bytes of a push of ", pa.size());
    a.raw.send("N" + i64(base) + i64(base + int64_t(pa.size())) + pa.substr(0, part));
    sleep();
   }
   if (slow)
   {
    Session &h = connect();
    c.note("a long hash");
    h.raw.send("I" + i64(w.end()) + std::string(32, 'x'));
    h.raw.send("I" + i64(w.end()) + std::string(32, 'x'));
   }
   // A may disconnect, at any time with respect to the timeout
   const bool dies = c.flag();
   if (dies) {c.notef(a.raw.who, " disconnects"); a.raw.close(); a.dead = true; w.deaths++; sleep();}
   // B: gets the lock in the end
   Session &b = connect();
   c.notef(b.raw.who, " locks");
   b.raw.send("G" + i64(0) + i64(base));
   {
    const std::string s = b.raw.exactly(9, "a lock");
    c.check(s[0] == 'G', b.raw.who + ": wrong reply to a lock");
    c.equal(get64(s, 1), base, b.raw.who + ": position of the lock, before the push of the other session is complete");
   }
   expired++;
   if (c.flag())
   {
    const std::string pb = Payload::make(c, w.next_id++);
    c.notef(b.raw.who, " pushes ", pb.size(), " bytes");
    if (c.chance(1, 4)) sleep();
    b.raw.send("O" + i64(base) + i64(base + int64_t(pb.size())) + pb);
    const std::string s = b.raw.exactly(1, "a push");
    c.check(s == "O" || s == "t", b.raw.who + ": reply to a push: " + s);
    if (s == "O") {w.data += pb; w.accepted++;}
   }
   else
   {
    c.notef(b.raw.who, " unlocks");
    b.raw.send("M"); b.raw.reply("M", "an unlock");
   }
   if (!a.dead)
   {
    if (c.chance(1, 4)) {c.notef(a.raw.who, " disconnects"); a.raw.close();}
    else if (pushes)
    {
     c.notef(a.raw.who, " sends the rest");
     a.raw.send(pa.substr(part));
     a.raw.reply("t", "a push that lost its lock");
    }
    if (a.raw.fd >= 0 && c.flag())
    {
     // it goes on
     const std::string p2 = Payload::make(c, w.next_id++);
     const bool right = c.flag();
     const int64_t from = right ? w.end() : base;
     const bool ok = from == w.end();
     c.notef(a.raw.who, " pushes again from ", from);
     a.raw.send("O" + i64(from) + i64(from + int64_t(p2.size())) + p2);
     const std::string s = a.raw.exactly(1, "a push");
     c.check(s == (ok ? "O" : "C") || (ok && s == "t"), a.raw.who + ": reply to a push: " + s);
     if (s == "O") {w.data += p2; w.accepted++;}
    }
   }
   // the server goes on, and shows exactly the accepted pushes
   Session &d = connect();
   d.raw.send("F" + i64(0) + i64(41));
   d.raw.reply("F" + i64(w.end()) + w.data, "a pull");
  }
  w.finish();
  c.label("lock timeouts", uint64_t(expired));
  if (slow) c.label("slow requests");
  if (expired) c.nontrivial();
 }
}

static void run_c04(Ctx &c) {if (c.chance(1, 30)) timeouts(c); else serial(c);}
static const Register r4({.id = "C04", .rule = "at least 2 sessions, a lock, and an accepted push, or a lock timeout", .quick = 12000, .thorough = 400000, .run = run_c04});

// C05 ///////////////////////////////////////////////////////////////////////
namespace
{
 // What a stream of bytes asks for, according to the protocol
 struct Parsed {bool hello = false; struct P {int64_t from, until; std::string bytes;}; std::vector<P> pushes;};
 Parsed parse(const std::string &s)
 {
  Parsed r;
  if (s.size() < 13 || s.substr(0, 5) != "joedb") return r;
  r.hello = true;
  size_t i = 13;
  while (i < s.size())
  {
   const char code = s[i++];
   size_t n = 0;
   switch (code)
   {
    case 'H': case 'I': n = 40; break;
    case 'r': case 'D': case 'E': case 'F': case 'G': case 'N': case 'O': n = 16; break;
    case 'M': break;
    default: return r;
   }
   if (s.size() - i < n) return r;
   if (code == 'N' || code == 'O')
   {
    const int64_t from = get64(s, i), until = get64(s, i + 8);
    i += n;
    const int64_t size = int64_t(uint64_t(until) - uint64_t(from)); // a server may also refuse
    if (size > 0)
    {
     if (uint64_t(size) > s.size() - i) return r;
     r.pushes.push_back({from, until, s.substr(i, size_t(size))});
     i += size_t(size);
    }
   }
   else i += n;
  }
  return r;
 }

 struct Evil
 {
  std::unique_ptr<Raw> raw;
  std::string stream, received;
  size_t sent = 0;
  bool reads = true;
 };

 struct Malformed
 {
  Ctx &c;
  Kind kind = server::memory;
  std::string data;
  std::vector<std::string> secrets;
  int64_t end() const {return 41 + int64_t(data.size());}

  int64_t number()
  {
   static const int64_t lo = std::numeric_limits<int64_t>::min(), hi = std::numeric_limits<int64_t>::max();
   switch (c.below(12))
   {
    case 0: return end();
    case 1: return end() + c.range(-45, 45);
    case 2: return c.range(0, end() + 100);
    case 3: return c.range(-60, 60);
    case 4: return -c.range(0, end() + 100);
    case 5: return lo + c.range(0, 100);
    case 6: return hi - c.range(0, 100);
    case 7: return (int64_t(1) << c.below(63)) + c.range(-50, 50);
    case 8: return -(int64_t(1) << c.below(63)) + c.range(-50, 50);
    case 9: return 41;
    case 10: return end() + int64_t(c.below(200000));
    default: return int64_t(c.below(1ull << 32)) * int64_t(c.below(1ull << 31));
   }
  }
  std::string marker() {return "SECRET" + std::to_string(secrets.size()) + "!";}
  std::string body(size_t n)
  {
   const std::string m = marker();
   secrets.push_back(m);
   std::string s;
   while (s.size() < n) s += m;
   s.resize(n);
   return s;
  }
  std::string garbage()
  {
   std::string s;
   static const char codes[] = "HIrDEFGMNOQLj\0\xff";
   for (uint64_t n = c.below(60); n-- > 0;) s += c.flag() ? codes[c.below(sizeof codes - 1)] : char(c.below(256));
   return s;
  }
  void message(std::string &s)
  {
   switch (c.below(10))
   {
    case 0: case 1:
     c.note("read");
     s += "r" + i64(number()) + i64(number());
    break;
    case 2: case 3:
    {
     const char code = char('D' + c.below(4));
     const int64_t wait = c.flag() ? 0 : number(), from = number();
     c.notef("pull ", code, " ", wait, " ", from);
     s += std::string(1, code) + i64(wait) + i64(from);
    }
    break;
    case 4: case 5: case 6:
    {
     const char code = c.flag() ? 'N' : 'O';
     int64_t from = c.flag() ? end() : number(), until = number();
     size_t n = size_t(c.below(30));
     if (c.flag()) {n = size_t(c.chance(1, 6) ? c.below(40000) : c.below(60)); until = int64_t(uint64_t(from) + n);}
     const bool partial = c.chance(1, 3);
     if (partial && n) n = size_t(c.below(n));
     c.notef("push ", code, " ", from, " ", until, " with ", n, " bytes");
     s += std::string(1, code) + i64(from) + i64(until) + body(n);
    }
    break;
    case 7:
     c.note("hash");
     s += std::string(1, c.flag() ? 'H' : 'I') + i64(number());
     s += c.flag() ? std::string(32, 0) : hash_of(data.substr(0, size_t(c.below(data.size() + 1))));
    break;
    case 8: s += c.flag() ? "M" : "Q"; c.note("unlock or quit"); break;
    default: s += garbage(); c.note("garbage"); break;
   }
  }
  std::string stream()
  {
   std::string s;
   switch (c.below(8))
   {
    case 0: s += garbage(); c.note("no handshake"); break;
    case 1: s += "joedb" + i64(number()); c.note("handshake with another version"); break;
    default: s += Raw::hello(); break;
   }
   for (uint64_t n = c.below(6); n-- > 0;) message(s);
   if (c.chance(1, 5) && !s.empty()) {s.resize(size_t(c.below(s.size()))); c.note("truncated");}
   return s;
  }

  static void drain(Evil &e)
  {
   char b[65536];
   while (e.raw)
   {
    const ssize_t r = ::recv(e.raw->fd, b, sizeof b, MSG_DONTWAIT);
    if (r <= 0) break;
    e.received.append(b, size_t(r));
   }
  }

  void hello(Raw &r)
  {
   r.send(Raw::hello());
   const std::string s = r.exactly(30, "the handshake");
   c.check(s.substr(0, 5) == "joedb" && get64(s, 5) == server::version && s[29] == (kind == server::readonly ? 'R' : 'W'), r.who + ": wrong handshake");
  }

  void run()
  {
   kind = Kind(c.below(server::kinds));
   clear_scratch(c);
   for (uint64_t n = c.below(3); n-- > 0;) data += Payload::make(c, 500 + int(n));
   const std::string base = data;
   std::string initial = with_header(data);
   if (kind == server::readonly) initial.resize(size_t(end())), initial += body(size_t(c.below(300))); // an abandoned transaction
   const int timeout = c.chance(1, 6) ? int(c.range(1, 10)) : 0;
   c.notef(server::kind_name[kind], " checkpoint ", end(), timeout ? " lock timeout" : "");
   Srv srv(c, kind, initial, 4, std::chrono::milliseconds(timeout));
   const bool locker = kind != server::readonly && !timeout && c.chance(1, 3);
   Raw good(c, srv.endpoint, "the good client");
   hello(good);
   if (locker)
   {
    c.note("a good client has the lock");
    good.send("E" + i64(0) + i64(41));
    good.reply("E" + i64(end()), "a lock");
   }
   std::vector<Evil> evil(1 + c.below(4));
   for (auto &e: evil)
   {
    e.raw = std::make_unique<Raw>(c, srv.endpoint, "peer");
    e.stream = stream();
    e.reads = c.chance(4, 5);
   }
   // interleaved
   for (bool more = true; more;)
   {
    more = false;
    for (auto &e: evil)
    {
     if (!e.raw) continue;
     if (e.sent == e.stream.size()) {if (c.flag()) {drain(e); e.raw.reset();} continue;}
     more = true;
     size_t n = e.stream.size() - e.sent;
     if (c.flag()) n = size_t(c.below(n + 1));
     if (n == 0) n = 1;
     size_t done = 0;
     while (done < n)
     {
      const ssize_t r = ::send(e.raw->fd, e.stream.data() + e.sent + done, n - done, MSG_NOSIGNAL | MSG_DONTWAIT);
      if (r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK))
      {
       pollfd p = {e.raw->fd, POLLOUT, 0};
       if (e.reads) drain(e);
       if (::poll(&p, 1, 20) > 0) continue;
       break; // the server waits: it does not read
      }
      if (r <= 0) break;
      done += size_t(r);
     }
     if (done < n) {e.stream.resize(e.sent + done); c.label("closed or blocked by the server");}
     e.sent += done;
     if (e.reads) drain(e);
    }
    good.send("D" + i64(0) + i64(41));
    const std::string s = good.exactly(9, "a probe during the requests of the others");
    c.check(s[0] == 'D' && get64(s, 1) >= end(), "the good client got a wrong reply");
   }
   // a reply may come later
   if (c.flag()) for (int i = 0; i < 4; i++) for (auto &e: evil) {drain(e); good.send("D" + i64(0) + i64(41)); good.exactly(9, "a probe");}
   for (auto &e: evil) {drain(e); e.raw.reset();}
   std::string mine;
   if (locker)
   {
    mine = "good client";
    good.send("O" + i64(end()) + i64(end() + int64_t(mine.size())) + mine);
    good.reply("O", "a push of the good client, who has the lock");
   }
   // everybody is served
   Raw last(c, srv.endpoint, "another good client");
   hello(last);
   last.send((kind == server::readonly ? "F" : "G") + i64(0) + i64(41));
   std::string s = last.exactly(9, "a pull after the malformed requests");
   const int64_t checkpoint = get64(s, 1);
   c.check(checkpoint >= end() && checkpoint < end() + 10000000, "the checkpoint after the malformed requests is " + std::to_string(checkpoint));
   const std::string all = last.exactly(size_t(checkpoint - 41), "a pull");
   if (!timeout && kind != server::readonly) {last.send("M"); last.reply("M", "an unlock");}
   srv.stop();
   const std::string file = srv.content();
   if (kind == server::readonly) c.check(file == initial, "the file of a read-only server was modified");
   {
    Memory_File m(Open_Mode::read_existing);
    m.get_data() = file;
    Readonly_Journal j(m);
    c.equal(j.get_checkpoint(), checkpoint, "checkpoint of the file of the server");
    c.check(file.substr(41, all.size()) == all, "the file of the server has another content than the one sent");
   }
   c.check(all.compare(0, base.size(), base) == 0, "the database of the server was modified");
   // what was added is a sequence of complete pushes
   std::vector<Parsed> parsed;
   for (auto &e: evil) {parsed.push_back(parse(e.stream.substr(0, e.sent))); if (parsed.back().hello) c.label("peers that pass the handshake");}
   if (locker) c.check(all == base + mine, "data was added by others while the good client had the lock");
   else
   {
    std::set<size_t> ends = {base.size()}, seen;
    while (!ends.empty())
    {
     const size_t p = *ends.begin(); ends.erase(ends.begin());
     if (!seen.insert(p).second) continue;
     for (auto &q: parsed) for (auto &u: q.pushes)
      if (u.from == 41 + int64_t(p) && all.compare(p, u.bytes.size(), u.bytes) == 0) ends.insert(p + u.bytes.size());
    }
    c.check(seen.count(all.size()) != 0, "the server accepted something else than a sequence of complete pushes");
    if (all.size() > base.size()) c.label("a push was accepted");
   }
   // nothing of what was refused is disclosed
   for (auto &m: secrets)
    if (all.find(m) == std::string::npos) for (auto &e: evil)
     c.check(e.received.find(m) == std::string::npos, "bytes that are not in the database were disclosed");
   size_t n = 0;
   for (auto &e: evil) if (parse(e.stream.substr(0, e.sent)).hello && e.sent > 13) n++;
   if (n) c.nontrivial();
  }
 };
}

static void run_c05(Ctx &c) {Malformed m{c}; m.run();}
static const Register r5({.id = "C05", .rule = "a peer passes the handshake and sends requests", .quick = 40000, .thorough = 2000000, .run = run_c05});
