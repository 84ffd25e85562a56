// vf: libs=asio rpc=rdb
// C06 remote procedure calls
#include "server.h"
#include "joedb/concurrency/Local_Channel.h"
#include "joedb/rpc/Server.h"
#include "vfdb/rdb/rpc/Client.h"
#include "vfdb/rdb/rpc/Procedures.h"
#include "vfdb/rdb/rpc/Signatures.h"
#include <list>
#include <map>
#include <thread>
using namespace joedb;
using namespace vf;
using server::Raw; using server::i64; using server::get64;
namespace rp = rdb::rpc;

namespace
{
 enum Proc {add, query, accounts, transform, procs};
 const char *const proc_name[] = {"add", "query", "accounts", "transform"};

 std::string of(const rp::msg::Database &d)
 {
  std::string r;
  for (const auto i: d.get_item_table())
   r += std::to_string(to_underlying(i.get_record_id())) + ":" + d.get_name(i) + "," + std::to_string(d.get_delta(i)) + "," + std::to_string(d.get_total(i)) + "," + std::to_string(to_underlying(d.get_account(i).get_record_id())) + ";";
  for (const auto i: d.get_error_table()) r += std::to_string(to_underlying(i.get_record_id())) + "!" + d.get_text(i) + ";";
  return r;
 }
 std::string of(const rdb::Database &d)
 {
  std::string r;
  for (const auto i: d.get_account_table()) r += std::to_string(to_underlying(i.get_record_id())) + ":" + d.get_name(i) + "," + std::to_string(d.get_balance(i)) + ";";
  for (const auto i: d.get_log_table()) r += std::to_string(to_underlying(i.get_record_id())) + ":" + std::to_string(to_underlying(d.get_account(i).get_record_id())) + "," + std::to_string(d.get_delta(i)) + ";";
  return r;
 }
 template<typename F> std::string bits(F f) {std::string s(sizeof f, 0); std::memcpy(&s[0], &f, sizeof f); return s;}
 std::string of(const rp::all::Database &d)
 {
  std::string r;
  for (const auto i: d.get_t_table())
   r += std::to_string(to_underlying(i.get_record_id())) + ":" + d.get_s(i) + "," + std::to_string(d.get_b(i).get_position()) + "," + std::to_string(to_underlying(d.get_r(i).get_record_id())) + (d.get_o(i) ? "t" : "f") + bits(d.get_i8(i)) + bits(d.get_i16(i)) + bits(d.get_i32(i)) + bits(d.get_i64(i)) + bits(d.get_f32(i)) + bits(d.get_f64(i)) + ";";
  for (const auto i: const_cast<rp::all::Database &>(d).get_index_of_t_by_s()) r += i.first + std::to_string(to_underlying(i.second.get_record_id())) + ";";
  return r;
 }

 // a message of any type
 struct Message
 {
  int id;
  std::unique_ptr<rp::msg::Memory_Database> m;
  std::unique_ptr<rdb::Memory_Database> d;
  std::unique_ptr<rp::all::Memory_Database> a;
  Memory_File &file() {return m ? static_cast<Memory_File &>(*m) : d ? static_cast<Memory_File &>(*d) : *a;}
  std::string content() const {return m ? of(*m) : d ? of(*d) : of(*a);}
  void checkpoint() {if (m) m->soft_checkpoint(); else if (d) d->soft_checkpoint(); else a->soft_checkpoint();}
 };

 // a database with its service
 struct Db
 {
  Memory_File file;
  rdb::Client client;
  rp::Service service;
  Db(): client(file), service(client) {}
 };

 template<class W> void local(Memory_File &f, std::string &content, void (rp::Service::*p)(W &), rp::Service &s)
 {
  W w(f, Recovery::ignore_header);
  (s.*p)(w);
  w.soft_checkpoint();
  content = of(w);
 }
 struct Local_Result {bool threw = false; std::string what, bytes, content;};
 Local_Result call_locally(rp::Service &s, int p, const std::string &bytes)
 {
  Local_Result r;
  Memory_File f(Open_Mode::write_existing);
  f.get_data() = bytes;
  try
  {
   switch (p)
   {
    case add: local(f, r.content, &rp::Service::add, s); break;
    case query: local(f, r.content, &rp::Service::query, s); break;
    case accounts: local(f, r.content, &rp::Service::accounts, s); break;
    default: local(f, r.content, &rp::Service::transform, s); break;
   }
   r.bytes = f.get_data();
  }
  catch (const std::exception &e) {r.threw = true; r.what = e.what();}
  return r;
 }
 const std::string &prolog(int p) {return rp::get_signatures()[size_t(p)].prolog;}

 struct Pending
 {
  std::unique_ptr<Raw> raw;
  int id, p;
  std::string message, request; // bytes of the file, bytes to send
  size_t sent = 0;
 };

 struct Rpc
 {
  Ctx &c;
  Db remote, twin;
  std::unique_ptr<rp::Procedures> procedures;
  std::unique_ptr<joedb::rpc::Server> server;
  std::string endpoint;
  struct Conn {int id; std::unique_ptr<Local_Channel> channel; std::unique_ptr<rp::Client> client;};
  std::list<Conn> clients;
  std::list<Message> messages;
  std::list<Pending> pending;
  std::map<std::string, int64_t> model;
  int threads = 1, next = 0, calls = 0, errors = 0, interleaved = 0, malformed = 0, refused = 0, abandoned = 0;
  int64_t executed = 0;

  ~Rpc()
  {
   clients.clear(); pending.clear();
   if (server) server->stop();
  }

  std::string name()
  {
   static const char *const names[] = {"a", "b", "c", "", "d"};
   if (c.chance(5, 6)) return names[c.below(5)];
   return c.chance(1, 6) ? std::string(c.below(20000), 'n') : c.bytes(c.below(6));
  }
  void start()
  {
   procedures = std::make_unique<rp::Procedures>(remote.service);
   endpoint = c.scratch + "/rpc";
   ::unlink(endpoint.c_str());
   server = std::make_unique<joedb::rpc::Server>(Logger::dummy_logger, int(c.below(5)), threads, endpoint, rp::get_signatures(), procedures->procedures);
  }
  void connect()
  {
   clients.push_back({next++, std::make_unique<Local_Channel>(endpoint), nullptr});
   const int k = c.chance(1, 5) ? 1 : 0;
   c.notef("client ", clients.back().id, " connects", k ? ", keep-alive" : "");
   try {clients.back().client = std::make_unique<rp::Client>(*clients.back().channel, std::chrono::milliseconds(k));}
   catch (const std::exception &e) {c.fail(std::string("the connection failed: ") + e.what());}
  }
  void wrong_client()
  {
   std::vector<joedb::rpc::Signature> s;
   for (auto &x: rp::get_signatures()) s.push_back({x.name, x.prolog});
   const size_t i = c.below(s.size()), j = c.below(s.size());
   std::vector<joedb::rpc::Signature> t;
   auto at = [&](size_t k, const joedb::rpc::Signature &x) {for (size_t q = 0; q < s.size(); q++) t.push_back(q == k ? x : s[q]);};
   switch (c.below(6))
   {
    case 0: at(i, {s[i].name + "x", s[i].prolog}); break;
    case 1: {std::string p = s[i].prolog; p[41 + c.below(p.size() - 41)] ^= 1; at(i, {s[i].name, p}); break;}
    case 2: for (size_t q = 0; q + 1 < s.size(); q++) t.push_back(s[q]); break;
    case 3: for (auto &x: s) t.push_back(x); t.push_back({"more", s[0].prolog}); break;
    case 4: at(i, {s[i].name, s[i].prolog + '\0'}); break;
    default:
     if (i == j) return;
     for (size_t q = 0; q < s.size(); q++) t.push_back(s[q == i ? j : q == j ? i : q]);
   }
   c.note("a client with other procedures connects");
   refused++;
   bool threw = false;
   try {Local_Channel ch(endpoint); joedb::rpc::Client x(ch, t);} catch (const Fail &) {throw;} catch (const std::exception &) {threw = true;}
   c.check(threw, "a client with different procedures was accepted");
  }

  Message &message(int p)
  {
   std::vector<Message *> l;
   for (auto &m: messages) if (p == accounts ? bool(m.d) : p == transform ? bool(m.a) : bool(m.m)) l.push_back(&m);
   if (l.empty() || (l.size() < 3 && c.flag()))
   {
    messages.push_back({next++});
    Message &m = messages.back();
    if (p == accounts) m.d = std::make_unique<rdb::Memory_Database>(); else if (p == transform) m.a = std::make_unique<rp::all::Memory_Database>(); else m.m = std::make_unique<rp::msg::Memory_Database>();
    return m;
   }
   return *c.pick(l);
  }
  template<class T> std::vector<typename T::value_type> ids(const T &t) {return {t.begin(), t.end()};}
  void edit(Message &m)
  {
   for (uint64_t n = c.below(5); n-- > 0;)
   {
    if (m.d)
    {
     const std::string s = name();
     if (m.d->find_account_by_name(s).is_null()) {m.d->new_account(s, 7); c.notef("  account ", hex(s.substr(0, 8)));}
    }
    else if (m.m)
    {
     std::vector<rp::msg::id_of_item> rows;
     for (auto i: m.m->get_item_table()) rows.push_back(i);
     std::vector<rp::msg::id_of_error> errs;
     for (auto i: m.m->get_error_table()) errs.push_back(i);
     switch (c.below(6))
     {
      case 0: case 1: case 2:
      {
       const auto i = m.m->new_item();
       const std::string s = name();
       const int64_t d = c.chance(1, 8) ? (c.flag() ? INT64_MAX : INT64_MIN) : int64_t(c.below(10));
       m.m->set_name(i, s); m.m->set_delta(i, d);
       c.notef("  item ", hex(s.substr(0, 8)), " ", d);
       break;
      }
      case 3: if (!rows.empty()) {m.m->delete_item(c.pick(rows)); c.note("  delete an item");} break;
      case 4: for (auto e: errs) {m.m->delete_error(e); c.note("  delete an error");} break;
      default:
       if (c.flag())
       {
        const std::string t = c.chance(1, 4) ? std::string(size_t(c.pick(std::vector<int>{8100, 8182, 8183, 8184, 8192, 20000})), 'e') : c.flag() ? c.bytes(c.below(20)) : "error " + std::to_string(next);
        m.m->new_error(t);
        c.notef("  error of ", t.size());
       }
     }
    }
    else
    {
     std::vector<rp::all::id_of_t> rows;
     for (auto i: m.a->get_t_table()) rows.push_back(i);
     if (rows.size() > 12) return;
     if (!rows.empty() && c.chance(1, 4)) {const auto i = c.pick(rows); if (c.flag()) {m.a->delete_t(i); c.note("  delete a row");} else {m.a->set_o(i, true); c.note("  mark a row");} continue;}
     const auto i = m.a->new_t();
     c.note("  row");
     m.a->set_s(i, name());
     m.a->set_b(i, m.a->write_blob(c.chance(1, 10) ? std::string(20000, 'b') : c.bytes(c.below(30))));
     if (!rows.empty()) m.a->set_r(i, c.pick(rows));
     m.a->set_i8(i, int8_t(c.below(256))); m.a->set_i16(i, int16_t(c.below(65536))); m.a->set_i32(i, int32_t(c.below(1ull << 32))); m.a->set_i64(i, int64_t(c.below(1ull << 63)));
     m.a->set_f32(i, float(c.below(1000)) / 7); m.a->set_f64(i, double(c.below(1000)) / 7);
    }
   }
  }
  void check_error(const std::string &got, const std::string &whole)
  {
   const std::string w = whole.c_str();
   c.check(got.size() >= std::min<size_t>(w.size(), 1000) && w.compare(0, got.size(), got) == 0, "another error was received: " + hex(got.substr(0, 40)) + " instead of " + hex(w.substr(0, 40)));
  }
  // the model of the accounts
  void model_add(const rp::msg::Database &before)
  {
   for (const auto i: before.get_item_table()) {int64_t &b = model[before.get_name(i)]; b = int64_t(uint64_t(b) + uint64_t(before.get_delta(i)));}
  }
  void check_executed(const std::string &what)
  {
   c.equal(remote.service.executed.load(), executed, "number of executions after " + what);
  }

  void call()
  {
   const int p = int(c.below(procs));
   Message &m = message(p);
   c.notef("message ", m.id);
   edit(m);
   if (clients.empty() || (clients.size() < 3 && c.chance(1, 5))) connect();
   auto it = clients.begin(); std::advance(it, c.below(clients.size()));
   m.checkpoint();
   const std::string before = m.file().get_data(), content = m.content();
   c.notef("client ", it->id, " calls ", proc_name[p], " with message ", m.id);
   const Local_Result l = call_locally(twin.service, p, before);
   executed++; calls++;
   bool threw = false;
   std::string what;
   try
   {
    switch (p)
    {
     case add: it->client->add(*m.m); break;
     case query: it->client->query(*m.m); break;
     case accounts: it->client->accounts(*m.d); break;
     default: it->client->transform(*m.a); break;
    }
   }
   catch (const std::exception &e) {threw = true; what = e.what();}
   if (!pending.empty()) interleaved++;
   check_executed("a call");
   if (threw != l.threw) c.fail(threw ? "a call failed, and not locally: " + what.substr(0, 200) : "a call did not fail, but failed locally: " + l.what.substr(0, 200));
   if (threw)
   {
    errors++;
    check_error(what, l.what);
    c.check(m.content() == content, "a failed call changed the message");
    return;
   }
   const std::string after = m.file().get_data();
   if (m.content() != l.content) c.fail("the message differs from the local one");
   if (after.substr(41) != l.bytes.substr(41)) c.fail("the file of the message differs from the local one");
   {
    Memory_File f(Open_Mode::read_existing); f.get_data() = after;
    Readonly_Journal j(f);
    c.equal(j.get_checkpoint(), int64_t(after.size()), "checkpoint of the message");
   }
   // the independent model
   if (p == add)
   {
    for (const auto i: m.m->get_item_table()) {int64_t &b = model[m.m->get_name(i)]; b = int64_t(uint64_t(b) + uint64_t(m.m->get_delta(i))); c.equal(m.m->get_total(i), b, "total of an account");}
   }
   else if (p == query)
   {
    for (const auto i: m.m->get_item_table()) {const auto k = model.find(m.m->get_name(i)); c.equal(m.m->get_total(i), k == model.end() ? -1 : k->second, "balance of an account");}
   }
   else if (p == accounts)
    for (auto &[k, v]: model) c.check(m.d->find_account_by_name(k).is_not_null(), "an account is missing");
  }

  // an update of the model by bytes of a message
  void model_bytes(int p, const std::string &bytes)
  {
   if (p != add) return;
   Memory_File f(Open_Mode::write_existing); f.get_data() = bytes;
   rp::msg::Writable_Database w(f, Recovery::ignore_header);
   model_add(w);
  }
  Pending &begin()
  {
   pending.emplace_back();
   Pending &q = pending.back();
   q.id = next++;
   q.raw = std::make_unique<Raw>(c, endpoint, "raw session " + std::to_string(q.id));
   const SHA_256::Hash h = get_hash(rp::get_signatures());
   q.raw->send(std::string((const char *)h.data(), 32));
   c.check(q.raw->exactly(9, "the handshake")[0] == 'H', "a correct hash was refused");
   return q;
  }
  void new_request(Pending &q)
  {
   q.p = int(c.below(procs));
   Message &m = message(q.p);
   edit(m); m.checkpoint();
   q.message = m.file().get_data();
   std::string body = q.message.substr(prolog(q.p).size());
   if (c.chance(1, 4))
   {
    malformed++;
    for (uint64_t n = 1 + c.below(4); n-- > 0;)
     switch (c.below(4))
     {
      case 0: if (!body.empty()) body[c.below(body.size())] = char(c.below(256)); break;
      case 1: body.insert(c.below(body.size() + 1), c.bytes(1 + c.below(4))); break;
      case 2: if (!body.empty()) body.erase(c.below(body.size()), 1 + c.below(4)); break;
      default: body += c.bytes(c.below(12)); break;
     }
    c.notef("  malformed ", hex(body.substr(0, 60)));
   }
   q.message = prolog(q.p) + body;
   q.request = "C" + i64(q.p) + i64(int64_t(q.message.size())) + body;
   q.sent = 0;
   c.notef("session ", q.id, " requests ", proc_name[q.p], ": ", q.request.size(), " bytes");
  }
  void feed(Pending &q)
  {
   if (q.sent == q.request.size()) new_request(q);
   const size_t left = q.request.size() - q.sent;
   const size_t n = c.flag() ? left : 1 + c.below(left);
   q.raw->send(q.request.substr(q.sent, n));
   q.sent += n;
   c.notef("session ", q.id, " sends ", n, " bytes", q.sent == q.request.size() ? ", complete" : "");
   if (q.sent < q.request.size()) return;
   const int64_t e0 = twin.service.executed;
   const Local_Result l = call_locally(twin.service, q.p, q.message);
   executed += twin.service.executed - e0;
   calls++;
   if (threads == 1 && c.chance(1, 8))
   {
    c.notef("session ", q.id, " closes without waiting");
    abandoned++;
    for (int i = 0; i < 20000 && remote.service.executed < executed; i++) ::usleep(1000);
    check_executed("a complete request");
    const std::string b = q.message; const int p = q.p;
    drop(q);
    if (!l.threw) model_bytes(p, b);
    return;
   }
   const std::string h = q.raw->exactly(9, "a call");
   if (l.threw)
   {
    errors++;
    c.check(h[0] != 'C', "a call did not fail, but failed locally: " + l.what.substr(0, 200));
    c.check(get64(h, 1) >= 0 && get64(h, 1) < 100000, "the size of an error is wrong");
    check_error(q.raw->exactly(size_t(get64(h, 1)), "the error"), l.what);
   }
   else
   {
    c.check(h[0] == 'C', "a call failed, and not locally");
    c.equal(get64(h, 1), int64_t(l.bytes.size()), "size of the message");
    c.check(q.raw->exactly(l.bytes.size() - q.message.size(), "the message") == l.bytes.substr(q.message.size()), "the message differs from the local one");
    model_bytes(q.p, q.message);
   }
   check_executed("a raw call");
   c.check(q.raw->quiet(), "the server sent more than the reply");
  }
  void drop(Pending &q) {for (auto i = pending.begin(); i != pending.end(); ++i) if (&*i == &q) {pending.erase(i); return;}}
  void raw()
  {
   if (pending.size() < 3 && (pending.empty() || c.chance(1, 4))) {Pending &q = begin(); new_request(q);}
   auto it = pending.begin(); std::advance(it, c.below(pending.size()));
   Pending &q = *it;
   const bool idle = q.sent == q.request.size();
   if (idle && c.chance(1, 6)) {c.notef("session ", q.id, " pings"); q.raw->send("P"); q.raw->reply("P", "a ping");}
   else if (c.chance(1, 8)) {c.notef("session ", q.id, idle ? " closes" : " closes in the middle of a request"); abandoned += !idle; drop(q);}
   else if (idle && c.chance(1, 8))
   {
    static const char *const names[] = {"a bad procedure", "a bad size", "a bad command", "a small size"};
    const uint64_t k = c.below(4);
    c.notef("session ", q.id, " sends ", names[k]);
    malformed++;
    static const int64_t bad_id[] = {procs, -1, INT64_MIN, INT64_MAX, int64_t(1) << 32}, bad_size[] = {-1, INT64_MIN, -8, INT64_MIN + 41, -42};
    if (k == 0) q.raw->send("C" + i64(bad_id[c.below(5)]) + i64(int64_t(prolog(0).size())));
    else if (k == 1) q.raw->send("C" + i64(int64_t(c.below(procs))) + i64(bad_size[c.below(5)]));
    else if (k == 2) {char x = char(c.below(256)); if (x == 'C' || x == 'P') x = 'Q'; q.raw->send(std::string(1, x));}
    else
    {
     // nothing but the prolog: it must be handled, one way or the other
     const int p = c.flag() ? int(accounts) : int(query);
     q.raw->send("C" + i64(p) + i64(int64_t(c.below(prolog(p).size()))));
     const std::string r = q.raw->recv(1, "a small size");
     drop(q);
     if (!r.empty())
     {
      const int64_t e0 = twin.service.executed;
      call_locally(twin.service, p, prolog(p));
      executed += twin.service.executed - e0;
      if (remote.service.executed != executed) executed = remote.service.executed; // refused by an error
     }
     return;
    }
    c.check(q.raw->closed(names[k]), "the session goes on");
    drop(q);
   }
   else feed(q);
  }
  // several clients at the same time
  void parallel()
  {
   const int n = int(2 + c.below(3)), k = int(1 + c.below(4));
   c.notef(n, " clients at the same time");
   struct Call {bool error; std::vector<std::pair<std::string, int64_t>> items;};
   std::vector<std::vector<Call>> plan;
   plan.resize(size_t(n));
   const int64_t base = 1000000;
   for (int t = 0; t < n; t++)
    for (int i = 0; i < k; i++)
    {
     Call x;
     x.error = c.chance(1, 5);
     for (uint64_t q = 1 + c.below(4); q-- > 0;) x.items.push_back({std::string(1, char('p' + c.below(3))), base + t * 1000 + i});
     plan[size_t(t)].push_back(x);
    }
   const int keep = c.chance(1, 4) ? 1 : 0;
   std::vector<std::string> failures;
   failures.resize(size_t(n));
   std::vector<std::thread> ts;
   for (int t = 0; t < n; t++) ts.emplace_back([&, t]
   {
    std::string &f = failures[size_t(t)];
    try
    {
     Local_Channel ch(endpoint);
     rp::Client cl(ch, std::chrono::milliseconds(keep));
     for (auto &x: plan[size_t(t)])
     {
      if (threads > 1)
      {
       rp::all::Memory_Database a;
       for (auto &i: x.items) {const auto r = a.new_t(); a.set_s(r, i.first); a.set_i64(r, i.second); a.set_b(r, a.write_blob("x"));}
       const size_t rows = x.items.size();
       cl.transform(a);
       size_t good = 0;
       for (auto i: a.get_t_table()) if (a.get_s(i) == x.items[0].first || a.get_i64(i)) good++;
       if (good != 2 * rows) f = "a call has another effect";
       continue;
      }
      rp::msg::Memory_Database m;
      for (auto &i: x.items) {const auto r = m.new_item(); m.set_name(r, i.first); m.set_delta(r, i.second);}
      if (x.error) m.new_error("no");
      bool threw = false;
      try {cl.add(m);} catch (const std::exception &e) {threw = true; if (std::string(e.what()) != "no") f = e.what();}
      if (threw != x.error) f = "a call failed or succeeded";
     }
    }
    catch (const std::exception &e) {f = e.what();}
   });
   for (auto &t: ts) t.join();
   for (auto &f: failures) c.check(f.empty(), "clients at the same time: " + f);
   executed += n * k;
   check_executed("parallel calls");
   calls += n * k;
   if (threads > 1) return;
   pending.clear(); clients.clear();
   server->stop(); server.reset();
   // each call that succeeded is one run of rows of the log
   const auto &db = remote.client.get_database();
   std::map<int64_t, size_t> count;
   int64_t last = 0;
   for (const auto l: db.get_log_table())
   {
    const int64_t d = db.get_delta(l);
    if (d >= base && d < base + 1000 * n && to_underlying(l.get_record_id()) >= before_log)
    {
     if (d != last) c.check(count.find(d) == count.end(), "calls of several clients are mixed");
     count[d]++;
     last = d;
    }
    else last = 0;
   }
   for (int t = 0; t < n; t++) for (int i = 0; i < k; i++)
   {
    auto &x = plan[size_t(t)][size_t(i)];
    c.equal(count[base + t * 1000 + i], x.error ? 0 : x.items.size(), "number of effects of a call");
    if (!x.error) for (auto &y: x.items) {int64_t &b = model[y.first]; b = int64_t(uint64_t(b) + uint64_t(y.second));}
   }
  }
  int64_t before_log = 0;

  void run()
  {
   clear_scratch(c);
   Destructor_Logger::set_logger(nullptr);
   threads = c.chance(1, 6) ? 4 : 1;
   start();
   for (uint64_t n = 3 + c.below(18); n-- > 0;)
   {
    const uint64_t a = c.below(16);
    if (a < 8) call();
    else if (a < 13) raw();
    else if (a == 13) wrong_client();
    else if (a == 14) {if (clients.size() < 4) connect();}
    else if (!clients.empty()) {auto i = clients.begin(); std::advance(i, c.below(clients.size())); c.notef("client ", i->id, " disconnects"); clients.erase(i);}
   }
   const bool par = c.chance(1, 4);
   if (par)
   {
    before_log = 0;
    for (const auto l: twin.client.get_database().get_log_table()) before_log = to_underlying(l.get_record_id()) + 1;
    parallel();
   }
   clients.clear(); pending.clear();
   if (server) {server->stop(); server.reset();}
   check_executed("everything");
   const auto &db = remote.client.get_database();
   std::map<std::string, int64_t> m;
   for (const auto a: db.get_account_table()) m[db.get_name(a)] = db.get_balance(a);
   c.check(m == model, "the accounts differ from the model");
   if (!par || threads > 1)
   {
    c.check(of(db) == of(twin.client.get_database()), "the database of the server differs from local calls");
    c.check(remote.file.get_data() == twin.file.get_data(), "the file of the server differs from local calls");
   }
   c.label("calls", uint64_t(calls)); c.label("errors", uint64_t(errors)); c.label("calls during another request", uint64_t(interleaved));
   c.label("malformed", uint64_t(malformed)); c.label("refused clients", uint64_t(refused)); c.label("abandoned requests", uint64_t(abandoned)); c.label("parallel", par);
   if (calls > 0) c.nontrivial();
  }
 };
}
static void run_c06(Ctx &c) {Rpc r{c}; r.run();}
static const Register r6({.id = "C06", .rule = "at least one procedure was called", .quick = 24000, .thorough = 1500000, .run = run_c06});
