// vf: libs=asio gen=cdb
// C01 clients of a shared file, C02 failed transactions
#include "model.h"
#include "scheduler.h"
#include "joedb/concurrency/File_Connection.h"
#include "joedb/concurrency/Readonly_Database_Client.h"
#include "joedb/concurrency/Writable_Database_Client.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/interpreted/Database.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/journal/Writable_Journal.h"
#include "vfdb/cdb/Client.h"
#include <map>
#include <memory>
#include <optional>
#include <set>
using namespace joedb;
using namespace vf;
using model::Event; using model::Recorder;
using sched::Disk; using sched::Handle; using sched::Sched; using sched::Died; using sched::Stop;

namespace
{
 const int tables = 6; // counter, data, j0 to j3

 struct My_Error {int id;};

 struct Tx
 {
  int id, thread;
  uint64_t began, returned = 0;
  enum State {running, committed, aborted, unknown} state = running;
  std::vector<Event> events; // after the marker
  bool check_events = true, vd = false, ts = false, counts = false;
  std::string after; // content seen by the client at the end of the transaction
 };
 struct View {uint64_t began; int thread, incarnation; int64_t checkpoint; std::string content; bool has_content;};

 struct World
 {
  Ctx &c;
  Sched s;
  Disk disk;
  std::vector<Disk> backups;
  std::vector<Tx> txs;
  std::vector<View> views;
  bool dirty = false;
  int commits = 0, aborts = 0, deaths = 0, refusals = 0, waits = 0, pulls = 0;
  std::vector<int64_t> next_j;
  std::vector<std::vector<int64_t>> rows_j;
  bool failures, connections;
  World(Ctx &c, bool failures, bool connections): c(c), s(c), failures(failures), connections(connections) {}
 };

 std::string content(const Readable &db)
 {
  std::string r;
  for (int t = 1; t <= tables; t++)
  {
   const Freedom_Keeper &fk = db.get_freedom(Table_Id(t));
   r += "t" + std::to_string(t) + ":";
   for (Record_Id i{0}; i < fk.get_size(); ++i) if (fk.is_used(i))
   {
    r += std::to_string(to_underlying(i)) + "," + std::to_string(db.get_int64(Table_Id(t), i, Field_Id(1)));
    if (t > 1) {r += ","; r += db.get_string(Table_Id(t), i, Field_Id(2));}
    r += ";";
   }
  }
  return r;
 }

 template<class C> void rows(std::string &r, int t, const C &table, const cdb::Database &db)
 {
  r += "t" + std::to_string(t) + ":";
  std::map<int64_t, std::string> m;
  for (auto x: table)
  {
   std::string l = std::to_string(to_underlying(x.get_record_id())) + "," + std::to_string(db.get_v(x));
   if constexpr (requires {db.get_s(x);}) l += "," + db.get_s(x);
   m[to_underlying(x.get_record_id())] = l + ";";
  }
  for (auto &[i, l]: m) r += l;
 }

 std::string content(const cdb::Database &db)
 {
  std::string r;
  rows(r, 1, db.get_counter_table(), db);
  rows(r, 2, db.get_data_table(), db);
  rows(r, 3, db.get_j0_table(), db);
  rows(r, 4, db.get_j1_table(), db);
  rows(r, 5, db.get_j2_table(), db);
  rows(r, 6, db.get_j3_table(), db);
  return r;
 }

 void schema(Writable &w)
 {
  static const char *const names[] = {"counter", "data", "j0", "j1", "j2", "j3"};
  for (int i = 0; i < tables; i++)
  {
   w.create_table(names[i]);
   w.add_field(Table_Id(i + 1), "v", Type::int64());
   if (i) w.add_field(Table_Id(i + 1), "s", Type::string());
  }
 }

 // what the body of a transaction can do
 struct Writer
 {
  World &w; Tx &tx;
  Writer(World &w, Tx &tx): w(w), tx(tx) {}
  virtual ~Writer() = default;
  virtual bool db() const {return false;}
  virtual void marker(const std::string &s) = 0;
  virtual void comment(const std::string &s) = 0;
  virtual void blob(const std::string &s) = 0;
  virtual void flush() = 0;
  virtual bool own() const {return true;}
  virtual void insert_own(int64_t row, int64_t v, const std::string &s) = 0;
  virtual void update_own(int64_t row, int64_t v) = 0;
  virtual void increment() {}
  virtual std::vector<int64_t> live() {return {};}
  virtual void insert_data(int64_t v, const std::string &s) {}
  virtual void update_data(int64_t row, int64_t v, const std::string &s) {}
  virtual void delete_data(int64_t row) {}
  virtual std::string seen() {return "";}
 };

 struct Event_Writer: Writer
 {
  Writable &wr;
  Event_Writer(World &w, Tx &tx, Writable &wr): Writer(w, tx), wr(wr) {}
  void put(Event e) {model::apply(e, wr); tx.events.push_back(std::move(e));}
  void marker(const std::string &s) override {wr.comment(s);}
  void comment(const std::string &s) override {Event e; e.k = model::comment; e.s = s; put(e);}
  void blob(const std::string &s) override {Event e; e.k = model::blob; e.s = s; put(e);}
  void flush() override {wr.flush();}
  void insert(int t, int64_t row) {Event e; e.k = model::insert_into; e.t = t; e.r = row; put(e);}
  void update_v(int t, int64_t row, int64_t v) {Event e; e.k = model::update; e.t = t; e.r = row; e.f = 1; e.type = model::t_int64; e.v = {model::mk(model::t_int64, v)}; put(e);}
  void update_s(int t, int64_t row, const std::string &s) {Event e; e.k = model::update; e.t = t; e.r = row; e.f = 2; e.type = model::t_string; e.v = {model::mk(model::t_string, s)}; put(e);}
  void insert_own(int64_t row, int64_t v, const std::string &s) override {const int t = 3 + tx.thread; insert(t, row); update_v(t, row, v); if (!s.empty()) update_s(t, row, s);}
  void update_own(int64_t row, int64_t v) override {update_v(3 + tx.thread, row, v);}
 };

 struct Db_Writer: Event_Writer
 {
  const Readable &r;
  Db_Writer(World &w, Tx &tx, const Readable &r, Writable &wr): Event_Writer(w, tx, wr), r(r) {}
  bool db() const override {return true;}
  void increment() override {update_v(1, 0, r.get_int64(Table_Id(1), Record_Id(0), Field_Id(1)) + 1); tx.counts = true;}
  std::vector<int64_t> live() override
  {
   std::vector<int64_t> v;
   const Freedom_Keeper &fk = r.get_freedom(Table_Id(2));
   for (Record_Id i{0}; i < fk.get_size(); ++i) if (fk.is_used(i)) v.push_back(to_underlying(i));
   return v;
  }
  void insert_data(int64_t v, const std::string &s) override
  {
   const Freedom_Keeper &fk = r.get_freedom(Table_Id(2));
   Record_Id i{0};
   while (i < fk.get_size() && fk.is_used(i)) ++i;
   insert(2, to_underlying(i)); update_v(2, to_underlying(i), v); update_s(2, to_underlying(i), s);
  }
  void update_data(int64_t row, int64_t v, const std::string &s) override {if (v & 1) update_v(2, row, v); else update_s(2, row, s);}
  void delete_data(int64_t row) override {Event e; e.k = model::delete_from; e.t = 2; e.r = row; put(e);}
  std::string seen() override {return content(r);}
 };

 struct Compiled_Writer: Writer
 {
  cdb::Writable_Database &d;
  Compiled_Writer(World &w, Tx &tx, cdb::Writable_Database &d): Writer(w, tx), d(d) {tx.check_events = false;}
  bool db() const override {return true;}
  bool own() const override {return false;}
  void marker(const std::string &s) override {d.write_comment(s);}
  void comment(const std::string &s) override {d.write_comment(s);}
  void blob(const std::string &s) override {d.write_blob(s);}
  void flush() override {d.flush();}
  void insert_own(int64_t, int64_t, const std::string &) override {}
  void update_own(int64_t, int64_t) override {}
  static cdb::id_of_data id(int64_t row) {return cdb::id_of_data(Record_Id(row));}
  void increment() override {const cdb::id_of_counter k(Record_Id(0)); d.set_v(k, d.get_v(k) + 1); tx.counts = true;}
  std::vector<int64_t> live() override {std::vector<int64_t> v; for (auto x: d.get_data_table()) v.push_back(to_underlying(x.get_record_id())); std::sort(v.begin(), v.end()); return v;}
  void insert_data(int64_t v, const std::string &s) override {d.new_data(v, s);}
  void update_data(int64_t row, int64_t v, const std::string &s) override {if (v & 1) d.set_v(id(row), v); else d.set_s(id(row), s);}
  void delete_data(int64_t row) override {d.delete_data(id(row));}
  std::string seen() override {return content(static_cast<const cdb::Database &>(d));}
 };

 struct Client
 {
  World &w; int thread, incarnation;
  std::unique_ptr<Handle> file, backup_file;
  std::unique_ptr<File_Connection> connection;
  int backup = -1;
  bool poisoned = false; // a transaction was abandoned after writing something
  bool vd = false, ts = false;
  Client(World &w, int thread, int incarnation): w(w), thread(thread), incarnation(incarnation) {}
  virtual ~Client() = default;
  virtual const char *name() const = 0;
  virtual void open(Recovery r) = 0;
  virtual int64_t pull() = 0;
  virtual int64_t checkpoint() = 0;
  virtual std::string seen() {return "";}
  virtual bool has_content() const {return true;}
  virtual bool writes() const {return true;}
  virtual Writable_Client *wc() {return nullptr;}
  virtual void transaction(const std::function<void(Writer &)> &f, Tx &tx, int flavour) {}
  virtual std::unique_ptr<Client_Lock> lock() {return nullptr;}
  virtual void in_lock(Client_Lock &l, const std::function<void(Writer &)> &f, Tx &tx) {}
  // sees whether the connection is locked
  struct Spy: Connection
  {
   Client &cl;
   bool locked = false;
   Spy(Client &cl): cl(cl) {}
   Connection &inner() const {if (cl.connection) return *cl.connection; return Connection::dummy;}
   int64_t handshake(const Readonly_Journal &j, Content_Check cc) override {return inner().handshake(j, cc);}
   int64_t pull(Lock_Action l, Data_Transfer t, Writable_Journal &j, std::chrono::milliseconds wait) override
   {
    if (l == Lock_Action::lock_before) cl.w.c.check(!locked, "a connection is locked twice");
    const int64_t r = inner().pull(l, t, j, wait);
    if (l == Lock_Action::lock_before) locked = true;
    return r;
   }
   int64_t push(const Readonly_Journal &j, int64_t from, int64_t until, Unlock_Action u) override
   {
    const int64_t r = inner().push(j, from, until, u);
    locked = u == Unlock_Action::keep_locked;
    return r;
   }
   void unlock() override {inner().unlock(); locked = false;}
   bool is_pullonly() const override {return inner().is_pullonly();}
  } spy{*this};
  Connection &conn() {return spy;}
  void check_unlocked(const char *after) {w.c.check(!spy.locked, std::string("the connection remains locked after ") + after);}
 };

 struct Db_Client: Client
 {
  using Client::Client;
  std::unique_ptr<Writable_Database_Client> d;
  const char *name() const override {return "database client";}
  void open(Recovery r) override {d = std::make_unique<Writable_Database_Client>(*file, conn(), Content_Check::full, Record_Id::null, r);}
  int64_t pull() override {return d->pull();}
  int64_t checkpoint() override {return d->get_journal_checkpoint();}
  std::string seen() override {return content(d->get_database());}
  Writable_Client *wc() override {return d.get();}
  void transaction(const std::function<void(Writer &)> &f, Tx &tx, int flavour) override
  {
   if (flavour == 0) d->transaction([&](const Readable &r, Writable &wr) {Db_Writer x(w, tx, r, wr); f(x);});
   else if (d->transaction([&](const Readable &r, Writable &wr) {Db_Writer x(w, tx, r, wr); f(x); return tx.id;}) != tx.id) w.c.fail("the result of the transaction is lost");
  }
  std::unique_ptr<Client_Lock> lock() override {return std::make_unique<Writable_Database_Client_Lock>(*d);}
  void in_lock(Client_Lock &l, const std::function<void(Writer &)> &f, Tx &tx) override {auto &x = static_cast<Writable_Database_Client_Lock &>(l); Db_Writer wr(w, tx, x.get_readable(), x.get_writable()); f(wr);}
 };

 struct Journal_Client: Client
 {
  using Client::Client;
  std::unique_ptr<Writable_Journal_Client> d;
  const char *name() const override {return "journal client";}
  void open(Recovery r) override {d = std::make_unique<Writable_Journal_Client>(*file, conn(), Content_Check::full, r);}
  int64_t pull() override {return d->pull();}
  int64_t checkpoint() override {return d->get_journal_checkpoint();}
  bool has_content() const override {return false;}
  Writable_Client *wc() override {return d.get();}
  void transaction(const std::function<void(Writer &)> &f, Tx &tx, int flavour) override
  {
   if (flavour == 0) d->transaction([&](Writable_Journal &j) {Event_Writer x(w, tx, j); f(x);});
   else if (d->transaction([&](Writable_Journal &j) {Event_Writer x(w, tx, j); f(x); return tx.id;}) != tx.id) w.c.fail("the result of the transaction is lost");
  }
  std::unique_ptr<Client_Lock> lock() override {return std::make_unique<Writable_Journal_Client_Lock>(*d);}
  void in_lock(Client_Lock &l, const std::function<void(Writer &)> &f, Tx &tx) override {auto &x = static_cast<Writable_Journal_Client_Lock &>(l); Event_Writer wr(w, tx, x.get_journal()); f(wr);}
 };

 struct Compiled_Client: Client
 {
  using Client::Client;
  std::unique_ptr<cdb::Client> d;
  const char *name() const override {return "compiled client";}
  void open(Recovery r) override {d = std::make_unique<cdb::Client>(*file, conn(), Content_Check::full, r);}
  int64_t pull() override {return d->pull();}
  int64_t checkpoint() override {return d->get_journal_checkpoint();}
  std::string seen() override {return content(d->get_database());}
  Writable_Client *wc() override {return d.get();}
  void transaction(const std::function<void(Writer &)> &f, Tx &tx, int flavour) override
  {
   if (flavour == 0) d->transaction([&](cdb::Writable_Database &db) {Compiled_Writer x(w, tx, db); f(x);});
   else if (d->transaction([&](cdb::Writable_Database &db) {Compiled_Writer x(w, tx, db); f(x); return tx.id;}) != tx.id) w.c.fail("the result of the transaction is lost");
  }
  std::unique_ptr<Client_Lock> lock() override {return std::make_unique<cdb::Client_Lock>(*d);}
  void in_lock(Client_Lock &l, const std::function<void(Writer &)> &f, Tx &tx) override {auto &x = static_cast<cdb::Client_Lock &>(l); Compiled_Writer wr(w, tx, x.get_database()); f(wr);}
 };

 struct Reader: Client
 {
  using Client::Client;
  std::unique_ptr<Readonly_Database_Client> d;
  const char *name() const override {return "read-only client";}
  void open(Recovery) override {d = std::make_unique<Readonly_Database_Client>(*file, Connection::dummy, Content_Check::fast);}
  int64_t pull() override {return d->pull();}
  int64_t checkpoint() override {return d->get_journal_checkpoint();}
  std::string seen() override {return content(d->get_database());}
  bool writes() const override {return false;}
 };

 struct Raw_Reader: Client
 {
  using Client::Client;
  std::unique_ptr<Readonly_Journal> j;
  std::unique_ptr<Database> db;
  const char *name() const override {return "journal reader";}
  void open(Recovery) override {j = std::make_unique<Readonly_Journal>(*file); db = std::make_unique<Database>(); j->replay_log(*db);}
  int64_t pull() override {const int64_t n = j->pull(); if (w.c.flag()) w.s.yield(); j->play_until_checkpoint(*db); return n;}
  int64_t checkpoint() override {return j->get_checkpoint();}
  std::string seen() override {return content(*db);}
  bool writes() const override {return false;}
 };

 // the body of a transaction; throws My_Error at a random step if asked
 void body(World &w, Writer &x, Tx &tx, int fail_at)
 {
  Ctx &c = w.c;
  int step = 0;
  bool wrote = false;
  auto point = [&] {w.s.yield(); if (w.s.stopping) throw Stop(); if (step++ == fail_at) {if (!wrote) c.label("failure before any write"); throw My_Error{tx.id};}};
  point();
  x.marker("T" + std::to_string(tx.id));
  wrote = true;
  point();
  if (x.db() && c.below(3) != 0) {x.increment(); point();}
  std::vector<std::pair<int64_t, bool>> fresh;
  for (uint64_t n = c.length(fail_at >= 0 && fail_at < 1000 ? 10 : 6); n-- > 0;)
  {
   const int64_t v = int64_t(c.below(200)) - 100;
   const std::string s = c.chance(1, 12) ? std::string(c.below(9000), char('a' + tx.id % 26)) : std::string(c.below(4), 'x');
   switch (c.below(8))
   {
    case 0: if (x.own()) {x.insert_own(w.next_j[size_t(tx.thread)]++, v, s); break;} [[fallthrough]];
    case 1: {auto &r = w.rows_j[size_t(tx.thread)]; if (x.own() && !r.empty()) {x.update_own(c.pick(r), v); break;}} [[fallthrough]];
    case 2: x.comment(s); break;
    case 3: x.blob(s); break;
    case 4: if (x.db()) x.insert_data(v, s); else x.flush(); break;
    case 5: if (x.db()) {auto r = x.live(); if (!r.empty()) x.update_data(c.pick(r), v, s);} break;
    case 6: if (x.db()) {auto r = x.live(); if (!r.empty()) x.delete_data(c.pick(r));} break;
    case 7: x.flush(); break;
   }
   point();
  }
  if (fail_at >= 0 && step <= fail_at) throw My_Error{tx.id};
  if (x.db()) tx.after = x.seen();
 }

 void committed(World &w, Tx &tx)
 {
  tx.state = Tx::committed; tx.returned = w.s.clock; w.commits++;
  for (auto &e: tx.events) if (e.k == model::insert_into && e.t == 3 + tx.thread) w.rows_j[size_t(tx.thread)].push_back(e.r);
 }

 void view(World &w, Client &cl, uint64_t began)
 {
  View v{began, cl.thread, cl.incarnation, cl.checkpoint(), "", cl.has_content()};
  if (v.has_content) v.content = cl.seen();
  w.views.push_back(std::move(v));
 }

 void client_thread(World &w, int me)
 {
  Ctx &c = w.c;
  std::unique_ptr<Client> cl;
  int incarnation = 0;
  const std::string who = "client " + std::to_string(me) + ": ";
  auto close = [&] {if (cl) {if (cl->file) w.waits += cl->file->waits; Client *p = cl.get(); (void)p; cl.reset();}};
  int steps = 2 + int(c.below(8));
  while (steps-- > 0 && !w.s.stopping)
  {
   w.s.yield();
   int tx_index = -1; // transaction in progress
   bool locked_commit = false;
   try
   {
    if (!cl)
    {
     incarnation++;
     static const int kinds[] = {0, 0, 1, 1, 2, 2, 3, 4};
     switch (kinds[c.below(8)])
     {
      case 0: cl = std::make_unique<Db_Client>(w, me, incarnation); break;
      case 1: cl = std::make_unique<Journal_Client>(w, me, incarnation); break;
      case 2: cl = std::make_unique<Compiled_Client>(w, me, incarnation); break;
      case 3: cl = std::make_unique<Reader>(w, me, incarnation); break;
      default: cl = std::make_unique<Raw_Reader>(w, me, incarnation); break;
     }
     const bool mortal = w.failures && c.chance(1, 4);
     const int64_t life = mortal ? 1 + int64_t(c.below(60)) : -1;
     cl->file = std::make_unique<Handle>(c, w.s, w.disk, cl->writes() ? Open_Mode::shared_write : Open_Mode::read_existing, life);
     if (w.connections && cl->writes() && c.flag())
     {
      cl->backup = me;
      cl->backup_file = std::make_unique<Handle>(c, w.s, w.backups[size_t(me)], Open_Mode::write_existing_or_create_new, mortal && c.flag() ? 1 + int64_t(c.below(20)) : -1);
      try {cl->connection = std::make_unique<File_Connection>(*cl->backup_file);}
      catch (const joedb::Exception &e) {if (!w.dirty) c.fail(who + "opening the backup: " + e.what()); cl->backup = -1; cl->connection.reset(); cl->backup_file.reset();}
     }
     c.note(who + "open " + cl->name() + (cl->connection ? " with a backup" : "") + (mortal ? " (mortal)" : ""));
     const uint64_t began = w.s.clock;
     try {cl->open(Recovery::none);}
     catch (const joedb::Exception &e)
     {
      if (!w.dirty) c.fail(who + "opening: " + e.what());
      c.note(who + "refused: " + e.what());
      w.refusals++;
      cl->open(Recovery::overwrite);
     }
     if (cl->wc())
     {
      if (c.chance(1, 4)) {cl->wc()->set_valid_data(true); cl->vd = true;}
      if (c.chance(1, 6)) {cl->wc()->set_timestamp(true); cl->ts = true;}
      if (c.chance(1, 4)) cl->wc()->set_hard_checkpoint(true);
     }
     view(w, *cl, began);
     continue;
    }
    const int a = int(c.below(10));
    if (a == 9) {c.note(who + "close"); close(); continue;}
    if (cl->poisoned && c.flag()) {c.note(who + "close after a failure"); close(); continue;}
    if (a <= 2 || !cl->writes())
    {
     const uint64_t began = w.s.clock;
     c.note(who + "pull");
     try
     {
      const int64_t before = cl->checkpoint();
      const int64_t n = cl->pull();
      w.pulls++;
      if (!cl->poisoned)
      {
       c.check(n == cl->checkpoint() - before, who + "the value returned by pull is not the progress of the checkpoint");
       view(w, *cl, began);
      }
     }
     catch (const joedb::Exception &e)
     {
      if (!cl->poisoned) c.fail(who + "pull: " + e.what());
      c.note(who + "pull refused after the failure");
     }
     continue;
    }
    auto begin = [&]() -> Tx &
    {
     Tx tx; tx.id = int(w.txs.size()); tx.thread = me; tx.began = w.s.clock; tx.vd = cl->vd; tx.ts = cl->ts;
     tx_index = tx.id;
     w.txs.push_back(tx);
     return w.txs.back();
    };
    const bool fails = w.failures && c.chance(1, 3);
    if (a <= 6)
    {
     const int id = begin().id;
     const int fail_at = fails ? int(c.below(8)) : -1;
     c.note(who + "transaction T" + std::to_string(id) + (fails ? " fails at step " + std::to_string(fail_at) : ""));
     const int flavour = int(c.below(2));
     bool entered = false;
     Tx tx = w.txs[size_t(id)];
     try
     {
      cl->transaction([&](Writer &x)
      {
       entered = true;
       auto save = [&] {Tx &t = w.txs[size_t(id)]; t.events = tx.events; t.after = tx.after; t.check_events = tx.check_events; t.counts = tx.counts;};
       try {body(w, x, tx, fail_at);} catch (...) {save(); throw;}
       save();
      }, tx, flavour);
     }
     catch (const My_Error &e)
     {
      c.check(fails && e.id == id, who + "an error of another transaction");
      w.txs[size_t(id)].state = Tx::aborted; tx_index = -1;
      w.aborts++; w.dirty = true;
      cl->poisoned = true;
      c.note(who + "T" + std::to_string(id) + " failed");
      cl->check_unlocked("a transaction that failed");
      continue;
     }
     catch (const joedb::Exception &e)
     {
      if (!cl->poisoned || entered) c.fail(who + "transaction: " + e.what());
      w.txs[size_t(id)].state = Tx::aborted; tx_index = -1;
      c.note(who + "transaction refused after the failure");
      cl->check_unlocked("a transaction that was refused");
      continue;
     }
     c.check(!fails, who + "the error of the transaction did not reach the caller");
     cl->check_unlocked("a transaction");
     committed(w, w.txs[size_t(id)]);
     tx_index = -1;
     c.note(who + "T" + std::to_string(id) + " committed");
     if (!cl->poisoned) view(w, *cl, w.txs[size_t(id)].began);
    }
    else
    {
     // explicit lock, several transactions
     c.note(who + "lock");
     std::unique_ptr<Client_Lock> l;
     const uint64_t began = w.s.clock;
     try {l = cl->lock();}
     catch (const joedb::Exception &e)
     {
      if (!cl->poisoned) c.fail(who + "lock: " + e.what());
      c.note(who + "lock refused after the failure");
      continue;
     }
     const int n = 1 + int(c.below(3));
     view(w, *cl, began);
     bool unlocked = false;
     for (int k = 0; k < n; k++)
     {
      const int id = begin().id;
      Tx tx = w.txs[size_t(id)];
      const bool f = fails && k + 1 == n;
      const int fail_at = f ? int(c.below(8)) : -1;
      try
      {
       cl->in_lock(*l, [&](Writer &x)
       {
        try {body(w, x, tx, fail_at);} catch (...) {w.txs[size_t(id)].events = tx.events; throw;}
       }, tx);
      }
      catch (const My_Error &)
      {
       w.txs[size_t(id)].state = Tx::aborted; tx_index = -1;
       w.aborts++; w.dirty = true; cl->poisoned = true;
       c.note(who + "T" + std::to_string(id) + " abandoned in the lock");
       break;
      }
      w.txs[size_t(id)].events = tx.events; w.txs[size_t(id)].after = tx.after; w.txs[size_t(id)].check_events = tx.check_events; w.txs[size_t(id)].counts = tx.counts;
      if (k + 1 == n && c.flag())
      {
       l->checkpoint_and_push_unlock(); unlocked = true;
      }
      else if (c.flag()) l->checkpoint_and_push();
      else {l->do_checkpoint(); if (c.flag()) l->push_if_ahead();}
      committed(w, w.txs[size_t(id)]);
      tx_index = -1;
      c.note(who + "T" + std::to_string(id) + " committed in the lock");
     }
     if (!unlocked && c.flag()) l->unlock();
     l.reset();
     cl->check_unlocked("the end of the lock");
     c.note(who + "unlock");
     if (cl->connection) cl->wc()->push_if_ahead();
    }
    (void)locked_commit;
   }
   catch (const Died &)
   {
    if (tx_index >= 0) w.txs[size_t(tx_index)].state = Tx::unknown;
    w.deaths++; w.dirty = true;
    c.note(who + "died");
    if (cl && cl->file) cl->file->die();
    if (cl && cl->backup_file) cl->backup_file->die();
    cl.reset();
   }
  }
  if (cl) w.waits += cl->file->waits;
 }

 void finish(World &w)
 {
  Ctx &c = w.c;
  // the history in the file
  Handle h(c, w.s, w.disk, Open_Mode::read_existing);
  Readonly_Journal j(h);
  struct Rec: Recorder {} rec;
  Database db;
  std::vector<int64_t> after; // position after each event
  {
   Readonly_Journal k(h);
   while (k.get_position() < k.get_checkpoint()) {k.one_step(rec); while (after.size() < rec.events.size()) after.push_back(k.get_position());}
   c.equal(k.get_position(), k.get_checkpoint(), "the checkpoint is in the middle of an event");
  }
  std::vector<int> order;
  std::map<int64_t, std::string> boundary; // position -> content
  std::vector<int64_t> end(w.txs.size(), -1);
  int64_t counter = 0;
  // split at the markers
  size_t i = 0;
  while (i < rec.events.size() && !(rec.events[i].k == model::comment && rec.events[i].s.starts_with("T"))) i++;
  auto play_to = [&](int64_t pos) {while (j.get_position() < pos) j.one_step(db); return content(db);};
  c.check(i > 0, "the initial content is lost");
  boundary[after[i - 1]] = play_to(after[i - 1]);
  while (i < rec.events.size())
  {
   const int id = std::atoi(rec.events[i].s.c_str() + 1);
   c.check(id >= 0 && size_t(id) < w.txs.size(), "unknown transaction in the file");
   Tx &tx = w.txs[size_t(id)];
   const std::string name = "T" + std::to_string(id);
   c.check(end[size_t(id)] < 0, name + " is twice in the file");
   c.check(tx.state == Tx::committed || tx.state == Tx::unknown, name + " is in the file, although it failed");
   size_t k = i + 1;
   while (k < rec.events.size() && !(rec.events[k].k == model::comment && rec.events[k].s.starts_with("T"))) k++;
   size_t last = k;
   // events added by the client
   if (tx.ts) {c.check(last > i + 1 && rec.events[last - 1].k == model::timestamp, name + ": no time stamp"); last--;}
   if (tx.vd) {c.check(last > i + 1 && rec.events[last - 1].k == model::valid_data, name + ": no valid_data"); last--;}
   if (tx.check_events)
   {
    const std::vector<Event> got(rec.events.begin() + long(i) + 1, rec.events.begin() + long(last));
    const std::string d = model::compare_events(got, tx.events);
    c.check(d.empty(), name + " is not what was written: " + d);
   }
   const int64_t pos = after[k - 1];
   end[size_t(id)] = pos;
   boundary[pos] = play_to(pos);
   if (!tx.after.empty()) c.check(boundary[pos] == tx.after, name + " does not give the content that it saw: " + boundary[pos].substr(0, 300) + " instead of " + tx.after.substr(0, 300));
   if (tx.counts) counter++;
   order.push_back(id);
   i = k;
  }
  for (auto &tx: w.txs) if (tx.state == Tx::committed) c.check(end[size_t(tx.id)] >= 0, "T" + std::to_string(tx.id) + " was committed, but is not in the file");
  // real-time order
  uint64_t latest = 0;
  for (int id: order)
  {
   Tx &tx = w.txs[size_t(id)];
   if (tx.state != Tx::committed) continue;
   c.check(tx.returned >= latest, "T" + std::to_string(id) + " is after a transaction that started after its end");
   latest = std::max(latest, tx.began);
  }
  c.equal(db.get_int64(Table_Id(1), Record_Id(0), Field_Id(1)), counter, "counter incremented once per transaction");
  // what clients saw
  std::map<std::pair<int, int>, int64_t> previous;
  for (auto &v: w.views)
  {
   const std::string n = "a view of client " + std::to_string(v.thread);
   auto it = boundary.find(v.checkpoint);
   c.check(it != boundary.end(), n + " ends at " + std::to_string(v.checkpoint) + ", in the middle of a transaction");
   if (v.has_content) c.check(v.content == it->second, n + " is not the content of the file at its checkpoint: " + v.content.substr(0, 300) + " instead of " + it->second.substr(0, 300));
   auto &p = previous[{v.thread, v.incarnation}];
   c.check(v.checkpoint >= p, n + " went back");
   p = v.checkpoint;
   for (auto &tx: w.txs)
    if (tx.state == Tx::committed && tx.returned < v.began) c.check(end[size_t(tx.id)] <= v.checkpoint, n + " misses T" + std::to_string(tx.id) + ", which was committed before");
  }
  // backups are prefixes
  for (auto &b: w.backups) if (b.data.size() > 41)
  {
   Handle bh(c, w.s, b, Open_Mode::read_existing);
   Readonly_Journal bj(bh);
   const int64_t cp = bj.get_checkpoint();
   if (cp == 41) continue;
   c.check(boundary.count(cp), "the checkpoint of a backup is in the middle of a transaction");
   c.check(b.data.compare(41, size_t(cp - 41), w.disk.data, 41, size_t(cp - 41)) == 0, "a backup has another content");
   c.label("backups");
  }
 }

 void world(Ctx &c, bool failures, bool connections)
 {
  Destructor_Logger::set_logger(nullptr);
  World w(c, failures, connections);
  {
   Handle h(c, w.s, w.disk, Open_Mode::shared_write);
   Writable_Journal j(h);
   schema(j);
   j.insert_into(Table_Id(1), Record_Id(0));
   j.update_int64(Table_Id(1), Record_Id(0), Field_Id(1), 0);
   j.soft_checkpoint();
  }
  const int n = 2 + int(c.below(3));
  w.s.switch_den = c.flag() ? 4 : 12;
  w.next_j.resize(4); w.rows_j.resize(4); w.backups.resize(4);
  for (int i = 0; i < n; i++) w.s.spawn([&w, i] {client_thread(w, i);});
  w.s.run();
  finish(w);
  c.label("transactions", uint64_t(w.commits));
  c.label("pulls", uint64_t(w.pulls));
  c.label("failed transactions", uint64_t(w.aborts));
  c.label("deaths", uint64_t(w.deaths));
  c.label("openings refused", uint64_t(w.refusals));
  c.label("waits for a lock", uint64_t(w.waits));
  c.label("switches", w.s.switches);
  if (failures ? w.aborts + w.deaths > 0 && w.commits > 1 : w.commits > 2 && w.s.switches > 5) c.nontrivial();
 }
}

static void run_c01(Ctx &c) {world(c, c.chance(1, 4), c.chance(1, 4));}
static void run_c02(Ctx &c) {world(c, true, c.flag());}

static const Register r1({.id = "C01", .rule = "more than 2 committed transactions and 5 switches between clients (or a failure followed by other transactions)", .quick = 40000, .thorough = 4000000, .run = run_c01});
static const Register r2({.id = "C02", .rule = "a failed transaction or a death, and at least 2 committed transactions", .quick = 40000, .thorough = 4000000, .run = run_c02});
