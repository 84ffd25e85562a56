// vf: libs=core
// D01 interpreted database, D02 row identifiers, D07 blobs, T08 forwarding
#include "model.h"
#include "files.h"
#include "joedb/Freedom_Keeper.h"
#include "joedb/Multiplexer.h"
#include "joedb/Selective_Writable.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/interpreted/Database.h"
#include "joedb/journal/File.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/journal/Writable_Journal.h"
#include <functional>
#include <memory>
#include <set>
using namespace joedb;
using namespace vf;
using model::Event; using model::Gen; using model::Recorder;

///////////////////////////////////////////////////////////////////////////////
// D01
///////////////////////////////////////////////////////////////////////////////
// change a valid event into one that may not make sense
static Event bend(Ctx &c, const Event &valid, const model::Db &m)
{
 Event e = valid;
 auto row = [&]() -> int64_t
 {
  switch (c.below(4)) {case 0: return -1 - int64_t(c.below(3)); case 1: return int64_t(c.below(50)); case 2: return int64_t(c.below(300)); default: return e.r + int64_t(c.below(3)) - 1;}
 };
 auto name = [&]() -> std::string
 {
  switch (c.below(6))
  {
   case 0: return "";
   case 1: return std::string(1, char('0' + c.below(10))) + "a";
   case 2: return "a" + std::string(1, char(c.below(256)));
   case 3: return "a__b";
   case 4: {const int t = model::pick_table(c, m); return t ? m.tables.at(t).name : "x";}
   default: {const int t = e.t && m.tables.count(e.t) ? e.t : model::pick_table(c, m); const int f = t ? model::pick_field(c, m.tables.at(t)) : 0; return f ? m.tables.at(t).fields.at(f).name : "_";}
  }
 };
 switch (c.below(5))
 {
  case 0: e.t = int(c.below(4)) == 0 ? 60000 : int(c.below(8)); break;
  case 1: e.f = int(c.below(4)) == 0 ? 60000 : int(c.below(8)); if (e.k == model::update || e.k == model::update_vector) break; [[fallthrough]];
  case 2: e.r = row(); break;
  case 3: e.s = name(); break;
  case 4:
   if (e.k == model::insert_vector || e.k == model::delete_vector) e.n = c.below(60);
   else if (e.k == model::update || e.k == model::update_vector)
   {
    if (c.flag())
    {
     e.type = model::T(1 + c.below(model::t_count - 1));
     for (auto &x: e.v) x = model::Value::def(e.type);
    }
    else if (e.k == model::update_vector) {const size_t n = 1 + c.below(40); while (e.v.size() > n) e.v.pop_back(); while (e.v.size() < n) e.v.push_back(e.v.empty() ? model::Value::def(e.type) : e.v.back()); e.n = n;}
    else e.r = row();
   }
   else e.s = name();
  break;
 }
 return e;
}

// identifiers of tables and fields have 16 bits
static void many_identifiers(Ctx &c)
{
 Database db;
 const bool tables = c.flag();
 db.create_table("kept");
 db.add_field(Table_Id(1), "kept_field", Type::int32());
 db.insert_into(Table_Id(1), Record_Id(0));
 db.update_int32(Table_Id(1), Record_Id(0), Field_Id(1), 123);
 int n = 1;
 bool refused = false;
 while (n <= 65600)
 {
  try {if (tables) db.create_table("t"); else db.add_field(Table_Id(1), "f", Type::string());}
  catch (const Exception &) {refused = true; break;}
  n++;
  const int id = int(tables ? to_underlying(db.find_table("t")) : to_underlying(db.find_field(Table_Id(1), "f")));
  if (id != n) c.fail("identifier of creation " + std::to_string(n) + ": " + std::to_string(id));
  if (tables) db.drop_table(Table_Id(uint16_t(id))); else db.drop_field(Table_Id(1), Field_Id(uint16_t(id)));
 }
 c.check(refused, "more identifiers than 16 bits can hold");
 c.equal(n, 65535, "number of identifiers");
 c.equal(db.get_tables().size(), size_t(1), "tables");
 c.equal(db.get_fields(Table_Id(1)).size(), size_t(1), "fields");
 c.equal(db.get_int32(Table_Id(1), Record_Id(0), Field_Id(1)), 123, "value");
 c.label(tables ? "all table ids" : "all field ids");
 c.nontrivial();
}

static void run_d01(Ctx &c)
{
 Destructor_Logger::set_logger(nullptr);
 if (c.chance(1, 3000)) return many_identifiers(c);
 model::Options o;
 o.blobs = false;
 o.max_row = c.flag() ? 40 : 300;
 Gen g(c, o);
 Database db;
 const int n = 10 + int(c.length(150));
 int rejected = 0, accepted = 0;
 for (int i = 0; i < n; i++)
 {
  const model::Db before = g.m;
  Event e = g.next();
  if (c.chance(1, 3))
  {
   const Event b = bend(c, e, before);
   const bool row_vector = b.k == model::insert_vector || b.k == model::delete_vector || b.k == model::update_vector;
   if (!before.valid(b) || (row_vector && b.n == 0))
   {
    // the database is still in the state "before"
    const bool neutral = before.valid(b);
    bool thrown = false;
    try {model::apply(b, db);}
    catch (const Assertion_Failure &x) {c.fail("internal assertion for [" + b.str() + "]: " + x.what());}
    catch (const std::exception &) {thrown = true;}
    c.note("invalid: " + b.str());
    if (!thrown && !neutral) c.fail("invalid event accepted: " + b.str());
    const std::string d = model::compare(db, before);
    c.check(d.empty(), "after the invalid event [" + b.str() + "]: " + d);
    rejected++;
   }
  }
  c.note(e.str());
  try {model::apply(e, db);}
  catch (const std::exception &x) {if (e.n == 0 && (e.k == model::insert_vector || e.k == model::delete_vector)) {} else c.fail("valid event rejected: " + e.str() + ": " + x.what());}
  accepted++;
  if (i + 1 == n || c.chance(1, 8))
  {
   const std::string d = model::compare(db, g.m);
   c.check(d.empty(), "after [" + e.str() + "]: " + d);
  }
 }
 if (rejected >= 2 && accepted >= 10) c.nontrivial();
 c.label("invalid events", uint64_t(rejected));
 c.label("valid events", uint64_t(accepted));
}

static Register d01({"D01", "at least 2 invalid events rejected and 10 valid ones", 25000, 2500000, run_d01, "exploration", 60, false, {}, {"vectors of zero rows may be accepted or rejected, they must have no effect"}});

///////////////////////////////////////////////////////////////////////////////
// D02
///////////////////////////////////////////////////////////////////////////////
template<class K> static void check_keeper(Ctx &c, K &k, const std::set<int64_t> &used, int64_t size, int scale)
{
 auto R = [](int64_t i) {return Record_Id(i);};
 c.equal(to_underlying(k.get_size()), size, "size");
 c.equal(to_underlying(k.get_used_count()), int64_t(used.size()), "used count");
 for (int64_t i = 0; i <= size + 1; i++)
 {
  const bool u = used.count(i);
  c.equal(k.is_used(R(i)), u, "is_used(" + std::to_string(i) + ")");
  c.equal(k.is_free(R(i)), !u, "is_free(" + std::to_string(i) + ")");
 }
 c.check(!k.is_used(R(-1)) && !k.is_used(R(-2)) && !k.is_used(R(-5)), "negative id is used");
 // iterations
 auto walk = [&](bool forward, Record_Id start, const char *what)
 {
  std::vector<int64_t> v;
  Record_Id i = start;
  while ((i = forward ? k.get_next(i) : k.get_previous(i)) != start)
  {
   v.push_back(to_underlying(i));
   if (int64_t(v.size()) > size + 2) c.fail(std::string("endless iteration: ") + what);
   if (v.back() < 0) c.fail(std::string("iteration left its list: ") + what);
  }
  return v;
 };
 std::vector<int64_t> uf = walk(true, K::used_list, "used, forward"), ub = walk(false, K::used_list, "used, backward");
 std::vector<int64_t> ff = walk(true, K::free_list, "free, forward"), fb = walk(false, K::free_list, "free, backward");
 std::reverse(ub.begin(), ub.end());
 std::reverse(fb.begin(), fb.end());
 c.check(uf == ub, "backward iteration over used ids is not the reverse of forward iteration");
 c.check(ff == fb, "backward iteration over free ids is not the reverse of forward iteration");
 c.check(std::set<int64_t>(uf.begin(), uf.end()) == used && uf.size() == used.size(), "iteration over used ids");
 std::set<int64_t> fs(ff.begin(), ff.end());
 c.check(fs.size() == ff.size() && int64_t(ff.size()) == size - int64_t(used.size()), "number of free ids");
 for (int64_t i: ff) c.check(!used.count(i) && i >= 0 && i < size, "iteration over free ids");
 c.check(k.get_first_used() == (uf.empty() ? Record_Id(K::used_list) : R(uf.front())), "first used");
 c.check(k.get_first_free() == (ff.empty() ? Record_Id(K::free_list) : R(ff.front())), "first free");
 // vectors
 for (int j = 0; j < 4; j++)
 {
  const int64_t i = int64_t(c.below(uint64_t(size) + 4)) - 1;
  const int64_t n = 1 + int64_t(c.below(8 * uint64_t(scale)));
  bool all_used = i >= 0, all_free = i >= 0;
  for (int64_t x = i; x < i + n; x++) {if (!used.count(x)) all_used = false; if (used.count(x)) all_free = false;}
  c.equal(k.is_used_vector(R(i), size_t(n)), all_used, "is_used_vector(" + std::to_string(i) + ", " + std::to_string(n) + ")");
  c.equal(k.is_free_vector(R(i), size_t(n)), all_free, "is_free_vector(" + std::to_string(i) + ", " + std::to_string(n) + ")");
 }
}

template<class K> static void drive(Ctx &c, K &k, bool compact)
{
 std::set<int64_t> used;
 int64_t size = 0;
 const int n = int(c.length(120));
 const int scale = c.chance(1, 30) ? 10 + int(c.below(60)) : 1;
 if (scale > 1) c.label("large");
 auto some_used = [&] {auto it = used.begin(); std::advance(it, c.below(used.size())); return *it;};
 int ops = 0;
 for (int j = 0; j < n; j++)
 {
  int op = int(c.below(compact ? 5 : 9));
  if (compact) {static const int map[] = {0, 1, 2, 5, 8}; op = map[op];}
  switch (op)
  {
   case 0: case 3: // allocation
   {
    const int64_t i = to_underlying(k.get_free_record());
    if (i >= size) size = i + 1;
    c.check(i >= 0 && !used.count(i), "allocated id " + std::to_string(i) + " is live");
    k.use(Record_Id(i));
    used.insert(i);
    c.notef("allocate ", i);
   }
   break;
   case 1: c.equal(to_underlying(k.push_back()), size, "push_back"); size++; c.note("push_back"); break;
   case 2: {const int64_t s = size + int64_t(c.below(6 * uint64_t(scale))); k.resize(Record_Id(s)); size = s; c.notef("resize ", s);} break;
   case 4: // use a chosen free id
   {
    if (!size) break;
    const int64_t i = int64_t(c.below(uint64_t(size)));
    if (used.count(i)) break;
    k.use(Record_Id(i)); used.insert(i);
    c.notef("use ", i);
   }
   break;
   case 5: // allocate a vector as in generated code
   {
    const size_t m = c.below(8 * uint64_t(scale));
    const int64_t i = size;
    if (compact && int64_t(used.size()) != size) break;
    k.resize(k.get_size() + m);
    size += int64_t(m);
    k.use_vector(Record_Id(i), m);
    for (size_t q = 0; q < m; q++) used.insert(i + int64_t(q));
    c.notef("allocate vector ", i, ' ', m);
   }
   break;
   case 6: if (!used.empty()) {const int64_t i = some_used(); k.free(Record_Id(i)); used.erase(i); c.notef("free ", i);} break;
   case 7:
   {
    if (used.empty()) break;
    const int64_t i = some_used();
    size_t m = 0, want = 1 + c.below(6 * uint64_t(scale));
    while (m < want && used.count(i + int64_t(m))) m++;
    k.free_vector(Record_Id(i), m);
    for (size_t q = 0; q < m; q++) used.erase(i + int64_t(q));
    c.notef("free vector ", i, ' ', m);
   }
   break;
   case 8: // the last one
    if (!used.empty()) {const int64_t i = *used.rbegin(); k.free(Record_Id(i)); used.erase(i); c.notef("free last ", i);}
   break;
  }
  ops++;
  if (j + 1 == n || c.chance(1, 3 * (scale > 1 ? 4 : 1))) check_keeper(c, k, used, size, scale);
 }
 if (ops >= 8 && !used.empty() && used.size() < size_t(size)) c.nontrivial();
}

static void run_d02(Ctx &c)
{
 switch (c.below(4))
 {
  case 0: {List_Freedom_Keeper k; c.label("list"); drive(c, k, false);} break;
  case 1: {Freedom_Keeper k; c.label("dense only"); drive(c, k, true); } break;
  default: {Freedom_Keeper k; c.label("dense then list"); drive(c, k, false);} break;
 }
}

static Register d02({"D02", "at least 8 operations, ending with both live and free ids", 200000, 20000000, run_d02, "exploration", 20});

///////////////////////////////////////////////////////////////////////////////
// T08
///////////////////////////////////////////////////////////////////////////////
namespace
{
 class Loop_Recorder: public Recorder
 {
  public:
   void insert_vector(Table_Id t, Record_Id r, size_t n) override {Writable::insert_vector(t, r, n);}
   void delete_vector(Table_Id t, Record_Id r, size_t n) override {Writable::delete_vector(t, r, n);}
   #define TYPE_MACRO(type_, return_type, type_id, R, W)\
   void update_vector_##type_id(Table_Id t, Record_Id r, Field_Id f, size_t n, const type_ *x) override {Writable::update_vector_##type_id(t, r, f, n, x);}
   #include "joedb/TYPE_MACRO.h"
 };

 std::vector<Event> split_updates(const std::vector<Event> &v)
 {
  std::vector<Event> r;
  for (auto &e: v)
   if (e.k == model::update_vector)
    for (size_t i = 0; i < e.v.size(); i++) {Event x = e; x.k = model::update; x.r = e.r + int64_t(i); x.v = {e.v[i]}; x.n = 0; r.push_back(x);}
   else r.push_back(e);
  return r;
 }
 std::vector<Event> split_rows(const std::vector<Event> &v)
 {
  std::vector<Event> r;
  for (auto &e: v)
   if (e.k == model::insert_vector) for (uint64_t i = 0; i < e.n; i++) {Event x = e; x.k = model::insert_into; x.n = 0; x.r = e.r + int64_t(i); r.push_back(x);}
   else if (e.k == model::delete_vector) for (uint64_t i = 0; i < e.n; i++) {Event x = e; x.k = model::delete_from; x.n = 0; x.r = e.r + int64_t(e.n - 1 - i); r.push_back(x);}
   else r.push_back(e);
  return r;
 }
 int kind_of(model::K k)
 {
  switch (k)
  {
   case model::comment: case model::timestamp: case model::valid_data: return Selective_Writable::information;
   case model::blob: return 0;
   case model::insert_into: case model::delete_from: case model::insert_vector: case model::delete_vector: case model::update: case model::update_vector: return Selective_Writable::data;
   default: return Selective_Writable::schema;
  }
 }

 struct Node
 {
  std::unique_ptr<Writable> w;
  bool wants_blobs = false; // what a parent should see
 };

 struct Leaf {Recorder *recorder; bool loop; bool split; bool filtered; int mask; bool wants;};
 struct Filter {Selective_Writable *w;};
 struct Net
 {
  Ctx &c;
  std::vector<std::unique_ptr<Writable>> all;
  std::vector<Leaf> leaves;
  std::vector<std::pair<Database *, std::pair<int, bool>>> dbs;
  std::vector<Selective_Writable *> filters;
  std::string desc;
  std::set<Writable *> wanting;

  Writable *build(int depth, int mask, bool split)
  {
   const int kind = depth <= 0 ? 0 : int(c.below(4));
   if (kind == 0 || kind == 3)
   {
    if (c.chance(1, 3))
    {
     auto d = std::make_unique<Database>();
     Database *p = d.get();
     dbs.push_back({p, {mask, split}});
     all.push_back(std::move(d));
     desc += "db ";
     return p;
    }
    const bool loop = c.flag();
    std::unique_ptr<Recorder> r(loop ? new Loop_Recorder : new Recorder);
    r->want_blobs = c.flag();
    leaves.push_back({r.get(), loop, split, mask != 7, mask, r->want_blobs});
    Recorder *p = r.get();
    all.push_back(std::move(r));
    desc += loop ? "loop " : "recorder ";
    return p;
   }
   if (kind == 1)
   {
    static const Selective_Writable::Mode modes[] = {Selective_Writable::all, Selective_Writable::schema, Selective_Writable::data, Selective_Writable::information, Selective_Writable::data_and_schema, Selective_Writable::data_and_information};
    const auto mode = modes[c.below(6)];
    desc += "filter" + std::to_string(mode) + "( ";
    Writable *inside = build(depth - 1, mask & mode & 7, true);
    // blobs do not go through
    for (auto &l: leaves) if (reach(inside, l.recorder)) l.wants = false;
    auto s = std::make_unique<Selective_Writable>(*inside, mode);
    Selective_Writable *p = s.get();
    filters.push_back(p);
    children[p] = {inside};
    all.push_back(std::move(s));
    desc += ") ";
    return p;
   }
   desc += "multiplexer( ";
   std::vector<Writable *> v;
   const int n = 1 + int(c.below(3));
   for (int i = 0; i < n; i++) v.push_back(build(depth - 1, mask, split));
   std::unique_ptr<Multiplexer> m;
   if (n == 1) m.reset(new Multiplexer{*v[0]});
   else if (n == 2) m.reset(new Multiplexer{*v[0], *v[1]});
   else m.reset(new Multiplexer{*v[0], *v[1], *v[2]});
   Multiplexer *p = m.get();
   children[p] = v;
   all.push_back(std::move(m));
   desc += ") ";
   return p;
  }
  std::map<Writable *, std::vector<Writable *>> children;
  bool reach(Writable *from, Writable *to)
  {
   if (from == to) return true;
   auto it = children.find(from);
   if (it == children.end()) return false;
   for (auto w: it->second) if (reach(w, to)) return true;
   return false;
  }
 };
}

static void run_t08(Ctx &c)
{
 Destructor_Logger::set_logger(nullptr);
 model::Options o;
 o.max_vector = 12;
 Gen g(c, o);
 Net net{c};
 Writable *root = net.build(3, 7, false);
 c.note(net.desc);
 const int n = int(c.length(60));
 std::vector<Event> events;
 for (int i = 0; i < n; i++) {events.push_back(g.next()); c.note(events.back().str());}
 int soft = 0, hard = 0, flushes = 0, starts = 0, ends = 0, blobs = 0;
 const bool through_journal = c.flag();
 if (through_journal)
 {
  std::string bytes;
  files::View f(bytes, Open_Mode::create_new);
  {
   Writable_Journal j(f);
   for (auto &e: events) model::apply(e, j);
   j.soft_checkpoint();
  }
  files::View r(bytes, Open_Mode::read_existing, c.raw() | 1);
  Readonly_Journal j{r};
  j.replay_log(*root);
  // what the journal itself drops: updates of zero rows
  std::vector<Event> v;
  for (auto &e: events) if (!(e.k == model::update_vector && e.n == 0)) v.push_back(e);
  events = v;
  soft = starts = ends = j.get_checkpoint() > 41;
  for (auto &e: events) if (e.k == model::blob) blobs++;
 }
 else
 {
  for (auto &e: events)
  {
   if (e.k == model::blob)
   {
    root->on_blob(Blob(1, int64_t(e.s.size())));
    blobs++;
    if (root->wants_blob_data()) root->write_blob(e.s);
   }
   else model::apply(e, *root);
   switch (c.below(30))
   {
    case 1: root->soft_checkpoint(); soft++; break;
    case 2: root->hard_checkpoint(); hard++; break;
    case 3: root->flush(); flushes++; break;
    case 4: root->start_writing(77); starts++; break;
    case 5: root->end_writing(78); ends++; break;
   }
  }
 }
 for (size_t i = 0; i < net.leaves.size(); i++)
 {
  const Leaf &l = net.leaves[i];
  std::vector<Event> expected;
  for (auto &e: events)
   if (e.k == model::blob) {if (l.wants) expected.push_back(e);}
   else if (kind_of(e.k) & l.mask) expected.push_back(e);
  if (l.split || l.loop) expected = split_updates(expected);
  if (l.loop) expected = split_rows(expected);
  const std::string d = model::compare_events(l.recorder->events, expected);
  c.check(d.empty(), "listener " + std::to_string(i) + " of " + net.desc + ": " + d);
  c.equal(l.recorder->soft, soft, "soft checkpoints");
  c.equal(l.recorder->hard, hard, "hard checkpoints");
  c.equal(int(l.recorder->starts.size()), starts, "start_writing");
  c.equal(int(l.recorder->ends.size()), ends, "end_writing");
  if (!l.split) {c.equal(l.recorder->flushes, flushes, "flushes"); c.equal(int(l.recorder->blobs.size()), blobs, "blobs announced");}
 }
 for (auto f: net.filters) if (net.children.size() == 1) c.equal(f->has_blobs(), blobs > 0, "has_blobs");
 for (auto &[db, ms]: net.dbs)
 {
  const int both = Selective_Writable::data_and_schema;
  if ((ms.first & both) == both)
  {
   const std::string d = model::compare(*db, g.m);
   c.check(d.empty(), "database in " + net.desc + ": " + d);
   c.label("database compared");
  }
 }
 if (net.children.size() >= 1 && events.size() >= 10) c.nontrivial();
}

static Register t08({"T08", "at least one multiplexer or filter, and at least 10 events", 60000, 6000000, [](Ctx &c)
{
 try {run_t08(c);}
 catch (const Exception &e)
 {
  // a database that misses schema events refuses data: this cannot be compared
  const std::string s = e.what();
  if (s.find("invalid table_id") != std::string::npos || s.find("invalid field_id") != std::string::npos) throw Discard();
  throw;
 }
}, "exploration", 20});

///////////////////////////////////////////////////////////////////////////////
// D07
///////////////////////////////////////////////////////////////////////////////
static void run_d07(Ctx &c)
{
 Destructor_Logger::set_logger(nullptr);
 clear_scratch(c);
 model::Options o;
 o.big_string = c.chance(1, 3) ? 20000 : 0;
 if (c.chance(1, 50)) o.big_string = 3000000;
 Gen g(c, o);
 const int kind = int(c.below(3));
 std::string bytes;
 const std::string path = c.scratch + "/f";
 auto open = [&](bool write) -> std::unique_ptr<Abstract_File>
 {
  if (kind == 0) return std::make_unique<files::View>(bytes, write ? (bytes.empty() ? Open_Mode::create_new : Open_Mode::write_existing) : Open_Mode::read_existing, c.flag() ? c.raw() | 1 : 0);
  return std::make_unique<File>(path.c_str(), write ? Open_Mode::write_existing_or_create_new : Open_Mode::read_existing);
 };
 struct B {Blob blob; std::string data;};
 std::vector<B> blobs;
 std::vector<Event> events;
 int reads = 0;
 auto read_some = [&](const Abstract_File &f, size_t count, const char *where)
 {
  for (int k = 0; k < 3 && count; k++)
  {
   const B &b = blobs[c.below(count)];
   std::string s;
   try {s = f.read_blob(b.blob);} catch (const std::exception &e) {c.fail(std::string(where) + ": reading a blob: " + e.what());}
   if (s != b.data) c.fail(std::string(where) + ": blob at " + std::to_string(b.blob.get_position()) + " of size " + std::to_string(b.data.size()) + " differs");
   reads++;
  }
 };
 const int sessions = 1 + int(c.below(3));
 size_t visible = 0;
 for (int s = 0; s < sessions; s++)
 {
  auto f = open(true);
  Writable_Journal j(*f);
  Recorder r0;
  j.replay_log(r0);
  const int n = int(c.length(30));
  for (int i = 0; i < n; i++)
  {
   Event e = g.next();
   if (c.chance(1, 3)) {e = Event(); e.k = model::blob; e.s = c.bytes(o.big_string ? o.big_string : 300); if (e.s.size() > 20) for (size_t q = 0; q < e.s.size(); q += 7) e.s[q] = char(q * 31);}
   if (e.k == model::update_vector && e.n == 0) {e.k = model::comment; e.s = "none"; e.v.clear();}
   const Blob b = model::apply(e, j);
   events.push_back(e);
   c.note(e.str());
   if (e.k == model::blob) {blobs.push_back({b, e.s}); c.equal(b.get_size(), int64_t(e.s.size()), "size of the blob");}
   // positions that were written stay readable from the journal, once they are in the file
   switch (c.below(6))
   {
    case 1: j.flush(); visible = blobs.size(); read_some(j.get_file(), visible, "after a flush"); break;
    case 2: if (c.flag()) j.soft_checkpoint(); else j.hard_checkpoint(); visible = blobs.size(); read_some(j.get_file(), visible, "after a checkpoint"); break;
    case 3: read_some(j.get_file(), visible, "while writing"); break;
   }
  }
  j.soft_checkpoint();
  visible = blobs.size();
  if (c.flag())
  {
   auto f2 = open(false);
   read_some(*f2, visible, "by another opening");
  }
 }
 // read-only
 {
  auto f = open(false);
  Readonly_Journal j(*f);
  for (size_t i = 0; i < blobs.size(); i++) c.check(j.get_file().read_blob(blobs[i].blob) == blobs[i].data, "read-only opening: blob differs");
  Recorder with; with.want_blobs = true;
  j.replay_log(with);
  std::string d = model::compare_events(with.events, events);
  c.check(d.empty(), "replay with blob data: " + d);
  c.equal(with.blobs.size(), blobs.size(), "number of blobs");
  for (size_t i = 0; i < blobs.size(); i++)
   c.check(with.blobs[i].get_position() == blobs[i].blob.get_position() && with.blobs[i].get_size() == blobs[i].blob.get_size(), "blob position announced by the replay: " + std::to_string(with.blobs[i].get_position()) + " instead of " + std::to_string(blobs[i].blob.get_position()));
  Recorder without; without.want_blobs = false;
  j.replay_log(without);
  std::vector<Event> e2;
  for (auto &e: events) if (e.k != model::blob) e2.push_back(e);
  d = model::compare_events(without.events, e2);
  c.check(d.empty(), "replay without blob data: " + d);
  // into another journal
  Memory_File m2;
  {
   Writable_Journal j2(m2);
   j.replay_log(j2);
   j2.soft_checkpoint();
  }
  Readonly_Journal j2{m2};
  Recorder copy;
  j2.replay_log(copy);
  d = model::compare_events(copy.events, events);
  c.check(d.empty(), "copy of the journal: " + d);
  size_t k = 0;
  for (auto &b: copy.blobs) {c.check(m2.read_blob(b) == blobs[k].data, "blob in the copy"); k++;}
  // a limit on size is honoured, and reading out of the file is refused
  if (!blobs.empty())
  {
   const B &b = c.pick(blobs);
   const int64_t max = int64_t(c.below(b.data.size() * 2 + 3));
   bool ok = true;
   try {c.check(m2.read_blob(Blob(copy.blobs[0].get_position(), copy.blobs[0].get_size()), max).size() == blobs[0].data.size(), "bounded read");} catch (const Exception &) {ok = false;}
   c.equal(ok, int64_t(blobs[0].data.size()) < max, "bounded read accepted");
   ok = true;
   try {m2.read_blob(Blob(m2.get_size() - int64_t(c.below(3)), 4 + int64_t(c.below(100))));} catch (const Exception &) {ok = false;}
   c.check(!ok, "reading a blob past the end of the file was accepted");
  }
 }
 if (blobs.size() >= 3 && reads >= 3) c.nontrivial();
 c.label(kind == 0 ? "memory" : "system file");
 c.label("blobs", blobs.size());
}

static Register d07({"D07", "at least 3 blobs and 3 reads of random ones", 12000, 600000, run_d07, "exploration", 60, false, {}, {"a blob is looked for in the file after a flush or a checkpoint, as the file is buffered before"}});
