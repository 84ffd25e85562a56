// vf: libs=core tools=joedb_logdump,joedbi,joedb_to_json,joedb_pack,joedb_merge
// T01 text dump, T02 JSON, T04 packing, T05 merging, T06 interpreter, T09 text files
#include "model.h"
#include "files.h"
#include "tool.h"
#include "textio.h"
#include "joedb/Multiplexer.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/interpreted/Database.h"
#include "joedb/journal/File.h"
#include "joedb/journal/Interpreted_File.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/ui/Interpreter.h"
#include "joedb/ui/Interpreter_Dump_Writable.h"
#include "joedb/ui/dump.h"
#include "joedb/ui/inplace_pack.h"
#include "joedb/ui/json.h"
#include "joedb/ui/merge.h"
#include <algorithm>
#include <filesystem>
#include <limits>
using namespace joedb;
using namespace vf;
using model::Event; using model::Gen; using model::Recorder; using model::Value;

static std::string journal_bytes(const std::vector<Event> &events, size_t uncommitted = 0)
{
 std::string data;
 {
  files::View file(data, Open_Mode::write_existing_or_create_new);
  Writable_Journal j(file);
  for (size_t i = 0; i < events.size(); i++)
  {
   if (i + uncommitted == events.size()) j.soft_checkpoint();
   model::apply(events[i], j);
  }
  if (uncommitted == 0) j.soft_checkpoint();
  else j.flush();
 }
 return data;
}

static std::vector<Event> play(std::string data)
{
 files::View file(data, Open_Mode::read_existing);
 Readonly_Journal j(file);
 Recorder r;
 j.replay_log(r);
 return std::move(r.events);
}

static void play(std::string data, Writable &w)
{
 files::View file(data, Open_Mode::read_existing);
 Readonly_Journal j(file);
 j.replay_log(w);
}

static std::vector<Event> history(Ctx &c, Gen &g, int n)
{
 std::vector<Event> r;
 for (int i = 0; i < n; i++)
 {
  Event e = g.next();
  if ((e.k == model::insert_vector || e.k == model::delete_vector || e.k == model::update_vector) && e.n == 0) continue;
  c.note(e.str());
  r.push_back(std::move(e));
 }
 return r;
}

static bool dangling_types(const model::Db &m)
{
 for (auto &[i, t]: m.tables) for (auto &[j, f]: t.fields) if (f.type == model::t_reference && !m.tables.count(f.ref)) return true;
 return false;
}

static bool has_rows(const model::Db &m, size_t n)
{
 size_t r = 0;
 for (auto &[i, t]: m.tables) r += t.rows.size();
 return r >= n;
}

// the same database with tables and fields numbered from 1
static model::Db renumber(const model::Db &m)
{
 model::Db r;
 std::map<int, int> tm;
 for (auto &[i, t]: m.tables) tm[i] = ++r.last_table;
 for (auto &[i, t]: m.tables)
 {
  model::Table &x = r.tables[tm[i]];
  x.name = t.name;
  std::map<int, int> fm;
  for (auto &[j, f]: t.fields)
  {
   const int n = ++x.last_field;
   fm[j] = n;
   x.fields[n] = {f.name, f.type, f.type == model::t_reference ? tm[f.ref] : 0};
  }
  for (auto &[id, row]: t.rows) {auto &y = x.rows[id]; for (auto &[j, v]: row) y[fm[j]] = v;}
  x.high = t.rows.empty() ? 0 : t.rows.rbegin()->first + 1;
 }
 return r;
}

///////////////////////////////////////////////////////////////////////////////
// T01
///////////////////////////////////////////////////////////////////////////////
static std::string interpret(Ctx &c, const std::string &text, Database &db, Recorder &rec, const char *what)
{
 Multiplexer m{db, rec};
 Interpreter in(db, m, Record_Id::null);
 in.set_echo(false);
 std::istringstream i(text);
 std::ostringstream o;
 in.main_loop(i, o);
 const std::string out = o.str();
 if (out.find("Exception caught") != std::string::npos) c.fail(std::string(what) + ": the interpreter rejected a line: " + out.substr(out.find("Exception caught"), 600));
 return out;
}

static void run_t01(Ctx &c)
{
 Destructor_Logger::set_logger(nullptr);
 model::Options o;
 o.finite = true;
 o.blobs = c.flag();
 o.max_string = 60;
 o.near_utf8 = true;
 Gen g(c, o);
 const std::vector<Event> events = history(c, g, 5 + int(c.length(120)));
 const std::string data = journal_bytes(events);
 // 1. the text of the history
 std::ostringstream t1;
 t1.precision(std::numeric_limits<double>::max_digits10);
 {Interpreter_Dump_Writable w(t1); play(data, w);}
 {
  Database db; Recorder rec;
  interpret(c, t1.str(), db, rec, "text of the history");
  std::string d = model::compare(db, g.m);
  c.check(d.empty(), "database rebuilt from the text of the history: " + d);
  d = model::compare_events(rec.events, events);
  c.check(d.empty(), "history rebuilt from its text: " + d);
  std::ostringstream t2;
  t2.precision(std::numeric_limits<double>::max_digits10);
  {
   Interpreter_Dump_Writable w(t2);
   for (auto &e: rec.events) model::apply(e, w);
   w.soft_checkpoint();
  }
  auto strip = [](const std::string &s)
  {
   // without comments and empty lines
   std::istringstream i(s);
   std::string r, line;
   while (std::getline(i, line)) if (!line.empty() && line[0] != '#') r += line + "\n";
   return r;
  };
  c.equal(strip(t2.str()), strip(t1.str()), "text of the rebuilt history");
 }
 // 2. the text of the database
 if (!dangling_types(g.m))
 {
  Database db; play(data, db);
  std::ostringstream t3;
  t3.precision(std::numeric_limits<double>::max_digits10);
  {Interpreter_Dump_Writable w(t3); joedb::dump(db, w);}
  Database db2; Recorder rec;
  interpret(c, t3.str(), db2, rec, "text of the database");
  const std::string d = model::compare(db2, renumber(g.m));
  c.check(d.empty(), "database rebuilt from its text: " + d);
  std::ostringstream t4;
  t4.precision(std::numeric_limits<double>::max_digits10);
  {Interpreter_Dump_Writable w(t4); joedb::dump(db2, w);}
  c.equal(t4.str(), t3.str(), "text of the rebuilt database");
  // schema only
  std::ostringstream t5;
  {Interpreter_Dump_Writable w(t5); joedb::dump(db, w, true);}
  Database db3; Recorder rec3;
  interpret(c, t5.str(), db3, rec3, "text of the schema");
  model::Db empty = renumber(g.m);
  for (auto &[i, t]: empty.tables) {t.rows.clear(); t.high = 0;}
  const std::string d3 = model::compare(db3, empty);
  c.check(d3.empty(), "database rebuilt from the text of its schema: " + d3);
  c.label("database text");
 }
 // 3. the tools
 if (c.chance(1, 25))
 {
  clear_scratch(c);
  tool::spit(c.scratch + "/a.joedb", data);
  std::vector<std::string> args = {"joedb_logdump", "a.joedb"};
  if (c.flag()) args.insert(args.begin() + 1, "--load");
  const bool blob = c.flag();
  if (blob) args.insert(args.begin() + 1, "--blob");
  const tool::Result r = tool::run(c, args);
  c.equal(r.rc, 0, "status of joedb_logdump (" + r.err.substr(0, 300) + ")");
  const tool::Result i = tool::run(c, {"joedbi", "b.joedb"}, r.out);
  c.equal(i.rc, 0, "status of joedbi (" + i.err.substr(0, 300) + ")");
  c.check(i.out.find("Exception caught") == std::string::npos, "joedbi rejected a line of joedb_logdump: " + i.out.substr(std::min(i.out.size(), i.out.find("Exception caught")), 300));
  std::vector<Event> expected;
  for (auto &e: events) if (blob || e.k != model::blob) expected.push_back(e);
  const std::vector<Event> got = play(tool::slurp(c.scratch + "/b.joedb"));
  const std::string d = model::compare_events(got, expected);
  c.check(d.empty(), "history rebuilt with joedb_logdump and joedbi: " + d);
  c.equal(tool::slurp(c.scratch + "/a.joedb"), data, "file dumped by joedb_logdump");
  c.label("tools");
 }
 c.label("events", events.size());
 if (has_rows(g.m, 3) && events.size() >= 10) c.nontrivial();
}

///////////////////////////////////////////////////////////////////////////////
// T02
///////////////////////////////////////////////////////////////////////////////
static void check_json(Ctx &c, const std::string &out, const model::Db &m, bool base64, int *expected_errors)
{
 json::V v;
 try {v = json::Parser(out).parse();}
 catch (const json::Error &e) {c.fail(std::string("invalid JSON: ") + e.what());}
 int errors = 0;
 c.check(v.t == json::V::object, "not an object");
 c.equal(v.o.size(), m.tables.size(), "number of tables");
 size_t ti = 0;
 for (auto &[id, t]: m.tables)
 {
  const auto &[name, x] = v.o[ti++];
  c.equal(name, t.name, "table name");
  c.check(x.t == json::V::object && x.o.size() == t.fields.size() + 1, "table " + name + ": number of members");
  c.equal(x.o[0].first, std::string("__size"), "first member");
  c.equal(x.o[0].second.s, std::to_string(t.rows.size()), "__size of " + name);
  size_t fi = 1;
  for (auto &[fid, f]: t.fields)
  {
   const auto &[fname, a] = x.o[fi++];
   const std::string where = name + "." + fname;
   c.equal(fname, f.name, "field name");
   c.check(a.t == json::V::array, where + ": not an array");
   c.equal(a.a.size(), t.rows.size(), "number of values of " + where);
   size_t k = 0;
   for (auto &[rid, row]: t.rows)
   {
    const json::V &y = a.a[k];
    const std::string w = where + "[" + std::to_string(k) + "]";
    k++;
    const Value &e = row.at(fid);
    switch (f.type)
    {
     case model::t_string:
      c.check(y.t == json::V::string, w + ": not a string");
      if (base64)
      {
       std::string d;
       try {d = json::base64_decode(y.s);} catch (const json::Error &z) {c.fail(w + ": " + z.what());}
       c.equal(vf::quoted(d), vf::quoted(e.s), w); c.check(d == e.s, w);
      }
      else if (json::valid_utf8(e.s)) {c.equal(vf::quoted(y.s), vf::quoted(e.s), w); c.check(y.s == e.s, w);}
      else {errors |= JSON_Error::utf8; c.check(y.s.find("This string is not utf8") != std::string::npos, w + ": loss not announced: " + vf::quoted(y.s) + " for " + vf::quoted(e.s));}
     break;
     case model::t_reference:
     {
      auto it = m.tables.find(f.ref);
      if (it == m.tables.end()) {c.check(y.t == json::V::number, w + ": not a number"); break;}
      int64_t p = -1;
      auto jt = it->second.rows.find(e.i);
      if (jt != it->second.rows.end()) p = std::distance(it->second.rows.begin(), jt);
      c.equal(y.s, std::to_string(p), w);
     }
     break;
     case model::t_blob:
      c.check(y.t == json::V::array && y.a.size() == 2 && y.a[0].s == std::to_string(e.i) && y.a[1].s == std::to_string(e.n), w + ": blob");
     break;
     case model::t_boolean: c.check(y.t == json::V::boolean && y.s == (e.i ? "true" : "false"), w + ": boolean"); break;
     case model::t_float32: case model::t_float64:
     {
      const double d = f.type == model::t_float32 ? double(e.f) : e.d;
      c.check(y.t == json::V::number, w + ": not a number");
      if (std::isfinite(d))
      {
       if (f.type == model::t_float32) {const float z = std::strtof(y.s.c_str(), nullptr); c.check(std::memcmp(&z, &e.f, 4) == 0, w + ": " + y.s + " for " + text::number(e.f));}
       else {const double z = std::strtod(y.s.c_str(), nullptr); c.check(std::memcmp(&z, &d, 8) == 0, w + ": " + y.s + " for " + text::number(d));}
      }
      else {errors |= JSON_Error::infnan; c.equal(y.s, std::string("0"), w + " (not finite)");}
     }
     break;
     default: c.check(y.t == json::V::number, w + ": not a number"); c.equal(y.s, std::to_string(e.i), w);
    }
   }
  }
 }
 if (expected_errors) *expected_errors = errors;
}

static void run_t02(Ctx &c)
{
 Destructor_Logger::set_logger(nullptr);
 model::Options o;
 o.blobs = false;
 o.misc = false;
 o.utf8 = c.below(3) != 0;
 o.near_utf8 = !o.utf8;
 o.finite = c.flag();
 o.max_string = 50;
 o.max_row = 25;
 Gen g(c, o);
 const std::vector<Event> events = history(c, g, 5 + int(c.length(120)));
 Database db;
 for (auto &e: events) model::apply(e, db);
 const bool base64 = c.flag();
 std::ostringstream out;
 out.precision(std::numeric_limits<double>::max_digits10);
 const int errors = write_json(out, db, base64);
 int expected = 0;
 check_json(c, out.str(), g.m, base64, &expected);
 c.equal(errors, expected, "reported errors");
 if (c.chance(1, 20))
 {
  clear_scratch(c);
  const std::string data = journal_bytes(events);
  tool::spit(c.scratch + "/a.joedb", data);
  std::vector<std::string> args = {"joedb_to_json", "a.joedb"};
  if (base64) args.insert(args.begin() + 1, "--base64");
  const tool::Result r = tool::run(c, args);
  c.equal(r.rc, 0, "status of joedb_to_json");
  check_json(c, r.out, g.m, base64, nullptr);
  c.equal(r.err.find("could not be encoded") != std::string::npos, bool(expected & JSON_Error::utf8), "warning about strings");
  c.equal(r.err.find("inf or nan") != std::string::npos, bool(expected & JSON_Error::infnan), "warning about inf and nan");
  c.label("tools");
 }
 if (expected) c.label("lossy");
 if (base64) c.label("base64");
 if (has_rows(g.m, 3)) c.nontrivial();
}

///////////////////////////////////////////////////////////////////////////////
// T04
///////////////////////////////////////////////////////////////////////////////
static bool is_schema(model::K k) {return k <= model::custom;}

static std::string pack_bytes(std::string data)
{
 files::View in(data, Open_Mode::read_existing);
 Readonly_Journal j(in);
 std::string out;
 {
  files::View f(out, Open_Mode::create_new);
  Writable_Journal w(f);
  joedb::pack(j, w);
 }
 return out;
}

static void check_packed(Ctx &c, const std::string &packed, const std::vector<Event> &events, const model::Db &m)
{
 Database db;
 try {play(packed, db);}
 catch (const std::exception &x) {c.fail(std::string("replaying the packed journal: ") + x.what());}
 model::Db e = m;
 for (auto &[i, t]: e.tables) t.high = t.rows.empty() ? 0 : t.rows.rbegin()->first + 1;
 std::string d = model::compare(db, e);
 c.check(d.empty(), "packed journal: " + d);
 std::vector<Event> s1, s2;
 for (auto &x: events) if (is_schema(x.k)) s1.push_back(x);
 std::map<std::pair<int, int64_t>, int> inserted;
 std::map<std::tuple<int, int, int64_t>, int> updated;
 for (auto &x: play(packed))
 {
  if (is_schema(x.k)) {s2.push_back(x); continue;}
  const bool vector = x.k == model::insert_vector || x.k == model::update_vector;
  const int64_t n = vector ? int64_t(x.n) : 1;
  c.check(x.k == model::insert_into || x.k == model::insert_vector || x.k == model::update || x.k == model::update_vector, "the packed journal contains [" + x.str() + "]");
  for (int64_t i = 0; i < n; i++)
  {
   if (x.k == model::insert_into || x.k == model::insert_vector) c.check(++inserted[{x.t, x.r + i}] == 1, "row inserted twice in the packed journal");
   else c.check(++updated[{x.t, x.f, x.r + i}] == 1, "value written twice in the packed journal");
  }
 }
 d = model::compare_events(s2, s1);
 c.check(d.empty(), "schema history of the packed journal: " + d);
 size_t rows = 0;
 for (auto &[i, t]: m.tables) rows += t.rows.size();
 c.equal(inserted.size(), rows, "rows inserted in the packed journal");
}

static void run_t04(Ctx &c)
{
 Destructor_Logger::set_logger(nullptr);
 model::Options o;
 o.blobs = c.chance(1, 5);
 o.blob_fields = o.blobs || c.flag();
 o.max_row = c.flag() ? 25 : 200;
 Gen g(c, o);
 std::vector<Event> events = history(c, g, 5 + int(c.length(150)));
 // an abandoned tail
 const model::Db m = g.m;
 std::vector<Event> all = events;
 const size_t tail = c.chance(1, 4) ? c.below(10) : 0;
 size_t added = 0;
 if (tail) {const std::vector<Event> t = history(c, g, int(tail)); added = t.size(); all.insert(all.end(), t.begin(), t.end()); c.note("(" + std::to_string(added) + " events after the checkpoint)");}
 const std::string data = journal_bytes(all, added);
 bool blob = false;
 for (auto &e: events) if (e.k == model::blob) blob = true;
 std::string packed;
 bool refused = false;
 try {packed = pack_bytes(data);}
 catch (const Exception &e)
 {
  refused = true;
  c.check(blob && std::string(e.what()).find("blob") != std::string::npos, std::string("pack failed: ") + e.what());
 }
 if (blob) c.check(refused, "a journal with blobs was packed");
 if (!refused)
 {
  check_packed(c, packed, events, m);
  c.check(pack_bytes(packed) == packed, "packing a packed journal changes it");
 }
 // in place, and with the tool
 if (c.chance(1, 15))
 {
  clear_scratch(c);
  const std::string f = c.scratch + "/a.joedb";
  tool::spit(f, data);
  bool thrown = false;
  try {joedb::inplace_pack(f);} catch (const Exception &e) {thrown = true;}
  c.equal(thrown, refused, "in-place packing refused");
  if (thrown) c.check(tool::slurp(f) == data, "refused in-place packing changed the file");
  else
  {
   c.check(tool::slurp(f + ".unpacked") == data, "original after in-place packing");
   check_packed(c, tool::slurp(f), events, m);
  }
  c.label("in place");
 }
 if (c.chance(1, 25))
 {
  clear_scratch(c);
  tool::spit(c.scratch + "/a.joedb", data);
  const tool::Result r = tool::run(c, {"joedb_pack", "a.joedb", "b.joedb"});
  c.equal(r.rc != 0, refused, "status of joedb_pack: " + r.err.substr(0, 200));
  c.check(tool::slurp(c.scratch + "/a.joedb") == data, "joedb_pack changed its input");
  if (!refused) {check_packed(c, tool::slurp(c.scratch + "/b.joedb"), events, m);}
  if (!refused && c.flag())
  {
   const std::string before = tool::slurp(c.scratch + "/b.joedb");
   const tool::Result r2 = tool::run(c, {"joedb_pack", "a.joedb", "b.joedb"});
   c.check(r2.rc != 0 && tool::slurp(c.scratch + "/b.joedb") == before, "joedb_pack overwrote an existing file");
  }
  c.label("tools");
 }
 if (refused) c.label("blobs refused");
 if (has_rows(m, 3) && events.size() > 12) c.nontrivial();
}

///////////////////////////////////////////////////////////////////////////////
// T05
///////////////////////////////////////////////////////////////////////////////
struct Merge_Source {model::Db m; std::vector<Event> events;};

// rows of the merged database in order; references by position in the merged table
static void check_merged(Ctx &c, const Readable &db, const std::vector<const model::Db *> &sources)
{
 const model::Db &first = *sources[0];
 c.equal(db.get_tables().size(), first.tables.size(), "number of tables");
 std::map<int, std::map<int64_t, int64_t>> position; // merged: table, row -> position
 std::map<int, std::vector<int64_t>> rows;
 for (auto &[ti, t]: first.tables)
 {
  const Freedom_Keeper &fk = db.get_freedom(Table_Id(ti));
  for (Record_Id r{0}; r < fk.get_size(); ++r) if (fk.is_used(r)) {position[ti][to_underlying(r)] = int64_t(rows[ti].size()); rows[ti].push_back(to_underlying(r));}
 }
 std::map<int, std::vector<int64_t>> base; // table -> position of the first row of each source
 for (auto &[ti, t]: first.tables) {int64_t n = 0; for (auto *s: sources) {base[ti].push_back(n); n += int64_t(s->tables.at(ti).rows.size());} c.equal(int64_t(rows[ti].size()), n, "number of rows of " + t.name + " after the merge");}
 for (auto &[ti, t]: first.tables)
 {
  size_t k = 0;
  for (size_t s = 0; s < sources.size(); s++)
   for (auto &[id, row]: sources[s]->tables.at(ti).rows)
   {
    const int64_t r = rows[ti][k++];
    for (auto &[fi, v]: row)
    {
     const Value x = model::read(db, ti, r, fi, v.t);
     const std::string w = t.name + "[" + std::to_string(r) + "]." + t.fields.at(fi).name + " (row " + std::to_string(id) + " of database " + std::to_string(s) + ")";
     if (v.t != model::t_reference) {c.check(x.same(v), w + ": expected " + v.str() + " got " + x.str()); continue;}
     if (v.i < 0) {c.check(x.i < 0, w + ": null became " + x.str()); continue;}
     const int rt = t.fields.at(fi).ref;
     if (!first.tables.count(rt)) continue;
     const auto &target = sources[s]->tables.at(rt).rows;
     auto it = target.find(v.i);
     if (it == target.end()) continue; // dangling in its own database
     const int64_t p = base[rt][s] + std::distance(target.begin(), it);
     auto jt = position[rt].find(x.i);
     c.check(jt != position[rt].end() && jt->second == p, w + ": reference to row " + std::to_string(v.i) + " became " + std::to_string(x.i));
    }
   }
 }
}

static void run_t05(Ctx &c)
{
 Destructor_Logger::set_logger(nullptr);
 model::Options o;
 o.blobs = false; o.ref_dangling = false; o.max_row = 20;
 Gen g(c, o);
 // a common schema
 std::vector<Event> schema;
 {
  const int n = 2 + int(c.below(4));
  g.schema(schema, n, int(c.below(uint64_t(n) * 3)) + 1);
  for (int i = int(c.below(60)); i-- > 0;)
  {
   Event e = g.choose();
   if (is_schema(e.k)) {g.m.apply(e); schema.push_back(e);}
  }
 }
 for (auto &e: schema) c.note(e.str());
 o.schema = false;
 const int n = 2 + int(c.below(3));
 std::vector<Merge_Source> s;
 size_t total = 0, holes = 0;
 for (int i = 0; i < n; i++)
 {
  c.note("-- database " + std::to_string(i));
  Gen d(c, o);
  for (auto &e: schema) d.m.apply(e);
  if (d.m.tables.empty()) throw Discard();
  Merge_Source x;
  x.events = schema;
  const int len = int(c.length(60));
  const bool append = c.flag();
  for (int k = 0; k < len; k++)
  {
   Event e = d.choose();
   if (append && (e.k == model::insert_into || e.k == model::insert_vector))
   {
    e.r = d.m.tables[e.t].high;
   }
   if ((e.k == model::insert_vector || e.k == model::delete_vector || e.k == model::update_vector) && e.n == 0) continue;
   if (is_schema(e.k)) continue;
   d.m.apply(e); c.note(e.str()); x.events.push_back(e);
  }
  x.m = d.m;
  for (auto &[ti, t]: x.m.tables) {total += t.rows.size(); holes += size_t(t.high) - t.rows.size();}
  s.push_back(std::move(x));
 }
 {
  Database merged;
  for (auto &e: s[0].events) model::apply(e, merged);
  std::vector<const model::Db *> src = {&s[0].m};
  for (size_t i = 1; i < s.size(); i++)
  {
   Database db;
   for (auto &e: s[i].events) model::apply(e, db);
   joedb::merge(merged, db);
   src.push_back(&s[i].m);
   check_merged(c, merged, src);
   const std::string d = model::compare(db, s[i].m);
   c.check(d.empty(), "merge changed the merged database: " + d);
  }
 }
 // the tool, sometimes with an intruder
 if (c.chance(1, 15))
 {
  clear_scratch(c);
  std::vector<std::string> args = {"joedb_merge"};
  std::string list;
  std::vector<const model::Db *> src;
  const size_t intruder = c.flag() ? 1 + c.below(s.size()) : 0;
  for (size_t i = 0; i <= s.size(); i++)
  {
   if (intruder && i == intruder)
   {
    std::vector<Event> e = s[0].events;
    Event x; 
    if (c.flag()) {x.k = model::create_table; x.s = "intruder_table"; e.push_back(x);}
    else {x.k = model::add_field; x.t = s[0].m.tables.begin()->first; x.s = "intruder_field"; x.type = model::t_int32; e.insert(c.flag() ? e.begin() + long(schema.size()) : e.end(), x);}
    tool::spit(c.scratch + "/x.joedb", journal_bytes(e));
    args.push_back("x.joedb"); list += "x.joedb\n";
   }
   if (i == s.size()) break;
   const std::string name = "in" + std::to_string(i) + ".joedb";
   tool::spit(c.scratch + "/" + name, journal_bytes(s[i].events));
   args.push_back(name); list += name + "\n";
   src.push_back(&s[i].m);
  }
  const bool from_list = c.flag();
  if (from_list) args.resize(1);
  args.push_back("out.joedb");
  const tool::Result r = tool::run(c, args, from_list ? list : "");
  c.equal(r.rc, 0, "status of joedb_merge: " + r.err.substr(0, 300));
  if (intruder) c.check(r.err.find("does not have the same schema") != std::string::npos, "a database of another schema was not reported");
  Database db;
  play(tool::slurp(c.scratch + "/out.joedb"), db);
  check_merged(c, db, src);
  std::vector<Event> got;
  for (auto &e: play(tool::slurp(c.scratch + "/out.joedb"))) if (is_schema(e.k)) got.push_back(e);
  const std::string d = model::compare_events(got, schema);
  c.check(d.empty(), "schema history of the merged file: " + d);
  c.label(intruder ? "tool with another schema" : "tool");
 }
 if (holes) c.label("with deleted rows");
 if (total >= 4) c.nontrivial();
}

///////////////////////////////////////////////////////////////////////////////
// T06
///////////////////////////////////////////////////////////////////////////////
static const int64_t max_id = 1000;

struct Session
{
 Database db{Record_Id(max_id)};
 Recorder rec;
 Memory_File file;
 Writable_Journal journal{file};
 Multiplexer m{db, rec, journal};
 Interpreter in{db, m, Record_Id(max_id)};
 Session() {m.get_position();}
 std::string run(const std::string &text)
 {
  std::istringstream i(text);
  std::ostringstream o;
  in.main_loop(i, o);
  return o.str();
 }
};

static std::string wild_number(Ctx &c)
{
 static const char *const k[] = {"-1", "0", "-2", "1", "abc", "1x", "18446744073709551615", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "4294967296", "99999999999999999999999", "1e5", "0x10", "", "-", "+3", "1.5", "2147483648", "128", "-129", "1000", "1001", "65536", "1,2", "true", "nan", "inf", "\"5\""};
 return k[c.below(std::size(k))];
}

static std::vector<std::string> split(const std::string &s)
{
 std::vector<std::string> r;
 std::istringstream i(s);
 std::string w;
 while (i >> w) r.push_back(w);
 return r;
}

static std::string mutate_line(Ctx &c, std::string s)
{
 const int n = 1 + int(c.below(3));
 for (int k = 0; k < n; k++)
 {
  std::vector<std::string> w = split(s);
  const uint64_t op = c.below(8);
  auto join = [&] {s.clear(); for (auto &x: w) {if (!s.empty()) s += ' '; s += x;}};
  if (op < 4 && w.size() > 1) {w[1 + c.below(w.size() - 1)] = wild_number(c); join();}
  else if (op == 4 && !w.empty()) {w.erase(w.begin() + long(c.below(w.size()))); join();}
  else if (op == 5 && !w.empty()) {w.insert(w.begin() + long(c.below(w.size() + 1)), c.flag() ? wild_number(c) : w[c.below(w.size())]); join();}
  else if (op == 6 && s.size()) {const size_t p = c.below(s.size()); s[p] = char(c.below(256));}
  else if (s.size()) s.resize(c.below(s.size() + 1));
 }
 for (char &ch: s) if (ch == '\n') ch = ' ';
 return s;
}

static bool no_space(const std::string &s)
{
 for (char ch: s) if (isspace(static_cast<unsigned char>(ch))) return false;
 return true;
}

static void run_t06(Ctx &c)
{
 Destructor_Logger::set_logger(nullptr);
 model::Options o;
 o.blobs = c.chance(1, 4);
 o.finite = true;
 o.near_utf8 = true;
 o.max_row = 30;
 Gen g(c, o);
 Session s;
 std::string script;
 const int n = 10 + int(c.length(80));
 int good = 0, bad = 0, wild = 0;
 std::vector<Event> all;
 for (int i = 0; i < n; i++)
 {
  std::string line;
  enum {valid, invalid, neutral, any} kind = valid;
  std::vector<Event> expected;
  const uint64_t w = c.below(20);
  if (w < 10)
  {
   Event e = g.choose();
   if ((e.k == model::insert_vector || e.k == model::delete_vector || e.k == model::update_vector) && e.n == 0) continue;
   if (e.k == model::insert_into && e.r > max_id) continue;
   if (e.k == model::insert_vector && (e.r >= max_id || int64_t(e.n) >= max_id)) continue;
   const uint64_t v = c.below(4);
   line = text::line(c, e, g.m);
   expected.push_back(e);
   if (e.k == model::insert_into && v >= 2)
   {
    const model::Table &t = g.m.tables.at(e.t);
    const bool with_values = v == 3 && !t.fields.empty();
    if (with_values)
    {
     model::Db after = g.m; after.apply(e);
     for (auto &[fi, f]: t.fields)
     {
      Event u; u.k = model::update; u.t = e.t; u.r = e.r; u.f = fi; u.type = f.type;
      u.v.push_back(model::make_value(c, o, after, f));
      std::string x = text::val(c, u.v[0]);
      if (f.type == model::t_string && x[0] != '"') x = "\"" + x + "\""; // a value without quotes ends the line
      line += " " + x;
      expected.push_back(u);
     }
    }
    else
    {
     // automatic identifier: the size of the table
     line = "insert_into " + t.name + (c.flag() ? "" : " -1");
     expected[0].r = to_underlying(s.db.get_size(Table_Id(e.t)));
     if (expected[0].r > max_id || g.m.tables.at(e.t).rows.count(expected[0].r)) continue;
     if (expected[0].r != t.high) c.fail("size of the table: expected " + std::to_string(t.high) + " got " + std::to_string(expected[0].r));
    }
   }
   if (e.k == model::add_field && v == 3)
   {
    const model::Table &t = g.m.tables.at(e.t);
    model::Field f{e.s, e.type, e.ref};
    const Value x = model::make_value(c, o, g.m, f);
    line += " = " + text::val(c, x);
    for (auto &[r, row]: t.rows) {Event u; u.k = model::update; u.t = e.t; u.r = r; u.f = t.last_field + 1; u.type = e.type; u.v = {x}; expected.push_back(u);}
   }
  }
  else if (w < 13)
  {
   Event e = g.choose();
   const uint64_t v = c.below(6);
   if (v == 0) e.t = 60000;
   else if (v == 1) e.f = 60000;
   else if (v == 2) e.r = int64_t(c.below(60)) - (e.k == model::insert_into ? 0 : 5);
   else if (v == 3) e.s = c.flag() ? "" : c.flag() ? "1a" : c.flag() ? "a__b" : g.m.tables.empty() ? "?" : g.m.tables.begin()->second.name;
   else if (v == 4) e.n = c.below(100);
   else e.r = max_id + 1 + int64_t(c.below(100));
   if (e.k == model::update_vector) e.n = e.v.size();
   if (e.k == model::update || e.k == model::update_vector) {if (v == 3 || v == 4) continue;}
   if (!no_space(e.s) || e.k == model::comment || e.k == model::custom || e.k == model::timestamp || e.k == model::valid_data || e.k == model::blob) continue;
   bool ok = g.m.valid(e);
   if (e.k == model::insert_into && e.r > max_id) ok = false;
   if (ok || (e.n == 0 && (e.k == model::insert_vector || e.k == model::delete_vector || e.k == model::update_vector))) continue;
   line = text::line(c, e, g.m);
   kind = invalid;
  }
  else if (w < 15)
  {
   // values, identifiers and sizes that are not what they should be
   static const char *const junk[] = {"abc", "x1", "--3", "99999999999999999999999", "-99999999999999999999999", "?"};
   const std::string z = junk[c.below(std::size(junk))];
   Event e = g.choose();
   kind = invalid;
   const std::string T = text::table_name(g.m, e.t), F = text::field_name(g.m, e.t, e.f), R = std::to_string(e.r);
   if (e.k == model::update && e.type != model::t_string && !(e.type >= model::t_float32 && e.type <= model::t_float64 && isdigit(z[z.size() / 2])) && !(e.type == model::t_reference && false))
   {
    switch (c.below(3))
    {
     case 0: line = "update " + T + " " + R + " " + F + " " + z; break;
     case 1: line = "update " + T + " " + R + " " + F; break;
     default:
      if (e.type == model::t_int8) line = "update " + T + " " + R + " " + F + " " + (c.flag() ? "128" : "-129");
      else if (e.type == model::t_int16) line = "update " + T + " " + R + " " + F + " 32768";
      else if (e.type == model::t_int32) line = "update " + T + " " + R + " " + F + " -2147483649";
      else line = "update " + T + " " + z + " " + F + " " + text::val(c, e.v[0]);
    }
   }
   else if (e.k == model::update_vector && e.n && e.type != model::t_string && !(e.type >= model::t_float32 && e.type <= model::t_float64))
   {
    line = "update_vector " + T + " " + R + " " + F + " " + std::to_string(e.n);
    const uint64_t p = c.below(e.n);
    for (uint64_t k = 0; k < e.n; k++) line += " " + (k == p ? z : text::val(c, e.v[k]));
   }
   else if (e.k == model::insert_into) line = "insert_into " + T + " " + z;
   else if (e.k == model::delete_from) line = "delete_from " + T + " " + (c.flag() ? z : "");
   else if (e.k == model::insert_vector) line = "insert_vector " + T + " " + z + " " + std::to_string(e.n);
   else if (e.k == model::delete_vector) line = "delete_vector " + T + " " + (c.flag() ? R + " " + z : z + " 1");
   else if (e.k == model::add_field) line = "add_field " + T + " new_field_of_" + T + " " + z;
   else line = z + " " + T;
   if (line[0] == '#' || line[0] == '?') continue;
  }
  else if (w < 17)
  {
   kind = neutral;
   const int t = model::pick_table(c, g.m);
   const std::string T = t ? g.m.tables.at(t).name : "";
   switch (c.below(18))
   {
    case 0: line = ""; break;
    case 1: line = "# " + T; break;
    case 2: line = "help"; break;
    case 3: line = "about"; break;
    case 4: if (!t) continue; line = "table " + T; break;
    case 5: if (!t) continue; line = "table " + T + " " + std::to_string(c.below(40)) + " " + std::to_string(c.below(30)) + " " + std::to_string(c.below(30)); break;
    case 6: if (!t) continue; line = "record " + T + " " + std::to_string(c.below(20)); break;
    case 7: if (!t) continue; line = "record " + T; break;
    case 8: line = "schema"; break;
    case 9: line = "dump"; break;
    case 10: line = "sql"; break;
    case 11: line = "json"; break;
    case 12: line = "json 1"; break;
    case 13: line = "flush"; break;
    case 14: line = "checkpoint"; break;
    case 15: line = "hard_checkpoint"; break;
    case 16: line = "?"; break;
    default: line = "prompt off"; break;
   }
  }
  else
  {
   kind = any;
   Event e = g.choose();
   line = c.chance(1, 6) ? (c.flag() ? "table " : "record ") + text::table_name(g.m, e.t) + " 10 1 1" : text::line(c, e, g.m);
   line = mutate_line(c, line);
   const std::vector<std::string> ws = split(line);
   if (!ws.empty() && (ws[0] == "quit" || ws[0] == "abort" || ws[0] == "prompt" || ws[0] == "echo" || (ws[0] == "timestamp"))) continue;
  }
  c.note(std::string(kind == valid ? "valid: " : kind == invalid ? "invalid: " : kind == neutral ? "neutral: " : "any: ") + vf::quoted(line, 300));
  s.rec.events.clear();
  std::string out;
  try {out = s.run(line + "\n");}
  catch (const std::exception &x) {c.fail("the interpreter stopped at [" + vf::quoted(line, 300) + "]: " + x.what());}
  const bool error = out.find("Exception caught: ") != std::string::npos;
  const std::vector<std::string> ws = split(line);
  const bool compound = !ws.empty() && (ws[0] == "insert_into" || ws[0] == "add_field");
  if (kind == invalid && !error) c.fail("accepted: [" + line + "]");
  if ((kind == valid || kind == neutral) && error) c.fail("refused: [" + line + "]: " + out.substr(0, 400));
  if (!error && out.find("OK: ") == std::string::npos) c.fail("neither OK nor an error for [" + line + "]");
  if (error && kind == invalid && !s.rec.events.empty()) c.fail("refused with an effect: [" + line + "]: " + s.rec.events[0].str());
  if (error && !compound && !s.rec.events.empty()) c.fail("refused with an effect: [" + line + "]: " + s.rec.events[0].str());
  if (kind == neutral && !s.rec.events.empty()) c.fail("[" + line + "] had an effect: " + s.rec.events[0].str());
  if (kind == valid)
  {
   const std::string d = model::compare_events(s.rec.events, expected);
   c.check(d.empty(), "effect of [" + line + "]: " + d);
  }
  for (auto &e: s.rec.events)
  {
   if (e.n > 1000000) c.fail("size accepted for [" + line + "]: " + e.str());
   if (!g.m.valid(e) && !(e.n == 0 && (e.k == model::insert_vector || e.k == model::delete_vector || e.k == model::update_vector))) c.fail("the line [" + line + "] had an invalid effect: " + e.str());
   if (!(e.n == 0 && (e.k == model::insert_vector || e.k == model::delete_vector || e.k == model::update_vector))) g.m.apply(e);
   if (e.k == model::insert_into || e.k == model::insert_vector) {g.lt = e.t; g.lr = e.r;}
   all.push_back(e);
  }
  const std::string d = model::compare(s.db, g.m);
  c.check(d.empty(), "after [" + line + "]: " + d);
  script += line + "\n";
  (kind == invalid ? bad : kind == any ? wild : good)++;
 }
 // the journal has the same database
 s.journal.soft_checkpoint();
 {
  Database db; Recorder r;
  Multiplexer m{db, r};
  play(s.file.get_data(), m);
  const std::string d = model::compare(db, g.m);
  c.check(d.empty(), "replay of the journal: " + d);
 }
 // the whole text at once
 {
  Session t;
  const bool quit = c.chance(1, 5);
  std::string whole = script;
  if (quit) whole += "quit\ncreate_table never\n";
  t.run(whole);
  std::vector<Event> e1 = t.rec.events;
  const std::string d = model::compare_events(e1, all);
  c.check(d.empty(), "the same text in one run: " + d);
 }
 if (c.chance(1, 20))
 {
  clear_scratch(c);
  const tool::Result r = tool::run(c, {"joedbi", "--max_record_id", std::to_string(max_id), "b.joedb"}, script);
  c.equal(r.rc, 0, "status of joedbi: " + r.err.substr(0, 300));
  std::vector<Event> got = play(tool::slurp(c.scratch + "/b.joedb"));
  auto trim = [](std::vector<Event> v) {v.erase(std::remove_if(v.begin(), v.end(), [](const Event &e) {return e.k == model::update_vector && e.n == 0;}), v.end()); return v;};
  const std::string d = model::compare_events(trim(got), trim(all));
  c.check(d.empty(), "file of joedbi: " + d);
  c.label("tool");
 }
 c.label("valid lines", uint64_t(good));
 c.label("invalid lines", uint64_t(bad));
 c.label("mutated lines", uint64_t(wild));
 if (good >= 4 && bad + wild >= 2) c.nontrivial();
}

///////////////////////////////////////////////////////////////////////////////
// T09
///////////////////////////////////////////////////////////////////////////////
static void run_t09(Ctx &c)
{
 Destructor_Logger::set_logger(nullptr);
 clear_scratch(c);
 const std::string path = c.scratch + "/a.joedbi";
 model::Options o;
 o.finite = true;
 o.near_utf8 = true;
 o.blobs = c.chance(1, 3);
 Gen g(c, o);
 std::vector<Event> events;
 const int sessions = 1 + int(c.below(4));
 auto verify = [&](const std::string &what)
 {
  Interpreted_File f(path.c_str(), Open_Mode::read_existing);
  Readonly_Journal j(f);
  Database db; Recorder r;
  Multiplexer m{db, r};
  j.replay_log(m);
  std::string d = model::compare_events(r.events, events);
  c.check(d.empty(), what + ": " + d);
  d = model::compare(db, g.m);
  c.check(d.empty(), what + ": " + d);
 };
 for (int k = 0; k < sessions; k++)
 {
  if (k > 0 && c.chance(1, 3))
  {
   // edited by hand
   std::string text = tool::slurp(path);
   c.note("-- text edit");
   for (uint64_t i = c.below(4); i-- > 0;)
   {
    Event e = g.choose();
    if ((e.k == model::insert_vector || e.k == model::delete_vector || e.k == model::update_vector) && e.n == 0) continue;
    text += text::line(c, e, g.m) + "\n";
    c.note(e.str());
    g.m.apply(e); events.push_back(e);
    if (c.chance(1, 5)) text += "# a comment\n";
   }
   tool::spit(path, text + "\n");
   c.label("text edits");
  }
  else
  {
   c.note("-- session");
   Interpreted_File f(path.c_str(), Open_Mode::write_existing_or_create_new);
   Writable_Journal j(f);
   {
    Recorder r;
    j.replay_log(r);
    const std::string d = model::compare_events(r.events, events);
    c.check(d.empty(), "opening for writing: " + d);
   }
   for (uint64_t t = c.below(4); t-- > 0;)
   {
    const std::vector<Event> h = history(c, g, 1 + int(c.length(30)));
    for (auto &e: h) {model::apply(e, j); events.push_back(e);}
    if (c.flag()) j.soft_checkpoint(); else j.hard_checkpoint();
    c.note("-- checkpoint");
    if (c.chance(1, 3)) verify("reading the text during the session");
   }
  }
  if (tool::exists(path)) verify("reading the text");
 }
 c.label("events", events.size());
 if (events.size() > 10 && sessions > 1) c.nontrivial();
}

static const Register r1({.id = "T01", .rule = "at least 3 live rows and 10 events", .quick = 6000 * 3, .thorough = 400000, .run = run_t01});
static const Register r2({.id = "T02", .rule = "at least 3 live rows", .quick = 12000 * 9, .thorough = 800000, .run = run_t02});
static const Register r4({.id = "T04", .rule = "at least 3 live rows and 12 events", .quick = 10000 * 6, .thorough = 600000, .run = run_t04});
static const Register r5({.id = "T05", .rule = "at least 4 live rows in the merged databases", .quick = 10000 * 6, .thorough = 600000, .run = run_t05});
static const Register r6({.id = "T06", .rule = "at least 4 valid or neutral lines and 2 invalid or mutated lines", .quick = 6000 * 9, .thorough = 1000000, .run = run_t06});
static const Register r9({.id = "T09", .rule = "more than 10 events in more than one session", .quick = 5000 * 9, .thorough = 1000000, .run = run_t09});
