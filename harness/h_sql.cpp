// vf: libs=core tools=joedb_logdump
// T03 SQL export
#include "model.h"
#include "files.h"
#include "tool.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/interpreted/Database.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/ui/SQL_Dump_Writable.h"
#include "joedb/ui/dump.h"
#include <cmath>
#include <limits>
#include <sqlite3.h>
using namespace joedb;
using namespace vf;
using model::Event; using model::Gen; using model::Value;

struct Sql
{
 sqlite3 *db = nullptr;
 Sql() {sqlite3_open(":memory:", &db);}
 ~Sql() {sqlite3_close(db);}
 std::string exec(const std::string &text)
 {
  if (text.find('\0') != std::string::npos) return "the text contains a null character";
  char *e = nullptr;
  sqlite3_exec(db, text.c_str(), nullptr, nullptr, &e);
  std::string r;
  if (e) {r = e; sqlite3_free(e);}
  return r;
 }
};

static std::string lower(std::string s) {for (char &x: s) x = char(tolower(x)); return s;}

static bool acceptable(const Event &e, const model::Db &m)
{
 const std::string s = lower(e.s);
 if (e.k == model::create_table || e.k == model::rename_table)
 {
  if (s.rfind("sqlite_", 0) == 0) return false;
  for (auto &[i, t]: m.tables) if (lower(t.name) == s && !(e.k == model::rename_table && i == e.t)) return false;
 }
 if (e.k == model::add_field || e.k == model::rename_field)
  for (auto &[i, f]: m.tables.at(e.t).fields) if (lower(f.name) == s && !(e.k == model::rename_field && i == e.f)) return false;
 if ((e.k == model::insert_vector || e.k == model::delete_vector || e.k == model::update_vector) && e.n == 0) return false;
 return true;
}

static bool close_enough(double a, double b)
{
 return std::fabs(a - b) <= std::fabs(b) * 1e-14 + 1e-300;
}

static void check(Ctx &c, const std::string &text, const model::Db &m, const std::string *blobs, const std::string &what)
{
 Sql s;
 const std::string e = s.exec(text);
 if (!e.empty())
 {
  c.fail(what + ": refused by the SQL engine: " + e);
 }
 std::set<std::string> names;
 sqlite3_stmt *st;
 sqlite3_prepare_v2(s.db, "SELECT name FROM sqlite_master", -1, &st, nullptr);
 while (sqlite3_step(st) == SQLITE_ROW) names.insert(reinterpret_cast<const char *>(sqlite3_column_text(st, 0)));
 sqlite3_finalize(st);
 std::set<std::string> expected;
 for (auto &[i, t]: m.tables) expected.insert(t.name);
 c.check(names == expected, what + ": names of tables");
 for (auto &[ti, t]: m.tables)
 {
  std::vector<std::string> columns = {"__id"}, got;
  for (auto &[fi, f]: t.fields) columns.push_back(f.name);
  sqlite3_prepare_v2(s.db, ("PRAGMA table_info(\"" + t.name + "\")").c_str(), -1, &st, nullptr);
  while (sqlite3_step(st) == SQLITE_ROW) got.push_back(reinterpret_cast<const char *>(sqlite3_column_text(st, 1)));
  sqlite3_finalize(st);
  c.check(got == columns, what + ": columns of " + t.name);
  std::map<std::string, std::string> fk;
  sqlite3_prepare_v2(s.db, ("PRAGMA foreign_key_list(\"" + t.name + "\")").c_str(), -1, &st, nullptr);
  while (sqlite3_step(st) == SQLITE_ROW) fk[reinterpret_cast<const char *>(sqlite3_column_text(st, 3))] = reinterpret_cast<const char *>(sqlite3_column_text(st, 2));
  sqlite3_finalize(st);
  size_t refs = 0;
  for (auto &[fi, f]: t.fields) if (f.type == model::t_reference)
  {
   refs++;
   c.check(fk.count(f.name), what + ": " + t.name + "." + f.name + " is not a reference");
   auto it = m.tables.find(f.ref);
   if (it != m.tables.end()) c.equal(fk[f.name], it->second.name, what + ": table referenced by " + t.name + "." + f.name);
  }
  c.equal(fk.size(), refs, what + ": references of " + t.name);
  std::string q = "SELECT ";
  for (size_t i = 0; i < columns.size(); i++) q += (i ? ", \"" : "\"") + columns[i] + "\"";
  q += " FROM \"" + t.name + "\" ORDER BY \"__id\"";
  if (sqlite3_prepare_v2(s.db, q.c_str(), -1, &st, nullptr) != SQLITE_OK) c.fail(what + ": " + sqlite3_errmsg(s.db));
  auto row = t.rows.begin();
  size_t count = 0;
  std::string error;
  while (sqlite3_step(st) == SQLITE_ROW)
  {
   count++;
   if (row == t.rows.end()) continue;
   if (sqlite3_column_int64(st, 0) != row->first && error.empty()) error = "row " + std::to_string(row->first) + ": got identifier " + std::to_string(sqlite3_column_int64(st, 0));
   int k = 1;
   for (auto &[fi, f]: t.fields)
   {
    const Value &v = row->second.at(fi);
    const int type = sqlite3_column_type(st, k);
    bool ok;
    std::string x = type == SQLITE_NULL ? "NULL" : std::string(static_cast<const char *>(sqlite3_column_blob(st, k)) ? static_cast<const char *>(sqlite3_column_blob(st, k)) : "", size_t(sqlite3_column_bytes(st, k)));
    if (type == SQLITE_NULL)
    {
     switch (f.type)
     {
      case model::t_reference: ok = v.i < 0; break;
      case model::t_string: ok = v.s.empty(); break;
      case model::t_float32: ok = v.f == 0; break;
      case model::t_float64: ok = v.d == 0; break;
      case model::t_blob: ok = !blobs || v.n == 0; break;
      default: ok = v.i == 0;
     }
    }
    else switch (f.type)
    {
     case model::t_string: ok = x == v.s; break;
     case model::t_float32: ok = close_enough(sqlite3_column_double(st, k), double(v.f)) && (type == SQLITE_FLOAT); break;
     case model::t_float64: ok = close_enough(sqlite3_column_double(st, k), v.d) && (type == SQLITE_FLOAT); break;
     case model::t_blob: ok = blobs && x == (v.n ? blobs->substr(size_t(v.i) , size_t(v.n)) : ""); break;
     default: ok = type == SQLITE_INTEGER && sqlite3_column_int64(st, k) == v.i;
    }
    if (!ok && error.empty()) error = t.name + "[" + std::to_string(row->first) + "]." + f.name + ": expected " + v.str() + " got " + vf::quoted(x);
    k++;
   }
   ++row;
  }
  sqlite3_finalize(st);
  c.check(error.empty(), what + ": " + error);
  c.equal(count, t.rows.size(), what + ": number of rows of " + t.name);
 }
}

static void run_t03(Ctx &c)
{
 Destructor_Logger::set_logger(nullptr);
 model::Options o;
 o.finite = true;
 o.near_utf8 = true;
 o.blobs = c.flag();
 o.blob_fields = true;
 o.max_row = 25;
 Gen g(c, o);
 std::string data;
 std::vector<Blob> blobs;
 size_t n_events = 0;
 {
  files::View file(data, Open_Mode::write_existing_or_create_new);
  Writable_Journal j(file);
  const int n = 5 + int(c.length(100));
  for (int i = 0; i < n; i++)
  {
   Event e = g.choose();
   if (o.blobs && c.chance(1, 12)) {e = Event(); e.k = model::blob; e.s = c.bytes(60);}
   if (!acceptable(e, g.m)) continue;
   if (e.type == model::t_blob && (e.k == model::update || e.k == model::update_vector))
    for (auto &v: e.v)
    {
     const Blob b = blobs.empty() ? Blob() : blobs[c.below(blobs.size())];
     v = model::mk(model::t_blob, b);
    }
   c.note(e.str());
   g.m.apply(e);
   if (e.k == model::insert_into || e.k == model::insert_vector || e.k == model::update || e.k == model::update_vector) {g.lt = e.t; g.lr = e.r;}
   const Blob b = model::apply(e, j);
   if (e.k == model::blob) blobs.push_back(b);
   n_events++;
  }
  j.soft_checkpoint();
 }
 // contents of the blobs: positions are positions in the file
 std::string content = data;
 const bool with_blobs = c.flag();
 // blob positions point to the size, the data follows
 model::Db m = g.m;
 for (auto &[ti, t]: m.tables) for (auto &[r, row]: t.rows) for (auto &[f, v]: row) if (v.t == model::t_blob && v.n == 0) v.i = 0;
 {
  std::ostringstream out;
  out.precision(std::numeric_limits<double>::max_digits10);
  files::View file(data, Open_Mode::read_existing);
  Readonly_Journal j(file);
  SQL_Dump_Writable w(out, with_blobs ? &file : nullptr);
  j.replay_log(w);
  check(c, out.str(), m, with_blobs ? &content : nullptr, "history");
 }
 {
  Database db;
  files::View file(data, Open_Mode::read_existing);
  Readonly_Journal j(file);
  j.replay_log(db);
  std::ostringstream out;
  out.precision(std::numeric_limits<double>::max_digits10);
  SQL_Dump_Writable w(out, with_blobs ? &file : nullptr);
  joedb::dump(db, w);
  check(c, out.str(), m, with_blobs ? &content : nullptr, "database");
 }
 if (c.chance(1, 25))
 {
  clear_scratch(c);
  tool::spit(c.scratch + "/a.joedb", data);
  std::vector<std::string> args = {"joedb_logdump", "--sql", "a.joedb"};
  if (with_blobs) args.insert(args.begin() + 2, "--blob");
  if (c.flag()) args.insert(args.begin() + 2, "--load");
  const tool::Result r = tool::run(c, args);
  c.equal(r.rc, 0, "status of joedb_logdump");
  check(c, r.out, m, with_blobs ? &content : nullptr, "joedb_logdump --sql");
  c.label("tool");
 }
 size_t rows = 0;
 for (auto &[i, t]: g.m.tables) rows += t.rows.size();
 c.label("events", n_events);
 if (with_blobs && !blobs.empty()) c.label("with blobs");
 if (rows >= 3 && n_events > 10) c.nontrivial();
}

static const Register r3({.id = "T03", .rule = "at least 3 rows and 10 events", .quick = 18000, .thorough = 400000, .run = run_t03});
