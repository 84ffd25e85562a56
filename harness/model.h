// Events, a recording listener and an independent model of a database.
#pragma once
#include "vf.h"
#include "joedb/Writable.h"
#include "joedb/Readable.h"
#include "joedb/Freedom_Keeper.h"
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace model
{
 using joedb::Table_Id; using joedb::Field_Id; using joedb::Record_Id; using joedb::Type; using joedb::Blob;
 using joedb::to_underlying;

 enum T {t_null, t_string, t_int32, t_int64, t_reference, t_boolean, t_float32, t_float64, t_int8, t_int16, t_blob, t_count};
 static const char *const t_name[] = {"null", "string", "int32", "int64", "references", "boolean", "float32", "float64", "int8", "int16", "blob"};
 static_assert(int(Type::Type_Id::blob) == t_blob && int(Type::type_ids) == t_count);

 struct Value
 {
  T t = t_null;
  int64_t i = 0;  // integers, booleans, references, blob position
  int64_t n = 0;  // blob size
  std::string s;
  float f = 0;
  double d = 0;
  static Value def(T t)
  {
   Value v; v.t = t;
   if (t == t_reference) v.i = -1;
   return v;
  }
  std::string str() const
  {
   switch (t)
   {
    case t_string: return vf::quoted(s, 40) + "#" + std::to_string(vf::hash_bytes(s.data(), s.size()) % 100000);
    case t_float32: {uint32_t u; std::memcpy(&u, &f, 4); return "f" + std::to_string(u);}
    case t_float64: {uint64_t u; std::memcpy(&u, &d, 8); return "d" + std::to_string(u);}
    case t_blob: return "blob(" + std::to_string(i) + "," + std::to_string(n) + ")";
    case t_reference: return i < 0 ? std::string("null") : "@" + std::to_string(i);
    default: return std::to_string(i);
   }
  }
  bool same(const Value &v) const
  {
   if (t != v.t) return false;
   switch (t)
   {
    case t_string: return s == v.s;
    case t_float32: return std::memcmp(&f, &v.f, 4) == 0;
    case t_float64: return std::memcmp(&d, &v.d, 8) == 0;
    case t_blob: return i == v.i && n == v.n;
    case t_reference: return i == v.i || (i < 0 && v.i < 0);
    default: return i == v.i;
   }
  }
  bool less(const Value &v) const
  {
   switch (t)
   {
    case t_string: return s < v.s;
    case t_float32: return f < v.f;
    case t_float64: return d < v.d;
    default: return i < v.i;
   }
  }
  std::string get(const std::string *) const {return s;}
  void put(std::string &x) const {x = s;}
  void put(int8_t &x) const {x = int8_t(i);}
  void put(int16_t &x) const {x = int16_t(i);}
  void put(int32_t &x) const {x = int32_t(i);}
  void put(int64_t &x) const {x = i;}
  void put(char &x) const {x = char(i);}
  void put(float &x) const {x = f;}
  void put(double &x) const {x = d;}
  void put(Record_Id &x) const {x = Record_Id(i);}
  void put(Blob &x) const {x = Blob(i, n);}
 };

 inline Value mk(T t, const std::string &x) {Value v; v.t = t; v.s = x; return v;}
 inline Value mk(T t, std::string_view x) {Value v; v.t = t; v.s = std::string(x); return v;}
 inline Value mk(T t, int8_t x) {Value v; v.t = t; v.i = x; return v;}
 inline Value mk(T t, int16_t x) {Value v; v.t = t; v.i = x; return v;}
 inline Value mk(T t, int32_t x) {Value v; v.t = t; v.i = x; return v;}
 inline Value mk(T t, int64_t x) {Value v; v.t = t; v.i = x; return v;}
 inline Value mk(T t, char x) {Value v; v.t = t; v.i = x; return v;}
 inline Value mk(T t, bool x) {Value v; v.t = t; v.i = x; return v;}
 inline Value mk(T t, float x) {Value v; v.t = t; v.f = x; return v;}
 inline Value mk(T t, double x) {Value v; v.t = t; v.d = x; return v;}
 inline Value mk(T t, Record_Id x) {Value v; v.t = t; v.i = to_underlying(x); return v;}
 inline Value mk(T t, Blob x) {Value v; v.t = t; v.i = x.get_position(); v.n = x.get_size(); return v;}

 enum K {create_table, drop_table, rename_table, add_field, drop_field, rename_field, custom, comment, timestamp, valid_data, insert_into, delete_from, insert_vector, delete_vector, update, update_vector, blob, k_count};
 static const char *const k_name[] = {"create_table", "drop_table", "rename_table", "add_field", "drop_field", "rename_field", "custom", "comment", "timestamp", "valid_data", "insert_into", "delete_from", "insert_vector", "delete_vector", "update", "update_vector", "blob"};

 struct Event
 {
  K k = comment;
  int t = 0, f = 0;
  int64_t r = 0;
  uint64_t n = 0;
  std::string s;
  T type = t_null;
  int ref = 0;
  std::vector<Value> v;
  std::string str() const
  {
   std::string o = k_name[k];
   auto add = [&](const std::string &x) {o += ' '; o += x;};
   switch (k)
   {
    case create_table: add(vf::quoted(s)); break;
    case drop_table: add(std::to_string(t)); break;
    case rename_table: add(std::to_string(t)); add(vf::quoted(s)); break;
    case add_field: add(std::to_string(t)); add(vf::quoted(s)); add(t_name[type]); if (type == t_reference) add(std::to_string(ref)); break;
    case drop_field: add(std::to_string(t)); add(std::to_string(f)); break;
    case rename_field: add(std::to_string(t)); add(std::to_string(f)); add(vf::quoted(s)); break;
    case custom: case comment: add(Value{t_string, 0, 0, s}.str()); break;
    case timestamp: add(std::to_string(r)); break;
    case valid_data: break;
    case insert_into: case delete_from: add(std::to_string(t)); add(std::to_string(r)); break;
    case insert_vector: case delete_vector: add(std::to_string(t)); add(std::to_string(r)); add(std::to_string(n)); break;
    case update: case update_vector:
     add(std::to_string(t)); add(std::to_string(r)); add(std::to_string(f)); add(t_name[type]);
     if (k == update_vector) add("n=" + std::to_string(n));
     if (v.size() <= 4) for (auto &x: v) add(x.str());
     else
     {
      uint64_t h = 5;
      for (auto &x: v) {auto q = x.str(); h = vf::hash_bytes(q.data(), q.size(), h);}
      add("hash=" + std::to_string(h));
     }
     break;
    case blob: add(Value{t_string, 0, 0, s}.str()); break;
    default: break;
   }
   return o;
  }
 };

 inline Type make_type(T type, int ref)
 {
  return type == t_reference ? Type::reference(Table_Id(ref)) : Type(Type::Type_Id(type));
 }

 template<class V> struct Vec {std::vector<V> a; const V *data() const {return a.data();}};

 // returns the position of a blob
 inline Blob apply(const Event &e, joedb::Writable &w)
 {
  const Table_Id t = Table_Id(e.t);
  const Field_Id f = Field_Id(e.f);
  const Record_Id r(e.r);
  switch (e.k)
  {
   case create_table: w.create_table(e.s); break;
   case drop_table: w.drop_table(t); break;
   case rename_table: w.rename_table(t, e.s); break;
   case add_field: w.add_field(t, e.s, make_type(e.type, e.ref)); break;
   case drop_field: w.drop_field(t, f); break;
   case rename_field: w.rename_field(t, f, e.s); break;
   case custom: w.custom(e.s); break;
   case comment: w.comment(e.s); break;
   case timestamp: w.timestamp(e.r); break;
   case valid_data: w.valid_data(); break;
   case insert_into: w.insert_into(t, r); break;
   case delete_from: w.delete_from(t, r); break;
   case insert_vector: w.insert_vector(t, r, e.n); break;
   case delete_vector: w.delete_vector(t, r, e.n); break;
   case update:
    switch (e.type)
    {
     #define TYPE_MACRO(type, return_type, type_id, R, W)\
     case t_##type_id: {type x; e.v[0].put(x); w.update_##type_id(t, r, f, x);} break;
     #include "joedb/TYPE_MACRO.h"
     default: break;
    }
    break;
   case update_vector:
    switch (e.type)
    {
     #define TYPE_MACRO(type, return_type, type_id, R, W)\
     case t_##type_id:\
     {\
      std::unique_ptr<type[]> a(new type[e.v.size() + 1]);\
      for (size_t i = 0; i < e.v.size(); i++) e.v[i].put(a[i]);\
      w.update_vector_##type_id(t, r, f, e.v.size(), a.get());\
     }\
     break;
     #include "joedb/TYPE_MACRO.h"
     default: break;
    }
    break;
   case blob: return w.write_blob(e.s);
   default: break;
  }
  return Blob();
 }

 // Records every event it receives
 class Recorder: public joedb::Writable
 {
  public:
   std::vector<Event> events;
   std::vector<int64_t> starts, ends;
   std::vector<Blob> blobs;
   bool want_blobs = true;
   bool record_blob_position = false;
   int soft = 0, hard = 0, flushes = 0;
   int64_t position = 0;
   Event &add(K k) {events.emplace_back(); events.back().k = k; return events.back();}
   int64_t get_position() const override {return position;}
   void start_writing(int64_t p) override {starts.push_back(p);}
   void end_writing(int64_t p) override {ends.push_back(p);}
   void soft_checkpoint() override {soft++;}
   void hard_checkpoint() override {hard++;}
   void flush() override {flushes++;}
   void create_table(const std::string &name) override {add(model::create_table).s = name;}
   void drop_table(Table_Id t) override {add(model::drop_table).t = int(to_underlying(t));}
   void rename_table(Table_Id t, const std::string &name) override {auto &e = add(model::rename_table); e.t = int(to_underlying(t)); e.s = name;}
   void add_field(Table_Id t, const std::string &name, Type type) override
   {
    auto &e = add(model::add_field); e.t = int(to_underlying(t)); e.s = name; e.type = T(type.get_type_id());
    if (e.type == t_reference) e.ref = int(to_underlying(type.get_table_id()));
   }
   void drop_field(Table_Id t, Field_Id f) override {auto &e = add(model::drop_field); e.t = int(to_underlying(t)); e.f = int(to_underlying(f));}
   void rename_field(Table_Id t, Field_Id f, const std::string &name) override {auto &e = add(model::rename_field); e.t = int(to_underlying(t)); e.f = int(to_underlying(f)); e.s = name;}
   void custom(const std::string &name) override {add(model::custom).s = name;}
   void comment(const std::string &s) override {add(model::comment).s = s;}
   void timestamp(int64_t x) override {add(model::timestamp).r = x;}
   void valid_data() override {add(model::valid_data);}
   void insert_into(Table_Id t, Record_Id r) override {auto &e = add(model::insert_into); e.t = int(to_underlying(t)); e.r = to_underlying(r);}
   void delete_from(Table_Id t, Record_Id r) override {auto &e = add(model::delete_from); e.t = int(to_underlying(t)); e.r = to_underlying(r);}
   void insert_vector(Table_Id t, Record_Id r, size_t n) override {auto &e = add(model::insert_vector); e.t = int(to_underlying(t)); e.r = to_underlying(r); e.n = n;}
   void delete_vector(Table_Id t, Record_Id r, size_t n) override {auto &e = add(model::delete_vector); e.t = int(to_underlying(t)); e.r = to_underlying(r); e.n = n;}
   #define TYPE_MACRO(type_, return_type, type_id, R, W)\
   void update_##type_id(Table_Id t, Record_Id r, Field_Id f, return_type x) override\
   {\
    auto &e = add(model::update); e.t = int(to_underlying(t)); e.r = to_underlying(r); e.f = int(to_underlying(f)); e.type = t_##type_id;\
    e.v.push_back(mk(t_##type_id, x));\
   }\
   void update_vector_##type_id(Table_Id t, Record_Id r, Field_Id f, size_t n, const type_ *x) override\
   {\
    auto &e = add(model::update_vector); e.t = int(to_underlying(t)); e.r = to_underlying(r); e.f = int(to_underlying(f)); e.type = t_##type_id;\
    e.n = n;\
    for (size_t i = 0; i < n; i++) e.v.push_back(mk(t_##type_id, x[i]));\
   }
   #include "joedb/TYPE_MACRO.h"
   void on_blob(Blob b) override {blobs.push_back(b);}
   bool wants_blob_data() const override {return want_blobs;}
   Blob write_blob(std::string_view s) override {add(model::blob).s = std::string(s); return Blob();}
 };

 inline std::string compare_events(const std::vector<Event> &got, const std::vector<Event> &expected, size_t from = 0, size_t until = size_t(-1))
 {
  until = std::min(until, expected.size());
  for (size_t i = 0; i < std::max(got.size(), until - from); i++)
  {
   const std::string a = i < got.size() ? got[i].str() : "(nothing)";
   const std::string b = from + i < until ? expected[from + i].str() : "(nothing)";
   if (a != b) return "event " + std::to_string(from + i) + ": expected [" + b + "] got [" + a + "]";
  }
  return "";
 }

 // Independent model of the interpreted database
 struct Field {std::string name; T type; int ref;};
 struct Table
 {
  std::string name;
  std::map<int, Field> fields;
  std::map<int64_t, std::map<int, Value>> rows;
  int last_field = 0;
  int64_t high = 0; // one more than the greatest row id ever used
 };

 inline bool identifier(const std::string &s)
 {
  if (s.empty() || (s[0] >= '0' && s[0] <= '9')) return false;
  for (size_t i = 0; i < s.size(); i++)
  {
   const char c = s[i];
   const bool ok = c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9');
   if (!ok || (c == '_' && i && s[i - 1] == '_')) return false;
  }
  return true;
 }

 struct Db
 {
  std::map<int, Table> tables;
  int last_table = 0;

  bool has_name(const std::string &s) const {for (auto &[i, t]: tables) if (t.name == s) return true; return false;}
  static bool has_field(const Table &t, const std::string &s) {for (auto &[i, f]: t.fields) if (f.name == s) return true; return false;}

  // does the event make sense?
  bool valid(const Event &e) const
  {
   auto it = tables.find(e.t);
   const bool tab = it != tables.end();
   switch (e.k)
   {
    case create_table: return identifier(e.s) && !has_name(e.s);
    case drop_table: return tab;
    case rename_table: return tab && identifier(e.s) && !has_name(e.s);
    case add_field: return tab && identifier(e.s) && !has_field(it->second, e.s);
    case drop_field: return tab && it->second.fields.count(e.f);
    case rename_field: return tab && it->second.fields.count(e.f) && identifier(e.s) && !has_field(it->second, e.s);
    case insert_into: return tab && e.r >= 0 && !it->second.rows.count(e.r);
    case delete_from: return tab && it->second.rows.count(e.r);
    case insert_vector:
     if (!tab || e.r < 0) return false;
     for (uint64_t i = 0; i < e.n; i++) if (it->second.rows.count(e.r + int64_t(i))) return false;
     return true;
    case delete_vector: case update_vector:
     if (!tab) return false;
     for (uint64_t i = 0; i < e.n; i++) if (!it->second.rows.count(e.r + int64_t(i))) return false;
     if (e.k == delete_vector) return true;
     {auto f = it->second.fields.find(e.f); return f != it->second.fields.end() && f->second.type == e.type;}
    case update:
     if (!tab || !it->second.rows.count(e.r)) return false;
     {auto f = it->second.fields.find(e.f); return f != it->second.fields.end() && f->second.type == e.type;}
    default: return true;
   }
  }

  void add_row(Table &t, int64_t r)
  {
   auto &row = t.rows[r];
   row.clear();
   for (auto &[i, f]: t.fields) row[i] = Value::def(f.type);
   t.high = std::max(t.high, r + 1);
  }

  void apply(const Event &e)
  {
   switch (e.k)
   {
    case create_table: tables[++last_table].name = e.s; break;
    case drop_table: tables.erase(e.t); break;
    case rename_table: tables[e.t].name = e.s; break;
    case add_field:
    {
     Table &t = tables[e.t];
     const int f = ++t.last_field;
     t.fields[f] = {e.s, e.type, e.ref};
     for (auto &[r, row]: t.rows) row[f] = Value::def(e.type);
    }
    break;
    case drop_field:
    {
     Table &t = tables[e.t];
     t.fields.erase(e.f);
     for (auto &[r, row]: t.rows) row.erase(e.f);
    }
    break;
    case rename_field: tables[e.t].fields[e.f].name = e.s; break;
    case insert_into: add_row(tables[e.t], e.r); break;
    case delete_from: tables[e.t].rows.erase(e.r); break;
    case insert_vector: for (uint64_t i = 0; i < e.n; i++) add_row(tables[e.t], e.r + int64_t(i)); break;
    case delete_vector: for (uint64_t i = 0; i < e.n; i++) tables[e.t].rows.erase(e.r + int64_t(i)); break;
    case update: tables[e.t].rows[e.r][e.f] = e.v[0]; break;
    case update_vector: for (size_t i = 0; i < e.v.size(); i++) tables[e.t].rows[e.r + int64_t(i)][e.f] = e.v[i]; break;
    default: break;
   }
  }
 };

 inline Value read(const joedb::Readable &db, int t, int64_t r, int f, T type)
 {
  switch (type)
  {
   #define TYPE_MACRO(type_, return_type, type_id, R, W)\
   case t_##type_id: return mk(t_##type_id, db.get_##type_id(Table_Id(t), Record_Id(r), Field_Id(f)));
   #include "joedb/TYPE_MACRO.h"
   default: return Value();
  }
 }

 // Compare a Readable with the model; returns a description of the first difference
 inline std::string compare(const joedb::Readable &db, const Db &m)
 {
  const auto &tables = db.get_tables();
  if (tables.size() != m.tables.size()) return "number of tables: expected " + std::to_string(m.tables.size()) + " got " + std::to_string(tables.size());
  for (auto &[ti, t]: m.tables)
  {
   auto it = tables.find(Table_Id(ti));
   if (it == tables.end()) return "missing table " + std::to_string(ti);
   if (it->second != t.name) return "table name: expected " + t.name + " got " + it->second;
   const auto &fields = db.get_fields(Table_Id(ti));
   if (fields.size() != t.fields.size()) return "number of fields of " + t.name;
   for (auto &[fi, f]: t.fields)
   {
    auto jt = fields.find(Field_Id(fi));
    if (jt == fields.end()) return "missing field " + std::to_string(fi) + " of " + t.name;
    if (jt->second != f.name) return "field name: expected " + f.name + " got " + jt->second;
    const Type &type = db.get_field_type(Table_Id(ti), Field_Id(fi));
    if (T(type.get_type_id()) != f.type) return "type of " + t.name + "." + f.name;
    if (f.type == t_reference && int(to_underlying(type.get_table_id())) != f.ref) return "reference type of " + t.name + "." + f.name;
   }
   const joedb::Freedom_Keeper &fk = db.get_freedom(Table_Id(ti));
   if (to_underlying(fk.get_used_count()) != int64_t(t.rows.size())) return "row count of " + t.name + ": expected " + std::to_string(t.rows.size()) + " got " + std::to_string(to_underlying(fk.get_used_count()));
   for (int64_t r = -1; r <= t.high + 1; r++)
    if (fk.is_used(Record_Id(r)) != bool(t.rows.count(r))) return "liveness of row " + std::to_string(r) + " of " + t.name;
   for (auto &[r, row]: t.rows)
   {
    for (auto &[fi, v]: row)
    {
     if (v.t == t_null) continue;
     const Value g = read(db, ti, r, fi, v.t);
     if (!g.same(v)) return "value of " + t.name + "[" + std::to_string(r) + "]." + t.fields.at(fi).name + ": expected " + v.str() + " got " + g.str();
    }
   }
  }
  return "";
 }

 ///////////////////////////////////////////////////////////////////////////
 // Generators
 ///////////////////////////////////////////////////////////////////////////
 struct Options
 {
  bool schema = true;      // schema events after the beginning
  bool misc = true;        // comments, timestamps, custom, valid_data
  bool blobs = true;       // blob events and blob fields
  bool blob_fields = true;
  bool drops = true;
  bool utf8 = false;       // strings restricted to UTF-8
  bool finite = false;     // no inf or nan
  int max_vector = 20;
  int big_vector = 0;      // >0: sometimes vectors up to that size
  size_t max_string = 40;
  size_t big_string = 0;
  int64_t max_row = 40;
  bool ref_dangling = true;
  bool custom_names = true;
  bool near_utf8 = false;  // some strings are almost UTF-8
 };

 // pieces at the boundaries of UTF-8
 inline std::string near_utf8(vf::Ctx &c)
 {
  static const char *const k[] = {"a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc0\x80", "\xc1\xbf", "\xc2\x80", "\xdf\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xe0\xa0\x80", "\xed\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xee\x80\x80", "\xef\xbf\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf7\xbf\xbf\xbf", "\xf8\x88\x80\x80\x80", "\xff", "\xfe", "\x80", "\xbf", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\"", "\\", "/", "\x7f", "\x1f", "\n", "?" "?", "\\u0041", "\xe2\x80\xa8"};
  std::string r;
  for (uint64_t n = 1 + c.below(4); n-- > 0;)
  {
   r += k[c.below(std::size(k))];
   if (c.chance(1, 8)) r += char(0x80 + c.below(128));
   if (c.chance(1, 12)) r += '\0';
  }
  return r;
 }

 inline float make_float(vf::Ctx &c, bool finite)
 {
  if (!finite && c.chance(1, 10)) {static const float k[] = {__builtin_inff(), -__builtin_inff(), __builtin_nanf("")}; return k[c.below(3)];}
  if (c.chance(1, 4)) {uint32_t u = uint32_t(c.raw()); float f; std::memcpy(&f, &u, 4); if (!(f - f == 0)) f = 0.1f; return f;}
  double d = c.real();
  float f = float(d);
  if (!(f - f == 0)) f = 3.4028235e38f;
  return f;
 }

 inline Value make_value(vf::Ctx &c, const Options &o, const Db &m, const Field &f)
 {
  Value v; v.t = f.type;
  switch (f.type)
  {
   case t_string:
   {
    size_t max = o.max_string;
    if (o.big_string && c.chance(1, 30)) max = o.big_string;
    if (o.near_utf8 && c.chance(1, 4)) {v.s = near_utf8(c); break;}
    v.s = o.utf8 ? c.utf8(max) : c.bytes(max);
   }
   break;
   case t_int8: v.i = int8_t(c.integer()); break;
   case t_int16: v.i = int16_t(c.integer()); break;
   case t_int32: v.i = int32_t(c.integer()); break;
   case t_int64: v.i = c.integer(); break;
   case t_boolean: v.i = c.flag(); break;
   case t_float32: v.f = make_float(c, o.finite); break;
   case t_float64: if (!o.finite && c.chance(1, 10)) {static const double k[] = {__builtin_inf(), -__builtin_inf(), __builtin_nan("")}; v.d = k[c.below(3)];} else v.d = c.real(); break;
   case t_reference:
   {
    v.i = -1;
    auto it = m.tables.find(f.ref);
    const int mode = int(c.below(8));
    if (mode == 0) v.i = -1;
    else if (mode == 1 && o.ref_dangling) v.i = int64_t(c.below(100));
    else if (it != m.tables.end() && !it->second.rows.empty())
    {
     auto jt = it->second.rows.begin();
     std::advance(jt, c.below(it->second.rows.size()));
     v.i = jt->first;
    }
   }
   break;
   case t_blob: v.i = int64_t(c.below(1000)); v.n = int64_t(c.below(1000)); break;
   default: break;
  }
  return v;
 }

 inline std::string fresh_name(vf::Ctx &c, const std::function<bool(const std::string &)> &used)
 {
  std::string s = c.identifier();
  // remove double underscores
  std::string r;
  for (char ch: s) if (!(ch == '_' && !r.empty() && r.back() == '_')) r += ch;
  while (used(r)) r += char('a' + c.below(26));
  return r;
 }

 inline int pick_table(vf::Ctx &c, const Db &m)
 {
  if (m.tables.empty()) return 0;
  auto it = m.tables.begin();
  std::advance(it, c.below(m.tables.size()));
  return it->first;
 }
 inline int pick_field(vf::Ctx &c, const Table &t)
 {
  if (t.fields.empty()) return 0;
  auto it = t.fields.begin();
  std::advance(it, c.below(t.fields.size()));
  return it->first;
 }

 struct Gen
 {
  vf::Ctx &c;
  Options o;
  Db m;
  // locality: events often continue on the same table, record or field
  int lt = 0, lf = 0; int64_t lr = -1;

  Gen(vf::Ctx &c, Options o): c(c), o(o) {}

  T pick_type()
  {
   for (;;)
   {
    T t = T(1 + c.below(t_count - 1));
    if (t == t_blob && !o.blob_fields) t = t_int64;
    return t;
   }
  }

  Event make_create_table()
  {
   Event e; e.k = create_table;
   e.s = fresh_name(c, [&](const std::string &s) {return m.has_name(s);});
   return e;
  }
  Event make_add_field(int t)
  {
   Event e; e.k = add_field; e.t = t;
   e.s = fresh_name(c, [&](const std::string &s) {return Db::has_field(m.tables.at(t), s);});
   e.type = pick_type();
   if (e.type == t_reference)
   {
    e.ref = pick_table(c, m);
   }
   return e;
  }
  Event make_comment()
  {
   Event e;
   switch (c.below(o.blobs ? 5 : 4))
   {
    case 0: e.k = comment; e.s = o.utf8 ? c.utf8(o.max_string) : c.bytes(o.big_string && c.chance(1, 8) ? o.big_string : o.max_string); break;
    case 1: e.k = timestamp; e.r = c.integer(); break;
    case 2: e.k = valid_data; break;
    case 3: e.k = custom; e.s = o.custom_names ? fresh_name(c, [](const std::string &) {return false;}) : "x"; break;
    default: e.k = blob; e.s = c.bytes(o.big_string && c.chance(1, 4) ? o.big_string : o.max_string * 2); break;
   }
   return e;
  }

  // next valid event, applied to the model
  Event next()
  {
   Event e = choose();
   m.apply(e);
   if (e.k == insert_into || e.k == insert_vector || e.k == update || e.k == update_vector) {lt = e.t; lr = e.r; if (e.k == update || e.k == update_vector) lf = e.f;}
   return e;
  }

  Event choose()
  {
   if (m.tables.empty()) return o.misc && c.chance(1, 5) ? make_comment() : make_create_table();
   const int w = int(c.below(100));
   int t = m.tables.count(lt) && c.below(3) != 0 ? lt : pick_table(c, m);
   if (!m.tables.count(t)) t = pick_table(c, m);
   Table &tab = m.tables.at(t);
   if (w >= 92 && o.misc) return make_comment();
   if (w >= 84 && o.schema)
   {
    switch (c.below(o.drops ? 7 : 5))
    {
     case 0: case 1: if (m.tables.size() < 12) return make_create_table(); break;
     case 2: return make_add_field(t);
     case 3: {Event e; e.k = rename_table; e.t = t; e.s = fresh_name(c, [&](const std::string &s) {return m.has_name(s);}); return e;}
     case 4: if (!tab.fields.empty()) {Event e; e.k = rename_field; e.t = t; e.f = pick_field(c, tab); e.s = fresh_name(c, [&](const std::string &s) {return Db::has_field(tab, s);}); return e;} break;
     case 5: if (m.tables.size() > 1) {Event e; e.k = drop_table; e.t = t; return e;} break;
     case 6: if (tab.fields.size() > 1) {Event e; e.k = drop_field; e.t = t; e.f = pick_field(c, tab); return e;} break;
    }
   }
   if (tab.fields.empty() && c.below(3) != 0) return make_add_field(t);
   if (w >= 76 && !tab.rows.empty())
   {
    Event e; e.t = t;
    auto it = tab.rows.begin(); std::advance(it, c.below(tab.rows.size()));
    e.r = it->first;
    if (c.chance(1, 3))
    {
     e.k = delete_vector;
     uint64_t max = 0;
     while (tab.rows.count(e.r + int64_t(max)) && max < 30) max++;
     e.n = 1 + c.below(max);
     if (c.chance(1, 20)) e.n = 0;
    }
    else e.k = delete_from;
    return e;
   }
   if (w >= 40 && !tab.rows.empty() && !tab.fields.empty())
   {
    Event e; e.t = t;
    e.f = lt == t && tab.fields.count(lf) && c.below(2) ? lf : pick_field(c, tab);
    const Field &f = tab.fields.at(e.f);
    e.type = f.type;
    if (f.type == t_null) return make_comment_or_insert(t);
    // same record, next record, or another one
    switch (c.below(4))
    {
     case 0: e.r = lr; break;
     case 1: e.r = lr + 1; break;
     default: {auto it = tab.rows.begin(); std::advance(it, c.below(tab.rows.size())); e.r = it->first;}
    }
    if (!tab.rows.count(e.r)) e.r = tab.rows.begin()->first;
    if (c.chance(1, 4))
    {
     e.k = update_vector;
     uint64_t max = 0;
     const uint64_t limit = o.big_vector && c.chance(1, 3) ? uint64_t(o.big_vector) : uint64_t(o.max_vector);
     while (tab.rows.count(e.r + int64_t(max)) && max < limit) max++;
     e.n = max - c.below(max);
     const bool uniform = e.n > 40;
     Value u = make_value(c, o, m, f);
     for (uint64_t i = 0; i < e.n; i++)
     {
      if (!uniform) e.v.push_back(i ? make_value(c, o, m, f) : u);
      else
      {
       Value x = u;
       x.i = f.type == t_reference ? int64_t(i * 7 % 50) : f.type == t_boolean ? int64_t(i & 1) : f.type == t_int8 ? int8_t(u.i + int64_t(i)) : f.type == t_int16 ? int16_t(u.i + int64_t(i)) : f.type == t_int32 ? int32_t(u.i + int64_t(i)) : int64_t(uint64_t(u.i) + i);
       x.f = float(i); x.d = double(i) / 3;
       if (f.type == t_string) {x.s = u.s.substr(0, 20) + std::to_string(i);}
       if (f.type == t_blob) {x.i = int64_t(i); x.n = int64_t(i * 3);}
       if (f.type != t_float32) x.f = 0;
       e.v.push_back(x);
      }
     }
    }
    else
    {
     e.k = update;
     e.v.push_back(make_value(c, o, m, f));
    }
    return e;
   }
   return make_insert(t);
  }

  Event make_comment_or_insert(int t) {return o.misc ? make_comment() : make_insert(t);}

  Event make_insert(int t)
  {
   Table &tab = m.tables.at(t);
   Event e; e.t = t;
   int64_t r;
   switch (c.below(4))
   {
    case 0: case 1: r = lt == t ? lr + 1 : tab.high; break;
    case 2: r = tab.high; break;
    default: r = int64_t(c.below(uint64_t(o.max_row))); break;
   }
   while (r < 0 || tab.rows.count(r)) r++;
   e.r = r;
   if (c.chance(1, 4))
   {
    e.k = insert_vector;
    uint64_t max = 0;
    const uint64_t limit = o.big_vector && c.chance(1, 3) ? uint64_t(o.big_vector) : uint64_t(o.max_vector);
    const uint64_t want = 1 + c.below(limit);
    while (!tab.rows.count(r + int64_t(max)) && max < want) max++;
    e.n = max;
    if (c.chance(1, 40)) e.n = 0;
   }
   else e.k = insert_into;
   return e;
  }

  // a starting schema
  void schema(std::vector<Event> &out, int tables, int fields)
  {
   for (int i = 0; i < tables; i++) {Event e = make_create_table(); m.apply(e); out.push_back(e);}
   for (int i = 0; i < fields; i++) {Event e = make_add_field(pick_table(c, m)); m.apply(e); out.push_back(e);}
  }
 };
}
