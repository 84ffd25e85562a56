// vf: libs=core schemas=10
// D03 compiled database, D04 indexes, D05 schema upgrade, D06 all of them on fresh schemas
#include "compiled.h"
#include "files.h"
#include "joedb/interpreted/Database.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/concurrency/Connection.h"
#include "joedb/error/Out_Of_Date.h"
#include <unistd.h>
using namespace joedb;
using namespace vf;
using namespace vfc;
using model::Gen; using model::t_null;

namespace
{
 // Model of a database with indexes
 struct M
 {
  const vfc::Schema &s;
  model::Db db;
  std::vector<std::map<int64_t, std::vector<Value>>> ix;
  M(const vfc::Schema &s): s(s), ix(s.indices.size()) {}

  static bool less(const std::vector<Value> &a, const std::vector<Value> &b)
  {
   for (size_t i = 0; i < a.size(); i++) {if (a[i].less(b[i])) return true; if (b[i].less(a[i])) return false;}
   return false;
  }
  static bool equal(const std::vector<Value> &a, const std::vector<Value> &b) {return !less(a, b) && !less(b, a);}

  Value value(int t, int64_t r, int f, const std::map<int, Value> *over = nullptr) const
  {
   if (over) {auto i = over->find(f); if (i != over->end()) return i->second;}
   const auto &row = db.tables.at(t).rows.at(r);
   auto i = row.find(f);
   if (i != row.end()) return i->second;
   return Value::def(s.final.tables.at(t).fields.at(f).type);
  }
  std::vector<Value> key(const vfc::Index &x, int64_t r, const std::map<int, Value> *over = nullptr) const
  {
   std::vector<Value> k;
   for (int f: x.fields) k.push_back(value(x.table, r, f, over));
   return k;
  }
  // name of the first index that refuses the update, or nothing
  const vfc::Index *refused(const Event &e) const
  {
   if (e.k != model::update && e.k != model::update_vector) return nullptr;
   for (size_t i = 0; i < ix.size(); i++)
   {
    const vfc::Index &x = s.indices[i];
    if (!x.unique || !x.trigger(e.t, e.f)) continue;
    std::vector<std::vector<Value>> added;
    for (size_t j = 0; j < e.v.size(); j++)
    {
     std::map<int, Value> over{{e.f, e.v[j]}};
     added.push_back(key(x, e.r + int64_t(j), &over));
     for (size_t l = 0; l < j; l++) if (equal(added[l], added[j])) return &x;
     for (auto &[r, k]: ix[i]) if ((r < e.r || r >= e.r + int64_t(e.v.size())) && equal(k, added[j])) return &x;
    }
   }
   return nullptr;
  }
  void forget(int t, int64_t r)
  {
   for (size_t i = 0; i < ix.size(); i++) if (s.indices[i].table == t) ix[i].erase(r);
  }
  void apply(const Event &e)
  {
   db.apply(e);
   switch (e.k)
   {
    case model::delete_from: forget(e.t, e.r); break;
    case model::delete_vector: for (uint64_t i = 0; i < e.n; i++) forget(e.t, e.r + int64_t(i)); break;
    case model::update: case model::update_vector:
     for (size_t i = 0; i < ix.size(); i++)
      if (s.indices[i].trigger(e.t, e.f))
       for (size_t j = 0; j < e.v.size(); j++) ix[i][e.r + int64_t(j)] = key(s.indices[i], e.r + int64_t(j));
    break;
    default: break;
   }
  }
  int64_t high() const {int64_t h = 0; for (auto &[i, t]: db.tables) h = std::max(h, t.high); return h;}
 };

 Event ev(model::K k, int t = 0, int64_t r = 0, uint64_t n = 0) {Event e; e.k = k; e.t = t; e.r = r; e.n = n; return e;}

 std::string keystr(const std::vector<Value> &k) {std::string s = "("; for (auto &x: k) s += x.str() + " "; return s + ")";}

 // everything that can be read
 void check_indices(Ctx &c, const Reader &r, const M &m)
 {
  for (size_t i = 0; i < m.ix.size(); i++)
  {
   const vfc::Index &x = m.s.indices[i];
   const auto content = r.index(int(i));
   const std::string what = "index " + x.name;
   if (content.size() != m.ix[i].size()) c.fail(what + ": " + std::to_string(content.size()) + " rows, expected " + std::to_string(m.ix[i].size()));
   std::set<int64_t> seen;
   for (size_t j = 0; j < content.size(); j++)
   {
    auto &[k, row] = content[j];
    auto it = m.ix[i].find(row);
    if (it == m.ix[i].end() || !seen.insert(row).second) c.fail(what + ": unexpected row " + std::to_string(row));
    if (!M::equal(k, it->second)) c.fail(what + ": row " + std::to_string(row) + " has key " + keystr(k) + ", expected " + keystr(it->second));
    if (j && M::less(k, content[j - 1].first)) c.fail(what + ": out of order");
    if (j && x.unique && M::equal(k, content[j - 1].first)) c.fail(what + ": duplicate key");
    if (x.unique)
    {
     const int64_t n = r.next_unique(int(i), row), p = r.previous_unique(int(i), row);
     const int64_t en = j + 1 < content.size() ? content[j + 1].second : -1, ep = j ? content[j - 1].second : -1;
     if (n != en || p != ep) c.fail(what + ": neighbors of row " + std::to_string(row));
    }
   }
   // finding every key, and others
   int done = 0;
   auto find = [&](const std::vector<Value> &k)
   {
    std::set<int64_t> expected;
    for (auto &[row, key]: m.ix[i]) if (M::equal(k, key)) expected.insert(row);
    const auto f = r.find(int(i), k);
    if (std::set<int64_t>(f.begin(), f.end()) != expected || f.size() != expected.size()) c.fail(what + ": find " + keystr(k) + " found " + std::to_string(f.size()) + " rows, expected " + std::to_string(expected.size()));
   };
   for (auto &[row, key]: m.ix[i])
   {
    if (++done > 30) break;
    find(key);
    auto k = key;
    Value &v = k[k.size() - 1];
    if (v.t == model::t_string) v.s += "x"; else if (v.t == model::t_float32) v.f += 1; else if (v.t == model::t_float64) v.d += 1; else if (v.t == model::t_boolean) v.i = !v.i; else if (v.t == model::t_reference) v.i = v.i < 0 ? 3 : -1; else if (v.t == model::t_int8) v.i = int8_t(v.i + 1); else if (v.t == model::t_int16) v.i = int16_t(v.i + 1); else if (v.t == model::t_int32) v.i = int32_t(uint32_t(v.i) + 1); else v.i = int64_t(uint64_t(v.i) + 1);
    find(k);
   }
   std::vector<Value> d;
   for (int f: x.fields) d.push_back(Value::def(m.s.final.tables.at(x.table).fields.at(f).type));
   find(d);
  }
 }

 void check_db(Ctx &c, const Reader &r, const M &m, const char *who, Writer *w = nullptr)
 {
  try
  {
   for (auto &[ti, t]: m.s.final.tables)
   {
    static const model::Table none;
    auto it = m.db.tables.find(ti);
    const model::Table &mt = it == m.db.tables.end() ? none : it->second;
    std::vector<int64_t> live;
    for (auto &[row, x]: mt.rows) live.push_back(row);
    const auto tab = r.table(ti, mt.high + 2);
    const std::string what = "table " + t.name;
    std::vector<int64_t> a = tab.forward, b(tab.backward.rbegin(), tab.backward.rend());
    if (a != b) c.fail(what + ": backward iteration is not the reverse of forward iteration");
    std::sort(a.begin(), a.end());
    if (a != live) c.fail(what + ": iteration gives " + std::to_string(a.size()) + " rows, expected " + std::to_string(live.size()));
    c.equal(tab.size, int64_t(live.size()), what + " size");
    c.equal(tab.empty, live.empty(), what + " is_empty");
    if (!live.empty())
    {
     c.equal(tab.first, tab.forward.front(), what + " first");
     c.equal(tab.last, tab.forward.back(), what + " last");
     for (size_t i = 0; i + 1 < tab.forward.size(); i++)
     {
      c.equal(r.next(ti, tab.forward[i]), tab.forward[i + 1], what + " next");
      c.equal(r.previous(ti, tab.forward[i + 1]), tab.forward[i], what + " previous");
     }
     c.equal(r.next(ti, tab.last), tab.end, what + " next of last");
     c.equal(r.previous(ti, tab.first), tab.end, what + " previous of first");
    }
    for (int64_t row = -2; row < mt.high + 2; row++)
    {
     const bool l = mt.rows.count(row);
     c.equal(r.valid(ti, row), l, what + " is_valid " + std::to_string(row));
     if (row >= 0) c.equal(bool(tab.at[size_t(row)]), l, what + " is_valid_at " + std::to_string(row));
    }
    c.check(r.null(ti) < 0, what + " null");
    if (!m.s.single.count(ti))
    {
     auto s = r.sorted(ti, [](int64_t x, int64_t y) {return x > y;});
     std::reverse(s.begin(), s.end());
     c.check(s == live, what + " sorted");
    }
    r.print(ti);
    for (auto &[row, x]: mt.rows)
     for (auto &[fi, f]: t.fields)
     {
      const Value e = m.value(ti, row, fi);
      const Value g = r.get(ti, fi, row);
      if (!g.same(e)) c.fail(what + "[" + std::to_string(row) + "]." + f.name + ": expected " + e.str() + " got " + g.str());
      if (w && !w->wget(ti, fi, row).same(e)) c.fail(what + "." + f.name + " as writable");
      if (m.s.single.count(ti) && row == 0 && !r.get_single(ti, fi).same(e)) c.fail(what + "." + f.name + " as single row");
     }
   }
   check_indices(c, r, m);
   r.readable([&](Readable &x) {const std::string d = model::compare(x, m.db); if (!d.empty()) c.fail("Readable: " + d);});
  }
  catch (const Fail &f)
  {
   throw Fail(std::string(who) + ": " + f.what());
  }
 }

 // replay with the interpreted database
 void check_interpreted(Ctx &c, const std::string &bytes, const M &m)
 {
  Readonly_Memory_File f(bytes.data(), bytes.size());
  Readonly_Journal j(f);
  joedb::Database db;
  j.replay_log(db);
  const std::string d = model::compare(db, m.db);
  if (!d.empty()) c.fail("interpreted: " + d);
 }

 struct Driver
 {
  Ctx &c;
  const vfc::Schema &s;
  M m;
  model::Options o;
  bool blobs = true;
  int violations = 0;  // percentage of updates of a unique key that are chosen to collide
  int refused = 0, ops = 0;
  std::map<int64_t, std::string> blob_content;
  std::vector<Event> done; // in order
  Driver(Ctx &c, const vfc::Schema &s): c(c), s(s), m(s) {}

  void apply(const Event &e) {m.apply(e); done.push_back(e); ops++; if (c.verbose) c.note(e.str());}

  bool indexed(int t, int f) const {for (auto &x: s.indices) if (x.table == t) for (int y: x.fields) if (y == f) return true; return false;}

  Value value(int t, int f)
  {
   const model::Field &fd = s.final.tables.at(t).fields.at(f);
   const bool ix = indexed(t, f);
   if (ix && c.below(3))
   {
    Value v = Value::def(fd.type);
    const int64_t n = int64_t(c.below(8));
    switch (fd.type)
    {
     case model::t_string: v.s = std::string(n & 3 ? 1 : 0, char(n & 4 ? 0xe0 + n : 'a' + n)); break;
     case model::t_float32: v.f = float(n) - 3; break;
     case model::t_float64: v.d = double(n) - 3; break;
     case model::t_boolean: v.i = n & 1; break;
     default: v.i = n - (fd.type == model::t_reference ? 1 : 3); break;
    }
    return v;
   }
   Value v = model::make_value(c, o, m.db, fd);
   if (ix && v.f != v.f) v.f = 1;
   if (ix && v.d != v.d) v.d = 1;
   return v;
  }

  int pick_table(bool no_single)
  {
   std::vector<int> v;
   if (violations && c.below(4)) for (auto &x: s.indices) if (x.unique && !s.single.count(x.table)) v.push_back(x.table);
   if (!v.empty()) return v[c.below(v.size())];
   for (auto &[i, t]: s.final.tables) if (!no_single || !s.single.count(i)) v.push_back(i);
   return v.empty() ? 0 : v[c.below(v.size())];
  }
  int64_t pick_row(int t)
  {
   const auto &rows = m.db.tables.at(t).rows;
   if (rows.empty()) return -1;
   auto it = rows.begin(); std::advance(it, c.below(rows.size()));
   return it->first;
  }
  uint64_t run(int t, int64_t r, uint64_t max) {uint64_t n = 0; while (n < max && m.db.tables.at(t).rows.count(r + int64_t(n))) n++; return n;}

  void update(Writer &w, const Event &e, bool by_vector)
  {
   if (by_vector) w.update_vector(e.t, e.f, e.r, e.v);
   else if (s.single.count(e.t) && e.r == 0 && c.flag() && w.set_single(e.t, e.f, e.v[0])) return;
   else w.set(e.t, e.f, e.r, e.v[0]);
  }

  // find values that are accepted, in place of those of e
  bool make_valid(Event &e)
  {
   for (int k = 0; k < 12 && m.refused(e); k++)
    for (auto &v: e.v) v = value(e.t, e.f);
   if (!m.refused(e)) return true;
   // systematic
   for (size_t j = 0; j < e.v.size(); j++)
   {
    Value &v = e.v[j];
    const model::T ty = v.t;
    const int64_t base = int64_t(20 + j + 10 * size_t(e.r));
    if (ty == model::t_string) v.s = "u" + std::to_string(base + ops * 1000);
    else if (ty == model::t_float32) v.f = float(base + 100 * ops); else if (ty == model::t_float64) v.d = double(base + 100 * ops);
    else if (ty == model::t_boolean) v.i = j & 1; else if (ty == model::t_int8) v.i = int8_t(base); else if (ty == model::t_int16) v.i = int16_t(base + ops); else v.i = base + 1000 * ops;
   }
   return !m.refused(e);
  }

  // one operation
  void step(Writer &w)
  {
   const int64_t room = w.position() - 1; // a row id must be smaller than the size of the file
   int k = int(c.below(100));
   if (violations && k >= 22 && k < 50 && c.flag()) k = 60;
   if (k < 4 || s.final.tables.empty())
   {
    switch (c.below(blobs ? 6 : 5))
    {
     case 0: {Event e = ev(model::comment); e.s = c.bytes(o.utf8 ? 0 : 60); w.comment(e.s); apply(e); return;}
     case 1: {Event e = ev(model::timestamp); e.r = c.integer(); w.timestamp(e.r); apply(e); return;}
     case 2: w.valid_data(); apply(ev(model::valid_data)); return;
     case 3: w.soft_checkpoint(); return;
     case 4: w.flush(); return;
     default:
     {
      Event e = ev(model::blob); e.s = c.bytes(100);
      const Blob b = w.write_blob(e.s);
      if (w.read_blob(b) != e.s) c.fail("blob");
      blob_content[b.get_position()] = e.s;
      apply(e);
      // into a field
      for (auto &[ti, t]: s.final.tables) for (auto &[fi, f]: t.fields) if (f.type == model::t_blob)
      {
       const int64_t r = pick_row(ti);
       if (r < 0) continue;
       Event u = ev(model::update, ti, r); u.f = fi; u.type = model::t_blob; u.v = {Value()}; u.v[0].t = model::t_blob; u.v[0].i = b.get_position(); u.v[0].n = b.get_size();
       w.set(ti, fi, r, u.v[0]);
       apply(u);
       return;
      }
      return;
     }
    }
   }
   const bool structure = k < 50;
   const int t = pick_table(structure);
   if (!t) return;
   model::Table &tab = m.db.tables.at(t);
   const model::Table &ft = s.final.tables.at(t);
   if (structure)
   {
    if (k < 16 || tab.rows.empty())
    {
     if (tab.high + 2 > room) return;
     if (c.flag() || ft.fields.empty())
     {
      const int64_t r = w.create(t);
      if (r < 0 || tab.rows.count(r)) c.fail("new row has identifier " + std::to_string(r));
      apply(ev(model::insert_into, t, r));
     }
     else
     {
      std::vector<Value> v;
      for (auto &[fi, f]: ft.fields) v.push_back(value(t, fi));
      // a constructor can be refused half-way: only when every key is free
      M copy = m;
      Event ins = ev(model::insert_into, t, tab.high + 1000);
      copy.apply(ins);
      size_t j = 0;
      for (auto &[fi, f]: ft.fields)
      {
       Event u = ev(model::update, t, ins.r); u.f = fi; u.type = f.type; u.v = {v[j]};
       if (copy.refused(u))
       {
        M save = m;
        std::swap(m.db, copy.db); std::swap(m.ix, copy.ix);
        const bool ok = make_valid(u);
        std::swap(m.db, copy.db); std::swap(m.ix, copy.ix);
        if (!ok) return;
        v[j] = u.v[0];
       }
       copy.apply(u);
       j++;
      }
      const int64_t r = w.create_with(t, v);
      if (r < 0 || tab.rows.count(r)) c.fail("new row has identifier " + std::to_string(r));
      apply(ev(model::insert_into, t, r));
      j = 0;
      for (auto &[fi, f]: ft.fields)
      {
       Event u = ev(model::update, t, r); u.f = fi; u.type = f.type; u.v = {v[j++]};
       apply(u);
      }
     }
    }
    else if (k < 22)
    {
     int64_t r = int64_t(c.below(uint64_t(std::min<int64_t>(tab.high + 8, 60))));
     while (tab.rows.count(r)) r++;
     if (r + 2 > room) return;
     w.insert(t, r);
     apply(ev(model::insert_into, t, r));
    }
    else if (k < 32)
    {
     const size_t n = 1 + c.below(c.chance(1, 8) ? 30 : 5);
     if (tab.high + int64_t(n) + 1 > room) return;
     const int64_t r = w.create_vector(t, n);
     for (size_t i = 0; i < n; i++) if (r < 0 || tab.rows.count(r + int64_t(i))) c.fail("new vector of " + std::to_string(n) + " at " + std::to_string(r));
     apply(ev(model::insert_vector, t, r, n));
    }
    else if (k < 42)
    {
     const int64_t r = pick_row(t);
     w.erase(t, r);
     apply(ev(model::delete_from, t, r));
    }
    else if (k < 49)
    {
     const int64_t r = pick_row(t);
     const size_t n = 1 + c.below(run(t, r, 20));
     w.erase_vector(t, r, n);
     apply(ev(model::delete_vector, t, r, n));
    }
    else
    {
     std::vector<int64_t> rows;
     for (auto &[r, x]: tab.rows) rows.push_back(r);
     w.clear(t);
     for (int64_t r: rows) apply(ev(model::delete_from, t, r));
    }
    return;
   }
   // update
   if (tab.rows.empty() || ft.fields.empty()) return;
   Event e = ev(model::update, t, pick_row(t));
   std::vector<int> fs;
   for (auto &[fi, f]: ft.fields) {fs.push_back(fi); if (indexed(t, fi)) {fs.push_back(fi); fs.push_back(fi);}}
   e.f = fs[c.below(fs.size())];
   e.type = ft.fields.at(e.f).type;
   const bool by_vector = !s.single.count(t) && c.chance(1, 4);
   size_t n = 1;
   if (by_vector) {e.k = model::update_vector; n = 1 + c.below(run(t, e.r, 12)); e.n = n;}
   for (size_t i = 0; i < n; i++) e.v.push_back(value(t, e.f));
   const vfc::Index *bad = m.refused(e);
   bool collide = bad && int(c.below(100)) < violations;
   if (bad && !collide)
   {
    if (!make_valid(e)) return;
   }
   if (!collide)
   {
    if (c.below(2) && by_vector)
    {
     // through a permutation of existing keys
     std::vector<Value> old;
     for (size_t i = 0; i < n; i++) old.push_back(m.value(t, e.r + int64_t(i), e.f));
     std::rotate(old.begin(), old.begin() + int(c.below(n)), old.end());
     Event p = e; p.v = old;
     bool nan = false;
     for (auto &x: old) nan |= x.f != x.f || x.d != x.d;
     if (!m.refused(p) && !nan) e = p;
    }
    try {update(w, e, by_vector);}
    catch (const joedb::Exception &x) {c.fail("refused: " + e.str() + ": " + x.what());}
    apply(e);
    return;
   }
   // must be refused
   const int64_t before = w.position();
   bool thrown = false;
   try {update(w, e, by_vector);}
   catch (const joedb::Exception &x) {thrown = true;}
   if (!thrown) c.fail("accepted a duplicate key of " + bad->name + ": " + e.str());
   if (c.verbose) c.note("refused: " + e.str());
   refused++;
   c.equal(w.position(), before, "position of the journal after a refused update");
   // other rows of the index are still there
   for (size_t i = 0; i < m.ix.size(); i++)
   {
    std::map<int64_t, std::vector<Value>> got;
    for (auto &[k2, row]: w.reader().index(int(i))) got[row] = k2;
    for (auto &[row, k2]: m.ix[i])
     if (s.indices[i].table != e.t || row < e.r || row >= e.r + int64_t(n))
     {
      auto it = got.find(row);
      if (it == got.end() || !M::equal(it->second, k2)) c.fail("a refused update changed the key of another row of " + s.indices[i].name);
     }
   }
   pending = e; has_pending = true;
  }
  Event pending;
  bool has_pending = false;

  // "you must fix the invalid update by executing a valid one"
  void fix(Writer &w)
  {
   has_pending = false;
   Event e = pending;
   // the rows have no key, for now
   if (!m.s.single.count(e.t) && (c.chance(1, 4) || !make_valid(e)))
   {
    Event d = e;
    d.k = model::delete_vector; d.v.clear(); d.n = e.v.size();
    if (e.k == model::update) {w.erase(e.t, e.r); d.k = model::delete_from;}
    else w.erase_vector(e.t, e.r, e.v.size());
    apply(d);
    return;
   }
   if (m.refused(e)) c.fail("harness: cannot fix");
   try {update(w, e, e.k == model::update_vector);}
   catch (const joedb::Exception &x) {c.fail("refused after a fix: " + e.str() + ": " + x.what());}
   apply(e);
  }

  void group(Writer &w, int n)
  {
   for (int i = 0; i < n; i++)
   {
    step(w);
    if (has_pending) return;
    for (auto it = blob_content.begin(); it != blob_content.end(); ++it)
     if (c.chance(1, 10) && w.read_blob(Blob(it->first, int64_t(it->second.size()))) != it->second) c.fail("blob content");
   }
  }

  // what opening a file does
  void upgrade(size_t from)
  {
   for (size_t i = from; i < s.events.size(); i++) m.apply(s.events[i]);
   int table = 0;
   std::map<int, int> field;
   for (size_t i = 0; i < s.events.size(); i++)
   {
    const Event &e = s.events[i];
    if (e.k == model::create_table)
    {
     ++table;
     if (i >= from && s.single.count(table)) m.apply(ev(model::insert_into, table, 0));
    }
    else if (e.k == model::add_field)
    {
     const int f = ++field[e.t];
     auto d = s.defaults.find({e.t, f});
     if (i >= from && d != s.defaults.end())
      for (auto &[r, row]: m.db.tables.at(e.t).rows) {Event u = ev(model::update, e.t, r); u.f = f; u.type = d->second.t; u.v = {d->second}; m.apply(u);}
    }
    else if (e.k == model::custom && i >= from)
    {
     expected_log.push_back(e.s);
     const Custom_Effect &x = s.customs.at(e.s);
     if (x.table)
     {
      int64_t r = 0;
      custom_rows.push_back({x, 0});
      // the identifier is chosen by the database: any free one
      const auto &tab = m.db.tables.at(x.table);
      r = free_id(x.table);
      (void)tab;
      m.apply(ev(model::insert_into, x.table, r));
      if (x.field) {Event u = ev(model::update, x.table, r); u.f = x.field; u.type = model::t_int32; Value v; v.t = u.type; v.i = x.value; u.v = {v}; m.apply(u);}
     }
    }
   }
  }
  std::function<int64_t(int)> free_id_hint;
  int64_t free_id(int t) {return free_id_hint ? free_id_hint(t) : 0;}
  std::vector<std::pair<Custom_Effect, int64_t>> custom_rows;
  std::vector<std::string> expected_log;
 };

 const vfc::Schema &pick_schema(Ctx &c, const std::function<bool(const vfc::Schema &)> &ok)
 {
  auto &all = schemas();
  std::vector<vfc::Schema *> v;
  for (auto *s: all) if (ok(*s)) v.push_back(s);
  std::sort(v.begin(), v.end(), [](auto *a, auto *b) {return a->name < b->name;});
  if (v.empty()) throw Discard();
  const auto &s = *v[c.below(v.size())];
  c.label("schema " + s.name);
  return s;
 }

 // A place where a database lives, and the ways of opening it
 struct Place
 {
  Ctx &c;
  const vfc::Schema &s;
  enum Kind {view, disk, text, memory, client, file_client} kind;
  std::string bytes, path;
  std::unique_ptr<files::View> file;
  std::unique_ptr<Writer> w;
  std::unique_ptr<Memory> mem;
  std::unique_ptr<vfc::Client> cl;
  std::unique_ptr<Lock> lock;

  Place(Ctx &c, const vfc::Schema &s, Kind k): c(c), s(s), kind(k)
  {
   path = c.scratch + "/db";
   ::unlink(path.c_str());
  }
  ~Place() {close();}
  void open()
  {
   switch (kind)
   {
    case view: file = std::make_unique<files::View>(bytes, Open_Mode::write_existing_or_create_new); w = s.open(*file); break;
    case disk: w = s.open_name(path, Open_Mode::write_existing_or_create_new, Recovery::none); break;
    case text: w = s.open_text(path); break;
    case memory: if (!mem) mem = s.memory(); break;
    case client: file = std::make_unique<files::View>(bytes, Open_Mode::shared_write); cl = s.client(*file, Connection::dummy); break;
    case file_client: cl = s.file_client(path); break;
   }
  }
  void close()
  {
   lock.reset(); cl.reset(); w.reset(); file.reset();
  }
  Writer &begin() {if (cl) {lock = cl->lock(); return lock->writer();} return mem ? mem->writer() : *w;}
  void end()
  {
   if (lock) {lock->push_unlock(); lock.reset();}
   else if (c.flag()) begin().soft_checkpoint();
   else begin().hard_checkpoint();
  }
  Reader &reader() {return cl ? cl->reader() : mem ? mem->writer().reader() : w->reader();}
  std::string content()
  {
   if (kind == view || kind == client) return bytes;
   if (kind == memory) return mem->file().get_data();
   File f(path, Open_Mode::read_existing);
   std::string r(size_t(f.get_size()), 0);
   f.pread(r.data(), r.size(), 0);
   return r;
  }
 };

 void options(Driver &d)
 {
  d.o.max_string = 20;
  d.o.max_row = 40;
  d.o.finite = false;
 }

 // a database built through the generated API
 void run_d03(Ctx &c, bool with_violations)
 {
  const vfc::Schema &s = pick_schema(c, [&](const vfc::Schema &x) {if (!with_violations) return true; for (auto &i: x.indices) if (i.unique && !x.single.count(i.table)) return true; return false;});
  Driver d(c, s);
  options(d);
  if (with_violations) d.violations = 60;
  const auto kind = Place::Kind(c.below(6));
  Place p(c, s, kind);
  clear_scratch(c);
  static const char *const names[] = {"view", "disk", "text", "memory", "client", "file_client"};
  c.label(names[kind]);
  if (kind == Place::text) {d.o.finite = true; d.blobs = false; d.o.utf8 = false;}
  c.notef("schema ", s.name, " as ", names[kind]);
  custom_log.clear();
  p.open();
  {
   // customs insert rows in empty tables, one after the other
   std::map<int, std::vector<int64_t>> ids;
   for (auto &[ti, t]: s.final.tables) {auto &v = ids[ti]; v = p.reader().table(ti, 0).forward; std::sort(v.begin(), v.end());}
   std::map<int, size_t> next;
   d.free_id_hint = [=, &c](int t) mutable {if (next[t] >= ids[t].size()) c.fail("missing effect of a custom function"); return ids[t][next[t]++];};
   d.upgrade(0);
  }
  c.check(custom_log == d.expected_log, "custom functions were not called once and in order");
  check_db(c, p.reader(), d.m, "new database");
  std::unique_ptr<Follower> follower;
  std::unique_ptr<Abstract_File> follower_file;
  std::vector<std::unique_ptr<vfc::Client>> others;
  const int rounds = 1 + int(c.below(5));
  for (int i = 0; i < rounds; i++)
  {
   Writer &w = p.begin();
   // through the generated multiplexer
   d.group(w, int(c.below(30)));
   if (d.has_pending)
   {
    const int what = int(c.below(3));
    if (what || kind == Place::memory)
    {
     d.fix(w);
     check_db(c, w.reader(), d.m, "after a fix", &w);
    }
    else
    {
     // abandon the memory: only accepted updates come back
     d.has_pending = false;
     p.end();
     p.close();
     follower.reset();
     p.open();
     check_db(c, p.reader(), d.m, "reopened after a refused update");
     c.label("reopened after refused");
     continue;
    }
   }
   check_db(c, w.reader(), d.m, "live", &w);
   p.end();
   c.check(!p.w || p.w->ahead() == 0, "ahead of checkpoint after a checkpoint");
   // other views of the same file
   const int views = int(c.below(32));
   if (p.kind == Place::text)
   {
    if (views & 1)
    {
     // the text file is locked by its writer
     p.close();
     auto r = s.readonly_text(p.path);
     check_db(c, *r, d.m, "read-only text");
     p.open();
     check_db(c, p.reader(), d.m, "reopened text");
    }
    continue;
   }
   const std::string bytes = p.content();
   if (views & 1)
   {
    std::string copy = bytes;
    files::View f(copy, Open_Mode::read_existing);
    auto r = s.readonly(f);
    check_db(c, *r, d.m, "read-only");
    c.check(copy == bytes, "read-only opening modified the file");
   }
   if (views & 2) check_interpreted(c, bytes, d.m);
   if ((views & 4) && kind != Place::memory)
   {
    if (!follower)
    {
     if (kind == Place::disk || kind == Place::file_client) follower_file = std::make_unique<File>(p.path, Open_Mode::read_existing);
     else follower_file = std::make_unique<files::View>(p.bytes, Open_Mode::read_existing);
     follower = s.follow(*follower_file);
     check_db(c, follower->reader(), d.m, "new follower");
    }
    else
    {
     follower->pull();
     check_db(c, follower->reader(), d.m, "follower");
     c.label("followed");
    }
   }
   if ((views & 8) && kind != Place::memory)
   {
    follower.reset();
    p.close();
    custom_log.clear();
    const std::string before = p.content();
    p.open();
    c.check(custom_log.empty(), "custom function called again");
    check_db(c, p.reader(), d.m, "reopened");
    c.check(p.content().size() == before.size(), "opening changed the size of the file");
    c.label("reopened");
   }
   if ((views & 16) && kind == Place::memory)
   {
    std::string copy = bytes;
    files::View f(copy, Open_Mode::write_existing);
    auto w2 = s.open(f);
    check_db(c, w2->reader(), d.m, "memory database opened from its bytes");
   }
  }
  if (with_violations ? d.refused > 0 : d.ops >= 10) c.nontrivial();
  c.label("operations", uint64_t(d.ops));
  if (d.refused) c.label("refused updates", uint64_t(d.refused));
 }

 ////////////////////////////////////////////////////////////////////////////
 // D05
 ////////////////////////////////////////////////////////////////////////////
 struct Old
 {
  std::string bytes;
  std::vector<Event> events;
 };

 // A journal with a prefix of the schema (or another one) and data
 Old make_old(Ctx &c, Driver &d, const std::vector<Event> &schema, size_t n, int data_per_event)
 {
  Old o;
  files::View f(o.bytes, Open_Mode::create_new);
  Writable_Journal j(f);
  model::Options go;
  go.schema = false; go.misc = false; go.max_string = 20; go.max_vector = 8; go.big_string = 0; go.max_row = 30;
  Gen g(c, go);
  int table = 0;
  bool hard = false;
  auto put = [&](const Event &e, bool data)
  {
   model::apply(e, j);
   if (data) g.m.apply(e);
   d.m.apply(e);
   o.events.push_back(e);
   if (c.verbose) c.note(e.str());
  };
  for (size_t i = 0; i < n; i++)
  {
   put(schema[i], true);
   if (schema[i].k == model::create_table && d.s.single.count(++table)) put(ev(model::insert_into, table, 0), true);
   const int k = c.chance(1, 2) ? int(c.below(uint64_t(data_per_event))) : 0;
   for (int x = 0; x < k; x++)
   {
    if (g.m.tables.empty()) break;
    if (c.chance(1, 12))
    {
     Event e = ev(c.flag() ? model::comment : c.flag() ? model::timestamp : model::valid_data);
     if (e.k == model::comment) e.s = c.bytes(20);
     put(e, false);
     continue;
    }
    Event e = g.choose();
    if (e.k == model::create_table || e.k == model::add_field || e.k <= model::custom) continue;
    if (e.k != model::update && e.k != model::update_vector && d.s.single.count(e.t)) continue;
    if ((e.k == model::insert_vector || e.k == model::delete_vector || e.k == model::update_vector) && !e.n) continue;
    if ((e.k == model::update || e.k == model::update_vector) && d.s.final.tables.count(e.t))
    {
     bool bad = false;
     for (auto &ix: d.s.indices) if (ix.table == e.t) for (int q: ix.fields) if (q == e.f) for (auto &v: e.v) bad |= v.f != v.f || v.d != v.d;
     if (bad || d.m.refused(e)) continue;
    }
    put(e, true);
   }
  }
  // row identifiers must be smaller than the file
  int64_t high = d.m.high();
  while (j.get_position() < high + 50) j.comment(std::string(100, 'x'));
  if (c.flag()) {j.hard_checkpoint(); hard = true;}
  else j.soft_checkpoint();
  return o;
 }

 std::vector<Event> schema_of(const std::string &bytes)
 {
  Readonly_Memory_File f(bytes.data(), bytes.size());
  Readonly_Journal j(f);
  model::Recorder r;
  j.replay_log(r);
  std::vector<Event> v;
  for (auto &e: r.events) if (e.k <= model::custom) v.push_back(e);
  return v;
 }

 // rows inserted by custom functions: their identifiers come from the database
 void learn_custom_rows(Ctx &c, Driver &d, const std::string &bytes, size_t events_before)
 {
  Readonly_Memory_File f(bytes.data(), bytes.size());
  Readonly_Journal j(f);
  model::Recorder r;
  j.replay_log(r);
  std::map<int, std::vector<int64_t>> ids;
  std::set<int> single_seen;
  size_t k = 0;
  // insertions after the automatic upgrade
  bool after = false;
  for (auto &e: r.events)
  {
   if (e.k == model::comment && e.s == "Automatic schema upgrade") after = true;
   if (after && e.k == model::insert_into && !d.s.single.count(e.t)) ids[e.t].push_back(e.r);
   k++;
  }
  auto pos = std::make_shared<std::map<int, size_t>>();
  d.free_id_hint = [ids, pos, &c, &d](int t) -> int64_t
  {
   size_t &p = (*pos)[t];
   auto it = ids.find(t);
   if (it == ids.end() || p >= it->second.size()) c.fail("missing effect of a custom function");
   const int64_t id = it->second[p++];
   if (id < 0 || d.m.db.tables.at(t).rows.count(id)) c.fail("custom function got the identifier of a live row");
   return id;
  };
 }

 void run_d05(Ctx &c)
 {
  const vfc::Schema &s = pick_schema(c, [](const vfc::Schema &) {return true;});
  Driver d(c, s);
  options(d);
  const int mode = int(c.below(8));
  if (mode == 7)
  {
   // a foreign schema
   std::vector<Event> ev2 = s.events;
   size_t n = ev2.size() ? c.below(ev2.size() + 1) : 0;
   const int how = int(c.below(5));
   if (how == 0 || n == 0)
   {
    n = s.events.size();
    ev2.push_back(c.flag() ? ct("zz_foreign") : cu("zz_foreign"));
    n++;
   }
   else if (how <= 2)
   {
    Event &e = ev2[n - 1];
    if (e.k == model::drop_table || e.k == model::drop_field) e = cu("zz_foreign");
    else if (how == 2 && e.k == model::add_field && e.type != model::t_reference) e.type = e.type == model::t_int32 ? model::t_int64 : model::t_int32;
    else e.s = "zz_foreign";
   }
   else if (how == 3)
   {
    ev2.insert(ev2.begin() + long(n), c.flag() ? ct("zz_foreign") : cu("zz_foreign"));
    n++;
   }
   else
   {
    const vfc::Schema &other = pick_schema(c, [](const vfc::Schema &) {return true;});
    ev2 = other.events;
    n = c.below(ev2.size() + 1);
   }
   bool prefix = n <= s.events.size();
   for (size_t i = 0; prefix && i < n; i++) prefix = ev2[i].str() == s.events[i].str();
   if (prefix) throw Discard();
   // data without constraint
   Old o;
   {
    files::View f(o.bytes, Open_Mode::create_new);
    Writable_Journal j(f);
    model::Db m;
    for (size_t i = 0; i < n; i++)
    {
     if (!m.valid(ev2[i])) throw Discard();
     m.apply(ev2[i]);
     model::apply(ev2[i], j);
    }
    if (c.flag()) j.hard_checkpoint(); else j.soft_checkpoint();
   }
   c.nontrivial();
   c.label("foreign schema");
   const std::string before = o.bytes;
   auto refuse = [&](const char *who, const std::function<void()> &f)
   {
    custom_log.clear();
    bool thrown = false;
    try {f();}
    catch (const joedb::Exception &e) {thrown = true;}
    c.check(thrown, std::string(who) + ": accepted a file with a foreign schema");
    c.check(o.bytes == before, std::string(who) + ": modified a file with a foreign schema");
    c.check(custom_log.empty(), std::string(who) + ": called a custom function");
   };
   refuse("writable", [&] {files::View f(o.bytes, Open_Mode::write_existing); s.open(f);});
   refuse("read-only", [&] {files::View f(o.bytes, Open_Mode::read_existing); s.readonly(f);});
   refuse("follower", [&] {files::View f(o.bytes, Open_Mode::read_existing); s.follow(f);});
   refuse("client", [&] {files::View f(o.bytes, Open_Mode::shared_write); s.client(f, Connection::dummy);});
   return;
  }
  const size_t n = c.below(s.events.size() + 1);
  Old o = make_old(c, d, s.events, n, 16);
  const std::string before = o.bytes;
  const bool old = n < s.events.size();
  size_t rows = 0;
  for (auto &[i, t]: d.m.db.tables) rows += t.rows.size();
  c.notef("schema ", s.name, ": ", n, " of ", s.events.size(), " schema events, ", o.events.size(), " events, ", rows, " rows, mode ", mode);
  if (old && rows) c.nontrivial();
  // read-only
  if (mode == 6 || !old)
  {
   for (int k = 0; k < 2; k++)
   {
    bool out_of_date = false;
    try
    {
     files::View f(o.bytes, Open_Mode::read_existing);
     if (k == 0) {auto r = s.readonly(f); if (!old) check_db(c, *r, d.m, "read-only");}
     else {auto r = s.follow(f); if (!old) check_db(c, r->reader(), d.m, "follower");}
    }
    catch (const Out_Of_Date &) {out_of_date = true;}
    c.check(out_of_date == old, old ? "read-only opening of an old schema" : "read-only opening of a current schema");
    c.check(o.bytes == before, "read-only opening modified the file");
   }
  }
  custom_log.clear();
  std::unique_ptr<Writer> w;
  std::unique_ptr<vfc::Client> cl;
  if (mode == 5)
  {
   // upgrade of something that is not written
   Upgradable_File<Readonly_Memory_File> f(o.bytes.data(), o.bytes.size());
   w = s.open(f);
   c.label("upgradable");
   std::map<int, std::set<int64_t>> live;
   for (auto &[i, t]: d.m.db.tables) for (auto &[r, x]: t.rows) live[i].insert(r);
   // the new rows are those that were not there
   auto ids = std::make_shared<std::map<int, std::vector<int64_t>>>();
   for (auto &[ti, t]: s.final.tables)
    for (int64_t r: w->reader().table(ti, 0).forward) if (!live[ti].count(r)) (*ids)[ti].push_back(r);
   // several insertions by customs in the same table: order unknown
   std::map<int, int> count;
   size_t index = 0;
   for (auto &e: s.events) if (index++ >= n && e.k == model::custom && s.customs.at(e.s).table) count[s.customs.at(e.s).table]++;
   bool ambiguous = false;
   for (auto &[t, k]: count) ambiguous |= k > 1;
   if (!ambiguous)
   {
    d.free_id_hint = [ids, &c](int t) {if ((*ids)[t].empty()) c.fail("missing effect of a custom function"); return (*ids)[t][0];};
    d.upgrade(n);
    check_db(c, w->reader(), d.m, "upgradable file", w.get());
    c.check(custom_log == d.expected_log, "custom functions were not called once and in order");
   }
   w.reset();
   c.check(o.bytes == before, "upgradable file modified its source");
   return;
  }
  std::string crash_base;
  if (mode == 4)
  {
   // crash during the upgrade
   files::Sim sim(o.bytes, Open_Mode::write_existing);
   {
    auto w2 = s.open(sim);
   }
   const size_t k = sim.log.empty() ? 0 : c.below(sim.log.size() + 1);
   std::string b = o.bytes;
   for (size_t i = 0; i < k; i++) files::apply(b, sim.log[i]);
   if (k < sim.log.size() && c.flag()) files::apply(b, sim.log[k], c.below(sim.log[k].data.size() + 1));
   c.notef("crash after ", k, " of ", sim.log.size(), " file operations");
   c.label("crash during upgrade");
   // was the upgrade complete?
   bool complete = false;
   {
    Readonly_Memory_File f(b.data(), b.size());
    Readonly_Journal j(f);
    Readonly_Memory_File f0(o.bytes.data(), o.bytes.size());
    Readonly_Journal j0(f0);
    complete = j.get_checkpoint() > j0.get_checkpoint();
    const size_t events = schema_of(b).size();
    c.check(events == n || events == s.events.size(), "half of an upgrade after a crash");
    c.check(complete == (events == s.events.size() && old), "checkpoint of an upgrade");
   }
   o.bytes = b;
   custom_log.clear();
   files::View f(o.bytes, Open_Mode::write_existing);
   w = s.open(f, Recovery::overwrite);
   learn_custom_rows(c, d, o.bytes, o.events.size());
   d.upgrade(n);
   check_db(c, w->reader(), d.m, "upgraded after a crash", w.get());
   if (complete) c.check(custom_log.empty(), "custom function called again");
   else c.check(custom_log == d.expected_log, "custom functions were not called once and in order");
   w.reset();
  }
  else
  {
   auto file = std::make_unique<files::View>(o.bytes, mode == 3 ? Open_Mode::shared_write : Open_Mode::write_existing);
   if (mode == 3) {cl = s.client(*file, Connection::dummy); c.label("client");}
   else w = s.open(*file);
   Reader &r = cl ? cl->reader() : w->reader();
   learn_custom_rows(c, d, o.bytes, o.events.size());
   d.upgrade(n);
   check_db(c, r, d.m, "upgraded", w.get());
   c.check(custom_log == d.expected_log, "custom functions were not called once and in order");
   if (!old) c.check(o.bytes.size() == before.size(), "opening with the compiled schema added something");
   // and used
   if (c.flag())
   {
    std::unique_ptr<Lock> lock;
    if (cl) lock = cl->lock();
    Writer &x = lock ? lock->writer() : *w;
    d.group(x, int(c.below(20)));
    if (lock) lock->push_unlock(); else x.soft_checkpoint();
    lock.reset();
    check_db(c, r, d.m, "used after an upgrade");
   }
   w.reset(); cl.reset(); file.reset();
  }
  c.check(o.bytes.size() >= before.size() && o.bytes.compare(41, before.size() - 41, before, 41, before.size() - 41) == 0, "upgrade changed the data that was there");
  const auto events = schema_of(o.bytes);
  {
   const std::string diff = model::compare_events(events, s.events);
   c.check(diff.empty(), "schema events after the upgrade: " + diff);
  }
  check_interpreted(c, o.bytes, d.m);
  // again
  const std::string upgraded = o.bytes;
  for (int k = 0; k < 2; k++)
  {
   custom_log.clear();
   if (k == 0)
   {
    files::View f(o.bytes, Open_Mode::write_existing);
    auto w2 = s.open(f);
    check_db(c, w2->reader(), d.m, "second opening", w2.get());
   }
   else
   {
    files::View f(o.bytes, Open_Mode::shared_write);
    auto c2 = s.client(f, Connection::dummy);
    check_db(c, c2->reader(), d.m, "second opening by a client");
   }
   c.check(custom_log.empty(), "custom function called again");
   c.check(o.bytes.size() == upgraded.size() && o.bytes.compare(41, std::string::npos, upgraded, 41, std::string::npos) == 0, "second opening added something");
  }
 }

 // finding KF2: identifiers larger than the file
 void run_kf2(Ctx &c)
 {
  const vfc::Schema &s = pick_schema(c, [](const vfc::Schema &x) {for (auto &[i, t]: x.final.tables) if (!x.single.count(i)) return true; return false;});
  int t = 0;
  for (auto &[i, x]: s.final.tables) if (!s.single.count(i)) t = i;
  std::string bytes;
  const int how = int(c.below(2));
  const size_t n = 100000;
  {
   files::View f(bytes, Open_Mode::write_existing_or_create_new);
   auto w = s.open(f);
   if (how) w->create_vector(t, n);
   else w->insert(t, int64_t(n));
   w->soft_checkpoint();
  }
  try
  {
   files::View f(bytes, Open_Mode::write_existing);
   auto w = s.open(f);
   c.check(how ? w->reader().valid(t, int64_t(n) - 1) : w->reader().valid(t, int64_t(n)), "row was lost");
  }
  catch (const joedb::Exception &e)
  {
   if (std::string(e.what()).find("too big") == std::string::npos) throw;
   c.finding("KF2", "a compiled database cannot reopen a file that is smaller than its row identifiers or vectors");
  }
 }

 Register d03({.id = "D03", .rule = "at least 10 operations were applied",
  .quick = 20000, .thorough = 400000,
  .run = [](Ctx &c) {if (c.chance(1, 200)) run_kf2(c); else run_d03(c, false);},
  .assumptions = {"row identifiers smaller than the size of the file (finding KF2)", "schemas are random, fixed at build time (D06 makes new ones)" }});
 Register d04({.id = "D04", .rule = "at least one update was refused because of a unique index",
  .quick = 20000, .thorough = 400000,
  .run = [](Ctx &c) {run_d03(c, true);},
  .assumptions = {"indexed values are not NaN", "a refused update is fixed or abandoned, as documented"}});
 Register d05({.id = "D05", .rule = "the file had rows and an older schema, or a foreign schema",
  .quick = 20000, .thorough = 400000,
  .run = [](Ctx &c) {run_d05(c);},
  .assumptions = {"old files respect the single-row and unique constraints of the new schema"}});
 Register d06({.id = "D06", .rule = "at least 10 operations were applied, or an old file had rows",
  .quick = 4000, .thorough = 100000,
  .run = [](Ctx &c)
  {
   if (c.below(2)) run_d05(c); else {run_d03(c, false);}
  }});
}
