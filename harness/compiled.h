// A uniform interface over databases generated by joedbc.
// One adapter per schema (written by schemagen.py) registers itself here.
#pragma once
#include "vf.h"
#include "model.h"
#include "joedb/concurrency/Connection.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/File.h"
#include "joedb/journal/Upgradable_File.h"
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

namespace vfc
{
 using model::Value; using model::Event;
 using joedb::Record_Id;

 // schema events
 inline Event ct(const char *n) {Event e; e.k = model::create_table; e.s = n; return e;}
 inline Event af(int t, const char *n, model::T ty, int ref) {Event e; e.k = model::add_field; e.t = t; e.s = n; e.type = ty; e.ref = ref; return e;}
 inline Event rt(int t, const char *n) {Event e; e.k = model::rename_table; e.t = t; e.s = n; return e;}
 inline Event rf(int t, int f, const char *n) {Event e; e.k = model::rename_field; e.t = t; e.f = f; e.s = n; return e;}
 inline Event df(int t, int f) {Event e; e.k = model::drop_field; e.t = t; e.f = f; return e;}
 inline Event dt(int t) {Event e; e.k = model::drop_table; e.t = t; return e;}
 inline Event cu(const char *n) {Event e; e.k = model::custom; e.s = n; return e;}

 // values
 struct int8_t_ {}; struct int16_t_ {}; struct int32_t_ {}; struct int64_t_ {}; struct boolean_t_ {}; struct reference_t_ {};
 inline model::T tag(int8_t_) {return model::t_int8;}
 inline model::T tag(int16_t_) {return model::t_int16;}
 inline model::T tag(int32_t_) {return model::t_int32;}
 inline model::T tag(int64_t_) {return model::t_int64;}
 inline model::T tag(boolean_t_) {return model::t_boolean;}
 inline model::T tag(reference_t_) {return model::t_reference;}
 template<class T> Value I_(const std::string &s) {Value v; v.t = tag(T()); v.i = std::stoll(s); return v;}
 #define I(T, s) vfc::I_<vfc::T>(s)
 inline Value S(const std::string &s) {Value v; v.t = model::t_string; v.s = s; return v;}
 inline Value BL(int64_t p, int64_t n) {Value v; v.t = model::t_blob; v.i = p; v.n = n; return v;}
 inline Value F32(const char *s) {Value v; v.t = model::t_float32; v.f = std::strtof(s, nullptr); return v;}
 inline Value F64(const char *s) {Value v; v.t = model::t_float64; v.d = std::strtod(s, nullptr); return v;}

 template<class X> Value V(model::T t, const X &x)
 {
  if constexpr (requires {x.get_record_id();}) return model::mk(t, x.get_record_id());
  else return model::mk(t, x);
 }

 using Index_Content = std::vector<std::pair<std::vector<Value>, int64_t>>;
 template<model::T... t> struct Key
 {
  template<class K> static std::vector<Value> get(const K &k)
  {
   if constexpr (sizeof...(t) == 1) return {V(t, k)...};
   else return tuple(k, std::make_index_sequence<sizeof...(t)>());
  }
  template<class K, size_t... i> static std::vector<Value> tuple(const K &k, std::index_sequence<i...>) {return {V(t, std::get<i>(k))...};}
 };
 template<model::T... t, class K> std::vector<Value> key(const K &k) {return Key<t...>::get(k);}

 struct Index {std::string name; bool unique; int table; std::vector<int> fields;
  bool trigger(int t, int f) const
  {
   if (t != table) return false;
   bool in = false; int max = 0;
   for (int x: fields) {in |= x == f; max = std::max(max, x);}
   return in && (!unique || f == max);
  }
 };
 struct Custom_Effect {int table, field, value;};
 inline std::vector<std::string> custom_log;

 // Read access
 struct Reader
 {
  virtual ~Reader() = default;
  virtual bool valid(int t, int64_t r) const = 0;
  virtual int64_t next(int t, int64_t r) const = 0;
  virtual int64_t previous(int t, int64_t r) const = 0;
  virtual int64_t null(int t) const = 0;
  virtual Value get(int t, int f, int64_t r) const = 0;
  virtual Value get_single(int t, int f) const = 0;
  struct Table {std::vector<int64_t> forward, backward; int64_t size, first, last, end; bool empty; std::vector<bool> at;};
  virtual Table table(int t, int64_t probe) const = 0;
  virtual std::vector<int64_t> sorted(int t, const std::function<bool(int64_t, int64_t)> &) const = 0;
  virtual std::string print(int t) const = 0;
  virtual Index_Content index(int i) const = 0;
  virtual std::vector<int64_t> find(int i, const std::vector<Value> &) const = 0;
  virtual int64_t next_unique(int i, int64_t r) const = 0;
  virtual int64_t previous_unique(int i, int64_t r) const = 0;
  virtual void readable(const std::function<void(joedb::Readable &)> &) const = 0;
 };
 // Write access
 struct Writer
 {
  virtual ~Writer() = default;
  virtual Reader &reader() = 0;
  virtual Value wget(int t, int f, int64_t r) const = 0;
  virtual void set(int t, int f, int64_t r, const Value &) = 0;
  virtual bool set_single(int t, int f, const Value &) = 0;
  virtual void update_vector(int t, int f, int64_t r, const std::vector<Value> &) = 0;
  virtual int64_t create(int t) = 0;
  virtual int64_t create_with(int t, const std::vector<Value> &) = 0;
  virtual void insert(int t, int64_t r) = 0;
  virtual int64_t create_vector(int t, size_t n) = 0;
  virtual void erase(int t, int64_t r) = 0;
  virtual void erase_vector(int t, int64_t r, size_t n) = 0;
  virtual void clear(int t) = 0;
  virtual void comment(const std::string &) = 0;
  virtual void timestamp(int64_t) = 0;
  virtual void valid_data() = 0;
  virtual void flush() = 0;
  virtual void soft_checkpoint() = 0;
  virtual void hard_checkpoint() = 0;
  virtual int64_t ahead() const = 0;
  virtual int64_t checkpoint() const = 0;
  virtual int64_t position() const = 0;
  virtual joedb::Blob write_blob(const std::string &) = 0;
  virtual std::string read_blob(joedb::Blob) const = 0;
  virtual void multiplexer(const std::function<void(joedb::Writable &)> &) = 0; // generated Multiplexer
 };
 struct Memory {virtual ~Memory() = default; virtual Writer &writer() = 0; virtual void pull() = 0; virtual joedb::Memory_File &file() = 0;};
 // A session kept alive over several calls
 struct Lock {virtual ~Lock() = default; virtual Writer &writer() = 0; virtual void push() = 0; virtual void unlock() = 0; virtual void push_unlock() = 0;};
 struct Client
 {
  virtual ~Client() = default;
  virtual Reader &reader() = 0;
  virtual int64_t pull() = 0;
  virtual void transaction(const std::function<void(Writer &)> &) = 0;
  virtual std::unique_ptr<Lock> lock() = 0;
 };
 struct Follower {virtual ~Follower() = default; virtual Reader &reader() = 0; virtual int64_t pull() = 0;};

 struct Schema
 {
  std::string name;
  std::vector<Event> events;
  std::vector<Index> indices;
  std::set<int> single;
  std::map<std::pair<int, int>, Value> defaults;
  std::map<std::string, Custom_Effect> customs;
  model::Db final;
  bool has_default(int t) const {for (auto &[k, v]: defaults) if (k.first == t) return true; return false;}
  bool unique_field(int t, int f) const {for (auto &i: indices) if (i.unique && i.table == t) for (int x: i.fields) if (x == f) return true; return false;}
  virtual ~Schema() = default;
  virtual std::unique_ptr<Writer> open(joedb::Abstract_File &, joedb::Recovery = joedb::Recovery::none) const = 0;
  virtual std::unique_ptr<Writer> open_name(const std::string &, joedb::Open_Mode, joedb::Recovery) const = 0;
  virtual std::unique_ptr<Writer> open_text(const std::string &) const = 0;
  virtual std::unique_ptr<Memory> memory() const = 0;
  virtual std::unique_ptr<Reader> readonly(joedb::Abstract_File &) const = 0;
  virtual std::unique_ptr<Reader> readonly_name(const std::string &) const = 0;
  virtual std::unique_ptr<Reader> readonly_text(const std::string &) const = 0;
  virtual std::unique_ptr<Follower> follow(joedb::Abstract_File &) const = 0;
  virtual std::unique_ptr<Client> client(joedb::Abstract_File &, joedb::Connection &, joedb::Content_Check = joedb::Content_Check::fast, joedb::Recovery = joedb::Recovery::none) const = 0;
  virtual std::unique_ptr<Client> file_client(const std::string &, joedb::Recovery = joedb::Recovery::none) const = 0;
 };
 inline std::vector<Schema *> &schemas() {static std::vector<Schema *> v; return v;}

 template<class A> struct Reader_Impl: Reader
 {
  const typename A::Database *db;
  Reader_Impl(const typename A::Database *db): db(db) {}
  typename A::Database &mut() const {return const_cast<typename A::Database &>(*db);}
  bool valid(int t, int64_t r) const override {return A::valid(*db, t, r);}
  int64_t next(int t, int64_t r) const override {return A::next(*db, t, r);}
  int64_t previous(int t, int64_t r) const override {return A::previous(*db, t, r);}
  int64_t null(int t) const override {return A::null(t);}
  Value get(int t, int f, int64_t r) const override {return A::get(*db, t, f, r);}
  Value get_single(int t, int f) const override {return A::get_single(*db, t, f);}
  Table table(int t, int64_t probe) const override
  {
   Table o;
   A::table(*db, t, [&](auto c)
   {
    for (auto x: c) {o.forward.push_back(x.get_id()); if (o.forward.size() > 100000) throw vf::Fail("endless iteration");}
    for (auto i = c.end();;)
    {
     --i;
     if (i == c.end()) break;
     o.backward.push_back((*i).get_id());
     if (o.backward.size() > 100000) throw vf::Fail("endless backward iteration");
    }
    // post-increment
    {
     size_t n = 0;
     auto i = c.begin();
     while (i != c.end() && n < 50) {if (o.forward[n] != (*i++).get_id()) throw vf::Fail("post-increment"); n++;}
     while (n) if ((*--i).get_id() != o.forward[--n]) throw vf::Fail("decrement");
    }
    o.size = c.get_size(); o.empty = c.is_empty();
    o.first = c.first().get_id(); o.last = c.last().get_id(); o.end = c.get_end().get_id();
    for (int64_t i = 0; i < probe; i++) {o.at.push_back(c.is_valid_at(size_t(i))); if (c.get_at(size_t(i)).get_id() != i) throw vf::Fail("get_at");}
   });
   return o;
  }
  std::vector<int64_t> sorted(int t, const std::function<bool(int64_t, int64_t)> &less) const override {return A::sorted(*db, t, less);}
  std::string print(int t) const override {return A::print(*db, t);}
  Index_Content index(int i) const override {return A::index(mut(), i);}
  std::vector<int64_t> find(int i, const std::vector<Value> &k) const override {return A::find(*db, i, k);}
  int64_t next_unique(int i, int64_t r) const override {return A::next_unique(mut(), i, r);}
  int64_t previous_unique(int i, int64_t r) const override {return A::previous_unique(mut(), i, r);}
  void readable(const std::function<void(joedb::Readable &)> &f) const override {typename A::Readable r(*db); f(r);}
 };

 template<class A> struct Writer_Impl: Writer
 {
  typename A::Writable_Database *db;
  Reader_Impl<A> r;
  Writer_Impl(typename A::Writable_Database *db): db(db), r(db) {}
  Reader &reader() override {return r;}
  Value wget(int t, int f, int64_t i) const override {return A::wget(*db, t, f, i);}
  void set(int t, int f, int64_t i, const Value &v) override {A::set(*db, t, f, i, v);}
  bool set_single(int t, int f, const Value &v) override {return A::set_single(*db, t, f, v);}
  void update_vector(int t, int f, int64_t i, const std::vector<Value> &v) override {A::update_vector(*db, t, f, i, v);}
  int64_t create(int t) override {return A::create(*db, t);}
  int64_t create_with(int t, const std::vector<Value> &v) override {return A::create_with(*db, t, v);}
  void insert(int t, int64_t i) override {A::insert(*db, t, i);}
  int64_t create_vector(int t, size_t n) override {return A::create_vector(*db, t, n);}
  void erase(int t, int64_t i) override {A::erase(*db, t, i);}
  void erase_vector(int t, int64_t i, size_t n) override {A::erase_vector(*db, t, i, n);}
  void clear(int t) override {A::clear(*db, t);}
  void comment(const std::string &s) override {db->write_comment(s);}
  void timestamp(int64_t x) override {db->write_timestamp(x);}
  void valid_data() override {db->write_valid_data();}
  void flush() override {db->flush();}
  void soft_checkpoint() override {db->soft_checkpoint();}
  void hard_checkpoint() override {db->hard_checkpoint();}
  int64_t ahead() const override {return db->ahead_of_checkpoint();}
  int64_t checkpoint() const override {return db->get_journal().get_checkpoint();}
  int64_t position() const override {return db->get_journal().get_position();}
  joedb::Blob write_blob(const std::string &s) override {return db->write_blob(s);}
  std::string read_blob(joedb::Blob b) const override {return db->read_blob(b);}
  void multiplexer(const std::function<void(joedb::Writable &)> &f) override {typename A::Multiplexer m(*db); f(m);}
 };

 template<class A, class D> struct Owned_Writer: Writer_Impl<A>
 {
  std::unique_ptr<D> p;
  Owned_Writer(std::unique_ptr<D> q): Writer_Impl<A>(q.get()), p(std::move(q)) {}
 };
 template<class A, class D> struct Owned_Reader: Reader_Impl<A>
 {
  std::unique_ptr<D> p;
  Owned_Reader(std::unique_ptr<D> q): Reader_Impl<A>(q.get()), p(std::move(q)) {}
 };
 template<class A> struct Memory_Impl: Memory
 {
  typename A::Memory_Database db;
  Writer_Impl<A> w;
  Memory_Impl(): w(&db) {}
  Writer &writer() override {return w;}
  void pull() override {db.pull();}
  joedb::Memory_File &file() override {return db;}
 };
 template<class A, class C> struct Client_Impl: Client
 {
  C c;
  Reader_Impl<A> r;
  template<class... X> Client_Impl(X &&... x): c(std::forward<X>(x)...), r(&c.get_database()) {}
  Reader &reader() override {return r;}
  int64_t pull() override {return c.pull();}
  void transaction(const std::function<void(Writer &)> &f) override
  {
   c.transaction([&](typename A::Writable_Database &db) {Writer_Impl<A> w(&db); f(w);});
  }
  struct L: Lock
  {
   typename A::Client_Lock l;
   Writer_Impl<A> w;
   L(C &c): l(c), w(&l.get_database()) {}
   Writer &writer() override {return w;}
   void push() override {l.checkpoint_and_push();}
   void unlock() override {l.unlock();}
   void push_unlock() override {l.checkpoint_and_push_unlock();}
  };
  std::unique_ptr<Lock> lock() override {return std::make_unique<L>(c);}
 };
 template<class A> struct Follower_Impl: Follower
 {
  typename A::Readonly_Client c;
  Reader_Impl<A> r;
  Follower_Impl(joedb::Abstract_File &f): c(f), r(&c.get_database()) {}
  Reader &reader() override {return r;}
  int64_t pull() override {return c.pull();}
 };
 template<class A> struct Registered: Schema
 {
  Registered(const char *n, std::vector<Event> e, std::vector<Index> i, std::set<int> s, std::map<std::pair<int, int>, Value> d, std::map<std::string, Custom_Effect> c)
  {
   name = n; events = e; indices = i; single = s; defaults = d; customs = c;
   for (auto &x: events) final.apply(x);
   schemas().push_back(this);
  }
  std::unique_ptr<Writer> open(joedb::Abstract_File &f, joedb::Recovery r) const override {using D = typename A::Writable_Database; return std::make_unique<Owned_Writer<A, D>>(std::make_unique<D>(f, r));}
  std::unique_ptr<Writer> open_name(const std::string &f, joedb::Open_Mode m, joedb::Recovery r) const override {using D = typename A::File_Database; return std::make_unique<Owned_Writer<A, D>>(std::make_unique<D>(f, m, r));}
  std::unique_ptr<Writer> open_text(const std::string &f) const override {using D = typename A::Interpreted_File_Database; return std::make_unique<Owned_Writer<A, D>>(std::make_unique<D>(f));}
  std::unique_ptr<Memory> memory() const override {return std::make_unique<Memory_Impl<A>>();}
  std::unique_ptr<Reader> readonly(joedb::Abstract_File &f) const override {using D = typename A::Readonly_Database; return std::make_unique<Owned_Reader<A, D>>(std::make_unique<D>(f));}
  std::unique_ptr<Reader> readonly_name(const std::string &f) const override {using D = typename A::Readonly_Database; return std::make_unique<Owned_Reader<A, D>>(std::make_unique<D>(f));}
  std::unique_ptr<Reader> readonly_text(const std::string &f) const override {using D = typename A::Readonly_Interpreted_File_Database; return std::make_unique<Owned_Reader<A, D>>(std::make_unique<D>(f));}
  std::unique_ptr<Follower> follow(joedb::Abstract_File &f) const override {return std::make_unique<Follower_Impl<A>>(f);}
  std::unique_ptr<Client> client(joedb::Abstract_File &f, joedb::Connection &c, joedb::Content_Check k, joedb::Recovery r) const override {return std::make_unique<Client_Impl<A, typename A::Client>>(f, c, k, r);}
  std::unique_ptr<Client> file_client(const std::string &f, joedb::Recovery r) const override {return std::make_unique<Client_Impl<A, typename A::File_Client>>(f, r);}
 };
}
