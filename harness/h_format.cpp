// vf: libs=core
#include "vf.h"
#include "model.h"
#include "files.h"
#include "codec.h"
#include "wild.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/interpreted/Database.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/ui/Interpreter_Dump_Writable.h"
#include "joedb/ui/Raw_Dump_Writable.h"
#include "joedb/ui/SQL_Dump_Writable.h"
#include "joedb/ui/dump.h"
#include "joedb/ui/json.h"

using namespace joedb;
using model::Event; using model::Recorder; using model::Gen; using vf::Ctx;

///////////////////////////////////////////////////////////////////////////////
// S09
///////////////////////////////////////////////////////////////////////////////
static void run_s09(Ctx &c)
{
 model::Options o;
 if (c.chance(1, 4)) {o.big_string = 70000; o.big_vector = 3000;}
 Gen g(c, o);
 const bool is_wild = c.flag();
 Event last;
 std::vector<Event> events;
 const int n = int(c.length(60));
 for (int i = 0; i < n; i++)
 {
  Event e = is_wild ? wild(c, g, last) : g.next();
  if (e.k == model::update_vector && e.v.empty()) continue;
  events.push_back(e);
  c.note(e.str());
  if (e.k == model::insert_into || e.k == model::insert_vector || e.k == model::update || e.k == model::update_vector) {last.t = e.t; last.r = e.r; last.f = e.f;}
 }
 if (events.size() >= 5) c.nontrivial();

 // the library writes, the independent decoder reads
 {
  std::string content;
  files::View f(content, Open_Mode::create_new);
  int64_t hard = 41, cp = 41;
  {
   Writable_Journal j(f);
   for (auto &e: events)
   {
    const Blob b = model::apply(e, j);
    if (e.k == model::blob)
    {
     c.equal(b.get_position() + b.get_size(), j.get_position(), "end of a blob");
     c.check(content.compare(size_t(b.get_position()), size_t(b.get_size()), e.s) == 0, "a blob is not at its place in the file");
    }
    switch (c.below(8)) {case 1: j.soft_checkpoint(); cp = j.get_position(); break; case 2: j.hard_checkpoint(); cp = hard = j.get_position(); break;}
   }
   j.soft_checkpoint();
   cp = j.get_position();
  }
  c.check(content.compare(36, 5, "joedb") == 0, "signature");
  c.check(content.compare(32, 4, std::string("\5\0\0\0", 4)) == 0, "version");
  int64_t best_hard = 41, best = 41;
  for (int p = 0; p < 2; p++)
  {
   codec::Decoder d(content, size_t(16 * p), 32);
   const int64_t a = int64_t(d.little(8)), b = int64_t(d.little(8));
   if (a == b && a > best_hard) best_hard = a;
   best = std::max(best, std::max(-a, -b));
  }
  best = std::max(best, best_hard);
  c.equal(best_hard, hard, "hard checkpoint in the head");
  c.equal(best, cp, "checkpoint in the head");
  c.equal(int64_t(content.size()), cp, "size of the file");
  codec::Decoder d(content, 41, content.size());
  std::vector<Event> got;
  try {while (!d.done()) got.push_back(d.next());}
  catch (const codec::Bad &e) {c.fail(std::string("the file does not follow the documented format: ") + e.what());}
  const std::string diff = model::compare_events(got, events);
  c.check(diff.empty(), "decoding the file: " + diff);
  // and it is as compact as documented
  codec::Encoder k; k.s = codec::Encoder::head(0);
  for (auto &e: events) k.event(e);
  c.check(k.s.size() == content.size(), "size of the encoding: expected " + std::to_string(k.s.size()) + " got " + std::to_string(content.size()));
  c.check(k.s.compare(41, std::string::npos, content, 41) == 0, "the encoding is not the documented one");
 }
 // the independent encoder writes, the library reads
 {
  codec::Encoder k;
  k.c = &c; k.loose_numbers = c.flag();
  k.s = codec::Encoder::head(0);
  for (auto &e: events) k.event(e);
  std::string content = codec::Encoder::head(int64_t(k.s.size()));
  content += k.s.substr(41);
  // various forms of the same checkpoint
  const uint64_t form = c.below(5);
  if (form)
  {
   std::string h;
   const int64_t cp = int64_t(content.size()), old = 41 + int64_t(c.below(uint64_t(cp - 40)));
   switch (form)
   {
    case 1: for (int64_t x: {cp, cp, old, old}) codec::little(h, uint64_t(x), 8); break;
    case 2: for (int64_t x: {old, old, cp, cp}) codec::little(h, uint64_t(x), 8); break;
    case 3: for (int64_t x: {old, old, -old, -cp}) codec::little(h, uint64_t(x), 8); break;
    case 4: for (int64_t x: {-cp, old + 1, old, old}) codec::little(h, uint64_t(x), 8); break;
   }
   content.replace(0, 32, h);
  }
  files::View f(content, Open_Mode::read_existing, c.flag() ? 1 + c.below(1000) : 0);
  Readonly_Journal j(f);
  c.equal(j.get_checkpoint(), int64_t(content.size()), "checkpoint of an encoded file");
  Recorder r;
  j.replay_log(r);
  const std::string diff = model::compare_events(r.events, events);
  c.check(diff.empty(), "reading an encoded file: " + diff);
  if (!is_wild)
  {
   Database db;
   j.replay_log(db);
   const std::string d = model::compare(db, g.m);
   c.check(d.empty(), "database of an encoded file: " + d);
  }
 }
 // compact numbers at every length
 {
  std::vector<uint64_t> v;
  for (int i = 0; i < 10; i++) {const int b = int(c.below(61)); v.push_back((1ull << b) - 1 + c.below(3));}
  std::string content, expected;
  files::View f(content, Open_Mode::create_new);
  codec::Encoder k;
  {
   File_Buffer b(f);
   for (uint64_t x: v) {b.compact_write<int64_t>(int64_t(x)); k.number(x);}
   b.flush();
  }
  c.check(content == k.s, "compact numbers");
  File_Buffer b(f);
  for (uint64_t x: v) c.equal(b.compact_read<int64_t>(), int64_t(x), "compact number");
 }
}

static vf::Register s09({"S09", "at least 5 events", 150000, 6000000, run_s09, "exploration", 60, false, {},
 {"codes, sizes and byte orders are those of the documentation and of the published version 5 of the format, written down independently in the harness"}});

///////////////////////////////////////////////////////////////////////////////
// S05
///////////////////////////////////////////////////////////////////////////////
static void mutate(Ctx &c, std::string &s, const std::vector<size_t> &numbers)
{
 const int n = 1 + int(c.length(6));
 for (int i = 0; i < n && !s.empty(); i++)
 {
  auto any = [&]{return c.below(s.size());};
  switch (c.below(10))
  {
   case 0: {const size_t k = any(); s[k] = char(s[k] ^ (1 << c.below(8)));} break;
   case 1: s[any()] = char(c.below(256)); break;
   case 2: {const size_t k = any(); s.erase(k, 1 + c.below(8));} break;
   case 3: s.insert(any(), c.bytes(8)); break;
   case 4: {const size_t k = any(); const size_t l = 1 + c.below(30); const std::string part = s.substr(k, l); s.insert(any(), part);} break;
   case 5: s.resize(any()); break;
   case 6: case 7:
    if (!numbers.empty())
    {
     // another compact number
     const size_t k = numbers[c.below(numbers.size())];
     if (k >= s.size()) break;
     const size_t extra = uint8_t(s[k]) >> 5;
     codec::Encoder e;
     switch (c.below(4)) {case 0: e.number(c.below(4)); break; case 1: e.number(c.below(100)); break; case 2: e.number(c.bits(int(c.below(62)))); break; default: {const int b = int(c.below(62)); e.number((1ull << b) - 1 - c.below(2) * (b > 0)); }}
     s.replace(k, 1 + extra, e.s);
    }
   break;
   case 8: {static const uint8_t ops[] = {0x01, 0x05, 0x08, 0x0f, 0x13, 0x14, 0x03, 0x02, 0x84, 0x88, 0xa8, 0xa5, 0x90, 0x06, 0x94}; s[any()] = char(ops[c.below(sizeof(ops))]);} break;
   case 9: if (s.size() >= 32) {std::string w; codec::little(w, uint64_t(c.below(2) ? c.integer() : -int64_t(c.below(s.size() * 2))), 8); s.replace(8 * c.below(4), 8, w);} break;
  }
 }
}

template<class F> static bool guarded(Ctx &c, const char *what, F f)
{
 try {f(); return true;}
 catch (const Assertion_Failure &e) {c.fail(std::string(what) + ": internal assertion: " + e.what());}
 catch (const std::bad_alloc &) {c.fail(std::string(what) + ": unbounded allocation");}
 catch (const vf::Fail &) {throw;}
 catch (const std::exception &) {return false;}
}

static void run_s05(Ctx &c)
{
 Destructor_Logger::set_logger(nullptr);
 model::Options o; o.max_vector = 30;
 Gen g(c, o);
 Event last;
 codec::Encoder k;
 k.c = &c;
 k.s = codec::Encoder::head(0);
 const bool is_wild = c.chance(1, 3);
 const int n = int(c.length(40));
 for (int i = 0; i < n; i++)
 {
  Event e = is_wild && c.chance(1, 4) ? wild(c, g, last) : g.next();
  k.event(e);
  if (e.k == model::insert_into || e.k == model::insert_vector || e.k == model::update || e.k == model::update_vector) {last.t = e.t; last.r = e.r; last.f = e.f;}
 }
 std::string content = codec::Encoder::head(int64_t(k.s.size())) + k.s.substr(41);
 if (c.chance(1, 40)) content = c.bytes(300);
 else if (!is_wild || c.flag()) mutate(c, content, k.number_at);
 c.note("file: " + vf::hex(content.substr(0, 400)));
 const std::string original = content;
 const Record_Id max(c.flag() ? 1000 : 50);
 int opened = 0, finished = 0;
 for (const Recovery recovery: {Recovery::none, Recovery::ignore_header})
 {
  files::View f(content, Open_Mode::read_existing);
  int steps = 0;
  guarded(c, "database", [&]
  {
   Readonly_Journal j{Journal_Construction_Lock(f, recovery)};
   opened++;
   Database db(max);
   try {j.replay_log(db); finished++;}
   catch (const Assertion_Failure &) {throw;}
   catch (const std::exception &) {}
   // what was loaded can be read
   for (auto &[tid, name]: db.get_tables())
   {
    const auto &fk = db.get_freedom(tid);
    for (Record_Id r = fk.get_first_used(); r != Freedom_Keeper::used_list; r = fk.get_next(r))
    {
     if (++steps > 100000) c.fail("endless iteration");
     for (auto &[fid, fname]: db.get_fields(tid)) model::read(db, int(to_underlying(tid)), to_underlying(r), int(to_underlying(fid)), model::T(db.get_field_type(tid, fid).get_type_id()));
    }
   }
  });
  c.check(f.writes == 0 && content == original, "reading modified the file");
  guarded(c, "step by step", [&]
  {
   Readonly_Journal j{Journal_Construction_Lock(f, recovery)};
   Recorder r; r.want_blobs = c.flag();
   int steps = 0;
   while (j.get_position() < j.get_checkpoint())
   {
    const int64_t before = j.get_position();
    j.one_step(r);
    if (j.get_position() <= before) c.fail("no progress at " + std::to_string(before));
    if (++steps > 100000) c.fail("endless replay");
   }
  });
  // text dumps of the log
  if (c.chance(1, 2)) guarded(c, "text dump", [&]
  {
   {
    // row by row, these are as long as the largest vector of rows
    Recorder r;
    try {Readonly_Journal j{Journal_Construction_Lock(f, recovery)}; j.replay_log(r);} catch (const Exception &) {}
    for (auto &e: r.events) if (e.n > 10000) return;
   }
   Readonly_Journal j{Journal_Construction_Lock(f, recovery)};
   std::ostringstream out;
   switch (c.below(3))
   {
    case 0: {Interpreter_Dump_Writable w(out); j.replay_log(w);} break;
    case 1: {Raw_Dump_Writable w(out); j.replay_log(w);} break;
    case 2: {SQL_Dump_Writable w(out); j.replay_log(w);} break;
   }
  });
 }
 // opening for writing
 for (const Recovery recovery: {Recovery::none, Recovery::overwrite})
 {
  std::string copy = original;
  files::View f(copy, Open_Mode::write_existing);
  guarded(c, "writable journal", [&]
  {
   Writable_Journal j{Journal_Construction_Lock(f, recovery)};
   Database db(max);
   j.replay_log(db);
   j.comment("ok");
   j.hard_checkpoint();
  });
 }
 if (opened == 2 && original.size() > 60) c.nontrivial();
 c.label(finished == 2 ? "replayed to the end" : opened == 2 ? "opened" : "refused in one mode");
}

static vf::Register s05({"S05", "both opening modes accept the head and the file is longer than 60 bytes", 400000, 10000000, run_s05, "exploration", 20, false, {},
 {"databases are created with a limit on record ids, as in the fuzzers of the repository: ids are otherwise trusted"}});
