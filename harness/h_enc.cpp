// vf: libs=enc
// S07 encoded files
#include "model.h"
#include "files.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/interpreted/Database.h"
#include "joedb/journal/Brotli_Codec.h"
#include "joedb/journal/Brotli_File.h"
#include "joedb/journal/Encoded_File.h"
#include "joedb/journal/File_Hasher.h"
#include "joedb/journal/Identity_Codec.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Readonly_Brotli_File.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/db/encoded_file/Readonly_Database.h"
#include <functional>
#include <memory>
using namespace joedb;
using namespace vf;
using model::Event; using model::Gen; using model::Recorder;

// encoded bytes have another size, and depend on what precedes them
class Odd_Codec: public Codec
{
 public:
  std::string encode(std::string_view d) override
  {
   std::string r = "odd";
   char k = char(d.size());
   for (char x: d) {r += char(x ^ k); k = x; if (x == 'o') r += '!';}
   return r;
  }
  void decode(std::string_view e, char *d, size_t n) override
  {
   char k = char(n);
   size_t j = 3;
   for (size_t i = 0; i < n; i++)
   {
    if (j >= e.size()) throw Exception("odd: too short");
    k = d[i] = char(e[j++] ^ k);
    if (k == 'o') j++;
   }
   if (j != e.size()) throw Exception("odd: too long");
  }
};

static std::string content(Ctx &c, size_t max)
{
 std::string s(c.length(max), 0);
 uint64_t x = c.below(1000);
 for (auto &k: s) k = char(x < 500 ? x : files::mix(x));
 return s;
}

static void put(std::string &s, std::string_view d, size_t offset)
{
 if (d.empty()) return;
 if (s.size() < offset + d.size()) s.resize(offset + d.size());
 std::memcpy(&s[offset], d.data(), d.size());
}

struct Store
{
 Ctx &c;
 int kind; // 0 identity, 1 odd, 2 brotli, 3 brotli file
 Identity_Codec identity;
 Odd_Codec odd;
 Brotli_Codec brotli;
 std::string bytes;
 uint64_t seed;
 std::string path;
 std::unique_ptr<files::View> view, read_view;
 std::unique_ptr<db::encoded_file::Writable_Database> db;
 std::unique_ptr<db::encoded_file::Readonly_Database> read_db;
 std::unique_ptr<Abstract_File> file, read_file;
 Codec &codec() {return kind == 0 ? (Codec &)identity : kind == 1 ? (Codec &)odd : brotli;}
 Store(Ctx &c): c(c), kind(0), seed(c.flag() ? 1 + c.below(100) : 0)
 {
  static const int kinds[] = {0, 0, 0, 1, 1, 1, 2, 3};
  kind = c.pick(kinds);
  c.label(kind == 0 ? "identity" : kind == 1 ? "odd codec" : kind == 2 ? "brotli" : "brotli file");
  if (kind == 3) {vf::clear_scratch(c); path = c.scratch + "/f.brotli";}
 }
 void close() {file.reset(); db.reset(); view.reset();}
 void close_reader() {read_file.reset(); read_db.reset(); read_view.reset();}
 void open()
 {
  close();
  if (kind == 3) file = std::make_unique<Brotli_File>(path.c_str());
  else
  {
   view = std::make_unique<files::View>(bytes, bytes.empty() ? Open_Mode::create_new : Open_Mode::write_existing, seed, 64);
   db = std::make_unique<db::encoded_file::Writable_Database>(*view);
   file = std::make_unique<Encoded_File>(codec(), *db);
  }
 }
 void open_reader()
 {
  close_reader();
  if (kind == 3) read_file = std::make_unique<Readonly_Brotli_File>(path.c_str());
  else
  {
   read_view = std::make_unique<files::View>(bytes, Open_Mode::read_existing, seed, 64);
   read_db = std::make_unique<db::encoded_file::Readonly_Database>(*read_view);
   read_file = std::make_unique<Readonly_Encoded_File>(codec(), *read_db, *read_view);
  }
 }
};

static std::string read(Ctx &c, const Abstract_File &f, size_t offset, size_t size)
{
 std::string b(size + 1, '?');
 size_t n = 0;
 while (n < size)
 {
  const size_t k = f.pread(b.data() + n, size - n, int64_t(offset + n));
  c.check(k <= size - n, "more bytes than asked");
  if (!k) break;
  n += k;
 }
 c.check(b[size] == '?', "wrote beyond the buffer");
 b.resize(n);
 return b;
}

static void same(Ctx &c, const Abstract_File &f, const std::string &ref, size_t offset, size_t size, const std::string &what)
{
 const std::string got = read(c, f, offset, size), expected = offset >= ref.size() ? "" : ref.substr(offset, size);
 if (got == expected) return;
 size_t i = 0;
 while (i < got.size() && i < expected.size() && got[i] == expected[i]) i++;
 c.fail(what + ": read " + std::to_string(size) + " at " + std::to_string(offset) + " of " + std::to_string(ref.size()) + ": got " + std::to_string(got.size()) + " bytes, expected " + std::to_string(expected.size()) + ", first difference at " + std::to_string(offset + i));
}

static void bytes_case(Ctx &c)
{
 Store s(c);
 const bool big = s.kind < 2 && c.chance(1, 30); // goes over the size of the write buffer
 std::vector<std::string> states = {""};
 size_t safe = 0; // everything before that is visible to others
 std::string &ref = states.emplace_back("");
 states.pop_back();
 std::string cur;
 auto wrote = [&] {states.push_back(cur);};
 (void)ref;
 s.open();
 int writes = 0, reads = 0, reopen = 0;
 size_t last_end = 0;
 while (c.more(big ? 12 : 25))
 {
  switch (c.below(10))
  {
   case 0: case 1: case 2: case 3:
   {
    std::string d;
    if (big && c.flag())
    {
     d.assign((1u << 20) - 20 + c.below(50), 0);
     uint64_t x = c.below(100);
     for (size_t i = 0; i < d.size(); i++) d[i] = char(i % 5000 == 0 ? files::mix(x) : x);
     c.label("write buffer overflow");
    }
    else d = content(c, 12000);
    size_t o;
    switch (c.below(5))
    {
     case 0: o = cur.size(); break;
     case 1: o = last_end; break;
     case 2: o = 0; break;
     case 3: o = c.below(cur.size() + 1); break;
     default: o = d.empty() ? 0 : cur.size() + (c.flag() ? c.below(20000) : 0); break;
    }
    if (o > cur.size()) c.label("hole");
    c.notef("write ", d.size(), " at ", o);
    s.file->pwrite(d.data(), d.size(), int64_t(o));
    put(cur, d, o);
    last_end = o + d.size();
    wrote();
    writes++;
   }
   break;
   case 4: case 5: case 6:
   {
    const size_t o = c.chance(1, 4) ? cur.size() + c.below(5) : c.below(cur.size() + 1), n = c.length(big ? 1200000 : 20000);
    c.notef("read ", n, " at ", o);
    same(c, *s.file, cur, o, n, "read by the writer");
    if (n) safe = states.size() - 1;
    reads++;
   }
   break;
   case 7:
    c.note("size");
    c.equal(s.file->get_size(), int64_t(cur.size()), "size for the writer");
   break;
   case 8:
   {
    if (c.flag()) {c.note("sync"); s.file->sync(); safe = states.size() - 1;}
    s.open_reader();
    const int64_t n = s.read_file->get_size();
    const std::string got = read(c, *s.read_file, 0, size_t(n) + 10);
    size_t k = states.size() - 1;
    while (k > safe && states[k] != got) k--;
    c.notef("a reader finds ", got.size(), " bytes");
    c.check(states[k] == got, "a reader finds bytes that are not those of the file after the last synchronization");
    c.equal(n, int64_t(got.size()), "size for a reader");
    for (int i = 0; i < 3; i++) same(c, *s.read_file, got, c.below(got.size() + 3), c.length(20000), "read by a reader");
    s.close_reader();
    reads++;
   }
   break;
   default:
    c.note("reopen");
    s.close();
    if (c.flag())
    {
     s.open_reader();
     c.equal(s.read_file->get_size(), int64_t(cur.size()), "size after closing");
     same(c, *s.read_file, cur, 0, cur.size() + 10, "content after closing");
     s.close_reader();
    }
    s.open();
    safe = states.size() - 1;
    reopen++;
   break;
  }
 }
 // copies
 if (!big && c.flag())
 {
  Memory_File m;
  s.file->copy_to(m);
  c.check(m.get_data() == cur, "copy to a plain file");
  c.check(s.file->equal_to(m, 0, int64_t(cur.size())), "comparison with its copy");
  c.check(File_Hasher::get_hash(*s.file) == File_Hasher::get_hash(m), "digest of an encoded file");
 }
 s.close();
 s.open_reader();
 c.equal(s.read_file->get_size(), int64_t(cur.size()), "final size");
 same(c, *s.read_file, cur, 0, cur.size() + 10, "final content");
 s.close_reader();
 if (writes >= 3 && reads >= 2) c.nontrivial();
}

static void journal_case(Ctx &c)
{
 Store s(c);
 Memory_File plain;
 model::Options o;
 o.big_string = 6000;
 o.big_vector = 1500;
 Gen g(c, o);
 std::vector<Event> events;
 const int sessions = 1 + int(c.below(3));
 for (int k = 0; k < sessions; k++)
 {
  s.open();
  Writable_Journal j(*s.file), p(plain);
  Recorder r;
  j.replay_log(r);
  {Recorder r2; p.replay_log(r2);}
  std::string d = model::compare_events(r.events, events);
  c.check(d.empty(), "replay when reopening: " + d);
  while (c.more(40))
  {
   Event e = g.next();
   c.notef(j.get_position(), ": ", e.str());
   const Blob b = model::apply(e, j);
   model::apply(e, p);
   if (e.k == model::blob && c.flag()) {j.flush(); c.check(s.file->read_blob(b) == e.s, "blob");}
   events.push_back(e);
   c.equal(j.get_position(), p.get_position(), "position");
   switch (c.below(12))
   {
    case 0: j.soft_checkpoint(); p.soft_checkpoint(); c.note("soft checkpoint"); break;
    case 1: j.hard_checkpoint(); p.hard_checkpoint(); c.note("hard checkpoint"); break;
    case 2:
    {
     j.hard_checkpoint(); p.hard_checkpoint();
     c.note("hard checkpoint, reader");
     s.open_reader();
     Readonly_Journal q(*s.read_file);
     Recorder r3;
     q.replay_log(r3);
     d = model::compare_events(r3.events, events);
     c.check(d.empty(), "reader: " + d);
     s.close_reader();
    }
    break;
   }
  }
  j.soft_checkpoint(); p.soft_checkpoint();
  c.label("sessions");
 }
 s.close();
 s.open_reader();
 const int64_t n = s.read_file->get_size();
 c.equal(n, plain.get_size(), "size of the journal");
 same(c, *s.read_file, plain.get_data(), 0, size_t(n), "journal");
 Readonly_Journal j(*s.read_file);
 Database db;
 j.replay_log(db);
 const std::string d = model::compare(db, g.m);
 c.check(d.empty(), "database: " + d);
 s.close_reader();
 if (events.size() >= 8) c.nontrivial();
 c.label("journals");
}

static void run_s07(Ctx &c)
{
 Destructor_Logger::set_logger({});
 if (c.below(4) == 3) journal_case(c); else bytes_case(c);
}

static Register s07({"S07", "at least 3 writes and 2 reads, or a journal of at least 8 events", 8000, 800000, run_s07, "exploration", 60, false, {},
 {"writes of zero bytes are not made beyond the end", "what is written after the last synchronization may be invisible to other openings until the file is closed"}});
