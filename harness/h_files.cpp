// vf: libs=core
// S06 files, S08 streams, U01 digests and encodings
#include "vf.h"
#include "files.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/journal/Async_Reader.h"
#include "joedb/journal/Async_Writer.h"
#include "joedb/journal/File.h"
#include "joedb/journal/File_Buffer.h"
#include "joedb/journal/File_Hasher.h"
#include "joedb/journal/File_Slice.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Portable_File.h"
#include "joedb/journal/Portable_File.cpp"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/journal/Stream_File.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/journal/fstream.h"
#include "joedb/journal/iostream.h"
#include "joedb/ui/base64.h"
#include "joedb/ui/base64_decode.cpp"
#include <cmath>
#include <fstream>
#include <functional>
#include <memory>
#include <sstream>
using namespace joedb;
using namespace vf;

///////////////////////////////////////////////////////////////////////////////
// S06
///////////////////////////////////////////////////////////////////////////////
static std::string content(Ctx &c, size_t max)
{
 const size_t n = c.length(max);
 std::string s(n, 0);
 uint64_t x = c.below(1000);
 for (auto &k: s) k = char(x < 2 ? x : files::mix(x));
 return s;
}

static void write_file(const std::string &path, const std::string &s)
{
 std::ofstream f(path, std::ios::binary);
 f.write(s.data(), std::streamsize(s.size()));
}

static std::string read_file(const std::string &path)
{
 std::ifstream f(path, std::ios::binary);
 std::ostringstream o;
 o << f.rdbuf();
 return o.str();
}

struct Thing
{
 std::string kind;
 std::string ref; // the plain byte array
 std::string store; // bytes of a view
 std::string path;
 std::unique_ptr<Abstract_File> below;
 std::unique_ptr<std::streambuf> buf;
 std::unique_ptr<Abstract_File> file;
 bool beyond = true; // can be written beyond its end
 bool sized = true;
};

static std::unique_ptr<Thing> thing(Ctx &c, int kind, int number, const std::string &initial)
{
 auto t = std::make_unique<Thing>();
 t->ref = initial;
 const std::string path = c.scratch + "/f" + std::to_string(number);
 const uint64_t seed = 1 + c.below(1000);
 switch (kind)
 {
  case 0:
   t->kind = "memory";
   {auto m = std::make_unique<Memory_File>(); m->get_data() = initial; t->file = std::move(m);}
  break;
  case 1:
   t->kind = "short reads";
   t->store = initial;
   t->file = std::make_unique<files::View>(t->store, Open_Mode::write_existing, seed, 1);
  break;
  case 2:
   t->kind = "system file"; t->path = path;
   if (!initial.empty() || c.flag()) write_file(path, initial);
   t->file = std::make_unique<File>(path, c.flag() ? Open_Mode::write_existing_or_create_new : Open_Mode::shared_write);
  break;
  case 3:
   t->kind = "portable file"; t->path = path;
   if (!initial.empty() || c.flag()) write_file(path, initial);
   t->file = std::make_unique<Portable_File>(path, Open_Mode::write_existing_or_create_new);
  break;
  case 4:
   t->kind = "string stream";
   t->buf = std::make_unique<std::stringbuf>(initial, std::ios::in | std::ios::out);
   t->file = std::make_unique<Stream_File>(*t->buf, Open_Mode::write_existing);
   t->beyond = false;
  break;
  case 5:
   t->kind = "stream over a file";
   t->store = initial;
   t->below = std::make_unique<files::View>(t->store, Open_Mode::write_existing, seed, 1);
   t->buf = std::make_unique<joedb::filebuf>(*t->below);
   t->file = std::make_unique<Stream_File>(*t->buf, Open_Mode::write_existing);
  break;
  // read only
  case 6:
   t->kind = "read-only memory"; t->store = initial;
   if (c.flag()) t->file = std::make_unique<Readonly_Memory_File>(std::string_view(t->store));
   else t->file = std::make_unique<Readonly_Memory_File>(t->store.data(), t->store.size());
  break;
  case 7:
  {
   t->kind = "slice"; t->path = path;
   const size_t before = 1 + c.length(9000);
   write_file(path, std::string(before, 'b') + initial + std::string(c.below(20), 'a'));
   const int fd = ::open(path.c_str(), O_RDONLY);
   t->file = std::make_unique<File_Slice>(fd, before, initial.size());
   ::close(fd);
   t->path.clear();
  }
  break;
  case 8:
   t->kind = "read-only system file"; write_file(path, initial);
   t->file = std::make_unique<File>(path, Open_Mode::read_existing);
  break;
  default:
   t->kind = "read-only portable file"; write_file(path, initial);
   t->file = std::make_unique<Portable_File>(path, Open_Mode::read_existing);
  break;
 }
 return t;
}

static size_t offset_in(Ctx &c, const Thing &t, bool beyond)
{
 switch (c.below(beyond ? 5 : 4))
 {
  case 0: return 0;
  case 1: return t.ref.size();
  case 2: return c.below(t.ref.size() + 1);
  case 3: return t.ref.size() - c.below(std::min<size_t>(t.ref.size(), 10) + 1);
  default: return t.ref.size() + 1 + c.length(9000);
 }
}

static void check_read(Ctx &c, const Thing &t, size_t size, size_t offset)
{
 std::string b(size + 1, '?');
 size_t n = 0;
 while (true)
 {
  const size_t k = t.file->pread(b.data() + n, size - n, int64_t(offset + n));
  c.check(k <= size - n, t.kind + ": more bytes than asked");
  n += k;
  if (k == 0 || n == size) break;
 }
 const std::string expected = offset >= t.ref.size() ? "" : t.ref.substr(offset, size);
 c.equal(quoted(std::string_view(b).substr(0, n)), quoted(expected), t.kind + ": first bytes");
 c.check(std::string_view(b).substr(0, n) == expected, t.kind + ": bytes read");
 c.check(b[size] == '?', t.kind + ": read beyond the buffer");
}

static void put(std::string &s, std::string_view d, size_t offset)
{
 if (d.empty()) return;
 if (s.size() < offset + d.size()) s.resize(offset + d.size());
 std::memcpy(&s[offset], d.data(), d.size());
}

static void check_all(Ctx &c, const Thing &t)
{
 c.equal(t.file->get_size(), int64_t(t.ref.size()), t.kind + ": size");
 check_read(c, t, t.ref.size() + 10, 0);
 if (!t.path.empty()) c.check(read_file(t.path) == t.ref, t.kind + ": content of the file system");
}

// a number as published in the documentation of the format
static std::string compact(uint64_t x)
{
 std::string s;
 int extra = 0;
 while (extra < 7 && (x >> (8 * extra)) >= 0x20) extra++;
 s += char((extra << 5) | (x >> (8 * extra)));
 while (extra--) s += char(x >> (8 * extra));
 return s;
}
template<class T> static std::string raw(T x) {return std::string((const char *)&x, sizeof x);}

struct Item {int kind; size_t position, end; uint64_t x; std::string s;};

static void buffered(Ctx &c, Thing &t, int &ops)
{
 File_Buffer b(*t.file);
 size_t position = 0;
 bool writing = false, reading = false;
 std::vector<Item> items;
 const int avg = 30;
 // write
 if (!t.file->is_readonly())
 {
  if (!c.flag()) {position = offset_in(c, t, false); b.set_position(int64_t(position));}
  size_t low = position;
  std::string pending; // from low
  auto done = [&]() {put(t.ref, pending, low); pending.clear(); low = position;};
  while (c.more(avg))
  {
   Item it{int(c.below(9)), position, 0, 0, ""};
   std::string bytes;
   switch (it.kind)
   {
    case 0: it.x = c.bits(8); bytes = raw(uint8_t(it.x)); b.write<uint8_t>(uint8_t(it.x)); break;
    case 1: it.x = c.bits(32); bytes = raw(uint32_t(it.x)); b.write<uint32_t>(uint32_t(it.x)); break;
    case 2: it.x = c.bits(64); bytes = raw(it.x); b.write<uint64_t>(it.x); break;
    case 3: it.x = c.bits(int(c.below(17))); bytes = compact(it.x); b.compact_write<uint16_t>(uint16_t(it.x)); break;
    case 4: it.x = c.bits(int(c.below(62))); bytes = compact(it.x); b.compact_write<int64_t>(int64_t(it.x)); break;
    case 5: it.s = content(c, 9000); bytes = compact(it.s.size()) + it.s; b.write_string(it.s); break;
    case 6: it.s = content(c, 9000); bytes = it.s; b.write_data(it.s.data(), it.s.size()); break;
    case 7: it.x = c.below(c.flag() ? 40 : 1000000); bytes = compact(it.x); b.write_reference(Record_Id(index_t(it.x) - 1)); break;
    default: // a seek
     b.flush(); done();
     position = offset_in(c, t, false);
     b.set_position(int64_t(position)); low = position;
     c.notef("seek ", position);
     items.clear();
     ops++;
    continue;
   }
   c.notef("write kind ", it.kind, " ", bytes.size(), " bytes at ", position);
   pending += bytes;
   position += bytes.size();
   it.end = position;
   c.equal(b.get_position(), int64_t(position), "position of the buffer");
   items.push_back(std::move(it));
   if (c.chance(1, 10)) {b.flush(); done(); check_read(c, t, t.ref.size(), 0);}
   ops++;
   writing = true;
  }
  b.flush();
  done();
  check_all(c, t);
 }
 // read back in order from some item, jumping sometimes
 if (!items.empty())
 {
  size_t i = 0;
  b.set_position(int64_t(items[0].position));
  for (int k = 0; k < int(items.size()) + 10 && i < items.size(); k++)
  {
   if (c.chance(1, 8)) {i = c.below(items.size()); b.set_position(int64_t(items[i].position)); c.notef("jump to ", items[i].position);}
   const Item &it = items[i];
   c.equal(b.get_position(), int64_t(it.position), "position while reading");
   if (c.chance(1, 6)) {b.ignore(int64_t(it.end - it.position));}
   else switch (it.kind)
   {
    case 0: c.equal(uint64_t(b.read<uint8_t>()), it.x, "8 bits"); break;
    case 1: c.equal(uint64_t(b.read<uint32_t>()), it.x, "32 bits"); break;
    case 2: c.equal(b.read<uint64_t>(), it.x, "64 bits"); break;
    case 3: c.equal(uint64_t(b.compact_read<uint16_t>()), it.x, "compact 16 bits"); break;
    case 4: c.equal(uint64_t(b.compact_read<int64_t>()), it.x, "compact 64 bits"); break;
    case 5:
    {
     std::string s;
     if (c.flag()) s = b.read_string();
     else
     {
      const int64_t max = c.flag() ? int64_t(it.s.size()) + 1 : int64_t(c.below(it.s.size() + 2));
      s = b.safe_read_string(max);
      if (int64_t(it.s.size()) >= max) {c.check(s.empty(), "string too long was read"); i = items.size(); break;}
     }
     c.check(s == it.s, "string");
    }
    break;
    case 6: {std::string s(it.s.size(), 0); c.equal(b.read_data(s.data(), s.size()), s.size(), "size of data"); c.check(s == it.s, "data");} break;
    case 7: c.equal(to_underlying(b.read_reference()), index_t(it.x) - 1, "reference"); break;
   }
   i++;
   ops++;
   reading = true;
  }
  // the end of the file is reported
  b.set_position(int64_t(t.ref.size()) - int64_t(c.below(std::min<size_t>(t.ref.size(), 8) + 1)));
  bool thrown = false;
  try {char d[20]; b.read_data(d, 9 + c.below(10));} catch (const Exception &) {thrown = true;}
  c.check(thrown, "reading past the end with the buffer was accepted");
  b.set_position(0);
 }
 if (writing && reading) c.label("buffered writes then reads");
}

static void run_s06(Ctx &c)
{
 Destructor_Logger::set_logger({});
 vf::clear_scratch(c);
 std::vector<std::unique_ptr<Thing>> things;
 const size_t n = 1 + c.below(3);
 const std::string initial = content(c, 20000);
 for (size_t i = 0; i < n; i++)
 {
  const int kind = int(c.below(10));
  things.push_back(thing(c, kind, int(i), initial));
  c.notef("file ", i, ": ", things.back()->kind, ", ", initial.size(), " bytes");
  c.label(things.back()->kind);
 }
 // what they are written to
 int writes = 0, reads = 0, two = 0, ops = 0;
 while (c.more(25))
 {
  Thing &t = *things[c.below(n)];
  const bool ro = t.file->is_readonly();
  switch (c.below(9))
  {
   case 0: case 1:
    if (!ro)
    {
     const std::string d = content(c, 12000);
     const size_t o = offset_in(c, t, t.beyond && !d.empty());
     c.notef("write ", d.size(), " at ", o, " in ", t.kind);
     t.file->pwrite(d.data(), d.size(), int64_t(o));
     put(t.ref, d, o);
     if (o > 0 && !d.empty()) writes++;
     break;
    }
    [[fallthrough]];
   case 2: case 3:
   {
    const size_t o = offset_in(c, t, t.beyond), s = c.length(15000);
    c.notef("read ", s, " at ", o, " in ", t.kind);
    check_read(c, t, s, o);
    if (s) reads++;
   }
   break;
   case 4:
    c.equal(t.file->get_size(), int64_t(t.ref.size()), t.kind + ": size");
   break;
   case 5:
   {
    Thing &d = *things[c.below(n)];
    if (&d == &t || d.file->is_readonly()) break;
    const size_t o = c.below(t.ref.size() + 1);
    if (!d.beyond && o > d.ref.size()) break;
    int64_t s = int64_t(c.below(t.ref.size() - o + 1));
    const bool to_end = c.chance(1, 4), past = !to_end && c.chance(1, 6);
    if (to_end) s = -1;
    if (past) s = int64_t(t.ref.size() - o + 1 + c.below(10));
    c.notef("copy ", s, " from ", o, " of ", t.kind, " to ", d.kind);
    bool thrown = false;
    try
    {
     if (to_end && o == 0 && c.flag()) t.file->Abstract_File::copy_to(*d.file);
     else t.file->copy_to(*d.file, int64_t(o), s);
    }
    catch (const Exception &) {thrown = true;}
    c.equal(thrown, past, "copy beyond the end refused");
    put(d.ref, std::string_view(t.ref).substr(o, s < 0 ? std::string::npos : size_t(s)), o);
    check_all(c, d);
    two++;
   }
   break;
   case 6:
   {
    Thing &d = *things[c.below(n)];
    const size_t from = c.below(t.ref.size() + 1), until = from + c.below(t.ref.size() - from + 1);
    const std::string a = t.ref.substr(from, until - from);
    std::string b = from < d.ref.size() ? d.ref.substr(from, until - from) : "";
    c.notef("compare ", from, " to ", until, " of ", t.kind, " and ", d.kind);
    if (!d.beyond && until > d.ref.size()) break;
    c.equal(t.file->equal_to(*d.file, int64_t(from), int64_t(until)), a == b, "comparison of " + t.kind + " and " + d.kind);
    two++;
   }
   break;
   case 7:
   {
    const size_t o = c.below(t.ref.size() + 1), s = c.below(t.ref.size() - o + 1) + (c.chance(1, 8) ? 30000 : 0);
    const int64_t max = c.flag() ? -1 : int64_t(c.below(2 * s + 2));
    const bool ok = o + s <= t.ref.size() && (max < 0 || int64_t(s) < max);
    c.notef("blob ", o, " ", s, " max ", max, " of ", t.kind);
    bool thrown = false;
    std::string b;
    try {b = t.file->read_blob(Blob(int64_t(o), int64_t(s)), max);} catch (const Exception &) {thrown = true;}
    c.equal(thrown, !ok, "blob refused");
    if (ok) c.check(b == t.ref.substr(o, s), "blob");
   }
   break;
   default:
   {
    if (!ro && c.flag()) {if (c.flag()) t.file->sync(); else t.file->datasync(); break;}
    // piece by piece
    const size_t start = c.below(t.ref.size() + 1), end = start + c.below(t.ref.size() - start + 1);
    const bool past = c.chance(1, 5);
    Async_Reader r(*t.file, int64_t(start), int64_t(end + (past ? 5 + t.ref.size() - end : 0)));
    std::string got, expected = t.ref.substr(start, past ? std::string::npos : end - start);
    c.notef("pieces from ", start, " to ", end, past ? " and beyond" : "", " of ", t.kind);
    while (r.get_remaining() > 0 && !r.is_end_of_file())
    {
     std::string b(1 + c.length(9000), 0);
     const size_t k = r.read(b.data(), b.size());
     c.check(k <= b.size(), "piece too big");
     c.check(k == b.size() || r.get_remaining() == 0 || r.is_end_of_file(), "piece too small");
     got += b.substr(0, k);
     c.check(got.size() <= expected.size(), "too many pieces");
    }
    c.check(got == expected, "pieces");
    c.equal(r.is_end_of_file(), past, "end of file");
    c.equal(r.get_current(), int64_t(start + got.size()), "position of the reader");
    if (!ro)
    {
     size_t o = offset_in(c, t, false);
     Async_Writer w(*t.file, int64_t(o));
     while (c.more(3))
     {
      const std::string d = content(c, 5000);
      w.write(d.data(), d.size());
      put(t.ref, d, o); o += d.size();
      c.equal(w.get_position(), int64_t(o), "position of the writer");
     }
    }
    reads++;
   }
   break;
  }
  ops++;
  if (c.chance(1, 6)) check_all(c, t);
 }
 if (c.flag()) buffered(c, *things[0], ops);
 for (auto &t: things)
 {
  check_all(c, *t);
  if (!t->path.empty())
  {
   t->file.reset();
   c.check(read_file(t->path) == t->ref, t->kind + ": content after closing");
  }
 }
 if (ops >= 8 && (writes >= 2 || two >= 1) && reads >= 1) c.nontrivial();
}

static Register s06({"S06", "at least 8 operations with at least one read and two writes away from the start (or an operation on two files)", 30000, 3000000, run_s06, "exploration", 60, false, {},
 {"writes of zero bytes are not made beyond the end", "a string stream is not accessed beyond its end, which standard string buffers refuse"}});

///////////////////////////////////////////////////////////////////////////////
// S08
///////////////////////////////////////////////////////////////////////////////
// the obvious stream buffer: an array of bytes, a read position, and a write position
class Plain: public std::streambuf
{
 public:
  std::string data;
  int64_t g = 0, p = 0;
 protected:
  int_type underflow() override {return g < int64_t(data.size()) ? traits_type::to_int_type(data[size_t(g)]) : traits_type::eof();}
  int_type uflow() override {const int_type x = underflow(); if (x != traits_type::eof()) g++; return x;}
  int_type overflow(int_type x) override
  {
   if (x == traits_type::eof()) return traits_type::not_eof(x);
   if (int64_t(data.size()) <= p) data.resize(size_t(p) + 1);
   data[size_t(p++)] = traits_type::to_char_type(x);
   return x;
  }
  int_type pbackfail(int_type x) override
  {
   if (g <= 0 || g > int64_t(data.size())) return traits_type::eof();
   g--;
   if (x != traits_type::eof()) data[size_t(g)] = traits_type::to_char_type(x);
   return traits_type::to_int_type(data[size_t(g)]);
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode w) override
  {
   const int64_t base = d == std::ios_base::beg ? 0 : d == std::ios_base::end ? int64_t(data.size()) : (w & std::ios_base::in) ? g : p;
   return seekpos(base + o, w);
  }
  pos_type seekpos(pos_type x, std::ios_base::openmode w) override
  {
   if (x < 0) return pos_type(off_type(-1));
   if (w & std::ios_base::in) g = x;
   if (w & std::ios_base::out) p = x;
   return x;
  }
};

static std::string state(const std::ios &s)
{
 return std::string(s.eof() ? "eof " : "") + (s.fail() ? "fail " : "") + (s.bad() ? "bad " : "");
}

static void run_s08(Ctx &c)
{
 Destructor_Logger::set_logger({});
 std::string store = content(c, 20000);
 Plain plain;
 plain.data = store;
 std::iostream expected(&plain);

 const int kind = int(c.below(4));
 std::unique_ptr<Abstract_File> file;
 std::unique_ptr<std::iostream> own;
 std::unique_ptr<std::streambuf> buf;
 std::iostream *s = nullptr;
 std::string path;
 if (kind == 0) {auto m = std::make_unique<Memory_File>(); m->get_data() = store; file = std::move(m);}
 else if (kind == 1) file = std::make_unique<files::View>(store, Open_Mode::write_existing, 1 + c.below(1000), 1);
 else
 {
  vf::clear_scratch(c);
  path = c.scratch + "/f";
  write_file(path, store);
  if (kind == 2) file = std::make_unique<File>(path, Open_Mode::write_existing);
  else
  {
   own = std::make_unique<joedb::fstream>(path, Open_Mode::write_existing_or_create_new);
   s = own.get();
  }
 }
 if (!s)
 {
  if (c.flag()) {own = std::make_unique<joedb::iostream>(*file);}
  else
  {
   buf = std::make_unique<joedb::filebuf>(*file);
   own = std::make_unique<std::iostream>(buf.get());
  }
  s = own.get();
 }
 c.notef("kind ", kind, " size ", store.size());
 std::iostream &a = *s, &b = expected;
 auto same = [&](const std::string &what)
 {
  c.equal(state(a), state(b), what + ": state");
 };
 // a seek or a flush is made between reading and writing, as with standard files
 int mode = 0;
 auto turn = [&](int m)
 {
  if (mode && mode != m)
  {
   switch (c.below(3))
   {
    case 0: a.rdbuf()->pubsync(); b.rdbuf()->pubsync(); c.note("sync"); break;
    case 1: if (a.good()) {c.equal(int64_t(a.tellp()), int64_t(b.tellp()), "tellp"); c.note("tellp");} else {a.rdbuf()->pubsync(); b.rdbuf()->pubsync();} break;
    default: if (a.good()) {c.equal(int64_t(a.tellg()), int64_t(b.tellg()), "tellg"); c.note("tellg");} else {a.rdbuf()->pubsync(); b.rdbuf()->pubsync();} break;
   }
   c.label("turns");
  }
  mode = m;
 };
 int reads = 0, writes = 0, seeks = 0;
 while (c.more(40))
 {
  const int op = int(c.below(18));
  if (op >= 6 && op < 12)
  {
   turn(2);
   switch (op)
   {
    case 6: {const char x = char(c.below(256)); c.notef("put ", int(x)); a.put(x); b.put(x);} break;
    case 7: case 8: {const std::string d = content(c, 20000); c.notef("write ", d.size()); a.write(d.data(), std::streamsize(d.size())); b.write(d.data(), std::streamsize(d.size()));} break;
    case 9: {const int64_t x = c.integer(); c.notef("print ", x); a << x << ' '; b << x << ' ';} break;
    case 10: {const std::string d = content(c, 9000); c.notef("sputn ", d.size()); c.equal(a.rdbuf()->sputn(d.data(), std::streamsize(d.size())), b.rdbuf()->sputn(d.data(), std::streamsize(d.size())), "sputn");} break;
    default: {const char x = char(c.below(256)); c.notef("sputc ", int(x)); c.equal(a.rdbuf()->sputc(x), b.rdbuf()->sputc(x), "sputc");} break;
   }
   same("writing");
   writes++;
  }
  else if (op < 6)
  {
   turn(1);
   switch (c.below(14))
   {
    case 0: case 1: {c.note("get"); const int x = b.get(); c.equal(a.get(), x, "get");} break;
    case 2: case 3:
    {
     std::string x(c.length(20000), '?'), y = x;
     c.notef("read ", x.size());
     a.read(x.data(), std::streamsize(x.size())); b.read(y.data(), std::streamsize(y.size()));
     c.equal(a.gcount(), b.gcount(), "gcount");
     c.check(x == y, "bytes read");
    }
    break;
    case 4: {c.note("peek"); const int x = b.peek(); c.equal(a.peek(), x, "peek");} break;
    case 5: c.note("unget"); a.unget(); b.unget(); break;
    case 6:
    {
     // the character that was read, or another one
     const int64_t g = plain.g;
     char x = char(c.below(256));
     if (c.flag() && g > 0 && g <= int64_t(plain.data.size())) x = plain.data[size_t(g) - 1];
     c.notef("putback ", int(x));
     a.putback(x); b.putback(x);
    }
    break;
    case 7: {std::string x, y; c.note("getline"); std::getline(a, x, char(7)); std::getline(b, y, char(7)); c.check(x == y, "getline");} break;
    case 8: {std::string x, y; c.note("word"); a >> x; b >> y; c.check(x == y, "word");} break;
    case 9: {int x = 1, y = 1; c.note("number"); a >> x; b >> y; c.equal(x, y, "number");} break;
    case 10: {const int n = int(c.below(10000)); c.notef("ignore ", n); a.ignore(n); b.ignore(n); c.equal(a.gcount(), b.gcount(), "ignored");} break;
    case 11:
    {
     std::string x(c.length(9000), '?'), y = x;
     c.notef("sgetn ", x.size());
     c.equal(a.rdbuf()->sgetn(x.data(), std::streamsize(x.size())), b.rdbuf()->sgetn(y.data(), std::streamsize(y.size())), "sgetn");
     c.check(x == y, "bytes of sgetn");
    }
    break;
    case 12:
    {
     c.note("sbumpc, sgetc");
     c.equal(a.rdbuf()->sbumpc(), b.rdbuf()->sbumpc(), "sbumpc");
     c.equal(a.rdbuf()->sgetc(), b.rdbuf()->sgetc(), "sgetc");
    }
    break;
    default:
    {
     c.note("sungetc");
     c.equal(a.rdbuf()->sungetc(), b.rdbuf()->sungetc(), "sungetc");
    }
    break;
   }
   same("reading");
   reads++;
  }
  else if (op < 16)
  {
   const bool in = c.flag();
   const int64_t size = int64_t(plain.data.size());
   int64_t target = c.flag() ? int64_t(c.below(uint64_t(size) + 1)) : c.flag() ? size : int64_t(c.below(uint64_t(size) + 9000));
   if (c.chance(1, 15)) target = -1 - int64_t(c.below(5));
   std::ios_base::seekdir d = std::ios_base::beg;
   int64_t off = target;
   switch (c.below(4))
   {
    case 0: d = std::ios_base::cur; off = target - (in ? plain.g : plain.p); break;
    case 1: d = std::ios_base::end; off = target - size; break;
    default: break;
   }
   c.notef("seek", in ? 'g' : 'p', " ", off, d == std::ios_base::beg ? " from the start" : d == std::ios_base::cur ? " from here" : " from the end");
   if (c.chance(1, 8))
   {
    const auto w = std::ios_base::in | std::ios_base::out;
    const int64_t x = a.rdbuf()->pubseekoff(target, std::ios_base::beg, w), y = b.rdbuf()->pubseekoff(target, std::ios_base::beg, w);
    c.equal(x, y, "position");
   }
   else if (in) {a.seekg(off, d); b.seekg(off, d);}
   else {a.seekp(off, d); b.seekp(off, d);}
   same("seeking");
   if (target >= 0 && a.good()) mode = 0;
   else {a.rdbuf()->pubsync(); b.rdbuf()->pubsync(); mode = 0;}
   seeks++;
  }
  else if (op == 16)
  {
   if (c.flag()) {c.note("flush"); a.flush(); b.flush();} else {c.note("pubsync"); a.rdbuf()->pubsync(); b.rdbuf()->pubsync();}
   same("flush");
   if (a.good()) mode = 0;
  }
  else {c.notef("clear ", state(a)); a.clear(); b.clear();}
  if (c.chance(1, 6))
  {
   c.note("tell");
   c.equal(int64_t(a.tellg()), int64_t(b.tellg()), "tellg");
   c.equal(int64_t(a.tellp()), int64_t(b.tellp()), "tellp");
   if (a.good()) mode = 0;
  }
 }
 own.reset();
 buf.reset();
 std::string result;
 if (kind == 0) result = static_cast<Memory_File &>(*file).get_data();
 else if (kind == 1) result = store;
 else {file.reset(); result = read_file(path);}
 c.equal(result.size(), plain.data.size(), "final size");
 c.check(result == plain.data, "final bytes");
 if (reads >= 4 && writes >= 2 && seeks >= 1) c.nontrivial();
}

static Register s08({"S08", "at least 4 reads, 2 writes and one seek", 40000, 4000000, run_s08, "exploration", 60, false, {},
 {"a seek, tell or flush is made between reading and writing, as the standard requires for file streams"}});

///////////////////////////////////////////////////////////////////////////////
// U01
///////////////////////////////////////////////////////////////////////////////
// SHA-256 from its definition
struct Sha
{
 uint32_t k[64], h0[8];
 static uint32_t fraction(long double x) {return uint32_t((x - std::floor(x)) * 4294967296.0L);}
 Sha()
 {
  int n = 0;
  for (int p = 2; n < 64; p++)
  {
   bool prime = true;
   for (int d = 2; d * d <= p; d++) if (p % d == 0) prime = false;
   if (!prime) continue;
   k[n] = fraction(std::cbrt((long double)p));
   if (n < 8) h0[n] = fraction(std::sqrt((long double)p));
   n++;
  }
 }
 static uint32_t rot(uint32_t x, int n) {return (x >> n) | (x << (32 - n));}
 std::array<uint32_t, 8> operator()(std::string m) const
 {
  const uint64_t bits = uint64_t(m.size()) * 8;
  m += char(0x80);
  while (m.size() % 64 != 56) m += '\0';
  for (int i = 7; i >= 0; i--) m += char(bits >> (8 * i));
  std::array<uint32_t, 8> h;
  for (int i = 0; i < 8; i++) h[size_t(i)] = h0[i];
  for (size_t o = 0; o < m.size(); o += 64)
  {
   uint32_t w[64];
   for (size_t i = 0; i < 16; i++) w[i] = uint32_t(uint8_t(m[o + 4 * i])) << 24 | uint32_t(uint8_t(m[o + 4 * i + 1])) << 16 | uint32_t(uint8_t(m[o + 4 * i + 2])) << 8 | uint8_t(m[o + 4 * i + 3]);
   for (int i = 16; i < 64; i++)
    w[i] = w[i - 16] + w[i - 7] + (rot(w[i - 15], 7) ^ rot(w[i - 15], 18) ^ (w[i - 15] >> 3)) + (rot(w[i - 2], 17) ^ rot(w[i - 2], 19) ^ (w[i - 2] >> 10));
   auto x = h;
   for (int i = 0; i < 64; i++)
   {
    const uint32_t t1 = x[7] + (rot(x[4], 6) ^ rot(x[4], 11) ^ rot(x[4], 25)) + ((x[4] & x[5]) ^ (~x[4] & x[6])) + k[i] + w[i];
    const uint32_t t2 = (rot(x[0], 2) ^ rot(x[0], 13) ^ rot(x[0], 22)) + ((x[0] & x[1]) ^ (x[0] & x[2]) ^ (x[1] & x[2]));
    for (size_t j = 7; j > 0; j--) x[j] = x[j - 1];
    x[4] += t1;
    x[0] = t1 + t2;
   }
   for (size_t i = 0; i < 8; i++) h[i] += x[i];
  }
  return h;
 }
};
static const Sha sha;

static std::string hash_string(const SHA_256::Hash &h)
{
 char b[65];
 for (size_t i = 0; i < 8; i++) snprintf(b + 8 * i, 9, "%08x", h[i]);
 return b;
}

static std::string base64_of(const std::string &s)
{
 static const char *a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
 std::string r;
 uint32_t bits = 0;
 int n = 0;
 for (char x: s)
 {
  bits = (bits << 8) | uint8_t(x);
  n += 8;
  while (n >= 6) {n -= 6; r += a[(bits >> n) & 63];}
 }
 if (n) r += a[(bits << (6 - n)) & 63];
 while (r.size() % 4) r += '=';
 return r;
}

static void run_u01(Ctx &c)
{
 switch (c.below(8))
 {
  case 0: case 1: // whole strings around the block size
  {
   std::string s = content(c, c.flag() ? 200 : 20000);
   if (c.flag()) {s.resize(64 * c.below(5) + 50 + c.below(20), 'x');}
   c.notef("string of ", s.size());
   c.equal(hash_string(File_Hasher::get_hash(s)), hash_string(sha(s)), "digest of a string");
   if (s.size() > 64) c.nontrivial();
   c.label("strings");
  }
  break;
  case 2: case 3: case 4: // ranges of files that are read by pieces
  {
   const bool big = c.chance(1, 12); // larger than the buffer of the hasher
   std::string s = content(c, 30000);
   if (big) {uint64_t x = c.below(100); std::string k(120000 + c.below(40000), 0); for (auto &y: k) y = char(files::mix(x)); s += k; s += k;}
   files::View f(s, Open_Mode::read_existing, c.flag() ? 1 + c.below(1000) : 0, 1 + c.below(100));
   const size_t o = c.below(s.size() + 1), n = c.below(s.size() - o + 1);
   c.notef("file of ", s.size(), " range ", o, " ", n, " short reads ", f.short_seed);
   c.equal(hash_string(File_Hasher::get_hash(f, int64_t(o), int64_t(n))), hash_string(sha(s.substr(o, n))), "digest of a range");
   if (!big) c.equal(hash_string(File_Hasher::get_fast_hash(f, int64_t(o), int64_t(n))), hash_string(sha(s.substr(o, n))), "fast digest of a small range");
   c.equal(hash_string(File_Hasher::get_hash(f)), hash_string(sha(s)), "digest of a file");
   if (n > 64) c.nontrivial();
   c.label(big ? "big ranges" : "ranges");
  }
  break;
  case 5: // journals
  {
   Memory_File f;
   Writable_Journal j(f);
   std::vector<int64_t> checkpoints;
   while (c.more(5)) {j.comment(content(c, 2000)); j.soft_checkpoint(); checkpoints.push_back(j.get_position());}
   if (checkpoints.empty()) break;
   const int64_t k = c.pick(checkpoints);
   const std::string e = hash_string(sha(f.get_data().substr(41, size_t(k - 41))));
   c.notef("journal up to ", k);
   c.equal(hash_string(Journal_Hasher::get_full_hash(j, k)), e, "digest of a journal");
   c.equal(hash_string(Journal_Hasher::get_fast_hash(j, k)), e, "fast digest of a journal");
   // the header does not matter
   std::string copy = f.get_data();
   for (int i = 0; i < 32; i++) copy[size_t(i)] = char(c.below(256));
   files::View v(copy, Open_Mode::read_existing, 1 + c.below(1000), 41);
   Readonly_Journal rj(Journal_Construction_Lock(v, Recovery::ignore_header));
   c.equal(hash_string(Journal_Hasher::get_full_hash(rj, k)), e, "digest of a journal with another header");
   c.nontrivial();
   c.label("journals");
  }
  break;
  case 6: // fast digest of large files
  {
   if (!c.chance(1, 25)) {c.label("skipped large file"); break;}
   const size_t start = c.flag() ? 41 : c.below(100);
   const size_t n = (4u << 20) + c.below(1u << 20);
   std::string s(start + n + 100, 0);
   uint64_t x = c.below(100);
   for (size_t i = 0; i + 8 <= s.size(); i += 8) {const uint64_t y = files::mix(x); std::memcpy(&s[i], &y, 8);}
   files::View f(s, Open_Mode::read_existing), g(s, Open_Mode::read_existing, 1 + c.below(1000), 1);
   const auto h = File_Hasher::get_fast_hash(f, int64_t(start), int64_t(n));
   c.notef("large file of ", n, " from ", start);
   c.equal(hash_string(File_Hasher::get_fast_hash(g, int64_t(start), int64_t(n))), hash_string(h), "fast digest with short reads");
   std::string t = s;
   files::View v(t, Open_Mode::read_existing);
   // what is out of the range does not matter
   for (size_t i = 0; i < start; i++) t[i] = char(c.below(256));
   for (size_t i = start + n; i < t.size(); i++) t[i] = char(i);
   if (start <= 41) c.equal(hash_string(File_Hasher::get_fast_hash(v, int64_t(start), int64_t(n))), hash_string(h), "fast digest depends on bytes out of the range");
   // the first and the last bytes matter, and so does any long enough run
   for (int i = 0; i < 3; i++)
   {
    t = s;
    size_t where;
    switch (c.below(3))
    {
     case 0: where = start + c.below(4096); t[where] = char(t[where] + 1); break;
     case 1: where = start + n - 1 - c.below(4096); t[where] = char(t[where] + 1); break;
     default:
     {
      const size_t run = n / 255 + 3 * 4096;
      where = start + c.below(n - run);
      for (size_t k = 0; k < run; k++) t[where + k] = char(t[where + k] ^ 0x55);
     }
     break;
    }
    c.notef("change at ", where);
    c.check(File_Hasher::get_fast_hash(v, int64_t(start), int64_t(n)) != h, "fast digest does not see a change at " + std::to_string(where));
   }
   c.nontrivial();
   c.label("large files");
  }
  break;
  default: // base 64
  {
   const std::string s = content(c, 3000), e = base64_of(s);
   c.notef("base64 of ", s.size());
   c.check(base64_encode(s) == e, "base64 encoding");
   c.check(base64_decode(e) == s, "base64 decoding");
   // any text can be decoded safely
   std::string bad = c.flag() ? c.bytes(50) : e;
   if (c.flag()) bad += std::string(c.below(5), '=');
   if (c.flag()) bad.resize(c.below(bad.size() + 1));
   bad.shrink_to_fit();
   std::unique_ptr<char[]> exact(new char[bad.size()]);
   std::memcpy(exact.get(), bad.data(), bad.size());
   c.check(base64_decode(std::string_view(exact.get(), bad.size())).size() <= bad.size(), "size of decoded text");
   if (s.size() >= 3) c.nontrivial();
   c.label("base64");
  }
  break;
 }
}

static Register u01({"U01", "more than one block of 64 bytes, or a journal, or at least 3 bytes in base64", 40000, 2000000, run_u01, "exploration", 60, false, {},
 {"the bytes out of the range that the fast digest must ignore are tested for ranges starting at most at the end of a journal header"}});
