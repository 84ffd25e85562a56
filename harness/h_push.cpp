// vf: libs=enc tools=joedb_push,joedb_convert,joedb_logdump
// T07 pushing, converting and backing up
#include "model.h"
#include "files.h"
#include "tool.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/interpreted/Database.h"
#include "joedb/journal/Brotli_File.h"
#include "joedb/journal/File.h"
#include "joedb/journal/Readonly_Brotli_File.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/journal/Writable_Journal.h"
#include <algorithm>
#include <limits>
using namespace joedb;
using namespace vf;
using model::Event; using model::Gen; using model::Recorder; using model::Value;

namespace
{
 struct Blob_Info {int64_t position, size; std::string content;};

 struct World
 {
  Ctx &c;
  Gen g;
  std::string path; // source
  bool brotli;
  std::vector<Event> events;
  std::vector<int64_t> ends; // position after each event
  int64_t checkpoint = 41;   // what the header says
  size_t tail = 0;           // events written after the checkpoint
  std::vector<Blob_Info> blobs;
  int sessions = 0;

  World(Ctx &c, const model::Options &o, const std::string &path, bool brotli): c(c), g(c, o), path(path), brotli(brotli) {}

  std::unique_ptr<Abstract_File> open(bool write)
  {
   if (brotli) {if (write) return std::make_unique<Brotli_File>(path.c_str()); return std::make_unique<Readonly_Brotli_File>(path.c_str());}
   return std::make_unique<File>(path, write ? Open_Mode::write_existing_or_create_new : Open_Mode::read_existing);
  }

  // one writing session
  void session(int n, int uncommitted)
  {
   std::unique_ptr<Abstract_File> file = open(true);
   {
    Writable_Journal j(*file);
    Dummy_Writable dummy;
    j.replay_log(dummy);
    c.note("-- session");
    for (int i = 0; i < n + uncommitted; i++)
    {
     Event e = g.next();
     if ((e.k == model::insert_vector || e.k == model::delete_vector || e.k == model::update_vector) && e.n == 0) continue;
     for (auto &v: e.v) if (v.t == model::t_blob && !blobs.empty() && c.chance(9, 10)) {auto &b = c.pick(blobs); v.i = b.position; v.n = b.size;}
     const Blob b = model::apply(e, j);
     if (e.k == model::blob) blobs.push_back({b.get_position(), b.get_size(), e.s});
     events.push_back(e);
     ends.push_back(j.get_position());
     if (i >= n) {c.note("(after the last checkpoint) " + e.str()); tail++;}
     else
     {
      c.note(e.str());
      if (i + 1 == n || c.below(6) == 0) {if (c.flag()) j.hard_checkpoint(); else j.soft_checkpoint(); checkpoint = j.get_position();}
     }
    }
    if (tail == 0) {j.soft_checkpoint(); checkpoint = j.get_position();}
    else j.flush();
   }
   sessions++;
  }

  // journal bytes, decompressed
  std::string bytes()
  {
   auto f = open(false);
   const int64_t n = f->get_size();
   std::string s(size_t(n), 0);
   size_t done = 0;
   while (done < s.size()) {const size_t k = f->pread(&s[done], s.size() - done, int64_t(done)); if (!k) c.fail("cannot read the source"); done += k;}
   return s;
  }
 };

 std::vector<Event> play_all(Ctx &c, Abstract_File &file, int64_t expected_checkpoint, const std::string &what)
 {
  Readonly_Journal j(file);
  c.equal(j.get_checkpoint(), expected_checkpoint, what + ": checkpoint");
  Recorder r;
  j.replay_log(r);
  return std::move(r.events);
 }

 std::string content(Ctx &c, Abstract_File &f)
 {
  const int64_t n = f.get_size();
  if (n < 0) c.fail("size is not known");
  std::string s(size_t(n), 0);
  size_t done = 0;
  while (done < s.size()) {const size_t k = f.pread(&s[done], s.size() - done, int64_t(done)); if (!k) c.fail("cannot read a file up to its size"); done += k;}
  return s;
 }

 struct Target
 {
  std::string path;
  bool brotli = false, exists = false;
  int64_t checkpoint = 41;
  std::string body; // everything after the header
 };

 std::string read_target(Ctx &c, const Target &t)
 {
  if (t.brotli) {Readonly_Brotli_File f(t.path.c_str()); return content(c, f);}
  return tool::slurp(t.path);
 }

 void verify_target(Ctx &c, const Target &t, const std::string &what)
 {
  c.check(tool::exists(t.path), what + ": the target does not exist");
  const std::string s = read_target(c, t);
  c.equal(s.size(), t.body.size() + 41, what + ": size of the target");
  c.check(s.substr(41) == t.body, what + ": the content of the target is not the requested prefix");
  // accepted for writing, with its checkpoint at its end
  std::unique_ptr<Abstract_File> f;
  if (t.brotli) f = std::make_unique<Brotli_File>(t.path.c_str());
  else f = std::make_unique<File>(t.path, Open_Mode::write_existing);
  Writable_Journal j(*f);
  c.equal(j.get_checkpoint(), t.checkpoint, what + ": checkpoint of the target");
 }

 std::string difference(const std::string &a, const std::string &b)
 {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  return "first difference at " + std::to_string(i);
 }
}

static void convert(World &w, int n)
{
 Ctx &c = w.c;
 const std::string out = c.scratch + "/converted" + std::to_string(n) + ".joedb";
 std::vector<std::string> args{"joedb_convert"};
 bool ignore = w.tail && c.flag();
 const int64_t top = ignore ? w.ends.back() : w.checkpoint;
 int64_t until = std::numeric_limits<int64_t>::max();
 if (c.flag())
 {
  until = c.below(4) == 0 ? top + int64_t(c.below(100)) : w.ends.empty() ? 41 : w.ends[c.below(w.ends.size())];
  args.push_back("--until"); args.push_back(std::to_string(until));
 }
 if (ignore) {if (c.flag()) args.push_back("--ignore_header"); else args.insert(args.begin() + 1, "--ignore_header");}
 args.push_back(w.path); args.push_back(out);
 {std::string s; for (auto &a: args) s += a + " "; c.note("$ " + s);}
 const std::string before = tool::slurp(w.path);
 const auto r = tool::run(c, args);
 c.check(tool::slurp(w.path) == before, "joedb_convert changed its input");
 c.check(r.rc == 0, "joedb_convert failed: " + r.err);
 const int64_t end = std::min(until, top);
 size_t k = 0;
 while (k < w.ends.size() && w.ends[k] <= end) k++;
 std::string s = tool::slurp(out);
 File f(out, Open_Mode::read_existing);
 auto got = play_all(c, f, int64_t(s.size()), "converted file");
 c.equal(got.size(), k, "number of events in the converted file");
 // blobs may move: what a value denotes must not change
 std::vector<Event> expected(w.events.begin(), w.events.begin() + long(k));
 size_t nb = 0;
 for (size_t i = 0; i < k; i++)
 {
  Event &e = expected[i];
  if (e.k == model::blob) nb++;
  for (size_t q = 0; q < e.v.size() && got[i].k == e.k && q < got[i].v.size(); q++)
   if (e.v[q].t == model::t_blob && got[i].v[q].t == model::t_blob)
    for (size_t b = 0; b < nb; b++)
     if (w.blobs[b].position == e.v[q].i && w.blobs[b].size == e.v[q].n)
     {
      c.check(f.read_blob(Blob(got[i].v[q].i, got[i].v[q].n)) == w.blobs[b].content, "a blob does not have the same content in the converted file");
      e.v[q] = got[i].v[q];
     }
 }
 const std::string d = model::compare_events(got, expected);
 c.check(d.empty(), "converted file: " + d);
 {
  File f2(out, Open_Mode::write_existing);
  Writable_Journal j(f2);
  c.equal(j.get_checkpoint(), int64_t(s.size()), "checkpoint of the converted file, opened for writing");
 }
 // not overwritten
 const auto again = tool::run(c, args);
 c.check(again.rc != 0 && tool::slurp(out) == s, "joedb_convert overwrote an existing file");
 c.label("convert");
}

static void run_t07(Ctx &c)
{
 Destructor_Logger::set_logger(nullptr);
 clear_scratch(c);
 model::Options o;
 o.max_string = 60;
 if (c.chance(1, 4)) {o.big_string = 6000;}
 World w(c, o, c.scratch + "/source.joedb", c.chance(1, 5));
 const int base = o.big_string ? 25 : c.flag() ? 12 : 60;
 w.session(int(c.below(uint64_t(base))), 0);
 Target t;
 t.path = c.scratch + "/target.joedb";
 t.brotli = c.chance(1, 5);
 int pushes = 0, converts = 0, divergent = 0;
 const int steps = 2 + int(c.below(4));
 for (int step = 0; step < steps; step++)
 {
  const int a = int(c.below(8));
  if (a >= 6 && w.tail == 0) {w.session(int(c.below(uint64_t(base))), 0); continue;}
  if (a == 5 && !w.brotli) {convert(w, converts++); continue;}
  if (a == 4 && w.tail == 0 && !w.brotli && step + 1 < steps) {w.session(1 + int(c.below(10)), 1 + int(c.below(4))); continue;}
  if (a == 3 && t.exists && !t.brotli && !t.body.empty())
  {
   // a target that diverges
   const bool far = w.ends.empty();
   const size_t at = size_t(c.below(t.body.size()));
   t.body[at] ^= char(1 + c.below(255));
   std::string s = tool::slurp(t.path);
   s[41 + at] = t.body[at];
   tool::spit(t.path, s);
   c.notef("-- the byte at ", 41 + at, " of the target is changed");
   divergent++;
   (void)far;
  }
  if (a == 2 && t.exists && !t.brotli && w.tail == 0 && c.flag() && t.checkpoint == w.checkpoint && tool::slurp(t.path).substr(41) == w.bytes().substr(41))
  {
   // the target goes ahead of the source
   File f(t.path, Open_Mode::write_existing);
   {Writable_Journal j(f); Dummy_Writable dummy; j.replay_log(dummy); j.comment("ahead" + c.bytes(20)); j.soft_checkpoint(); t.checkpoint = j.get_checkpoint();}
   t.body = tool::slurp(t.path).substr(41);
   c.note("-- the target goes ahead");
  }
  // push
  static const char *const checks[] = {"none", "fast", "full"};
  static const char *const recoveries[] = {"none", "ignore_header", "overwrite"};
  static const char *const dbs[] = {"none", "none", "interpreted", "dump", "sql"};
  std::vector<std::string> args{"joedb_push"};
  int check = 1, recovery = 0, db = 0;
  int64_t until = std::numeric_limits<int64_t>::max();
  std::vector<std::vector<std::string>> opts;
  if (c.flag()) {check = int(c.below(3)); opts.push_back({"--check", checks[check]});}
  if (w.tail && c.flag()) {recovery = 1 + int(c.below(2)); opts.push_back({"--recovery", recoveries[recovery]});}
  if (c.below(3) == 0) {db = int(c.below(5)); opts.push_back({"--db", dbs[db]});}
  if (c.below(4) == 0) opts.push_back({"--hard_checkpoint"});
  const int64_t top = recovery == 1 ? (w.ends.empty() ? 41 : w.ends.back()) : w.checkpoint;
  if (c.flag())
  {
   until = c.below(5) == 0 || w.ends.empty() ? top + int64_t(c.below(100)) : w.ends[c.below(w.ends.size())];
   opts.push_back({"--until", std::to_string(until)});
   if (until <= top && c.below(4) == 0) opts.push_back({"--follow"});
  }
  while (!opts.empty()) {const size_t i = size_t(c.below(opts.size())); for (auto &s: opts[i]) args.push_back(s); opts.erase(opts.begin() + long(i));}
  if (w.brotli) args.push_back("brotli"); else if (c.flag()) args.push_back("file");
  args.push_back(w.path);
  args.push_back("file");
  if (t.brotli) args.push_back("brotli");
  args.push_back(t.path);
  std::string cmd; for (auto &s: args) cmd += s + " ";
  c.note("$ " + cmd);
  const std::string before = tool::slurp(w.path), source = w.bytes().substr(41);
  const bool existed = t.exists;
  const std::string target_before = existed ? tool::slurp(t.path) : "";
  const auto r = tool::run(c, args);
  c.check(tool::slurp(w.path) == before, "joedb_push changed its source");
  pushes++;
  if (!t.exists) {t.exists = true; t.body.clear(); t.checkpoint = 41;}
  // does the content agree?
  const int64_t n = std::min(top, t.checkpoint) - 41;
  int64_t first = n;
  std::vector<int64_t> diff;
  for (int64_t i = 0; i < n; i++) if (source[size_t(i)] != t.body[size_t(i)]) {diff.push_back(i + 41); first = std::min(first, i);}
  bool must_fail = false, may_fail = false;
  if (!diff.empty())
  {
   may_fail = check != 0;
   if (check == 2) must_fail = true;
   if (check == 1) for (int64_t p: diff) if (n + 41 <= 4096 || p < 2048 || p >= n + 41 - 2048) must_fail = true;
  }
  if (r.rc != 0 && diff.empty() && check != 1) c.check(false, "joedb_push failed: " + r.err);
  c.check(!(r.rc != 0 && !may_fail), "joedb_push failed: " + r.err);
  c.check(!(r.rc == 0 && must_fail), "joedb_push accepted a target with a different content, with --check " + std::string(checks[check]));
  if (r.rc == 0)
  {
   const int64_t end = std::max(t.checkpoint, std::min(until, top));
   if (end > t.checkpoint) {t.body.resize(size_t(t.checkpoint - 41)); t.body += source.substr(size_t(t.checkpoint - 41), size_t(end - t.checkpoint)); t.checkpoint = end;}
   c.label("push");
  }
  else {c.label("refused push"); if (existed) c.check(tool::slurp(t.path) == target_before, "a refused push changed its target");}
  verify_target(c, t, "after joedb_push");
  if (r.rc == 0 && (db == 3 || db == 4) && diff.empty() && !w.brotli)
  {
   std::vector<std::string> la{"joedb_logdump"};
   la.push_back(db == 4 ? "--sql" : "--blob");
   if (recovery == 1) la.push_back("--ignore_header");
   la.push_back(w.path);
   const auto l = tool::run(c, la);
   c.check(l.rc == 0, "joedb_logdump failed: " + l.err);
   c.check(l.out == r.out, "joedb_push --db " + std::string(dbs[db]) + " does not write what joedb_logdump writes, " + difference(r.out, l.out));
  }
 }
 if (!w.brotli && converts == 0) convert(w, converts++);
 if (w.sessions > 1) c.label("several sessions");
 if (w.tail) c.label("source with an aborted tail");
 if (divergent) c.label("divergent target");
 if (pushes + converts >= 2 && w.events.size() >= 8) c.nontrivial();
}

static const Register r7({.id = "T07", .rule = "at least two runs of the tools on a source of at least 8 events", .quick = 2500, .thorough = 150000, .run = run_t07});
