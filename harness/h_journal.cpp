// vf: libs=core
#include "vf.h"
#include "model.h"
#include "files.h"
#include "wild.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Posix_File.h"
#include "joedb/interpreted/Database.h"
#include <unistd.h>

using namespace joedb;
using model::Event; using model::Recorder; using model::Gen; using vf::Ctx;

// update_vector of size zero leaves no trace
static void push(std::vector<Event> &v, const Event &e) {if (!(e.k == model::update_vector && e.v.empty())) v.push_back(e);}

static model::Options journal_options(Ctx &c)
{
 model::Options o;
 o.schema = true;
 if (c.chance(1, 3)) {o.big_string = 9000; o.big_vector = 5000;}
 return o;
}

// make the next entry start near a buffer boundary
static Event padding(Ctx &c, int64_t position, int64_t origin)
{
 const int64_t rel = position - origin;
 int64_t want = (rel / 4096 + 1) * 4096 + c.range(-12, 12) - rel - 3;
 if (want < 0) want += 4096;
 Event e; e.k = model::comment; e.s = std::string(size_t(want), 'p');
 return e;
}

static void run_s01(Ctx &c)
{
 const int kind = int(c.below(4)); // 0 memory, 1 short reads, 2 system file, 3 joedb's memory file
 std::string content;
 const std::string path = c.scratch + "/s01.joedb";
 if (kind == 2) vf::clear_scratch(c);
 const uint64_t seed = kind == 1 ? c.raw() | 1 : 0;
 Memory_File memory(Open_Mode::shared_write);
 auto open = [&](bool write) -> std::unique_ptr<Abstract_File>
 {
  if (kind == 2) return std::make_unique<Posix_File>(path, write ? Open_Mode::write_existing_or_create_new : Open_Mode::read_existing);
  return std::make_unique<files::View>(content, write ? Open_Mode::write_existing_or_create_new : Open_Mode::read_existing, seed);
 };

 const bool is_wild = c.chance(1, 3);
 Gen g(c, journal_options(c));
 std::vector<Event> events;      // everything written
 std::vector<int64_t> ends;      // position after each
 std::vector<Blob> blobs;
 size_t checkpointed = 0;        // number of events
 bool empty_vector = false;
 int64_t cp_position = 41;
 Database live;
 Event last;

 // a reader which stays open
 std::unique_ptr<Abstract_File> reader_file;
 std::unique_ptr<Readonly_Journal> reader;
 Recorder seen;
 seen.want_blobs = c.flag();
 auto follow = [&](bool pull)
 {
  if (!reader) {reader_file = kind == 3 ? nullptr : open(false); reader = std::make_unique<Readonly_Journal>(kind == 3 ? *(Abstract_File *)&memory : *reader_file);}
  if (pull) reader->pull();
  const int64_t until = reader->get_checkpoint();
  switch (c.below(3))
  {
   case 0: break;
   case 1: if (until > 41) reader->play_until(seen, 41 + int64_t(c.below(uint64_t(until - 41)))); break;
   default: for (int i = int(c.below(4)); i > 0 && reader->get_position() < until; i--) reader->one_step(seen);
  }
  reader->play_until_checkpoint(seen);
  c.equal(reader->get_position(), until, "position of the reader after playing up to its checkpoint");
  size_t n = 0;
  while (n < ends.size() && ends[n] <= until) n++;
  if (pull) c.equal(n, checkpointed, "events visible after a pull");
  std::vector<Event> expected(events.begin(), events.begin() + int64_t(n));
  if (!seen.want_blobs) {std::vector<Event> e2; for (auto &e: expected) if (e.k != model::blob) e2.push_back(e); expected = e2;}
  const std::string d = model::compare_events(seen.events, expected);
  c.check(d.empty(), "following reader: " + d);
 };

 const int sessions = 1 + int(c.below(4));
 int pulls = 0;
 for (int session = 0; session < sessions; session++)
 {
  std::unique_ptr<Abstract_File> f = kind == 3 ? nullptr : open(true);
  Writable_Journal j(kind == 3 ? *(Abstract_File *)&memory : *f);
  int64_t origin = j.get_position();
  c.equal(j.get_checkpoint(), cp_position, "checkpoint when opening");
  if (session)
  {
   Recorder r;
   const int style = int(c.below(5));
   switch (style)
   {
    case 0: j.play_until_checkpoint(r); break;
    case 1:
     for (int i = 0; i < 3 && j.get_checkpoint() > 41; i++) j.play_until(r, 41 + int64_t(c.below(uint64_t(j.get_checkpoint() - 41))));
     j.play_until_checkpoint(r);
    break;
    case 2: j.replay_log(r); break;
    case 3: while (j.get_position() < j.get_checkpoint()) j.one_step(r); j.flush(); break;
    case 4:
     j.play_until(r, j.get_checkpoint() / 2); r.events.clear(); r.blobs.clear();
     j.rewind(); j.play_until_checkpoint(r);
    break;
   }
   c.notef("reopen, replay style ", style);
   const std::string d = model::compare_events(r.events, events);
   c.check(d.empty(), "replay when reopening: " + d);
   c.check(r.blobs.size() == blobs.size(), "number of blobs");
   for (size_t i = 0; i < blobs.size(); i++) c.check(r.blobs[i].get_position() == blobs[i].get_position() && r.blobs[i].get_size() == blobs[i].get_size(), "blob position");
   origin = j.get_position();
  }
  const int n = int(c.length(is_wild ? 60 : 90));
  for (int i = 0; i < n; i++)
  {
   Event e;
   if (c.chance(1, 12)) e = padding(c, j.get_position(), c.flag() ? origin : 41);
   else if (is_wild) e = wild(c, g, last);
   else e = g.next();
   if (c.chance(1, 60) && e.k == model::update_vector)
   {
    Event z = e; z.v.clear(); z.n = 0; empty_vector = true;
    model::apply(z, j);
    last.t = z.t; last.r = z.r; last.f = z.f;
   }
   const int64_t before = j.get_position();
   const Blob b = model::apply(e, j);
   c.notef(before, ": ", e.str());
   c.check(j.get_position() > before, "position does not advance");
   if (e.k == model::blob) {c.equal(b.get_size(), int64_t(e.s.size()), "blob size"); blobs.push_back(b);}
   if (!is_wild) {if (e.k == model::blob) live.write_blob(e.s); else model::apply(e, live);}
   push(events, e); ends.push_back(j.get_position());
   if (e.k == model::insert_into || e.k == model::insert_vector || e.k == model::update || e.k == model::update_vector) {last.t = e.t; last.r = e.r; last.f = e.f;}
   const int w = int(c.below(30));
   auto mark = [&]{checkpointed = events.size(); cp_position = j.get_position(); origin = j.get_position();};
   if (w == 1) {j.soft_checkpoint(); mark(); c.note("soft checkpoint");}
   else if (w == 2) {j.hard_checkpoint(); mark(); c.note("hard checkpoint");}
   else if (w == 3) {j.flush(); origin = j.get_position(); c.note("flush");}
   else if (w == 4 && checkpointed) {pulls++; c.note("reader follows"); follow(c.below(4) != 3);}
   else if (w == 5 && checkpointed == events.size() && j.get_position() == j.get_checkpoint())
   {
    Recorder r;
    c.note("writer replays itself");
    if (c.flag()) j.replay_log(r);
    else {j.rewind(); if (j.get_checkpoint() > 41) j.play_until(r, 41 + int64_t(c.below(uint64_t(j.get_checkpoint() - 41)))); j.play_until_checkpoint(r);}
    const std::string d = model::compare_events(r.events, events);
    c.check(d.empty(), "replay by the writer: " + d);
    origin = j.get_position();
   }
  }
  if (c.below(3)) j.soft_checkpoint(); else j.hard_checkpoint();
  checkpointed = events.size();
  cp_position = j.get_position();
  c.equal(j.get_checkpoint(), j.get_position(), "checkpoint");
  if (c.chance(1, 3)) {pulls++; follow(true);}
 }
 follow(true);
 if (events.size() >= 8 && (sessions > 1 || pulls > 1)) c.nontrivial();
 if (is_wild) c.label("arbitrary ids");
 if (ends.size() && ends.back() > 4200) c.label("longer than a buffer");
 c.label(kind == 0 ? "memory" : kind == 1 ? "short reads" : kind == 2 ? "system file" : "Memory_File");

 std::unique_ptr<Abstract_File> f = kind == 3 ? nullptr : open(false);
 Abstract_File &file = kind == 3 ? *(Abstract_File *)&memory : *f;
 Readonly_Journal j(file);
 // entry positions
 {
  Recorder r;
  j.replay_with_checkpoint_comments(r);
  std::vector<Event> merged;
  Readonly_Journal k(file);
  Recorder one;
  size_t i = 0;
  while (k.get_position() < k.get_checkpoint()) {k.one_step(one); while (i < one.events.size()) merged.push_back(one.events[i++]); Event e; e.k = model::comment; e.s = std::to_string(k.get_position()); merged.push_back(e);}
  const std::string d = model::compare_events(r.events, merged);
  c.check(d.empty(), "replay with checkpoint comments: " + d);
  const std::string d2 = model::compare_events(one.events, events);
  c.check(d2.empty(), "step by step: " + d2);
 }
 // interpreted databases
 if (!is_wild)
 {
  Database db;
  j.replay_log(db);
  std::string d = model::compare(db, g.m);
  c.check(d.empty(), "replayed database: " + d);
  d = model::compare(live, g.m);
  c.check(d.empty(), "live database: " + d);
 }
 // copy into another journal, in two steps; a vector update of no row is
 // dropped by a replay, so positions are not those of the source after it
 if (!empty_vector)
 {
  Memory_File copy;
  Writable_Journal w(copy);
  int64_t cut = 41;
  if (!ends.empty()) cut = ends[c.below(ends.size())];
  w.pull_from(j, cut);
  Recorder r;
  w.play_until_checkpoint(r);
  c.equal(w.get_position(), cut, "position of a prefix copy");
  j.rewind();
  j.play_until_checkpoint(w);
  w.soft_checkpoint();
  c.equal(w.get_checkpoint(), j.get_checkpoint(), "size of a copy by replay");
  Readonly_Journal v(copy);
  Recorder all;
  v.replay_log(all);
  const std::string d = model::compare_events(all.events, events);
  c.check(d.empty(), "copy by replay after a prefix: " + d);
 }
}

static vf::Register s01({"S01",
 "at least 8 events, and at least one reopening or two readings by a following reader",
 6000, 400000, run_s01});

///////////////////////////////////////////////////////////////////////////////
// S02: process crash
///////////////////////////////////////////////////////////////////////////////
struct History
{
 std::vector<Event> events;
 std::vector<int64_t> boundary{41};     // checkpoints called so far, in order
 std::vector<size_t> count{0};          // events at each boundary
 std::string bytes;                     // expected content of the file
};

struct Mark {size_t started_op, returned_op; size_t index; bool hard;}; // boundary index, in operations of the log

static std::string decode(const std::string &content, Recorder &r, int64_t &checkpoint)
{
 std::string copy = content;
 files::View v(copy, Open_Mode::read_existing);
 try
 {
  Readonly_Journal j(v);
  checkpoint = j.get_checkpoint();
  j.replay_log(r);
 }
 catch (const std::exception &e) {return std::string("exception: ") + e.what();}
 if (copy != content) return "reading modified the file";
 return "";
}

static void run_s02(Ctx &c)
{
 Gen g(c, []{model::Options o; o.max_vector = 6; o.max_string = 60; return o;}());
 if (c.chance(1, 6)) g.o.big_string = 9000;
 History h;
 std::string content;
 size_t base_boundary = 0; // boundary which is certain when a session starts
 const int sessions = 1 + int(c.below(4));
 uint64_t states = 0;
 for (int s = 0; s < sessions; s++)
 {
  std::vector<Mark> marks;
  files::Sim f(content);
  size_t creation_end = 0;
  // open
  {
   Writable_Journal j{Journal_Construction_Lock(f, s ? Recovery::overwrite : Recovery::none)};
   creation_end = s ? 0 : f.log.size();
   Recorder r;
   j.play_until_checkpoint(r);
   c.equal(j.get_checkpoint(), h.boundary[base_boundary], "checkpoint when reopening after the crash");
   const std::string d = model::compare_events(r.events, h.events);
   c.check(d.empty(), "reopened after the crash: " + d);
   const int transactions = int(c.length(10));
   for (int t = 0; t < transactions; t++)
   {
    const int n = 1 + int(c.length(6));
    for (int i = 0; i < n; i++)
    {
     Event e = g.next();
     if (e.k == model::update_vector && e.v.empty()) continue;
     model::apply(e, j);
     h.events.push_back(e);
     c.notef(j.get_position(), ": ", e.str());
     if (c.chance(1, 12)) {j.flush(); c.note("flush");}
    }
    const bool hard = c.chance(1, 3);
    Mark m; m.started_op = f.log.size(); m.hard = hard;
    if (j.get_position() == h.boundary.back()) continue;
    h.boundary.push_back(j.get_position()); h.count.push_back(h.events.size());
    m.index = h.boundary.size() - 1;
    if (hard) j.hard_checkpoint(); else j.soft_checkpoint();
    if (c.chance(1, 10) && !hard) {j.hard_checkpoint(); c.note("then hard");} // harden the same position
    m.returned_op = f.log.size();
    marks.push_back(m);
    c.notef(hard ? "hard checkpoint " : "soft checkpoint ", j.get_position(), " ops ", m.started_op, "-", m.returned_op);
   }
   if (c.chance(1, 3)) for (int i = 0; i < 3; i++) {Event e = g.next(); if (e.k == model::update_vector && e.v.empty()) continue; model::apply(e, j); h.events.push_back(e);} // aborted
  }
  // crash points: after k operations, the next one possibly torn
  std::string now = f.base;
  size_t choice = f.log.size() <= creation_end ? f.log.size() : creation_end + c.below(f.log.size() - creation_end + 1);
  size_t chosen_tear = 0; std::string chosen_content; size_t chosen_boundary = 0;
  const uint64_t tear_choice = c.raw();
  for (size_t k = 0; k <= f.log.size(); k++)
  {
   if (k >= creation_end)
   {
    size_t low = base_boundary, high = base_boundary;
    for (auto &m: marks)
    {
     if (m.returned_op <= k) low = m.index;
     if (m.started_op <= k) high = m.index; // the flush of the data is the first operation of the checkpoint
    }
    std::vector<size_t> tears{0};
    if (k < f.log.size() && !f.log[k].sync && f.log[k].offset >= 41)
    {
     const size_t n = f.log[k].data.size();
     if (n > 1) {tears.push_back(1 + c.below(n - 1)); tears.push_back(n - 1);}
    }
    for (size_t tear: tears)
    {
     std::string x = now;
     if (tear) files::apply(x, f.log[k], tear);
     Recorder r; int64_t cp = 0;
     const std::string e = decode(x, r, cp);
     states++;
     std::ostringstream where; where << "session " << s << ", crash after " << k << " operations of " << f.log.size() << (tear ? ", next one torn: " : ": ");
     c.check(e.empty(), where.str() + e);
     size_t b = base_boundary;
     while (b <= high && h.boundary[b] != cp) b++;
     c.check(b <= high, where.str() + "recovered checkpoint " + std::to_string(cp) + " is not the end of a transaction that was being or had been checkpointed");
     c.check(b >= low, where.str() + "recovered checkpoint " + std::to_string(cp) + " loses the transaction checkpointed at " + std::to_string(h.boundary[low]));
     const std::string d = model::compare_events(r.events, h.events, 0, h.count[b]);
     c.check(d.empty(), where.str() + d);
     if (k == choice && (tear == 0 || tear_choice % 3 == 2)) {chosen_content = x; chosen_boundary = b; chosen_tear = tear;}
    }
   }
   if (k < f.log.size()) files::apply(now, f.log[k]);
  }
  if (f.log.size() < creation_end) choice = 0;
  c.notef("crash after ", choice, " operations, torn ", chosen_tear);
  content = chosen_content;
  base_boundary = chosen_boundary;
  h.boundary.resize(base_boundary + 1); h.count.resize(base_boundary + 1); h.events.resize(h.count.back());
  // the model must forget what was lost
  {
   Gen g2(c, g.o);
   for (auto &e: h.events) g2.m.apply(e);
   g.m = g2.m;
  }
  if (marks.size() >= 2 && s + 1 < sessions) c.label("crashed and continued");
  if (marks.size() >= 3) c.nontrivial();
  bool both = false; for (auto &m: marks) both |= m.hard; if (both) c.label("with hard checkpoints");
 }
 c.label("crash states", states);
}

static vf::Register s02({"S02",
 "at least 3 checkpointed transactions in one of the sessions",
 4000, 300000, run_s02, "fault_enumeration", 60, false, {},
 {"the 41 bytes of a new file and the 8 bytes of a checkpoint are written in one piece when only the process dies", "every operation prefix of each generated history is tried, and two torn variants of each data write"}});

///////////////////////////////////////////////////////////////////////////////
// S03: power failure
///////////////////////////////////////////////////////////////////////////////
static void run_s03(Ctx &c)
{
 Gen g(c, []{model::Options o; o.max_vector = 6; o.max_string = 60; return o;}());
 if (c.chance(1, 6)) g.o.big_string = 9000;
 std::vector<Event> events;
 std::vector<size_t> count{0};
 std::vector<int64_t> boundary{41};
 std::string content;
 std::string truth; // right bytes from 41
 int64_t hard_base = 41;
 uint64_t states = 0;
 const int sessions = 1 + int(c.below(3));
 int hards = 0;
 for (int s = 0; s < sessions; s++)
 {
  files::Sim f(content);
  struct H {size_t started, returned; int64_t position;};
  std::vector<H> hard_marks;
  size_t first = 0;
  int64_t reopened = 41;
  {
   Writable_Journal j{Journal_Construction_Lock(f, s ? Recovery::overwrite : Recovery::none)};
   Recorder r;
   j.play_until_checkpoint(r);
   reopened = j.get_checkpoint();
   if (!s) {j.hard_checkpoint(); f.sync(); first = f.log.size();} // an empty file whose creation is durable
   const std::string d = model::compare_events(r.events, events);
   c.check(d.empty(), "reopened after the failure: " + d);
   const int transactions = int(c.length(12));
   for (int t = 0; t < transactions; t++)
   {
    const int n = 1 + int(c.length(5));
    for (int i = 0; i < n; i++)
    {
     Event e = g.next();
     if (e.k == model::update_vector && e.v.empty()) continue;
     model::apply(e, j); events.push_back(e);
     c.notef(j.get_position(), ": ", e.str());
     if (c.chance(1, 15)) j.flush();
    }
    if (c.chance(2, 5))
    {
     const size_t started = f.log.size();
     j.hard_checkpoint();
     hard_marks.push_back({started, f.log.size(), j.get_position()});
     hards++;
     c.notef("hard checkpoint ", j.get_position(), " ops ", started, "-", f.log.size());
    }
    else {j.soft_checkpoint(); c.notef("soft checkpoint ", j.get_position());}
    c.check(j.get_hard_checkpoint() <= j.get_checkpoint(), "hard checkpoint beyond checkpoint");
    boundary.push_back(j.get_checkpoint()); count.push_back(events.size());
   }
  }
  truth = f.data;
  const size_t choice = first + c.below(f.log.size() - first + 1);
  std::string chosen;
  int64_t chosen_required = 41;
  // enumerate failure points
  for (size_t k = first; k <= f.log.size(); k++)
  {
   std::string durable = f.base;
   size_t last_sync = 0;
   for (size_t i = 0; i < k; i++) if (f.log[i].sync) last_sync = i + 1;
   for (size_t i = 0; i < last_sync; i++) files::apply(durable, f.log[i]);
   std::vector<size_t> pending;
   for (size_t i = last_sync; i < k; i++) if (!f.log[i].sync) pending.push_back(i);
   int64_t required = hard_base, possible = hard_base;
   for (auto &m: hard_marks) {if (m.returned <= k) required = std::max(required, m.position); if (m.started <= k) possible = std::max(possible, m.position);}
   const bool all = pending.size() <= 4;
   const uint64_t variants = all ? (1ull << pending.size()) : 12;
   for (uint64_t v = 0; v < variants + 6; v++)
   {
    std::string x = durable;
    const bool torn = v >= variants;
    if (torn && pending.empty()) break;
    const uint64_t bits = torn || !all ? c.raw() : v;
    uint64_t state = bits;
    // any order is the same as program order on disjoint ranges; header slots may be overwritten several times, so shuffle those too
    for (size_t i = 0; i < pending.size(); i++)
    {
     const files::Op &op = f.log[pending[i]];
     if (!torn) {if ((bits >> (i % 64)) & 1) files::apply(x, op);}
     else
     {
      const uint64_t q = files::mix(state);
      if (q % 3 == 0) continue;
      if (q % 3 == 1) {files::apply(x, op); continue;}
      // torn: any subset of 512-byte sectors of data, or a prefix
      if (op.offset >= 41 && op.data.size() > 512)
      {
       for (size_t at = 0; at < op.data.size(); at += 512)
        if (files::mix(state) & 1) files::apply(x, {false, op.offset + int64_t(at), op.data.substr(at, 512)});
      }
      else if (op.offset >= 41) files::apply(x, op, op.data.size() ? files::mix(state) % (op.data.size() + 1) : 0);
      else if (files::mix(state) & 1) files::apply(x, op); // an aligned word
     }
    }
    if (x.size() < durable.size()) c.fail("harness");
    states++;
    std::ostringstream where; where << "session " << s << ", failure after " << k << " operations of " << f.log.size() << ", variant " << v << ": ";
    int64_t got = 0;
    try
    {
     files::View view(x, Open_Mode::read_existing);
     Readonly_Journal j(view);
     got = j.get_hard_checkpoint();
     c.check(got >= required, where.str() + "hard checkpoint " + std::to_string(got) + " is older than " + std::to_string(required));
     c.check(got <= possible, where.str() + "hard checkpoint " + std::to_string(got) + " was never requested");
     c.check(j.get_checkpoint() >= got, where.str() + "checkpoint before the hard checkpoint");
    }
    catch (const joedb::Exception &e) {c.fail(where.str() + "cannot open: " + e.what());}
    c.check(x.size() >= size_t(got) && x.compare(41, size_t(got) - 41, truth, 41, size_t(got) - 41) == 0, where.str() + "content before the hard checkpoint is damaged");
    if (k == choice && (v == 0 || c.below(3) == 0)) {chosen = x; chosen_required = got;}
   }
  }
  // go on from the chosen state
  content = chosen;
  hard_base = chosen_required;
  {
   files::View view(content, Open_Mode::read_existing);
   Readonly_Journal j(view);
   const int64_t cp = j.get_checkpoint();
   size_t b = 0;
   while (b < boundary.size() && boundary[b] != cp) b++;
   const bool intact = b < boundary.size() && content.size() >= size_t(cp) && content.compare(41, size_t(cp) - 41, truth, 41, size_t(cp) - 41) == 0;
   if (!intact)
   {
    // back to the hard checkpoint, as when pushing up to it into a new file
    std::string fresh;
    files::View out(fresh, Open_Mode::create_new);
    Writable_Journal w(out);
    w.pull_from(j, hard_base);
    Recorder r; w.play_until_checkpoint(r);
    w.hard_checkpoint();
    content = fresh;
    b = 0; while (b < boundary.size() && boundary[b] != hard_base) b++;
    if (b == boundary.size()) c.fail("the hard checkpoint is not the end of a transaction");
   }
   boundary.resize(b + 1); count.resize(b + 1); events.resize(count.back());
   Gen g2(c, g.o); for (auto &e: events) g2.m.apply(e); g.m = g2.m;
   c.notef("power failure after ", choice, " operations, going on ", intact ? "in the same file" : "in a copy up to the hard checkpoint");
   if (s + 1 < sessions) c.label(intact ? "continued in the same file" : "continued in a copy");
  }
  (void)reopened;
 }
 if (hards >= 2) c.nontrivial();
 c.label("failure states", states);
}

static vf::Register s03({"S03",
 "at least 2 hard checkpoints",
 3000, 200000, run_s03, "fault_enumeration", 60, false, {},
 {"the creation of the file (its 41-byte head) is durable before the first failure", "each write survives, vanishes or is torn independently until a synchronization returns, except that an aligned 8-byte checkpoint value is not torn; synchronizations are honest"}});

///////////////////////////////////////////////////////////////////////////////
// S04: aborted transactions and recovery modes
///////////////////////////////////////////////////////////////////////////////
static int64_t word(const std::string &s, size_t i) {int64_t x; std::memcpy(&x, s.data() + 8 * i, 8); return x;}

// the checkpoint that a file shows, from its documentation
static int64_t shown_checkpoint(const std::string &s)
{
 int64_t best = 41;
 for (int p = 0; p < 2; p++)
 {
  if (word(s, 2 * p) == word(s, 2 * p + 1) && word(s, 2 * p) > best) best = word(s, 2 * p);
  for (int k = 0; k < 2; k++) if (-word(s, 2 * p + k) > best && -word(s, 2 * p + k) <= int64_t(s.size())) best = -word(s, 2 * p + k);
 }
 return best;
}

static void run_s04(Ctx &c)
{
 Gen g(c, []{model::Options o; o.max_vector = 8; o.max_string = 60; return o;}());
 if (c.chance(1, 5)) g.o.big_string = 9000;
 std::string content;
 std::vector<Event> events;
 std::vector<int64_t> ends;
 size_t checkpointed = 0;
 int64_t cp = 41;
 struct Reader
 {
  std::unique_ptr<files::View> view; std::unique_ptr<Readonly_Journal> j; Recorder r; int64_t at = 41;
 };
 std::vector<std::unique_ptr<Reader>> readers;
 auto see = [&](Reader &r, bool pull)
 {
  if (pull) {r.j->pull(); c.equal(r.j->get_checkpoint(), cp, "checkpoint seen by a reader after pulling");}
  r.j->play_until_checkpoint(r.r);
  size_t n = 0;
  while (n < checkpointed && ends[n] <= r.j->get_checkpoint()) n++;
  const std::string d = model::compare_events(r.r.events, events, 0, n);
  c.check(d.empty(), "reader: " + d);
 };
 auto open_reader = [&]
 {
  auto r = std::make_unique<Reader>();
  r->view = std::make_unique<files::View>(content, Open_Mode::read_existing);
  r->j = std::make_unique<Readonly_Journal>(*r->view);
  c.equal(r->j->get_checkpoint(), cp, "checkpoint seen by a new reader");
  see(*r, false);
  readers.push_back(std::move(r));
 };
 auto some_reader = [&]
 {
  if (readers.size() < 5 && c.chance(1, 3)) {c.note("a reader opens"); open_reader();}
  else if (!readers.empty()) {c.note("a reader follows"); see(*readers[c.below(readers.size())], c.below(4) != 0);}
 };
 const int rounds = 1 + int(c.below(4));
 Recovery recovery = Recovery::none;
 int aborted = 0;
 size_t leftover = 0;
 for (int round = 0; round < rounds; round++)
 {
  files::View f(content, Open_Mode::write_existing_or_create_new);
  std::vector<size_t> keep;
  {
   Writable_Journal j{Journal_Construction_Lock(f, recovery)};
   Recorder r;
   j.play_until_checkpoint(r);
   const std::string d = model::compare_events(r.events, events);
   c.check(d.empty(), "writer after recovery: " + d);
   c.equal(j.get_checkpoint(), ends.empty() ? int64_t(41) : ends.back(), "checkpoint of the writer after recovery");
   if (round && recovery != Recovery::ignore_header && c.flag()) some_reader();
   const int transactions = (round || c.flag() ? 0 : 1) + int(c.length(5));
   bool must = recovery == Recovery::ignore_header; // nothing is recorded before the first checkpoint
   auto one = [&]
   {
    Event e;
    if (leftover && c.chance(1, 4)) {e.k = model::comment; e.s = std::string(size_t(std::max<int64_t>(0, int64_t(leftover) - j.get_position() - 2 + c.range(-3, 3))) % 5000, 'q');}
    else e = g.next();
    if (e.k == model::update_vector && e.v.empty()) return;
    model::apply(e, j);
    events.push_back(e); ends.push_back(j.get_position());
    c.notef(j.get_position(), ": ", e.str());
    if (c.chance(1, 12)) {j.flush(); c.note("flush"); if (!must && c.flag()) some_reader();}
   };
   for (int t = 0; t < transactions + (must ? 1 : 0); t++)
   {
    const int n = 1 + int(c.length(5));
    for (int i = 0; i < n; i++) one();
    if (c.chance(1, 3)) {j.hard_checkpoint(); c.notef("hard checkpoint ", j.get_position());} else {j.soft_checkpoint(); c.notef("soft checkpoint ", j.get_position());}
    must = false;
    cp = j.get_position(); checkpointed = events.size();
    if (c.chance(1, 3)) some_reader();
   }
   if (must) {const size_t before = events.size(); for (int i = 0; i < 3 && events.size() == before; i++) one(); j.soft_checkpoint(); cp = j.get_position(); checkpointed = events.size();}
   if (c.below(4) != 0)
   {
    const int n = 1 + int(c.length(8));
    for (int i = 0; i < n; i++) one();
   }
  }
  size_t complete = events.size();
  bool torn = false;
  std::vector<Event> all_events = events;
  // readers opened on the file with its tail
  if (int64_t(content.size()) > cp)
  {
   aborted++;
   if (c.chance(1, 3))
   {
    // the last write was cut
    const size_t size = std::max(size_t(cp), std::min(content.size(), size_t(ends.empty() ? cp : ends.back()))) - c.below(uint64_t(std::max<int64_t>(1, int64_t(ends.empty() ? cp : ends.back()) - cp)));
    if (leftover == 0 || size_t(leftover) <= size) {content.resize(size); torn = true;}
   }
   if (leftover > size_t(ends.empty() ? 41 : ends.back())) torn = true; // remains of an older tail
   while (complete && ends[complete - 1] > int64_t(content.size())) complete--;
  }
  c.notef("size ", content.size(), " checkpoint ", cp, torn ? " torn" : "");
  c.equal(shown_checkpoint(content), cp, "checkpoint in the file");
  // refused by default, and untouched
  {
   const std::string before = content;
   files::View w(content, Open_Mode::write_existing);
   bool refused = false;
   try {Writable_Journal j(w);} catch (const joedb::Exception &) {refused = true;}
   c.equal(refused, int64_t(before.size()) > cp, "a file with an uncheckpointed tail is refused");
   if (refused) c.check(content == before && w.writes == 0, "a refused file was modified");
  }
  // read up to the checkpoint
  {
   const std::string before = content;
   files::View v(content, Open_Mode::read_existing);
   Readonly_Journal j(v);
   Recorder r;
   j.replay_log(r);
   const std::string d = model::compare_events(r.events, events, 0, checkpointed);
   c.check(d.empty(), "reading up to the checkpoint: " + d);
   c.equal(j.get_checkpoint(), cp, "checkpoint when reading");
   // ignoring the header
   files::View v2(content, Open_Mode::read_existing);
   Readonly_Journal k{Journal_Construction_Lock(v2, Recovery::ignore_header)};
   Recorder all;
   try {k.replay_log(all);}
   catch (const joedb::Exception &e) {c.check(torn, std::string("ignoring the header: ") + e.what());}
   if (torn) {c.check(all.events.size() >= complete, "ignoring the header: events are missing"); all.events.resize(complete);}
   const std::string d2 = model::compare_events(all.events, events, 0, complete);
   c.check(d2.empty(), "ignoring the header: " + d2);
   c.check(content == before, "reading modified the file");
  }
  if (c.flag()) some_reader();
  // next round
  leftover = 0;
  if (int64_t(content.size()) == cp) recovery = c.flag() ? Recovery::none : Recovery::overwrite;
  else recovery = torn || c.below(3) ? Recovery::overwrite : Recovery::ignore_header;
  if (recovery == Recovery::ignore_header) {}
  else
  {
   if (int64_t(content.size()) > cp) leftover = content.size();
   events.resize(checkpointed); ends.resize(checkpointed);
   Gen g2(c, g.o); for (auto &e: events) if (e.k != model::comment) g2.m.apply(e); g.m = g2.m;
  }
  // power failure: the tail is lost, but not soft checkpoints
  if (recovery != Recovery::ignore_header && c.chance(1, 4) && round + 1 < rounds)
  {
   int64_t hard = 41;
   for (int p = 0; p < 2; p++) if (word(content, 2 * p) == word(content, 2 * p + 1)) hard = std::max(hard, word(content, 2 * p));
   const int64_t size = hard + int64_t(c.flag() ? 0 : c.below(uint64_t(int64_t(content.size()) - hard) + 1));
   content.resize(size_t(size));
   const int64_t ncp = shown_checkpoint(content);
   if (ncp < cp) c.label("soft checkpoints beyond the end");
   bool stale = false;
   for (size_t i = 0; i < 4; i++) if (word(content, i) < -size) stale = true;
   if (stale && size == ncp)
   {
    // opened by default: the soft checkpoint becomes valid again when the file grows
    std::string copy = content;
    files::View w(copy, Open_Mode::write_existing);
    {
     Writable_Journal j(w);
     Recorder r; j.play_until_checkpoint(r);
     Event e; e.k = model::comment; e.s = std::string(size_t(cp - ncp) + 10, 'z');
     model::apply(e, j);
    }
    const int64_t shown = shown_checkpoint(copy);
    if (shown != ncp) c.finding("KF1", "a soft checkpoint left beyond the end of the file by a power failure becomes valid when a file opened by default grows");
   }
   else stale = false;
   cp = ncp;
   checkpointed = 0; while (checkpointed < ends.size() && ends[checkpointed] <= cp) checkpointed++;
   events.resize(checkpointed); ends.resize(checkpointed);
   Gen g2(c, g.o); for (auto &e: events) if (e.k != model::comment) g2.m.apply(e); g.m = g2.m;
   readers.clear();
   leftover = int64_t(content.size()) > cp ? content.size() : 0;
   recovery = leftover || stale || c.flag() ? Recovery::overwrite : Recovery::none;
   c.notef("power failure: size ", size, " checkpoint ", cp);
  }
  c.note(recovery == Recovery::none ? "recovery none" : recovery == Recovery::overwrite ? "recovery overwrite" : "recovery ignore_header");
  if (round + 1 < rounds) c.label(recovery == Recovery::none ? "none" : recovery == Recovery::overwrite ? "overwrite" : "ignore_header");
 }
 if (aborted) c.nontrivial();
}

static vf::Register s04({"S04", "at least one aborted transaction", 12000, 600000, run_s04});
