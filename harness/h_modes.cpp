// C07 open modes and locks, with real files and processes
#include "vf.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/journal/File.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/Writable.h"
#include <cerrno>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iterator>
#include <list>
#include <memory>
#include <poll.h>
#include <sstream>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace joedb;
using namespace vf;

namespace
{
 const char *const mode_name[] = {"read_existing", "write_existing", "create_new", "write_existing_or_create_new", "shared_write", "write_lock"};
 const int slots = 4;

 struct Comments: Dummy_Writable
 {
  std::string s;
  void comment(const std::string &c) override {s += c + ";";}
 };
 std::string raw(const Abstract_File &f)
 {
  std::string s;
  char b[256];
  for (;;) {const size_t n = f.pread(b, sizeof b, int64_t(s.size())); if (!n) break; s.append(b, n);}
  return s;
 }

 //////////////////////////////////////////////////////////////////////////////
 // a process that opens files
 //////////////////////////////////////////////////////////////////////////////
 [[noreturn]] void child(int fd)
 {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  Destructor_Logger::set_logger(nullptr);
  std::unique_ptr<File> file[slots];
  std::string in;
  for (;;)
  {
   const size_t eol = in.find('\n');
   if (eol == std::string::npos)
   {
    char b[4096];
    const ssize_t r = ::read(fd, b, sizeof b);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) ::_exit(0);
    in.append(b, size_t(r));
    continue;
   }
   std::istringstream line(in.substr(0, eol));
   in.erase(0, eol + 1);
   char op; int k; line >> op >> k;
   std::string out = "+";
   try
   {
    auto &f = file[k];
    switch (op)
    {
     case 'o': {int m; std::string path; line >> m >> path; f = std::make_unique<File>(path, Open_Mode(m)); break;}
     case 'c': f.reset(); break;
     case 't':
     {
      std::string text; line >> text;
      Writable_Journal_Client c(*f);
      c.transaction([&](Writable_Journal &j) {j.comment(text);});
      break;
     }
     // dies in the middle
     case 'd':
     {
      Writable_Journal_Client c(*f);
      c.transaction([&](Writable_Journal &j) {::kill(::getpid(), SIGKILL); for (;;) ::pause();});
      break;
     }
     case 'r': {Readonly_Journal j(*f); Comments c; j.replay_log(c); out += c.s; break;}
     case 'p': out += hex(raw(*f)) + " " + std::to_string(f->get_size()) + " " + std::to_string(int(f->get_mode())) + std::to_string(f->is_shared()) + std::to_string(f->is_readonly()); break;
     case 'w': f->pwrite("x", 1, 3); break;
     case 'L': f->exclusive_lock_tail(); break;
     case 'U': f->unlock_tail(); break;
     case 'S': f->shared_lock_head(); break;
     case 'X': f->exclusive_lock_head(); break;
     case 'H': f->unlock_head(); break;
     default: ::_exit(0); // without closing
    }
   }
   catch (const std::exception &e) {out = std::string("!") + e.what();}
   for (auto &x: out) if (x == '\n') x = ' ';
   out += '\n';
   size_t n = 0;
   while (n < out.size()) {const ssize_t r = ::send(fd, out.data() + n, out.size() - n, MSG_NOSIGNAL); if (r < 0) {if (errno == EINTR) continue; ::_exit(0);} n += size_t(r);}
  }
 }

 struct Process
 {
  pid_t pid = -1;
  int fd = -1;
  std::string in;
  void start()
  {
   int sv[2];
   if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) throw std::runtime_error("socketpair");
   pid = ::fork();
   if (pid < 0) throw std::runtime_error("fork");
   if (pid == 0) {::close(sv[0]); child(sv[1]);}
   ::close(sv[1]);
   fd = sv[0];
   in.clear();
  }
  void stop(bool kill)
  {
   if (pid < 0) return;
   if (kill) ::kill(pid, SIGKILL);
   if (!kill) {const char q[] = "x 0\n"; if (::send(fd, q, sizeof q - 1, MSG_NOSIGNAL) < 0) {}}
   int st; while (::waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
   ::close(fd);
   pid = -1; fd = -1;
  }
  void send(const std::string &s) {const std::string l = s + "\n"; if (::send(fd, l.data(), l.size(), MSG_NOSIGNAL) < 0) throw std::runtime_error("a process died");}
  // false: nothing within ms
  bool receive(std::string &r, int ms)
  {
   for (;;)
   {
    const size_t eol = in.find('\n');
    if (eol != std::string::npos) {r = in.substr(0, eol); in.erase(0, eol + 1); return true;}
    pollfd p = {fd, POLLIN, 0};
    int n; do n = ::poll(&p, 1, ms); while (n < 0 && errno == EINTR);
    if (n <= 0) return false;
    char b[4096];
    const ssize_t x = ::read(fd, b, sizeof b);
    if (x < 0 && errno == EINTR) continue;
    if (x <= 0) throw std::runtime_error("a process died");
    in.append(b, size_t(x));
   }
  }
  ~Process() {stop(true);}
 };

 //////////////////////////////////////////////////////////////////////////////
 // model
 //////////////////////////////////////////////////////////////////////////////
 struct Handle;
 struct Inode
 {
  std::string comments, bytes;
  bool journal = false;
  Handle *tail = nullptr;
 };
 struct Handle {int id, p, slot; Open_Mode mode; Inode *i; int head = 0; bool writable() const {return mode != Open_Mode::read_existing;} bool exclusive() const {return writable() && mode != Open_Mode::shared_write;}};

 std::string slurp(const std::string &path)
 {
  std::ifstream f(path, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(f), {});
 }
 const int nproc = 3;

 struct Modes
 {
  Ctx &c;
  Process p[nproc];
  std::list<Inode> inodes;
  std::list<Handle> handles;
  Inode *current = nullptr;
  std::string path;
  // one process waits for a lock
  int waiting = -1; char waiting_op = 0; Handle *waiting_handle = nullptr; std::string waiting_text;
  int next = 0, opened = 0, refused = 0, blocked = 0, deaths = 0, transactions = 0, texts = 0;

  Inode *new_inode() {inodes.emplace_back(); return &inodes.back();}
  std::string ask(int q, const std::string &s)
  {
   p[q].send(s);
   std::string r;
   if (!p[q].receive(r, 20000)) c.fail("process " + std::to_string(q) + " is blocked by: " + s);
   return r;
  }
  void expect(const std::string &r, bool good, const std::string &what)
  {
   if ((r[0] == '+') != good) c.fail(what + (good ? " failed: " + r.substr(1) : " succeeded"));
  }
  // the operation must wait
  void wait_for_lock(int q, char op, Handle *h, const std::string &text, const std::string &command)
  {
   p[q].send(command);
   waiting = q; waiting_op = op; waiting_handle = h; waiting_text = text;
   blocked++;
   c.note("  waits");
   still_waiting(2);
  }
  void still_waiting(int ms)
  {
   std::string r;
   if (waiting >= 0 && p[waiting].receive(r, ms)) c.fail(std::string("an operation did not wait for a lock: ") + r);
  }
  void transacted(Handle *h, const std::string &text)
  {
   h->i->comments += text + ";";
   h->i->journal = true;
   transactions++;
  }
  bool free_for(Handle *h, Inode *i) const
  {
   for (auto &x: handles) if (&x != h && x.i == i && x.head) return false;
   return !i->tail || i->tail == h;
  }
  // a lock was released
  void released()
  {
   if (waiting < 0) return;
   Handle *h = waiting_handle;
   if (h->i->tail && h->i->tail != h) {still_waiting(0); return;}
   std::string r;
   if (!p[waiting].receive(r, 20000)) c.fail("process " + std::to_string(waiting) + " still waits for a lock that was released");
   waiting = -1;
   c.notef("  process ", h->p, " goes on");
   expect(r, true, "an operation that waited for a lock");
   if (waiting_op == 't') transacted(h, waiting_text);
   else h->i->tail = h;
  }
  void forget(Handle &h)
  {
   Inode *i = h.i;
   if (i->tail == &h) i->tail = nullptr;
   for (auto k = handles.begin(); k != handles.end(); ++k) if (&*k == &h) {handles.erase(k); break;}
   if (waiting >= 0 && waiting_handle->i == i) released();
  }
  void died(int q)
  {
   deaths++;
   if (waiting == q) waiting = -1;
   // all at once
   bool any = false;
   for (auto k = handles.begin(); k != handles.end();)
    if (k->p == q) {if (k->i->tail == &*k) k->i->tail = nullptr; k = handles.erase(k); any = true;} else ++k;
   if (any) released();
   p[q].start();
  }
  std::vector<int> idle() const {std::vector<int> v; for (int q = 0; q < nproc; q++) if (q != waiting) v.push_back(q); return v;}

  void open()
  {
   const int q = c.pick(idle());
   int slot = 0;
   std::vector<bool> used(slots);
   for (auto &h: handles) if (h.p == q) used[size_t(h.slot)] = true;
   while (slot < slots && used[size_t(slot)]) slot++;
   if (slot == slots) return;
   const Open_Mode m = Open_Mode(c.below(int(Open_Mode::mode_count)));
   const bool missing = c.chance(1, 20);
   c.notef("process ", q, " opens ", mode_name[int(m)], missing ? " in a missing directory" : "");
   const std::string command = "o " + std::to_string(slot) + " " + std::to_string(int(m)) + " " + (missing ? c.scratch + "/no/file" : path);
   if (missing) {expect(ask(q, command), false, "opening in a missing directory"); refused++; return;}
   const bool creates = m == Open_Mode::create_new || m == Open_Mode::write_existing_or_create_new || m == Open_Mode::shared_write || m == Open_Mode::write_lock;
   bool good = true;
   if (m == Open_Mode::create_new) good = !current; else if (!creates) good = current;
   const bool locks = m != Open_Mode::read_existing && m != Open_Mode::shared_write;
   bool wait = false;
   if (good && locks && current && current->tail) {if (m == Open_Mode::write_lock) wait = true; else good = false;}
   if (wait && waiting >= 0) {c.note("  no"); return;}
   Handle *h = nullptr;
   if (good)
   {
    if (!current) current = new_inode();
    handles.push_back({next++, q, slot, m, current});
    h = &handles.back();
   }
   if (wait) {wait_for_lock(q, 'o', h, "", command); return;}
   const std::string r = ask(q, command);
   expect(r, good, std::string("opening with ") + mode_name[int(m)]);
   if (!good) {refused++; return;}
   opened++;
   if (locks) h->i->tail = h;
  }

  void files()
  {
   const bool exists = ::access(path.c_str(), F_OK) == 0;
   c.check(exists == (current != nullptr), exists ? "a file was created" : "a file was not created");
   // bytes change by transactions only
   if (current)
   {
    const std::string b = slurp(path);
    Memory_File_Check(b, *current);
    current->bytes = b;
   }
  }
  void Memory_File_Check(const std::string &b, const Inode &i)
  {
   if (!i.journal) {c.check(b.empty(), "an empty file is no longer empty"); return;}
   Ro f(b);
   Readonly_Journal j(f);
   Comments x;
   j.replay_log(x);
   c.equal(x.s, i.comments, "content of the file");
   c.equal(j.get_checkpoint(), int64_t(b.size()), "checkpoint of the file");
  }
  struct Ro: Abstract_File
  {
   std::string s;
   Ro(std::string s): Abstract_File(Open_Mode::read_existing), s(std::move(s)) {}
   int64_t get_size() const override {return int64_t(s.size());}
   size_t pread(char *d, size_t n, int64_t o) const override
   {
    if (o >= int64_t(s.size())) return 0;
    n = std::min(n, s.size() - size_t(o));
    std::memcpy(d, s.data() + o, n);
    return n;
   }
  };

  bool heads(const Inode *i) const {for (auto &x: handles) if (x.i == i && x.head) return true; return false;}

  void use()
  {
   std::vector<Handle *> l;
   for (auto &h: handles) if (h.p != waiting) l.push_back(&h);
   if (l.empty()) return;
   Handle *h = c.pick(l);
   const std::string k = " " + std::to_string(h->slot);
   const std::string who = "process " + std::to_string(h->p) + ", " + mode_name[int(h->mode)] + ", ";
   switch (c.below(9))
   {
    case 0: case 1: case 2:
    {
     const std::string t = "c" + std::to_string(texts++);
     c.note(who + "transaction");
     const std::string command = "t" + k + " " + t;
     if (heads(h->i)) {c.note("  no"); return;}
     if (!h->writable()) {expect(ask(h->p, command), false, "a transaction of a file that is open for reading"); return;}
     if (h->i->tail && h->i->tail != h)
     {
      if (waiting >= 0) {c.note("  no"); return;}
      wait_for_lock(h->p, 't', h, t, command);
      return;
     }
     if (h->i->tail == h && !h->exclusive()) {c.note("  no"); return;} // it would be unlocked
     expect(ask(h->p, command), true, "a transaction");
     transacted(h, t);
     return;
    }
    case 3:
    {
     c.note(who + "read");
     for (auto &x: handles) if (x.i == h->i && x.head == 2 && &x != h) {c.note("  no"); return;}
     if (h->mode != Open_Mode::read_existing) return;
     if (h->head) return;
     const std::string r = ask(h->p, "r" + k);
     expect(r, h->i->journal, "reading the journal");
     if (h->i->journal) c.equal(r.substr(1), h->i->comments, "content of the journal");
     return;
    }
    case 4:
    {
     c.note(who + "bytes");
     const std::string r = ask(h->p, "p" + k);
     expect(r, true, "reading the bytes");
     const std::string &b = h->i->bytes;
     if (h->i == current) c.equal(r.substr(1), hex(slurp(path)) + " " + std::to_string(slurp(path).size()) + " " + std::to_string(int(h->mode)) + std::to_string(h->mode == Open_Mode::shared_write) + std::to_string(!h->writable()), "bytes, size and mode of the file");
     (void)b;
     return;
    }
    case 5:
     if (h->writable()) return;
     c.note(who + "write");
     expect(ask(h->p, "w" + k), false, "a write to a file that is open for reading");
     return;
    case 6:
     if (h->mode != Open_Mode::shared_write) return;
     if (h->i->tail == h) {c.note(who + "unlock tail"); expect(ask(h->p, "U" + k), true, "unlocking"); h->i->tail = nullptr; released(); return;}
     c.note(who + "lock tail");
     if (h->i->tail)
     {
      if (waiting >= 0) {c.note("  no"); return;}
      wait_for_lock(h->p, 'L', h, "", "L" + k);
      return;
     }
     expect(ask(h->p, "L" + k), true, "locking");
     h->i->tail = h;
     return;
    case 7:
    {
     // somebody who waits for the tail may need the head next
     if (waiting >= 0) return;
     if (h->head) {c.note(who + "unlock head"); expect(ask(h->p, "H" + k), true, "unlocking"); h->head = 0; return;}
     const bool x = c.flag();
     c.note(who + (x ? "exclusive lock of the head" : "shared lock of the head"));
     if (x && !h->writable()) {expect(ask(h->p, "X" + k), false, "an exclusive lock of a file that is open for reading"); return;}
     bool wait = false;
     for (auto &y: handles) if (&y != h && y.i == h->i && y.head && (x || y.head == 2)) wait = true;
     if (wait)
     {
      p[h->p].send((x ? "X" : "S") + k);
      std::string r;
      c.note("  waits");
      blocked++;
      if (p[h->p].receive(r, 2)) c.fail("a lock of the head did not wait");
      for (auto &y: handles) if (&y != h && y.i == h->i && y.head && (x || y.head == 2))
      {
       if (p[h->p].receive(r, 0)) c.fail("a lock of the head did not wait");
       if (y.p != h->p) {expect(ask(y.p, "H " + std::to_string(y.slot)), true, "unlocking"); y.head = 0;}
       else {c.note("  the same process"); const int q = h->p; p[q].stop(true); died(q); return;}
      }
      if (!p[h->p].receive(r, 20000)) c.fail("a lock of the head still waits");
      expect(r, true, "a lock of the head");
     }
     else expect(ask(h->p, (x ? "X" : "S") + k), true, "a lock of the head");
     h->head = x ? 2 : 1;
     return;
    }
    default:
     if (c.chance(1, 2)) return;
     if (h->i != current || !h->writable() || heads(h->i) || (h->i->tail && (h->i->tail != h || !h->exclusive()))) return;
     c.note(who + "dies in a transaction");
     {
      const int q = h->p;
      p[q].send("d" + k);
      int st; while (::waitpid(p[q].pid, &st, 0) < 0 && errno == EINTR) {}
      if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGKILL) {p[q].pid = -1; c.fail("the transaction did not begin");}
      ::close(p[q].fd); p[q].pid = -1; p[q].fd = -1;
      if (!slurp(path).empty()) current->journal = true;
      died(q);
     }
   }
  }

  void run()
  {
   clear_scratch(c);
   path = c.scratch + "/f";
   for (auto &x: p) x.start();
   for (uint64_t n = 4 + c.below(40); n-- > 0;)
   {
    const uint64_t a = c.below(20);
    if (a < 7) open();
    else if (a < 14) use();
    else if (a < 18)
    {
     std::vector<Handle *> l;
     for (auto &h: handles) if (h.p != waiting) l.push_back(&h);
     if (l.empty()) continue;
     Handle *h = c.pick(l);
     c.notef("process ", h->p, " closes ", mode_name[int(h->mode)]);
     expect(ask(h->p, "c " + std::to_string(h->slot)), true, "closing");
     forget(*h);
    }
    else if (a == 18)
    {
     const int q = int(c.below(nproc));
     const bool kill = q == waiting || c.flag();
     c.notef("process ", q, kill ? " is killed" : " exits without closing");
     // what somebody else waits for
     p[q].stop(kill);
     died(q);
    }
    else if (waiting < 0 && c.chance(1, 2))
    {
     if (c.flag()) {c.note("the file is removed"); ::unlink(path.c_str()); current = nullptr;}
     else if (current) {c.note("the file is renamed and a new one is empty"); ::rename(path.c_str(), (path + std::to_string(next++)).c_str()); std::ofstream(path, std::ios::binary); current = new_inode();}
    }
    files();
   }
   still_waiting(0);
   c.label("openings", uint64_t(opened)); c.label("refused openings", uint64_t(refused)); c.label("operations that waited", uint64_t(blocked)); c.label("deaths", uint64_t(deaths)); c.label("transactions", uint64_t(transactions));
   if (opened > 1) c.nontrivial();
  }
 };
}
static void run_c07(Ctx &c) {Modes m{c}; m.run();}
static const Register r7({.id = "C07", .rule = "at least two openings of the file", .quick = 5000, .thorough = 300000, .run = run_c07});
