#include "vf.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <ftw.h>
#include <filesystem>
#include <limits>
#include <typeinfo>

namespace vf
{
 static const size_t max_choices = 1 << 20;
 static const size_t max_msg = 1 << 16;

 // One per worker, in a shared anonymous mapping
 struct Shared
 {
  volatile int64_t current;      // case being run, -1 if none
  volatile uint64_t beats;       // progress
  volatile uint64_t n;           // choices drawn in the current case
  volatile int failed;           // 1: msg is set
  volatile int64_t failed_case;
  char msg[max_msg];
  uint64_t choices[max_choices];
 };

 static std::vector<Property> &registry()
 {
  static std::vector<Property> r;
  return r;
 }
 Register::Register(Property p) {registry().push_back(std::move(p));}

 static uint64_t splitmix(uint64_t &s)
 {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
 }

 uint64_t hash_bytes(const void *p, size_t n, uint64_t h)
 {
  const unsigned char *b = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) {h ^= b[i]; h *= 1099511628211ull;}
  return h;
 }

 uint64_t Ctx::raw() {return below(~0ull);}

 uint64_t Ctx::below(uint64_t n)
 {
  uint64_t v;
  if (replaying)
  {
   v = pos < seq.size() ? seq[pos] : 0;
   if (n == 0) v = 0; else if (v >= n) v = n - 1;
   pos++;
  }
  else
  {
   v = n == 0 ? 0 : splitmix(rng) % n;
   seq.push_back(v);
   pos++;
  }
  if (shared)
  {
   const uint64_t i = shared->n;
   if (i < max_choices) {shared->choices[i] = v; shared->n = i + 1;}
  }
  if (pos > max_choices) throw Discard();
  return v;
 }

 size_t Ctx::length(size_t max)
 {
  switch (below(8))
  {
   case 0: return 0;
   case 1: return std::min<size_t>(max, 1);
   case 2: case 3: case 4: return below(std::min<size_t>(max, 8) + 1);
   case 5: case 6: return below(std::min<size_t>(max, 64) + 1);
   default: return below(max + 1);
  }
 }

 int64_t Ctx::integer()
 {
  switch (below(6))
  {
   case 0: return int64_t(below(4));
   case 1: return int64_t(below(256)) - 128;
   case 2: return int64_t(below(1 << 17)) - (1 << 16);
   case 3: {const int k = int(below(64)); const int64_t d = int64_t(below(5)) - 2; return int64_t((1ull << k) + uint64_t(d));}
   case 4: {const int k = int(below(64)); const int64_t d = int64_t(below(5)) - 2; return int64_t(0 - (1ull << k) + uint64_t(d));}
   default: return int64_t(raw());
  }
 }

 std::string Ctx::bytes(size_t max)
 {
  const size_t n = length(max);
  std::string s(n, 0);
  if (n <= 24)
   for (auto &ch: s) ch = char(below(256));
  else
  {
   uint64_t r = raw();
   const int mode = int(below(3));
   for (auto &ch: s) ch = mode == 0 ? char('a' + splitmix(r) % 3) : char(splitmix(r));
  }
  return s;
 }

 static void put_utf8(std::string &s, uint32_t c)
 {
  if (c < 0x80) s += char(c);
  else if (c < 0x800) {s += char(0xc0 | (c >> 6)); s += char(0x80 | (c & 63));}
  else if (c < 0x10000) {s += char(0xe0 | (c >> 12)); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63));}
  else {s += char(0xf0 | (c >> 18)); s += char(0x80 | ((c >> 12) & 63)); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63));}
 }

 std::string Ctx::utf8(size_t max)
 {
  const size_t n = length(max);
  std::string s;
  for (size_t i = 0; i < n; i++)
  {
   uint32_t cp;
   switch (below(8))
   {
    case 0: case 1: case 2: cp = 'a' + uint32_t(below(26)); break;
    case 3: cp = 32 + uint32_t(below(95)); break;
    case 4: cp = uint32_t(below(128)); break;
    case 5: {static const uint32_t k[] = {'"', '\\', '\'', '\n', '\t', 0, 0x7f, '/', '\r', 8, 12, 27}; cp = k[below(12)]; break;}
    case 6: cp = 0x80 + uint32_t(below(0x10000 - 0x80)); if (cp >= 0xd800 && cp < 0xe000) cp = 0xe9; break;
    default: cp = 0x10000 + uint32_t(below(0x100000)); break;
   }
   put_utf8(s, cp);
  }
  return s;
 }

 std::string Ctx::identifier()
 {
  std::string s;
  s += "abcdefghijklmnopqrstuvwxyz"[below(26)];
  while (more(3)) s += "abcdefghijklmnopqrstuvwxyz0123456789_ABCDEFGHIJKLMNOPQRSTUVWXYZ"[below(63)];
  return s;
 }

 double Ctx::real()
 {
  switch (below(6))
  {
   case 0: return double(int64_t(below(2001)) - 1000);
   case 1: return double(int64_t(below(2000001)) - 1000000) / 1000.0;
   case 2: return std::ldexp(double(raw() >> 11), int(below(80)) - 90);
   case 3: {static const double k[] = {0.0, -0.0, 1.0 / 3, 0.1, 1e300, -1e-300, 3.4028234663852886e38, 1.17549435e-38, 2.2250738585072014e-308, 1.7976931348623157e308}; return k[below(10)];}
   case 4: {uint64_t u = raw(); double d; std::memcpy(&d, &u, 8); if (!std::isfinite(d)) d = 1.5; return d;}
   default: return double(integer());
  }
 }

 void Ctx::note(std::string_view s)
 {
  if (trace.size() < (1 << 16)) {trace += s; trace += '\n';}
  if (verbose) {std::cerr << s << '\n';}
 }

 static std::string verif_dir;
 static std::string current_property;
 static std::set<std::string> known_ids;
 void Ctx::finding(const std::string &id, const std::string &what)
 {
  if (known_ids.count(id)) label("known-finding " + id);
  else throw Fail(what);
 }

 std::string hex(std::string_view s)
 {
  static const char *d = "0123456789abcdef";
  std::string r;
  for (unsigned char c: s) {r += d[c >> 4]; r += d[c & 15];}
  return r;
 }
 std::string quoted(std::string_view s, size_t max)
 {
  std::string r = "\"";
  for (size_t i = 0; i < s.size() && i < max; i++)
  {
   const unsigned char c = (unsigned char)s[i];
   if (c == '"' || c == '\\') {r += '\\'; r += char(c);}
   else if (c >= 32 && c < 127) r += char(c);
   else {char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b;}
  }
  r += '"';
  if (s.size() > max) r += "...(" + std::to_string(s.size()) + ")";
  return r;
 }

 void remove_tree(const std::string &path)
 {
  if (path.size() < 6 || path.find("/vf.") == std::string::npos) return;
  std::error_code ec;
  std::filesystem::remove_all(path, ec);
 }
 void clear_scratch(Ctx &c)
 {
  std::error_code ec;
  if (c.scratch.find("/vf.") == std::string::npos) return;
  for (auto &e: std::filesystem::directory_iterator(c.scratch, ec))
   std::filesystem::remove_all(e.path(), ec);
 }

 static std::string json_str(std::string_view s)
 {
  std::string r = "\"";
  for (unsigned char c: s)
  {
   if (c == '"' || c == '\\') {r += '\\'; r += char(c);}
   else if (c == '\n') r += "\\n";
   else if (c < 32 || c >= 127) {char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b;}
   else r += char(c);
  }
  return r + "\"";
 }

 ///////////////////////////////////////////////////////////////////////////
 // uninitialized memory reads are the same in a worker and in a replay
 __attribute__((noinline, no_sanitize("address"))) static void paint_stack()
 {
  volatile char a[200000];
  for (size_t i = 0; i < sizeof(a); i++) a[i] = char(0x5b);
 }

 enum Outcome {passed = 0, violated = 1, discarded = 2};
 static Outcome run_one(const Property &p, Ctx &c, std::string &msg)
 {
  try
  {
   c.size = int(c.below(100)) + 1;
   paint_stack();
   p.run(c);
   return passed;
  }
  catch (const Discard &) {return discarded;}
  catch (const Fail &f) {msg = f.what(); return violated;}
  catch (const std::exception &e) {msg = std::string("unexpected exception (") + typeid(e).name() + "): " + e.what(); return violated;}
  catch (...) {msg = "unexpected exception of unknown type"; return violated;}
 }

 static Shared *g_shared = nullptr;
 static void on_cpu_limit(int)
 {
  if (g_shared)
  {
   strcpy(g_shared->msg, "CPU limit exceeded: the case does not terminate");
   g_shared->failed = 1;
  }
  _exit(97);
 }
 static void arm_cpu(int seconds)
 {
  struct itimerval t = {};
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
 }

 static void set_case_rng(Ctx &c, uint64_t seed, const Property &p, int64_t i)
 {
  uint64_t s = hash_bytes(p.id, strlen(p.id)) ^ (seed * 0x9e3779b97f4a7c15ull);
  (void)splitmix(s);
  s ^= uint64_t(i) * 0xd1342543de82ef95ull;
  (void)splitmix(s);
  c.rng = s;
 }

 static Shared *new_shared()
 {
  void *m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) {perror("mmap"); exit(2);}
  Shared *s = (Shared *)m;
  s->current = -1;
  return s;
 }

 static std::string scratch_root()
 {
  static std::string root;
  if (root.empty())
  {
   const char *base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
   std::string t = std::string(base) + "/vf.XXXXXX";
   std::vector<char> b(t.begin(), t.end()); b.push_back(0);
   if (!mkdtemp(b.data())) {perror("mkdtemp"); exit(2);}
   chmod(b.data(), 0755);
   root = b.data();
  }
  return root;
 }

 struct Replay_Result {bool failed; std::string msg; std::string trace; uint64_t used; bool hang;};

 // run one explicit sequence in a child
 static Replay_Result run_child(const Property &p, const std::vector<uint64_t> &seq, bool verbose, bool thorough, int wall_limit)
 {
  static Shared *sh = new_shared();
  sh->n = 0; sh->failed = 0; sh->current = 0; sh->msg[0] = 0;
  std::string dir = scratch_root() + "/r" + std::to_string(getpid());
  mkdir(dir.c_str(), 0755);
  std::string tracefile = scratch_root() + "/trace";
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0)
  {
   setpgid(0, 0);
   prctl(PR_SET_PDEATHSIG, SIGKILL);
   g_shared = sh;
   signal(SIGPROF, on_cpu_limit);
   if (!verbose)
   {
    int fd = open((scratch_root() + "/stderr").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) {dup2(fd, 2); dup2(fd, 1);}
   }
   Ctx c;
   c.replaying = true;
   c.seq = seq;
   c.shared = sh;
   c.verbose = verbose;
   c.thorough = thorough;
   c.scratch = dir;
   arm_cpu(p.cpu_limit);
   std::string msg;
   Outcome o = run_one(p, c, msg);
   {
    std::ofstream t(tracefile, std::ios::binary);
    t << c.trace;
   }
   if (o == violated)
   {
    strncpy(sh->msg, msg.c_str(), max_msg - 1);
    sh->failed = 1;
    _exit(1);
   }
   _exit(0);
  }
  setpgid(pid, pid);
  int status = 0;
  bool hang = false;
  auto t0 = std::chrono::steady_clock::now();
  for (int us = 200;;)
  {
   pid_t r = waitpid(pid, &status, WNOHANG);
   if (r == pid) break;
   if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(wall_limit))
   {
    kill(-pid, SIGKILL);
    kill(pid, SIGKILL);
    waitpid(pid, &status, 0);
    hang = true;
    break;
   }
   usleep(us);
   if (us < 5000) us += us / 4;
  }
  kill(-pid, SIGKILL); // stray grandchildren
  Replay_Result r;
  r.used = sh->n;
  r.hang = hang;
  std::ifstream t(tracefile, std::ios::binary);
  std::ostringstream o; o << t.rdbuf(); r.trace = o.str();
  unlink(tracefile.c_str());
  if (hang) {r.failed = true; r.msg = "the case does not terminate (blocked)";}
  else if (sh->failed) {r.failed = true; r.msg = sh->msg;}
  else if (WIFSIGNALED(status) || (WIFEXITED(status) && WEXITSTATUS(status) != 0))
  {
   r.failed = true;
   std::ifstream e(scratch_root() + "/stderr", std::ios::binary);
   std::string line, first;
   while (std::getline(e, line))
    if (line.find("ERROR:") != std::string::npos || line.find("runtime error") != std::string::npos || line.find("terminate called") != std::string::npos || line.find("ssertion") != std::string::npos)
     {first = line; break;}
   r.msg = "the process died (" + (WIFSIGNALED(status) ? "signal " + std::to_string(WTERMSIG(status)) : "exit " + std::to_string(WEXITSTATUS(status))) + ") " + first;
  }
  else r.failed = false;
  std::error_code ec;
  std::filesystem::remove_all(dir, ec);
  return r;
 }

 static std::vector<uint64_t> shrink(const Property &p, std::vector<uint64_t> seq, bool thorough, bool hang, int &evals)
 {
  auto t0 = std::chrono::steady_clock::now();
  const int budget = hang ? 20 : 60;
  auto over = [&]{return std::chrono::steady_clock::now() - t0 > std::chrono::seconds(budget) || evals > 4000;};
  auto fails = [&](const std::vector<uint64_t> &s)
  {
   evals++;
   return run_child(p, s, false, thorough, hang ? 5 : 30).failed;
  };
  bool progress = true;
  while (progress && !over())
  {
   progress = false;
   for (size_t block: {512, 128, 32, 16, 8, 6, 5, 4, 3, 2, 1})
   {
    for (size_t i = seq.size(); i-- > 0 && !over();)
    {
     if (i < block - 1 || seq.size() < block) break;
     size_t start = i - (block - 1);
     std::vector<uint64_t> s(seq);
     s.erase(s.begin() + start, s.begin() + std::min(s.size(), start + block));
     if (s.size() < seq.size() && fails(s)) {seq = s; progress = true; i = std::min(i, seq.size());}
     else if (block > 8) i = i >= block / 2 ? i - block / 2 : 0;
    }
   }
   for (size_t i = 0; i < seq.size() && !over(); i++)
   {
    if (seq[i] == 0) continue;
    std::vector<uint64_t> s(seq);
    s[i] = 0;
    if (fails(s)) {seq = s; progress = true; continue;}
    uint64_t lo = 0, hi = seq[i];
    while (hi - lo > 1 && !over())
    {
     uint64_t mid = lo + (hi - lo) / 2;
     s = seq; s[i] = mid;
     if (fails(s)) {hi = mid; seq = s; progress = true;} else lo = mid;
    }
   }
   while (!seq.empty() && seq.back() == 0) seq.pop_back();
  }
  return seq;
 }

 static void write_replay(const std::string &path, const Property &p, const std::vector<uint64_t> &seq, const std::string &msg, const std::string &trace)
 {
  std::ofstream f(path, std::ios::binary);
  f << "property " << p.id << "\n";
  f << "choices";
  for (auto v: seq) f << ' ' << v;
  f << "\n";
  f << "message " << quoted(msg, 4000) << "\n";
  f << "---- what the case does ----\n" << trace;
 }

 // stats file written by each worker
 struct Stats
 {
  uint64_t evaluations = 0, discards = 0;
  std::vector<uint64_t> hashes; // of non-trivial cases
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
 };

 static void worker(const Property &p, Shared *sh, int w, int procs, int64_t from, int64_t cases, uint64_t seed, bool thorough, double deadline, const std::string &statsfile, const std::string &dir)
 {
  g_shared = sh;
  signal(SIGPROF, on_cpu_limit);
  int fd = open((scratch_root() + "/werr" + std::to_string(w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd >= 0) {dup2(fd, 2); dup2(fd, 1);}
  Stats st;
  int64_t i = from;
  auto t0 = std::chrono::steady_clock::now();
  for (; i < cases; i += procs)
  {
   if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > deadline) break;
   Ctx c;
   c.thorough = thorough;
   c.scratch = dir;
   c.shared = sh;
   sh->n = 0;
   sh->current = i;
   if (size_t(i) < p.fixed.size()) {c.replaying = true; c.seq = p.fixed[i];}
   else set_case_rng(c, seed, p, i);
   arm_cpu(p.cpu_limit);
   std::string msg;
   Outcome o = run_one(p, c, msg);
   arm_cpu(0);
   sh->beats = sh->beats + 1;
   if (o == violated)
   {
    strncpy(sh->msg, msg.c_str(), max_msg - 1);
    sh->failed_case = i;
    sh->failed = 1;
    break;
   }
   if (o == discarded) {st.discards++; continue;}
   st.evaluations++;
   for (auto &[k, v]: c.labels) st.labels[k] += v;
   if (c.is_nontrivial)
   {
    uint64_t h = hash_bytes(c.trace.data(), c.trace.size());
    h = hash_bytes((const void *)sh->choices, size_t(sh->n) * 8, h);
    st.hashes.push_back(h);
    if (st.samples.size() < 2 || (st.samples.size() < 4 && c.trace.size() > st.samples.back().size()))
     st.samples.push_back("case " + std::to_string(i) + "\n" + c.trace.substr(0, 1500));
   }
  }
  if (!sh->failed) sh->current = -1;
  std::ofstream f(statsfile, std::ios::binary);
  f << st.evaluations << ' ' << st.discards << ' ' << i << '\n';
  f << st.hashes.size();
  for (auto h: st.hashes) f << ' ' << h;
  f << '\n' << st.labels.size() << '\n';
  for (auto &[k, v]: st.labels) f << v << ' ' << k << '\n';
  f << st.samples.size() << '\n';
  for (auto &s: st.samples) f << s.size() << '\n' << s << '\n';
  f.close();
  _exit(sh->failed ? 1 : 0);
 }

 static std::string tail_of(const std::string &path)
 {
  std::ifstream e(path, std::ios::binary);
  std::string line, r;
  while (std::getline(e, line))
   if (line.find("ERROR:") != std::string::npos || line.find("runtime error") != std::string::npos || line.find("terminate") != std::string::npos || line.find("what()") != std::string::npos || line.find("ssert") != std::string::npos)
    {r += line + " | ";}
  return r.substr(0, 1000);
 }
}

extern "C" const char *__asan_default_options()
{
 return "detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=91:detect_leaks=0:allocator_may_return_null=0:handle_abort=1";
}

using namespace vf;

int main(int argc, char **argv)
{
 std::string id, tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick", replay;
 uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
 int64_t cases = -1;
 int procs = 8;
 double deadline = -1;
 int64_t only = -1;
 verif_dir = ".";
 bool verbose = false, list = false, noshrink = false;
 for (int i = 1; i < argc; i++)
 {
  std::string a = argv[i];
  auto next = [&]{return std::string(i + 1 < argc ? argv[++i] : "");};
  if (a == "--property") id = next();
  else if (a == "--tier") tier = next();
  else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
  else if (a == "--cases") cases = atoll(next().c_str());
  else if (a == "--procs") procs = atoi(next().c_str());
  else if (a == "--deadline") deadline = atof(next().c_str());
  else if (a == "--verif") verif_dir = next();
  else if (a == "--replay") replay = next();
  else if (a == "--case") only = atoll(next().c_str());
  else if (a == "--verbose") verbose = true;
  else if (a == "--no-shrink") noshrink = true;
  else if (a == "--list") list = true;
  else {std::cerr << "unknown option " << a << '\n'; return 2;}
 }
 if (list) {for (auto &p: registry()) std::cout << p.id << '\n'; return 0;}
 std::vector<uint64_t> rseq;
 if (!replay.empty())
 {
  std::ifstream f(replay);
  std::string line;
  while (std::getline(f, line))
  {
   std::istringstream s(line);
   std::string k; s >> k;
   if (k == "property") s >> id;
   else if (k == "choices") {uint64_t v; while (s >> v) rseq.push_back(v);}
   else if (k == "----") break;
  }
 }
 const Property *pp = nullptr;
 for (auto &p: registry()) if (id == p.id) pp = &p;
 if (!pp) {std::cerr << "no such property: " << id << '\n'; return 2;}
 const Property &p = *pp;
 const bool thorough = tier == "thorough";
 current_property = id;
 // known findings
 std::vector<std::pair<std::string, std::string>> known;
 {
  std::ifstream f(verif_dir + "/known_findings.txt");
  std::string line;
  while (std::getline(f, line))
  {
   // "known: property=J01 id=KF1 text..."
   const std::string pre = "known: property=" + id + " id=";
   if (line.rfind(pre, 0) == 0)
   {
    std::string rest = line.substr(pre.size());
    size_t sp = rest.find(' ');
    known_ids.insert(rest.substr(0, sp));
    known.push_back({rest.substr(0, sp), sp == std::string::npos ? "" : rest.substr(sp + 1)});
   }
  }
 }
 struct Cleaner {~Cleaner() {remove_tree(scratch_root());}} cleaner;
 signal(SIGPIPE, SIG_IGN);

 if (!replay.empty() || only >= 0)
 {
  if (only >= 0)
  {
   // generate the sequence by running it once in a child
   Shared *sh = new_shared();
   pid_t pid = fork();
   if (pid == 0)
   {
    Ctx c; c.shared = sh; c.thorough = thorough; c.scratch = scratch_root() + "/only"; mkdir(c.scratch.c_str(), 0755);
    g_shared = sh;
    if (size_t(only) < p.fixed.size()) {c.replaying = true; c.seq = p.fixed[only];}
    else set_case_rng(c, seed, p, only);
    std::string msg; run_one(p, c, msg);
    _exit(0);
   }
   int st; waitpid(pid, &st, 0);
   rseq.assign((uint64_t *)sh->choices, (uint64_t *)sh->choices + sh->n);
  }
  auto r = run_child(p, rseq, verbose, thorough, 120);
  if (!verbose) std::cout << r.trace;
  if (r.failed)
  {
   std::cout << "FAILED: " << r.msg << '\n';
   std::cout << "VIOLATION property=" << id << " replay=" << replay << '\n';
   return 1;
  }
  std::cout << "passed\n";
  return 0;
 }

 if (cases < 0) cases = thorough ? p.thorough : p.quick;
 cases = std::max<int64_t>(cases, int64_t(p.fixed.size()));
 if (deadline < 0) deadline = thorough ? 600 : 150;
 if (p.max_procs && procs > p.max_procs) procs = p.max_procs;
 auto t0 = std::chrono::steady_clock::now();

 std::vector<Shared *> sh(procs);
 std::vector<pid_t> pids(procs, -1);
 std::vector<uint64_t> beats(procs, 0);
 std::vector<std::chrono::steady_clock::time_point> last(procs, t0);
 std::vector<std::string> stats(procs), dirs(procs);
 fflush(stdout);
 for (int w = 0; w < procs; w++)
 {
  sh[w] = new_shared();
  stats[w] = scratch_root() + "/stats" + std::to_string(w);
  dirs[w] = scratch_root() + "/w" + std::to_string(w);
  mkdir(dirs[w].c_str(), 0755);
  pid_t pid = fork();
  if (pid == 0) {setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL); worker(p, sh[w], w, procs, w, cases, seed, thorough, deadline, stats[w], dirs[w]); }
  setpgid(pid, pid);
  pids[w] = pid;
 }
 struct Bad {int64_t index; std::vector<uint64_t> seq; std::string msg; bool hang;};
 std::vector<Bad> bads;
 int unconfirmed = 0;
 auto elapsed = [&]{return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();};
 // a failure counts if the same choices fail again
 auto confirm = [&](const Bad &b)
 {
  int failed = 0;
  const int wanted = 2;
  const auto start = elapsed();
  for (int k = 0; k < 8 && failed < wanted && elapsed() - start < 240; k++)
  {
   if (run_child(p, b.seq, false, thorough, b.hang ? 45 : 120).failed) failed++;
   else if (b.hang) break;
  }
  return failed >= wanted;
 };
 int running = procs;
 while (running > 0)
 {
  for (int w = 0; w < procs; w++)
  {
   if (pids[w] < 0 || !bads.empty()) continue;
   int status;
   pid_t r = waitpid(pids[w], &status, WNOHANG);
   auto now = std::chrono::steady_clock::now();
   bool stalled = false;
   if (r == 0)
   {
    if (sh[w]->beats != beats[w]) {beats[w] = sh[w]->beats; last[w] = now;}
    if (now - last[w] > std::chrono::seconds(60))
    {
     kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL);
     waitpid(pids[w], &status, 0);
     stalled = true;
    }
    else continue;
   }
   kill(-pids[w], SIGKILL);
   pids[w] = -1;
   running--;
   const bool ok = !stalled && WIFEXITED(status) && WEXITSTATUS(status) == 0;
   if (!ok)
   {
    Bad b;
    b.index = sh[w]->failed ? (sh[w]->failed_case ? sh[w]->failed_case : sh[w]->current) : sh[w]->current;
    b.seq.assign((uint64_t *)sh[w]->choices, (uint64_t *)sh[w]->choices + sh[w]->n);
    b.msg = sh[w]->failed ? sh[w]->msg : stalled ? "blocked" : "worker died: status " + std::to_string(status) + " " + tail_of(scratch_root() + "/werr" + std::to_string(w));
    b.hang = stalled || (WIFEXITED(status) && WEXITSTATUS(status) == 97);
    if (confirm(b)) bads.push_back(b);
    else
    {
     std::cout << "note: a failure of case " << b.index << " did not repeat (" << b.msg << "); not reported\n";
     unconfirmed++;
     const double left = deadline - elapsed();
     if (b.index >= 0 && b.index + procs < cases && left > 0 && unconfirmed < 50)
     {
      std::error_code ec;
      std::filesystem::remove_all(dirs[w], ec);
      mkdir(dirs[w].c_str(), 0755);
      sh[w]->failed = 0; sh[w]->failed_case = 0; sh[w]->msg[0] = 0; sh[w]->current = -1; sh[w]->n = 0;
      stats.push_back(scratch_root() + "/stats" + std::to_string(stats.size()));
      fflush(stdout);
      std::cout.flush();
      pid_t pid = fork();
      if (pid == 0) {setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL); worker(p, sh[w], w, procs, b.index + procs, cases, seed, thorough, left, stats.back(), dirs[w]);}
      setpgid(pid, pid);
      pids[w] = pid;
      last[w] = std::chrono::steady_clock::now();
      running++;
     }
    }
   }
  }
  if (!bads.empty())
   for (int v = 0; v < procs; v++) if (pids[v] > 0)
   {
    kill(-pids[v], SIGKILL); kill(pids[v], SIGKILL);
    int s; waitpid(pids[v], &s, 0); pids[v] = -1; running--;
   }
  usleep(10000);
 }

 // aggregate
 Stats total;
 std::unordered_set<uint64_t> distinct;
 for (size_t w = 0; w < stats.size(); w++)
 {
  std::ifstream f(stats[w], std::ios::binary);
  uint64_t e, d; int64_t i;
  if (!(f >> e >> d >> i)) continue;
  total.evaluations += e; total.discards += d;
  size_t n; f >> n;
  for (size_t k = 0; k < n; k++) {uint64_t h; f >> h; distinct.insert(h);}
  f >> n;
  for (size_t k = 0; k < n; k++) {uint64_t v; f >> v; std::string s; f.get(); std::getline(f, s); total.labels[s] += v;}
  f >> n;
  for (size_t k = 0; k < n && total.samples.size() < 8; k++) {size_t z; f >> z; f.get(); std::string s(z, 0); f.read(s.data(), z); total.samples.push_back(s);}
 }

 int violations = 0;
 std::string replay_path;
 std::string vmsg;
 std::sort(bads.begin(), bads.end(), [](const Bad &a, const Bad &b){return a.index < b.index;});
 for (auto &b: bads)
 {
  Replay_Result r;
  const int wall = b.hang ? 45 : 120;
  int evals = 0;
  std::vector<uint64_t> s = b.seq;
  if (!noshrink)
  {
   s = shrink(p, b.seq, thorough, b.hang, evals);
   // confirm the shrunk one; fall back to the original
   int ok = 0;
   const int need = b.hang ? 1 : 3;
   for (int k = 0; k < need; k++) if (run_child(p, s, false, thorough, wall).failed) ok++; else break;
   if (ok < need) s = b.seq;
  }
  r = run_child(p, s, false, thorough, wall);
  mkdir((verif_dir + "/replays").c_str(), 0755);
  replay_path = verif_dir + "/replays/" + id + "-" + std::to_string(seed) + "-" + std::to_string(b.index) + ".replay";
  write_replay(replay_path, p, s, r.msg, r.trace);
  vmsg = r.msg;
  std::cout << "counterexample (shrunk with " << evals << " runs from " << b.seq.size() << " to " << s.size() << " choices): " << r.msg << '\n' << r.trace;
  violations++;
  break;
 }

 const double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
 {
  mkdir((verif_dir + "/evidence").c_str(), 0755);
  std::ofstream f(verif_dir + "/evidence/" + id + ".json", std::ios::binary);
  f << "{\n \"property\": " << json_str(id) << ",\n \"tier\": " << json_str(tier) << ",\n \"seed\": " << seed
    << ",\n \"level\": " << json_str(p.level) << ",\n \"coverage\": {\n  \"evaluations\": " << total.evaluations
    << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"rule\": " << json_str(p.rule)
    << ",\n  \"discarded\": " << total.discards << ",\n  \"planned_cases\": " << cases
    << ",\n  \"unconfirmed_failures\": " << unconfirmed << ",\n  \"labels\": {";
  bool first = true;
  for (auto &[k, v]: total.labels) {f << (first ? "\n" : ",\n") << "   " << json_str(k) << ": " << v; first = false;}
  f << "},\n  \"samples\": [";
  first = true;
  for (auto &s: total.samples) {f << (first ? "\n" : ",\n") << "   " << json_str(s); first = false;}
  if (!vmsg.empty()) f << (first ? "\n" : ",\n") << "   " << json_str("violation: " + vmsg);
  f << "]\n },\n \"assumptions\": [";
  first = true;
  for (auto &s: p.assumptions) {f << (first ? "" : ", ") << json_str(s); first = false;}
  f << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
 }
 std::cout << id << " " << tier << " seed=" << seed << ": " << total.evaluations << " cases, " << distinct.size()
           << " distinct non-trivial, " << total.discards << " discarded, " << wall << " s\n";
 for (auto &[k, v]: total.labels) std::cout << "  " << k << ": " << v << '\n';
 for (auto &[k, what]: known) std::cout << "KNOWN-FINDING: property=" << id << " " << k << " " << what << '\n';
 if (violations)
 {
  std::cout << "VIOLATION property=" << id << " replay=" << replay_path << '\n';
  return 1;
 }
 return 0;
}
