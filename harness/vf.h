// A small property-based testing engine.
//
// A case is a sequence of unsigned choices. In generation mode they come from
// a PRNG that is a pure function of (VERIF_SEED, property, case number); in
// replay mode they come from a list, and an exhausted list yields 0, the
// simplest choice. Shrinking works on the list, so it needs no per-type code
// and every generator shrinks. Cases run in forked workers: a crash, a
// sanitizer report or a hang is a failure of the case like any other.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include <stdexcept>

namespace vf
{
 struct Fail: std::runtime_error { using std::runtime_error::runtime_error; };
 struct Discard {};

 struct Shared; // memory shared with the parent

 class Ctx
 {
  public:
   bool replaying = false;
   std::vector<uint64_t> seq;
   size_t pos = 0;
   uint64_t rng = 0;
   Shared *shared = nullptr;
   int size = 50;
   bool is_nontrivial = false;
   bool verbose = false;
   bool thorough = false;
   std::string trace;
   std::map<std::string, uint64_t> labels;
   std::string scratch; // a directory of this worker, emptied between cases on request

   uint64_t raw();
   // uniform in [0, n), 0 is the simplest
   uint64_t below(uint64_t n);
   // inclusive
   int64_t range(int64_t lo, int64_t hi)
   {
    return lo + int64_t(below(uint64_t(hi - lo) + 1));
   }
   // false is simplest
   bool chance(int num, int den) {return below(den) >= uint64_t(den - num);}
   bool flag() {return below(2) == 1;}
   // list continuation with mean length about avg
   bool more(int avg) {return below(uint64_t(avg) + 1) != 0;}
   // length in [0, max], biased to small, sometimes large
   size_t length(size_t max);
   template<class T> const T &pick(const std::vector<T> &v) {return v[below(v.size())];}
   template<class T, size_t N> const T &pick(const T (&v)[N]) {return v[below(N)];}
   // an integer with interesting values
   int64_t integer();
   uint64_t bits(int n) {return n >= 64 ? below(~0ull) : below(1ull << n);}
   std::string bytes(size_t max);
   std::string utf8(size_t max);
   std::string identifier();
   double real();

   void note(std::string_view s);
   template<class... A> void notef(const A &... a)
   {
    std::ostringstream o;
    (o << ... << a);
    note(o.str());
   }
   void nontrivial() {is_nontrivial = true;}
   void label(const std::string &s, uint64_t n = 1) {labels[s] += n;}
   [[noreturn]] void fail(const std::string &s) {throw Fail(s);}
   void check(bool ok, const std::string &s) {if (!ok) throw Fail(s);}
   template<class A, class B> void equal(const A &a, const B &b, const std::string &what)
   {
    if (!(a == b))
    {
     std::ostringstream o;
     o << what << ": expected [" << b << "] got [" << a << "]";
     throw Fail(o.str());
    }
   }
   // listed finding: returns normally when the finding is listed in
   // known_findings.json for this property, fails otherwise
   void finding(const std::string &id, const std::string &what);
 };

 struct Property
 {
  const char *id;
  const char *rule;
  int quick;
  int thorough;
  std::function<void(Ctx &)> run;
  const char *level = "exploration";
  int cpu_limit = 60; // seconds of CPU per case before it counts as a hang
  bool exhaustive = false;
  // fixed cases run before the random ones; case number -> choices
  std::vector<std::vector<uint64_t>> fixed = {};
  std::vector<std::string> assumptions = {};
  int max_procs = 0;
 };

 struct Register
 {
  Register(Property p);
 };

 std::string hex(std::string_view s);
 std::string quoted(std::string_view s, size_t max = 60);
 uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
 void remove_tree(const std::string &path);
 void clear_scratch(Ctx &c);
}
