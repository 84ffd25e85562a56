// Runs the tools of joedb (built with sanitizers) and other helpers for text
#pragma once
#include "vf.h"
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

namespace tool
{
 struct Result {int rc = 0; bool crashed = false; std::string out, err;};

 inline std::string slurp(const std::string &p)
 {
  std::ifstream f(p, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
 }
 inline void spit(const std::string &p, const std::string &s)
 {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f << s;
 }
 inline bool exists(const std::string &p) {return access(p.c_str(), F_OK) == 0;}

 inline std::string dir()
 {
  const char *d = std::getenv("VF_TOOLS");
  return d ? d : "/verif/build/bin";
 }

 // runs in the scratch directory of the case
 inline Result run(vf::Ctx &c, const std::vector<std::string> &args, const std::string &input = "", int cpu = 30)
 {
  const std::string in = c.scratch + "/.stdin", out = c.scratch + "/.stdout", err = c.scratch + "/.stderr";
  spit(in, input);
  const pid_t pid = fork();
  if (!pid)
  {
   prctl(PR_SET_PDEATHSIG, SIGKILL);
   if (chdir(c.scratch.c_str())) _exit(120);
   const int i = open(in.c_str(), O_RDONLY), o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
   dup2(i, 0); dup2(o, 1); dup2(e, 2);
   for (int k = 3; k < 256; k++) close(k);
   setenv("ASAN_OPTIONS", "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=2000", 1);
   setenv("UBSAN_OPTIONS", "exitcode=99:halt_on_error=1", 1);
   alarm(unsigned(cpu));
   std::vector<char *> a;
   std::string path = dir() + "/" + args[0];
   a.push_back(path.data());
   for (size_t k = 1; k < args.size(); k++) a.push_back(const_cast<char *>(args[k].c_str()));
   a.push_back(nullptr);
   execv(path.c_str(), a.data());
   _exit(121);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Result r;
  r.out = slurp(out); r.err = slurp(err);
  if (WIFEXITED(st)) r.rc = WEXITSTATUS(st); else {r.rc = 128 + WTERMSIG(st); r.crashed = true;}
  if (r.rc == 99) r.crashed = true;
  if (r.rc == 120 || r.rc == 121) {std::fprintf(stderr, "cannot run %s\n", args[0].c_str()); _exit(3);}
  if (r.crashed) c.fail("the tool " + args[0] + " crashed (" + std::to_string(r.rc) + "): " + r.err.substr(0, 1500));
  return r;
 }
}
