// A joedb server in this process, raw sessions with it, and a reference model
// of the protocol.
#pragma once
#include "vf.h"
#include "joedb/concurrency/Readonly_Client.h"
#include "joedb/concurrency/Server.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/error/Logger.h"
#include "joedb/journal/File.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Readonly_Journal.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstring>
#include <deque>
#include <fstream>
#include <iterator>
#include <memory>
#include <optional>
#include <poll.h>
#include <string>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

namespace server
{
 using namespace joedb;

 inline std::string i64(int64_t x) {std::string s(8, 0); std::memcpy(&s[0], &x, 8); return s;}
 inline int64_t get64(const std::string &s, size_t p) {int64_t x; std::memcpy(&x, s.data() + p, 8); return x;}
 inline const int64_t version = 19;

 enum Kind {memory, exclusive, shared, readonly, kinds};
 static const char *const kind_name[] = {"memory file", "exclusive file", "shared file", "read-only file"};

 inline std::string slurp(const std::string &path)
 {
  std::ifstream f(path, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(f), {});
 }

 struct Readonly_Server_Client: Readonly_Client
 {
  using Readonly_Client::Readonly_Client;
 };

 // for debugging
 struct Stderr: Logger {void log(beman::cstring_view m) noexcept override {FILE *f = std::fopen(std::getenv("VF_LOG"), "a"); std::fprintf(f, "%s\n", std::string(std::string_view(m)).c_str()); std::fclose(f);}};
 inline Stderr stderr_log;

 // the server
 class Srv
 {
  std::unique_ptr<Abstract_File> file;
  std::unique_ptr<Client> client;
  std::unique_ptr<joedb::Server> server;
 public:
  const Kind kind;
  const std::string db, endpoint;

  // initial: bytes of the file
  Srv(vf::Ctx &c, Kind kind, const std::string &initial, int log_level, std::chrono::milliseconds lock_timeout, const std::string &name = "s"): kind(kind), db(c.scratch + "/" + name + ".joedb"), endpoint(c.scratch + "/" + name)
  {
   Destructor_Logger::set_logger(nullptr);
   if (kind == memory)
   {
    auto m = std::make_unique<Memory_File>(initial.empty() ? Open_Mode::create_new : Open_Mode::write_existing);
    m->get_data() = initial;
    file = std::move(m);
   }
   else
   {
    std::ofstream(db, std::ios::binary) << initial;
    file = std::make_unique<File>(db, kind == shared ? Open_Mode::shared_write : kind == readonly ? Open_Mode::read_existing : Open_Mode::write_existing);
   }
   if (kind == readonly) client = std::make_unique<Readonly_Server_Client>(*file);
   else client = std::make_unique<Writable_Journal_Client>(*file);
   start(log_level, lock_timeout);
  }
  void start(int log_level, std::chrono::milliseconds lock_timeout)
  {
   ::unlink(endpoint.c_str());
   server = std::make_unique<joedb::Server>(std::getenv("VF_LOG") ? static_cast<Logger &>(stderr_log) : Logger::dummy_logger, std::getenv("VF_LOG") ? 4 : log_level, 1, endpoint, *client, lock_timeout);
  }
  void stop() {if (server) {server->stop(); server.reset();}}
  // call it after stop
  std::string content() {return kind == memory ? static_cast<Memory_File &>(*file).get_data() : slurp(db);}
  ~Srv() {stop();}
 };

 // A raw session
 struct Raw
 {
  vf::Ctx &c;
  int fd = -1;
  std::string who;
  int patience = std::getenv("VF_PATIENCE") ? std::atoi(std::getenv("VF_PATIENCE")) : 20000; // ms
  Raw(vf::Ctx &c, const std::string &endpoint, std::string who): c(c), who(std::move(who))
  {
   fd = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
   sockaddr_un a; std::memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
   if (endpoint.size() >= sizeof a.sun_path) c.fail("socket path too long");
   std::memcpy(a.sun_path, endpoint.data(), endpoint.size());
   if (::connect(fd, (sockaddr *)&a, sizeof a)) {const int e = errno; ::close(fd); fd = -1; c.fail(this->who + ": connection refused: " + std::strerror(e));}
  }
  Raw(const Raw &) = delete;
  ~Raw() {close();}
  void close() {if (fd >= 0) {::close(fd); fd = -1;}}
  // false: the server closed the connection
  bool send(const std::string &s)
  {
   size_t n = 0;
   while (n < s.size())
   {
    const ssize_t r = ::send(fd, s.data() + n, s.size() - n, MSG_NOSIGNAL);
    if (r < 0) {if (errno == EINTR) continue; return false;}
    n += size_t(r);
   }
   return true;
  }
  // false: timeout
  bool wait(int ms)
  {
   pollfd p = {fd, POLLIN, 0};
   int r;
   do r = ::poll(&p, 1, ms); while (r < 0 && errno == EINTR);
   return r > 0;
  }
  // up to n bytes, fewer if the server closes
  std::string recv(size_t n, const std::string &what)
  {
   std::string s;
   while (s.size() < n)
   {
    if (!wait(patience)) c.fail(who + ": no reply to " + what + " (" + std::to_string(s.size()) + " bytes of " + std::to_string(n) + ")");
    char b[65536];
    const ssize_t r = ::recv(fd, b, std::min(sizeof b, n - s.size()), 0);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) break;
    s.append(b, size_t(r));
   }
   return s;
  }
  std::string exactly(size_t n, const std::string &what)
  {
   std::string s = recv(n, what);
   if (s.size() != n) c.fail(who + ": the server closed the connection instead of replying to " + what);
   return s;
  }
  void reply(const std::string &expected, const std::string &what)
  {
   const std::string s = exactly(expected.size(), what);
   if (s != expected)
   {
    size_t i = 0; while (s[i] == expected[i]) i++;
    c.fail(who + ": wrong reply to " + what + " at byte " + std::to_string(i) + " of " + std::to_string(expected.size()) + ": expected " + vf::hex(expected.substr(i, 24)) + " got " + vf::hex(s.substr(i, 24)));
   }
  }
  bool closed(const std::string &what)
  {
   if (!wait(patience)) c.fail(who + ": the connection stays open after " + what);
   char b;
   return ::recv(fd, &b, 1, MSG_PEEK) <= 0;
  }
  // nothing to read at the moment
  bool quiet()
  {
   char b;
   const ssize_t r = ::recv(fd, &b, 1, MSG_PEEK | MSG_DONTWAIT);
   return r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK);
  }
  static std::string hello() {return "joedb" + i64(version);}
 };
}
