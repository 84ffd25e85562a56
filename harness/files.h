// Files for tests
#pragma once
#include "vf.h"
#include "joedb/journal/Abstract_File.h"
#include "joedb/error/Exception.h"
#include <cstring>
#include <memory>
#include <string>
#include <vector>

namespace files
{
 using joedb::Abstract_File; using joedb::Open_Mode;

 inline uint64_t mix(uint64_t &s)
 {
  s += 0x9e3779b97f4a7c15ull;
  uint64_t z = s;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
 }

 // Several of these can share the same bytes. Reads may be shorter than asked.
 class View: public Abstract_File
 {
  public:
   std::string &data;
   uint64_t short_seed; // 0: full reads
   size_t at_least;
   mutable uint64_t state;
   int writes = 0, syncs = 0;
   View(std::string &data, Open_Mode mode, uint64_t short_seed = 0, size_t at_least = 64): Abstract_File(mode), data(data), short_seed(short_seed), at_least(at_least), state(short_seed) {}
   int64_t get_size() const override {return int64_t(data.size());}
   size_t pread(char *buffer, size_t size, int64_t offset) const override
   {
    if (offset < 0) throw joedb::Exception("negative offset");
    if (size_t(offset) >= data.size()) return 0;
    size_t n = std::min(size, data.size() - size_t(offset));
    if (short_seed && n > at_least) n = at_least + mix(state) % (n - at_least + 1);
    std::memcpy(buffer, data.data() + offset, n);
    return n;
   }
   void pwrite(const char *buffer, size_t size, int64_t offset) override
   {
    writes++;
    if (offset < 0) throw joedb::Exception("negative offset");
    if (!size) return;
    if (offset > (1ll << 28)) throw joedb::Exception("file too big for this test");
    if (size_t(offset) + size > data.size()) data.resize(size_t(offset) + size);
    std::memcpy(&data[size_t(offset)], buffer, size);
   }
   void sync() override {syncs++;}
 };

 struct Op {bool sync; int64_t offset; std::string data;};

 inline void apply(std::string &s, const Op &op, size_t n = size_t(-1))
 {
  if (op.sync || op.data.empty()) return;
  n = std::min(n, op.data.size());
  if (!n) return;
  if (s.size() < size_t(op.offset) + n) s.resize(size_t(op.offset) + n);
  std::memcpy(&s[size_t(op.offset)], op.data.data(), n);
 }

 // Logs every write and synchronization
 class Sim: public Abstract_File
 {
  public:
   std::string data;
   std::string base;
   std::vector<Op> log;
   Sim(std::string content, Open_Mode mode = Open_Mode::write_existing_or_create_new): Abstract_File(mode), data(content), base(std::move(content)) {}
   int64_t get_size() const override {return int64_t(data.size());}
   size_t pread(char *buffer, size_t size, int64_t offset) const override
   {
    if (offset < 0) throw joedb::Exception("negative offset");
    if (size_t(offset) >= data.size()) return 0;
    size_t n = std::min(size, data.size() - size_t(offset));
    std::memcpy(buffer, data.data() + offset, n);
    return n;
   }
   void pwrite(const char *buffer, size_t size, int64_t offset) override
   {
    log.push_back({false, offset, std::string(buffer, size)});
    files::apply(data, log.back());
   }
   void sync() override {log.push_back({true, 0, ""});}
   void datasync() override {log.push_back({true, 1, ""});}
 };
}
