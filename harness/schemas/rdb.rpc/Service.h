#ifndef rdb_rpc_Service_declared
#define rdb_rpc_Service_declared
#include "../Client.h"
#include "../Writable_Database.h"
#include "msg/Writable_Database.h"
#include "all/Writable_Database.h"
#include <atomic>
#include <limits>
#include <stdexcept>
#include <string>
namespace rdb::rpc
{
 class Service
 {
  rdb::Client &client;
  static int64_t plus(int64_t a, int64_t b) {return int64_t(uint64_t(a) + uint64_t(b));}
 public:
  std::atomic<int64_t> executed = 0;
  Service(rdb::Client &client): client(client) {}

  /// Add to accounts, all or nothing
  void add(msg::Writable_Database &m)
  {
   executed++;
   client.transaction([&](rdb::Writable_Database &db)
   {
    for (const auto e: m.get_error_table()) throw std::runtime_error(m.get_text(e));
    for (const auto i: m.get_item_table())
    {
     auto a = db.find_account_by_name(m.get_name(i));
     if (a.is_null()) a = db.new_account(m.get_name(i), 0);
     db.set_balance(a, plus(db.get_balance(a), m.get_delta(i)));
     db.new_log(a, m.get_delta(i));
     m.set_total(i, db.get_balance(a));
     m.set_account(i, a);
    }
   });
  }
  /// Change the message, then maybe throw
  void query(msg::Writable_Database &m)
  {
   executed++;
   const auto &db = client.get_database();
   for (const auto i: m.get_item_table())
   {
    const auto a = db.find_account_by_name(m.get_name(i));
    m.set_account(i, a);
    m.set_total(i, a.is_null() ? -1 : db.get_balance(a));
   }
   for (const auto e: m.get_error_table()) throw joedb::Exception(m.get_text(e));
  }
  /// Message of the main schema: every account after the first one
  void accounts(rdb::Writable_Database &m)
  {
   executed++;
   const auto &db = client.get_database();
   for (const auto a: db.get_account_table())
    if (m.find_account_by_name(db.get_name(a)).is_null())
     m.new_account(db.get_name(a), db.get_balance(a));
  }
  /// No database: values of all types, deletions, vectors, blobs
  void transform (all :: Writable_Database & m)
  {
   executed++;
   using T = all::id_of_t;
   std::vector<T> rows;
   for (const auto t: m.get_t_table()) rows.push_back(t);
   for (const auto t: rows)
   {
    if (m.get_o(t)) {m.delete_t(t); continue;}
    std::string s = m.get_s(t);
    if (m.get_b(t).get_size() > 100000) throw joedb::Exception("big blob");
    const auto n = m.new_t();
    m.set_b(n, m.write_blob(s + m.read_blob(m.get_b(t))));
    m.set_s(n, std::string(s.rbegin(), s.rend()));
    m.set_r(n, t);
    m.set_r(t, n);
    m.set_i8(n, int8_t(~m.get_i8(t)));
    m.set_i16(n, int16_t(~m.get_i16(t)));
    m.set_i32(n, ~m.get_i32(t));
    m.set_i64(n, ~m.get_i64(t));
    m.set_f32(n, -m.get_f32(t));
    m.set_f64(n, -m.get_f64(t));
   }
   if (rows.size() > 5) m.new_vector_of_t(rows.size());
  }
 };
}
#endif
