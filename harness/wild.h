#pragma once
#include "model.h"
// random ids: the journal does not care about the meaning
inline model::Event wild(vf::Ctx &c, model::Gen &g, const model::Event &last)
{
 using model::Event;
 Event e = g.next();
 if (c.below(3) == 0) return e;
 const int64_t far = int64_t(c.bits(int(1 + c.below(60))));
 auto table = [&]{return c.below(4) ? int(c.below(3)) : int(c.bits(int(1 + c.below(16))));};
 auto record = [&]() -> int64_t {switch (c.below(5)) {case 0: return last.r; case 1: return last.r < (1ll << 59) ? last.r + 1 : 0; case 2: return int64_t(c.below(3)); case 3: return int64_t(c.below(40)); default: return far;}};
 switch (e.k)
 {
  case model::insert_into: case model::delete_from: case model::insert_vector: case model::delete_vector:
   e.t = c.below(3) ? last.t : table(); e.r = record();
   if (e.k == model::insert_vector || e.k == model::delete_vector) e.n = c.below(3) ? c.below(40) : c.bits(int(1 + c.below(60)));
  break;
  case model::update: case model::update_vector:
   e.t = c.below(3) ? last.t : table(); e.r = record(); e.f = c.below(3) ? last.f : table();
   if (e.type == model::t_reference) for (auto &x: e.v) x.i = int64_t(c.bits(int(1 + c.below(60)))) - 1;
   if (e.type == model::t_blob) for (auto &x: e.v) {x.i = int64_t(c.bits(int(1 + c.below(60)))); x.n = int64_t(c.bits(int(1 + c.below(60))));}
  break;
  case model::drop_table: case model::rename_table: e.t = table(); break;
  case model::drop_field: case model::rename_field: case model::add_field:
   e.t = table(); e.f = table();
   if (e.k != model::drop_field) e.s = c.bytes(20);
   e.ref = table();
  break;
  default: break;
 }
 return e;
}
