// Independent encoder and decoder of the joedb file format (version 5)
#pragma once
#include "model.h"

namespace codec
{
 using model::Event; using model::Value; using model::T;

 enum Op: uint8_t
 {
  op_create_table = 0x01, op_drop_table = 0x02, op_add_field = 0x03, op_drop_field = 0x04, op_insert_into = 0x05, op_delete_from = 0x06,
  op_append = 0x08, op_comment = 0x0a, op_timestamp = 0x0b, op_rename_table = 0x0c, op_rename_field = 0x0d, op_valid_data = 0x0e,
  op_insert_vector = 0x0f, op_custom = 0x10, op_blob = 0x13, op_delete_vector = 0x14,
  op_string = 0x81, op_int32 = 0x85, op_int64 = 0x89, op_reference = 0x8d, op_boolean = 0x91, op_float32 = 0x95, op_float64 = 0x99, op_int8 = 0x9d, op_int16 = 0xa1, op_blob_value = 0xa5
 };
 static const uint8_t first_op[] = {0, op_string, op_int32, op_int64, op_reference, op_boolean, op_float32, op_float64, op_int8, op_int16, op_blob_value};
 // stored type identifiers: null 0, string 1, int32 2, int64 3, reference 4, boolean 5, float32 6, float64 7, int8 8, int16 9, blob 10

 struct Context {int64_t t = 0, r = -1, f = 0;};

 inline void little(std::string &s, uint64_t x, int n) {for (int i = 0; i < n; i++) s += char(x >> (8 * i));}

 struct Encoder
 {
  std::string s;
  Context k;
  vf::Ctx *c = nullptr; // when set, chooses freely between equivalent forms
  bool loose_numbers = false;
  std::vector<size_t> number_at; // offsets of compact numbers

  void number(uint64_t x, int max_bytes = 7)
  {
   number_at.push_back(s.size());
   int extra = 0;
   while (extra < 7 && (x >> (8 * extra)) >= 0x20) extra++;
   if (c && loose_numbers && c->chance(1, 8)) extra = int(extra + c->below(uint64_t(max_bytes - extra + 1)));
   s += char((extra << 5) | (x >> (8 * extra)));
   while (extra--) s += char(x >> (8 * extra));
  }
  void text(const std::string &x) {number(x.size()); s += x;}
  void reference(int64_t r) {number(uint64_t(r < 0 ? 0 : r + 1));}
  void value(const Value &v)
  {
   uint32_t a; uint64_t b;
   switch (v.t)
   {
    case model::t_string: text(v.s); break;
    case model::t_int8: little(s, uint64_t(v.i), 1); break;
    case model::t_int16: little(s, uint64_t(v.i), 2); break;
    case model::t_int32: little(s, uint64_t(v.i), 4); break;
    case model::t_int64: little(s, uint64_t(v.i), 8); break;
    case model::t_boolean: little(s, uint64_t(v.i), 1); break;
    case model::t_reference: reference(v.i); break;
    case model::t_float32: std::memcpy(&a, &v.f, 4); little(s, a, 4); break;
    case model::t_float64: std::memcpy(&b, &v.d, 8); little(s, b, 8); break;
    case model::t_blob: number(uint64_t(v.i)); number(uint64_t(v.n)); break;
    default: break;
   }
  }
  bool may() {return !c || c->below(3) != 0;}
  void event(const Event &e)
  {
   switch (e.k)
   {
    case model::create_table: s += char(op_create_table); text(e.s); break;
    case model::drop_table: s += char(op_drop_table); number(uint64_t(e.t)); break;
    case model::rename_table: s += char(op_rename_table); number(uint64_t(e.t)); text(e.s); break;
    case model::add_field:
     s += char(op_add_field); number(uint64_t(e.t)); text(e.s); s += char(e.type); if (e.type == model::t_reference) number(uint64_t(e.ref));
    break;
    case model::drop_field: s += char(op_drop_field); number(uint64_t(e.t)); number(uint64_t(e.f)); break;
    case model::rename_field: s += char(op_rename_field); number(uint64_t(e.t)); number(uint64_t(e.f)); text(e.s); break;
    case model::custom: s += char(op_custom); text(e.s); break;
    case model::comment: s += char(op_comment); text(e.s); break;
    case model::timestamp: s += char(op_timestamp); little(s, uint64_t(e.r), 8); break;
    case model::valid_data: s += char(op_valid_data); break;
    case model::insert_into:
     if (e.t == k.t && e.r == k.r + 1 && may()) s += char(op_append);
     else {s += char(op_insert_into); number(uint64_t(e.t)); reference(e.r);}
     k.t = e.t; k.r = e.r;
    break;
    case model::delete_from: s += char(op_delete_from); number(uint64_t(e.t)); reference(e.r); break;
    case model::insert_vector: s += char(op_insert_vector); number(uint64_t(e.t)); reference(e.r); number(e.n); k.t = e.t; k.r = e.r; break;
    case model::delete_vector: s += char(op_delete_vector); number(uint64_t(e.t)); reference(e.r); number(e.n); break;
    case model::update:
     if (e.t == k.t && e.r == k.r && may()) {s += char(first_op[e.type] + 1); number(uint64_t(e.f));}
     else if (e.t == k.t && e.r == k.r + 1 && e.f == k.f && may()) {s += char(first_op[e.type] + 2);}
     else {s += char(first_op[e.type]); number(uint64_t(e.t)); reference(e.r); number(uint64_t(e.f));}
     k.t = e.t; k.r = e.r; k.f = e.f;
     value(e.v[0]);
    break;
    case model::update_vector:
     s += char(first_op[e.type] + 3); number(uint64_t(e.t)); reference(e.r); number(uint64_t(e.f)); number(e.v.size());
     k.t = e.t; k.r = e.r; k.f = e.f;
     for (auto &v: e.v) value(v);
    break;
    case model::blob: s += char(op_blob); text(e.s); break;
    default: break;
   }
  }
  static std::string head(int64_t checkpoint)
  {
   std::string h;
   for (int i = 0; i < 4; i++) little(h, uint64_t(checkpoint), 8);
   little(h, 5, 4);
   return h + "joedb";
  }
 };

 struct Bad: std::runtime_error {using std::runtime_error::runtime_error;};

 struct Decoder
 {
  const std::string &s;
  size_t at;
  size_t end;
  Context k;
  Decoder(const std::string &s, size_t at, size_t end): s(s), at(at), end(end) {}
  uint8_t byte() {if (at >= end) throw Bad("entry beyond the end"); return uint8_t(s[at++]);}
  uint64_t little(int n) {uint64_t x = 0; for (int i = 0; i < n; i++) x |= uint64_t(byte()) << (8 * i); return x;}
  uint64_t number() {const uint8_t b = byte(); uint64_t x = b & 31; for (int i = b >> 5; i > 0; i--) x = x << 8 | byte(); return x;}
  std::string text() {const uint64_t n = number(); if (n > end - at) throw Bad("text too long"); std::string r = s.substr(at, n); at += n; return r;}
  Value value(T t)
  {
   Value v; v.t = t;
   uint32_t a; uint64_t b;
   switch (t)
   {
    case model::t_string: v.s = text(); break;
    case model::t_int8: v.i = int8_t(little(1)); break;
    case model::t_int16: v.i = int16_t(little(2)); break;
    case model::t_int32: v.i = int32_t(little(4)); break;
    case model::t_int64: v.i = int64_t(little(8)); break;
    case model::t_boolean: v.i = int64_t(little(1)); break;
    case model::t_reference: v.i = int64_t(number()) - 1; break;
    case model::t_float32: a = uint32_t(little(4)); std::memcpy(&v.f, &a, 4); break;
    case model::t_float64: b = little(8); std::memcpy(&v.d, &b, 8); break;
    case model::t_blob: v.i = int64_t(number()); v.n = int64_t(number()); break;
    default: break;
   }
   return v;
  }
  bool done() const {return at >= end;}
  Event next()
  {
   Event e;
   const uint8_t op = byte();
   switch (op)
   {
    case 0x01: e.k = model::create_table; e.s = text(); return e;
    case 0x02: e.k = model::drop_table; e.t = int(number()); return e;
    case 0x03: e.k = model::add_field; e.t = int(number()); e.s = text(); e.type = T(byte()); if (e.type == model::t_reference) e.ref = int(number()); return e;
    case 0x04: e.k = model::drop_field; e.t = int(number()); e.f = int(number()); return e;
    case 0x05: e.k = model::insert_into; e.t = int(number()); e.r = int64_t(number()) - 1; k.t = e.t; k.r = e.r; return e;
    case 0x06: e.k = model::delete_from; e.t = int(number()); e.r = int64_t(number()) - 1; return e;
    case 0x08: e.k = model::insert_into; e.t = int(k.t); e.r = ++k.r; return e;
    case 0x0a: e.k = model::comment; e.s = text(); return e;
    case 0x0b: e.k = model::timestamp; e.r = int64_t(little(8)); return e;
    case 0x0c: e.k = model::rename_table; e.t = int(number()); e.s = text(); return e;
    case 0x0d: e.k = model::rename_field; e.t = int(number()); e.f = int(number()); e.s = text(); return e;
    case 0x0e: e.k = model::valid_data; return e;
    case 0x0f: e.k = model::insert_vector; e.t = int(number()); e.r = int64_t(number()) - 1; e.n = number(); k.t = e.t; k.r = e.r; return e;
    case 0x10: e.k = model::custom; e.s = text(); return e;
    case 0x13: e.k = model::blob; e.s = text(); return e;
    case 0x14: e.k = model::delete_vector; e.t = int(number()); e.r = int64_t(number()) - 1; e.n = number(); return e;
   }
   if (op >= 0x81 && op < 0x81 + 40)
   {
    e.type = T(1 + (op - 0x81) / 4);
    e.k = model::update;
    switch ((op - 0x81) % 4)
    {
     case 0: k.t = int64_t(number()); k.r = int64_t(number()) - 1; k.f = int64_t(number()); break;
     case 1: k.f = int64_t(number()); break;
     case 2: k.r++; break;
     case 3:
      e.k = model::update_vector;
      k.t = int64_t(number()); k.r = int64_t(number()) - 1; k.f = int64_t(number()); e.n = number();
      if (e.n > end - at) throw Bad("vector too long");
      for (uint64_t i = 0; i < e.n; i++) e.v.push_back(value(e.type));
      e.t = int(k.t); e.r = k.r; e.f = int(k.f);
      return e;
    }
    e.t = int(k.t); e.r = k.r; e.f = int(k.f);
    e.v.push_back(value(e.type));
    return e;
   }
   throw Bad("unknown operation " + std::to_string(op));
  }
 };
}
