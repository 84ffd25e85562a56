// Independent JSON parser and formatter of interpreter commands
#pragma once
#include "model.h"
#include <charconv>
#include <cmath>

namespace json
{
 struct Error: std::runtime_error {using std::runtime_error::runtime_error;};
 struct M;
 struct V
 {
  enum {null, boolean, number, string, array, object} t = null;
  std::string s; // text of a number, content of a string, true or false
  std::vector<V> a;
  std::vector<M> o;
  V(); V(const V &); V(V &&); V &operator=(V &&); ~V();
 };
 struct M {std::string first; V second;};
 inline V::V() = default; inline V::V(const V &) = default; inline V::V(V &&) = default; inline V &V::operator=(V &&) = default; inline V::~V() = default;

 inline bool valid_utf8(std::string_view s)
 {
  for (size_t i = 0; i < s.size();)
  {
   const uint8_t c = uint8_t(s[i]);
   size_t n; uint32_t w;
   if (c < 0x80) {i++; continue;}
   else if (c >= 0xc2 && c <= 0xdf) {n = 1; w = c & 0x1fu;}
   else if (c >= 0xe0 && c <= 0xef) {n = 2; w = c & 0xfu;}
   else if (c >= 0xf0 && c <= 0xf4) {n = 3; w = c & 7u;}
   else return false;
   if (i + n >= s.size()) return false;
   for (size_t k = 1; k <= n; k++)
   {
    const uint8_t d = uint8_t(s[i + k]);
    if ((d & 0xc0) != 0x80) return false;
    w = w << 6 | (d & 0x3fu);
   }
   if (n == 2 && (w < 0x800 || (w >= 0xd800 && w <= 0xdfff))) return false;
   if (n == 3 && (w < 0x10000 || w > 0x10ffff)) return false;
   i += n + 1;
  }
  return true;
 }

 class Parser
 {
  std::string_view s;
  size_t i = 0;
  void ws() {while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) i++;}
  [[noreturn]] void error(const char *m) {throw Error(std::string(m) + " at " + std::to_string(i) + ": " + vf::quoted(s.substr(i < 30 ? 0 : i - 30, 60)));}
  char peek() {return i < s.size() ? s[i] : 0;}
  std::string str()
  {
   std::string r;
   i++;
   for (;;)
   {
    if (i >= s.size()) error("unterminated string");
    const char ch = s[i++];
    if (ch == '"') return r;
    if (uint8_t(ch) < 0x20) error("control character in a string");
    if (ch != '\\') {r += ch; continue;}
    if (i >= s.size()) error("unterminated escape");
    const char e = s[i++];
    switch (e)
    {
     case '"': case '\\': case '/': r += e; break;
     case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
     case 'u':
     {
      uint32_t w = 0;
      for (int k = 0; k < 4; k++)
      {
       const char h = i < s.size() ? s[i++] : 0;
       if (h >= '0' && h <= '9') w = w * 16 + uint32_t(h - '0');
       else if (h >= 'a' && h <= 'f') w = w * 16 + uint32_t(h - 'a' + 10);
       else if (h >= 'A' && h <= 'F') w = w * 16 + uint32_t(h - 'A' + 10);
       else error("bad hexadecimal digit");
      }
      if (w < 0x80) r += char(w);
      else if (w < 0x800) {r += char(0xc0 | w >> 6); r += char(0x80 | (w & 0x3f));}
      else if (w >= 0xd800 && w <= 0xdfff) error("surrogate");
      else {r += char(0xe0 | w >> 12); r += char(0x80 | (w >> 6 & 0x3f)); r += char(0x80 | (w & 0x3f));}
     }
     break;
     default: error("bad escape");
    }
   }
  }
  V value()
  {
   ws();
   V v;
   const char ch = peek();
   if (ch == '{')
   {
    v.t = V::object; i++; ws();
    if (peek() == '}') {i++; return v;}
    for (;;)
    {
     ws();
     if (peek() != '"') error("expected a name");
     std::string k = str();
     ws();
     if (peek() != ':') error("expected a colon");
     i++;
     for (auto &x: v.o) if (x.first == k) error("duplicate name");
     {V y = value(); v.o.push_back(M{k, std::move(y)});}
     ws();
     if (peek() == ',') {i++; continue;}
     if (peek() == '}') {i++; return v;}
     error("expected , or }");
    }
   }
   if (ch == '[')
   {
    v.t = V::array; i++; ws();
    if (peek() == ']') {i++; return v;}
    for (;;)
    {
     v.a.push_back(value());
     ws();
     if (peek() == ',') {i++; continue;}
     if (peek() == ']') {i++; return v;}
     error("expected , or ]");
    }
   }
   if (ch == '"') {v.t = V::string; v.s = str(); return v;}
   if (s.substr(i, 4) == "true") {i += 4; v.t = V::boolean; v.s = "true"; return v;}
   if (s.substr(i, 5) == "false") {i += 5; v.t = V::boolean; v.s = "false"; return v;}
   if (s.substr(i, 4) == "null") {i += 4; return v;}
   const size_t b = i;
   auto digits = [&] {if (!(peek() >= '0' && peek() <= '9')) error("expected a digit"); while (peek() >= '0' && peek() <= '9') i++;};
   if (peek() == '-') i++;
   if (peek() == '0') i++; else digits();
   if (peek() == '.') {i++; digits();}
   if (peek() == 'e' || peek() == 'E') {i++; if (peek() == '+' || peek() == '-') i++; digits();}
   v.t = V::number; v.s = std::string(s.substr(b, i - b));
   return v;
  }
  public:
  Parser(std::string_view s): s(s) {}
  V parse()
  {
   if (!valid_utf8(s)) throw Error("the text is not UTF-8");
   V v = value();
   ws();
   if (i != s.size()) error("text after the end");
   return v;
  }
 };

 inline std::string base64_decode(const std::string &s)
 {
  static const std::string k = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  if (s.size() % 4) throw Error("length of base64");
  std::string r;
  for (size_t i = 0; i < s.size(); i += 4)
  {
   uint32_t w = 0; int pad = 0;
   for (int j = 0; j < 4; j++)
   {
    const char ch = s[i + size_t(j)];
    w <<= 6;
    if (ch == '=') {pad++; if (i + 4 != s.size() || j < 2) throw Error("base64 padding");}
    else {if (pad) throw Error("base64 padding"); const size_t p = k.find(ch); if (p == std::string::npos) throw Error("base64 character"); w |= uint32_t(p);}
   }
   r += char(w >> 16); if (pad < 2) r += char(w >> 8); if (pad < 1) r += char(w);
  }
  return r;
 }
}

namespace text
{
 using namespace model;

 // quoted string, in one of the accepted notations
 inline std::string str(vf::Ctx &c, const std::string &s)
 {
  const uint64_t style = c.below(4);
  std::string r;
  bool plain = !s.empty() && s[0] != '"';
  for (char ch: s) if (!(ch > ' ' && ch < 127 && ch != '\\' && ch != '"')) plain = false;
  if (style == 3 && plain) return s;
  r = "\"";
  for (char ch: s)
  {
   const uint8_t u = uint8_t(ch);
   char b[8];
   const bool must = u < 32 || u == 127;
   if (must || (style == 1 && (u & 0x80)) || (style == 2 && c.chance(1, 4)))
   {
    if (c.flag()) std::snprintf(b, sizeof b, "\\x%02x", u); else std::snprintf(b, sizeof b, "\\%03o", u);
    r += b;
   }
   else if (ch == '"' || ch == '\\') {r += '\\'; r += ch;}
   else r += ch;
  }
  return r + "\"";
 }

 inline std::string number(double d) {char b[64]; std::snprintf(b, sizeof b, "%.17g", d); return b;}
 inline std::string number(float d) {char b[64]; std::snprintf(b, sizeof b, "%.9g", double(d)); return b;}

 inline std::string val(vf::Ctx &c, const Value &v)
 {
  switch (v.t)
  {
   case t_string: return str(c, v.s);
   case t_float32: return number(v.f);
   case t_float64: return number(v.d);
   case t_boolean: return v.i ? (c.flag() ? "1" : "true") : (c.flag() ? "0" : "false");
   case t_blob: return std::to_string(v.i) + "," + std::to_string(v.n);
   default: return std::to_string(v.i);
  }
 }

 inline std::string table_name(const Db &m, int t) {auto i = m.tables.find(t); return i == m.tables.end() ? "no_such_table" : i->second.name;}
 inline std::string field_name(const Db &m, int t, int f)
 {
  auto i = m.tables.find(t);
  if (i == m.tables.end()) return "no_such_field";
  auto j = i->second.fields.find(f);
  return j == i->second.fields.end() ? "no_such_field" : j->second.name;
 }

 // command for an event, m is the database before the event
 inline std::string line(vf::Ctx &c, const Event &e, const Db &m)
 {
  const std::string T = " " + table_name(m, e.t), F = " " + field_name(m, e.t, e.f), R = " " + std::to_string(e.r);
  switch (e.k)
  {
   case create_table: return "create_table " + e.s;
   case drop_table: return "drop_table" + T;
   case rename_table: return "rename_table" + T + " " + e.s;
   case add_field: return "add_field" + T + " " + e.s + " " + t_name[e.type] + (e.type == t_reference ? " " + table_name(m, e.ref) : "");
   case drop_field: return "drop_field" + T + F;
   case rename_field: return "rename_field" + T + F + " " + e.s;
   case custom: return "custom " + e.s;
   case comment: return "comment " + str(c, e.s);
   case timestamp: return "timestamp" + R;
   case valid_data: return "valid_data";
   case insert_into: return "insert_into" + T + R;
   case delete_from: return "delete_from" + T + R;
   case insert_vector: return "insert_vector" + T + R + " " + std::to_string(e.n);
   case delete_vector: return "delete_vector" + T + R + " " + std::to_string(e.n);
   case update: return "update" + T + R + F + " " + val(c, e.v[0]);
   case update_vector:
   {
    std::string r = "update_vector" + T + R + F + " " + std::to_string(e.v.size());
    for (auto &x: e.v) r += " " + val(c, x);
    return r;
   }
   case blob: return "write_blob " + str(c, e.s);
   default: return "";
  }
 }
}
