// Simulation stand-in for kazuho/picojson 1.3.1-dev (the subset the repository uses,
// same observable semantics: sorted objects, references from get<T>(), throwing get).
#ifndef PICOJSON_STUB_H
#define PICOJSON_STUB_H
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cctype>
#include <istream>
#include <iterator>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
namespace picojson {
enum { null_type, boolean_type, number_type, string_type, array_type, object_type };
struct null {};
class value;
typedef std::vector<value> array_t_;
class value {
public:
  typedef std::vector<value> array;
  typedef std::map<std::string, value> object;
private:
  int type_;
  bool b_;
  double n_;
  std::string *s_;
  array *a_;
  object *o_;
  void zero() { type_ = null_type; b_ = false; n_ = 0; s_ = 0; a_ = 0; o_ = 0; }
  void clear();
  void copy(const value &x);
public:
  value() { zero(); }
  explicit value(bool b) { zero(); type_ = boolean_type; b_ = b; }
  explicit value(double n) { zero(); type_ = number_type; n_ = n; }
  explicit value(const std::string &s) { zero(); type_ = string_type; s_ = new std::string(s); }
  explicit value(const char *s) { zero(); type_ = string_type; s_ = new std::string(s); }
  explicit value(const array &a);
  explicit value(const object &o);
  value(const value &x) { zero(); copy(x); }
  value(value &&x) noexcept { zero(); swap(x); }
  ~value() { clear(); }
  value &operator=(const value &x) { if (this != &x) { value t(x); swap(t); } return *this; }
  value &operator=(value &&x) noexcept { swap(x); return *this; }
  void swap(value &x) noexcept {
    std::swap(type_, x.type_); std::swap(b_, x.b_); std::swap(n_, x.n_);
    std::swap(s_, x.s_); std::swap(a_, x.a_); std::swap(o_, x.o_);
  }
  template <typename T> bool is() const;
  template <typename T> T &get();
  template <typename T> const T &get() const { return const_cast<value *>(this)->get<T>(); }
  template <typename T> void set(const T &v) { value t(v); swap(t); }
  bool contains(const std::string &k) const { return o_ && o_->count(k); }
  int type() const { return type_; }
  std::string to_str() const { return serialize(); }
  std::string serialize(bool prettify = false) const { std::string s; ser(s, prettify ? 0 : -1); return s; }
  void ser(std::string &out, int indent) const;
};
typedef value::array array;
typedef value::object object;
inline void value::clear() { delete s_; delete a_; delete o_; s_ = 0; a_ = 0; o_ = 0; }
inline value::value(const array &a) { zero(); type_ = array_type; a_ = new array(a); }
inline value::value(const object &o) { zero(); type_ = object_type; o_ = new object(o); }
inline void value::copy(const value &x) {
  type_ = x.type_; b_ = x.b_; n_ = x.n_;
  if (x.s_) s_ = new std::string(*x.s_);
  if (x.a_) a_ = new array(*x.a_);
  if (x.o_) o_ = new object(*x.o_);
}
template <> inline bool value::is<bool>() const { return type_ == boolean_type; }
template <> inline bool value::is<double>() const { return type_ == number_type; }
template <> inline bool value::is<int>() const { return type_ == number_type; }
template <> inline bool value::is<std::string>() const { return type_ == string_type; }
template <> inline bool value::is<array>() const { return type_ == array_type; }
template <> inline bool value::is<object>() const { return type_ == object_type; }
template <> inline bool value::is<null>() const { return type_ == null_type; }
#define PJ_CHK(T) if (!is<T>()) throw std::runtime_error("\"type mismatch! call is<type>() before get<type>()\" && is<" #T ">()");
template <> inline bool &value::get<bool>() { PJ_CHK(bool) return b_; }
template <> inline double &value::get<double>() { PJ_CHK(double) return n_; }
template <> inline std::string &value::get<std::string>() { PJ_CHK(std::string) return *s_; }
template <> inline array &value::get<array>() { PJ_CHK(array) return *a_; }
template <> inline object &value::get<object>() { PJ_CHK(object) return *o_; }
inline void pj_escape(std::string &out, const std::string &s) {
  out += '"';
  for (char c : s) {
    if (c == '"' || c == '\\' || c == '/') { out += '\\'; out += c; }
    else if (c == '\n') out += "\\n"; else if (c == '\t') out += "\\t";
    else if (c == '\r') out += "\\r"; else if (c == '\b') out += "\\b"; else if (c == '\f') out += "\\f";
    else if ((unsigned char)c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04X", c & 0xff); out += b; }
    else out += c;
  }
  out += '"';
}
inline void value::ser(std::string &out, int indent) const {
  switch (type_) {
  case null_type: out += "null"; break;
  case boolean_type: out += b_ ? "true" : "false"; break;
  case number_type: {
    char buf[64]; double t;
    snprintf(buf, sizeof buf, fabs(n_) < (1ULL << 53) && modf(n_, &t) == 0 ? "%.f" : "%.17g", n_);
    out += buf; break; }
  case string_type: pj_escape(out, *s_); break;
  case array_type: {
    out += '['; bool f = true;
    for (auto &v : *a_) { if (!f) out += ','; f = false; v.ser(out, indent); }
    out += ']'; break; }
  case object_type: {
    out += '{'; bool f = true;
    for (auto &kv : *o_) { if (!f) out += ','; f = false; pj_escape(out, kv.first); out += ':'; kv.second.ser(out, indent); }
    out += '}'; break; }
  }
}
inline std::string &pj_last_error() { static std::string e; return e; }
inline const std::string &get_last_error() { return pj_last_error(); }
struct pj_parser {
  const std::string &t; size_t p;
  pj_parser(const std::string &s) : t(s), p(0) {}
  void ws() { while (p < t.size() && isspace((unsigned char)t[p])) ++p; }
  bool str(std::string &o) {
    if (t[p] != '"') return false; ++p;
    while (p < t.size() && t[p] != '"') {
      if (t[p] == '\\') { ++p; if (p >= t.size()) return false;
        char c = t[p++];
        switch (c) { case 'n': o += '\n'; break; case 't': o += '\t'; break; case 'r': o += '\r'; break;
          case 'b': o += '\b'; break; case 'f': o += '\f'; break; default: o += c; } }
      else o += t[p++];
    }
    if (p >= t.size()) return false; ++p; return true;
  }
  bool val(value &v) {
    ws(); if (p >= t.size()) return false;
    char c = t[p];
    if (c == '{') { ++p; object o; ws();
      if (p < t.size() && t[p] == '}') { ++p; v = value(o); return true; }
      for (;;) { ws(); std::string k; if (p >= t.size() || !str(k)) return false; ws();
        if (p >= t.size() || t[p] != ':') return false; ++p;
        if (!val(o[k])) return false; ws();
        if (p < t.size() && t[p] == ',') { ++p; continue; }
        if (p < t.size() && t[p] == '}') { ++p; v = value(o); return true; }
        return false; } }
    if (c == '[') { ++p; array a; ws();
      if (p < t.size() && t[p] == ']') { ++p; v = value(a); return true; }
      for (;;) { a.push_back(value()); if (!val(a.back())) return false; ws();
        if (p < t.size() && t[p] == ',') { ++p; continue; }
        if (p < t.size() && t[p] == ']') { ++p; v = value(a); return true; }
        return false; } }
    if (c == '"') { std::string s; if (!str(s)) return false; v = value(s); return true; }
    if (t.compare(p, 4, "true") == 0) { p += 4; v = value(true); return true; }
    if (t.compare(p, 5, "false") == 0) { p += 5; v = value(false); return true; }
    if (t.compare(p, 4, "null") == 0) { p += 4; v = value(); return true; }
    char *e; double d = strtod(t.c_str() + p, &e);
    if (e == t.c_str() + p) return false;
    p = e - t.c_str(); v = value(d); return true;
  }
};
inline std::istream &operator>>(std::istream &is, value &x) {
  pj_last_error().clear();
  std::string s((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
  pj_parser p(s);
  if (!p.val(x)) { pj_last_error() = "syntax error"; is.setstate(std::ios::failbit); }
  return is;
}
}
#endif
