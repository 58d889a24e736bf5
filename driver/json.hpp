// A minimal JSON reader, enough for the case files that the specification generates.
#pragma once
#include <cstdlib>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace js {
struct Value {
  enum Kind { Null, Bool, Num, Str, Arr, Obj } kind = Null;
  bool b = false;
  double num = 0;
  std::string str;
  std::vector<Value> arr;
  std::map<std::string, Value> obj;

  bool has(const std::string &k) const { return kind == Obj && obj.count(k) > 0; }
  const Value &operator[](const std::string &k) const {
    auto it = obj.find(k);
    if (it == obj.end()) throw std::runtime_error("missing key " + k);
    return it->second;
  }
  long integer() const {
    if (kind != Num) throw std::runtime_error("not a number");
    return (long)num;
  }
  bool truth() const { return kind == Bool ? b : (kind == Num && num != 0); }
};

class Parser {
  const char *p, *end;
  void ws() { while (p < end && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p; }
  void need(char c) {
    ws();
    if (p >= end || *p != c) throw std::runtime_error(std::string("expected ") + c);
    ++p;
  }
  std::string string() {
    need('"');
    std::string s;
    while (p < end && *p != '"') {
      if (*p == '\\' && p + 1 < end) ++p;
      s += *p++;
    }
    need('"');
    return s;
  }

public:
  Parser(const std::string &t) : p(t.data()), end(t.data() + t.size()) {}
  Value value() {
    ws();
    Value v;
    if (p >= end) throw std::runtime_error("end of input");
    if (*p == '{') {
      v.kind = Value::Obj;
      ++p; ws();
      if (p < end && *p == '}') { ++p; return v; }
      while (true) {
        std::string k = string();
        need(':');
        v.obj[k] = value();
        ws();
        if (p < end && *p == ',') { ++p; ws(); continue; }
        need('}');
        return v;
      }
    }
    if (*p == '[') {
      v.kind = Value::Arr;
      ++p; ws();
      if (p < end && *p == ']') { ++p; return v; }
      while (true) {
        v.arr.push_back(value());
        ws();
        if (p < end && *p == ',') { ++p; continue; }
        need(']');
        return v;
      }
    }
    if (*p == '"') { v.kind = Value::Str; v.str = string(); return v; }
    if (end - p >= 4 && std::string(p, p + 4) == "true") { v.kind = Value::Bool; v.b = true; p += 4; return v; }
    if (end - p >= 5 && std::string(p, p + 5) == "false") { v.kind = Value::Bool; p += 5; return v; }
    if (end - p >= 4 && std::string(p, p + 4) == "null") { p += 4; return v; }
    char *q = nullptr;
    v.num = std::strtod(p, &q);
    if (q == p) throw std::runtime_error("bad JSON");
    v.kind = Value::Num;
    p = q;
    return v;
  }
};
inline Value parse(const std::string &t) { return Parser(t).value(); }
} // namespace js
