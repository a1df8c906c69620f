// Reads JSON strictly enough to judge what is written.
#pragma once
#include <ctype.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
namespace {
struct Js { char type = 0; std::string s; std::vector<std::pair<std::string, Js>> kids; const Js* Get(const char* k) const { for (auto& x : kids) if (x.first == k) return &x.second; return nullptr; } };
struct JsReader {
  const std::string& t; size_t i = 0; bool bad = false;
  void Space() { while (i < t.size() && isspace((unsigned char)t[i])) ++i; }
  std::string Str() { std::string o; if (i >= t.size() || t[i] != '"') { bad = true; return o; } for (++i; i < t.size() && t[i] != '"'; ++i) { if ((unsigned char)t[i] < 32) bad = true; if (t[i] == '\\') { if (++i >= t.size() || !strchr("\"\\/", t[i])) { bad = true; return o; } } o += t[i]; } if (i >= t.size()) bad = true; ++i; return o; }
  Js Value(int depth = 0) {
    Js v; Space(); if (bad || depth > 8 || i >= t.size()) { bad = true; return v; } char c = t[i];
    if (c == '"') { v.type = 's'; v.s = Str(); }
    else if (c == '{' || c == '[') { v.type = c; char e = c == '{' ? '}' : ']'; ++i; Space(); if (i < t.size() && t[i] == e) { ++i; return v; } while (!bad) { std::string k; Space(); if (c == '{') { k = Str(); Space(); if (i >= t.size() || t[i++] != ':') { bad = true; break; } } v.kids.emplace_back(k, Value(depth + 1)); Space(); if (i < t.size() && t[i] == ',') { ++i; continue; } if (i >= t.size() || t[i++] != e) bad = true; break; } }
    else { v.type = 'n'; const char* b = t.c_str() + i; char* e; strtod(b, &e); if (e == b || isalpha((unsigned char)*b)) bad = true; v.s.assign(b, e - b); i += e - b; }
    return v;
  }
};
}
