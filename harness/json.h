// Strict JSON parser (independent oracle for everything the library prints as JSON).
#pragma once
#include "pbt.h"
struct Json { enum T { null, num, str, boolean, arr, obj } t = null; double n = 0; std::string s; bool b = false; std::vector<Json> a; std::map<std::string, Json> o; };
struct JsonParser { const std::string& b; size_t p = 0; pbt::Case& c; [[noreturn]] void Bad(const std::string& w) { c.Fail("json-syntax", w + " at byte " + std::to_string(p) + ": " + b.substr(p > 30 ? p-30 : 0, 60)); } void Ws() { while (p < b.size() && strchr(" \n\r\t", b[p])) ++p; }
    std::string Str() { std::string r; ++p; while (true) { if (p >= b.size()) Bad("string not closed"); unsigned char ch = b[p++]; if (ch == '"') return r; if (ch < 32) Bad("control character in string"); if (ch == '\\') { char e = b[p++]; switch (e) { case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case '/': case '\\': case '"': r += e; break; case 'u': { if (p+4 > b.size()) Bad("escape"); unsigned v = unsigned(std::stoul(b.substr(p, 4), nullptr, 16)); p += 4; r += char(v); break; } default: Bad("escape"); } } else r += char(ch); } }
    Json Val() { Ws(); if (p >= b.size()) Bad("value expected"); Json j; char ch = b[p]; if (ch == '{') { j.t = Json::obj; ++p; Ws(); if (b[p] == '}') { ++p; return j; } while (true) { Ws(); if (b[p] != '"') Bad("key expected"); auto k = Str(); Ws(); if (b[p++] != ':') Bad("colon expected"); if (j.o.count(k)) Bad("key repeated"); j.o[k] = Val(); Ws(); if (b[p] == ',') { ++p; continue; } if (b[p] == '}') { ++p; return j; } Bad("comma expected"); } }
        if (ch == '[') { j.t = Json::arr; ++p; Ws(); if (b[p] == ']') { ++p; return j; } while (true) { j.a.push_back(Val()); Ws(); if (b[p] == ',') { ++p; continue; } if (b[p] == ']') { ++p; return j; } Bad("comma expected"); } }
        if (ch == '"') { j.t = Json::str; j.s = Str(); return j; } if (b.compare(p, 4, "true") == 0) { p += 4; j.t = Json::boolean; j.b = true; return j; } if (b.compare(p, 5, "false") == 0) { p += 5; j.t = Json::boolean; return j; } if (b.compare(p, 4, "null") == 0) { p += 4; return j; }
        size_t e = p; while (e < b.size() && strchr("+-0123456789.eE", b[e])) ++e; std::string w = b.substr(p, e-p); if (w.empty() || !(isdigit(w[0]) || (w[0] == '-' && w.size() > 1 && isdigit(w[1])))) Bad("number expected"); p = e; j.t = Json::num; j.n = std::strtod(w.c_str(), nullptr); return j; }
    Json All() { Json j = Val(); Ws(); if (p != b.size()) Bad("data after the end"); return j; } };
