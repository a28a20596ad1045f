#include "json.h"
#include <cstring>
#include <cstdio>
static size_t u8len(const unsigned char* s, size_t n) {
    if (!n) return 0;
    unsigned c = s[0]; size_t k; unsigned long cp;
    if (c < 0x80) return 1;
    if (c >= 0xC2 && c <= 0xDF) { k = 2; cp = c & 0x1F; } else if (c >= 0xE0 && c <= 0xEF) { k = 3; cp = c & 0x0F; } else if (c >= 0xF0 && c <= 0xF4) { k = 4; cp = c & 7; } else return 0;
    if (n < k) return 0;
    for (size_t i = 1; i < k; i++) { if ((s[i] & 0xC0) != 0x80) return 0; cp = cp << 6 | (s[i] & 0x3F); }
    if ((k == 3 && cp < 0x800) || (k == 4 && (cp < 0x10000 || cp > 0x10FFFF)) || (cp >= 0xD800 && cp <= 0xDFFF)) return 0;
    return k;
}
bool utf8Valid(const std::string& s) { for (size_t i = 0; i < s.size();) { size_t n = u8len((const unsigned char*)s.data() + i, s.size() - i); if (!n) return false; i += n; } return true; }
std::string jsonStr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }
namespace {
struct P {
    const std::string& t; size_t i = 0; std::string err; int depth = 0;
    explicit P(const std::string& x) : t(x) {}
    bool bad(const std::string& m) { if (err.empty()) err = m + " at " + std::to_string(i); return false; }
    void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\t' || t[i] == '\n' || t[i] == '\r')) i++; }
    static void put(std::string& o, unsigned long c) { if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
    bool hex4(unsigned long& v) { v = 0; for (int k = 0; k < 4; k++) { if (i >= t.size()) return bad("short escape"); char c = t[i++]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) return bad("bad escape"); v = v * 16 + (unsigned)d; } return true; }
    bool str(std::string& o) {
        if (i >= t.size() || t[i] != '"') return bad("expected a string");
        i++;
        for (;;) {
            if (i >= t.size()) return bad("unterminated string");
            unsigned char c = (unsigned char)t[i];
            if (c == '"') { i++; return true; }
            if (c < 32) return bad("control character in string");
            if (c == '\\') {
                i++; if (i >= t.size()) return bad("short escape"); char e = t[i++];
                switch (e) {
                    case '"': case '\\': case '/': o += e; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
                    case 'u': { unsigned long v; if (!hex4(v)) return false; if (v >= 0xD800 && v < 0xDC00) { unsigned long w; if (t.compare(i, 2, "\\u")) return bad("lone surrogate"); i += 2; if (!hex4(w)) return false; if (w < 0xDC00 || w > 0xDFFF) return bad("lone surrogate"); v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00); } else if (v >= 0xDC00 && v < 0xE000) return bad("lone surrogate"); put(o, v); break; }
                    default: return bad("bad escape");
                }
                continue;
            }
            size_t n = u8len((const unsigned char*)t.data() + i, t.size() - i); if (!n) return bad("invalid UTF-8"); o.append(t, i, n); i += n;
        }
    }
    bool val(J& v) {
        if (++depth > 1000) return bad("too deep");
        ws(); if (i >= t.size()) return bad("unexpected end");
        char c = t[i]; bool ok = true;
        if (c == '{') { v.k = J::OBJ; i++; ws(); if (i < t.size() && t[i] == '}') i++; else for (;;) { ws(); std::string k; if (!str(k)) return false; ws(); if (i >= t.size() || t[i] != ':') return bad("expected :"); i++; J x; if (!val(x)) return false; v.o.push_back({k, x}); ws(); if (i < t.size() && t[i] == ',') { i++; continue; } if (i < t.size() && t[i] == '}') { i++; break; } return bad("expected , or }"); } }
        else if (c == '[') { v.k = J::ARR; i++; ws(); if (i < t.size() && t[i] == ']') i++; else for (;;) { J x; if (!val(x)) return false; v.a.push_back(x); ws(); if (i < t.size() && t[i] == ',') { i++; continue; } if (i < t.size() && t[i] == ']') { i++; break; } return bad("expected , or ]"); } }
        else if (c == '"') { v.k = J::STR; ok = str(v.s); }
        else if (!t.compare(i, 4, "true")) { v.k = J::BOOL; v.b = true; i += 4; }
        else if (!t.compare(i, 5, "false")) { v.k = J::BOOL; i += 5; }
        else if (!t.compare(i, 4, "null")) { i += 4; }
        else {
            size_t b = i; auto dg = [&]() { size_t q = i; while (i < t.size() && t[i] >= '0' && t[i] <= '9') i++; return i - q; };
            if (t[i] == '-') i++;
            size_t z = i; size_t n = dg(); if (!n) return bad("expected a value"); if (n > 1 && t[z] == '0') return bad("leading zero");
            if (i < t.size() && t[i] == '.') { i++; if (!dg()) return bad("bad number"); }
            if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) { i++; if (i < t.size() && (t[i] == '+' || t[i] == '-')) i++; if (!dg()) return bad("bad number"); }
            v.k = J::NUM; v.s = t.substr(b, i - b);
        }
        depth--; return ok;
    }
};
}
std::string jsonParse(const std::string& t, J& out) { P p(t); out = J(); if (!p.val(out)) return p.err; p.ws(); if (p.i != t.size()) { p.bad("text after the value"); return p.err; } return ""; }
