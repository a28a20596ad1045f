// Properties of the compiler as a judge: invalid schemas are rejected (C18),
// splitting into files changes nothing (C20).
#include "cnd.h"
#include "util.h"
#include <sys/stat.h>
#include <unistd.h>

// ---------------------------------------------------------------- C18
// One rule of the language: the same text without and with one mistake.
struct Rule {
    std::string name, pre, good, bad; // pre: definitions the snippet needs
    int where = 0;                    // 0 a statement, 1 file level, 2 the whole file is given by good and bad
};
static const char* TN[] = {"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float", "double", "bool", "string"};
static const char* SYN[] = {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "bool", "string"};
typedef __int128 i128;
static i128 tmin(int t) { return t < 4 || t == BOOL ? 0 : -((i128)1 << (8 * sizeOf(t) - 1)); }
static i128 tmaxi(int t) { return t == BOOL ? 1 : t < 4 ? ((i128)1 << (8 * sizeOf(t))) - 1 : ((i128)1 << (8 * sizeOf(t) - 1)) - 1; }
static std::string istr(i128 v) { bool n = v < 0; std::string o; if (n) v = -v; do { o.insert(o.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v); return n ? "-" + o : o; }
static std::string hstr(i128 v) { bool n = v < 0; std::string o; if (n) v = -v; do { o.insert(o.begin(), "0123456789abcdef"[(int)(v % 16)]); v /= 16; } while (v); return (n ? "-0x" : "0x") + o; }
static std::string lit(Src& s, i128 v) { return s.chance(1, 3) ? hstr(v) : istr(v); }
static std::string ty(Src& s, int t) { return s.chance(1, 3) ? SYN[t] : TN[t]; }
static i128 inside(Src& s, i128 lo, i128 hi) { switch (s.draw(3)) { case 0: return lo; case 1: return hi; default: { uint64_t w = hi - lo > (i128)UINT64_MAX ? UINT64_MAX : (uint64_t)(hi - lo); return lo + (i128)s.draw(w); } } }
static i128 outside(Src& s, i128 lo, i128 hi) { i128 d = s.chance(1, 2) ? 1 : 1 + (i128)s.draw(1ull << (1 + s.draw(62))); return s.chance(1, 2) ? lo - d : hi + d; }
// A field type that is not one of the numbers, with what has to be defined for it
static std::string otherType(Src& s, std::string& pre, bool string_ = true) { switch (s.draw(string_ ? 2 : 1)) { case 0: pre += "struct ZQS { uint8 zqi; }\n"; return "ZQS"; case 1: pre += "enum ZQE { ZA, ZB = 5 }\n"; return "ZQE"; default: return "string"; } }
static std::string rule_name(const char* n) { return n; }

template <class X, size_t N> static X one(Src& s, X (&v)[N]) { return v[s.draw(N - 1)]; }
static Rule makeRule(Src& s) {
    Rule r; int t; std::string a, b;
    auto set = [&](const char* n, const std::string& g, const std::string& bd) { r.name = rule_name(n); r.good = g; r.bad = bd; };
    switch (s.draw(51)) {
        case 0: { t = (int)s.draw(7); static const char* d[] = {"@const(", "@match("}; a = one(s, d); std::string e = ") " + ty(s, t) + " zqa;"; set("const fits", a + lit(s, inside(s, tmin(t), tmaxi(t))) + e, a + lit(s, outside(s, tmin(t), tmaxi(t))) + e); break; }
        case 1: { t = (int)s.draw(7); static const char* bd[] = {"1.5", "zqx", "", "\"1\"", "1 2", "1,2", "--1", "1e3", "0x", "0xg", "- 1 -", "+"}; std::string e = ") " + ty(s, t) + " zqa;"; set("const is one integer", "@const(1" + e, "@const(" + std::string(one(s, bd)) + e); break; }
        case 2: { a = s.chance(1, 2) ? ty(s, s.chance(1, 2) ? F32 : F64) : otherType(s, r.pre); static const char* d[] = {"@const(1) ", "@match(0) "}; set("const type", a + " zqa;", one(s, d) + a + " zqa;"); break; }
        case 3: { t = (int)s.draw(7); i128 lo = inside(s, tmin(t), tmaxi(t)), hi = inside(s, tmin(t), tmaxi(t)); if (lo == hi) { if (lo > tmin(t)) lo--; else hi++; } if (lo > hi) std::swap(lo, hi); std::string e = ") " + ty(s, t) + " zqa;"; set("range order", "@range(" + lit(s, lo) + "," + lit(s, s.chance(1, 5) ? lo : hi) + e, "@range(" + lit(s, hi) + ", " + lit(s, lo) + e); break; }
        case 4: { t = s.chance(1, 2) ? F32 : F64; int x = (int)s.range(-1000, 1000), y = x + 1 + (int)s.draw(500); std::string X = istr(x) + (s.chance(1, 2) ? ".25" : ""), Y = istr(y) + (s.chance(1, 2) ? ".5" : ".75"); if (x < 0 && X.find('.') != std::string::npos) X = istr(x - 1); std::string e = ") " + ty(s, t) + " zqa;"; set("float range order", "@range(" + X + ", " + Y + e, "@range(" + Y + ", " + X + e); break; }
        case 5: { t = (int)s.draw(7); i128 lo = tmin(t), hi = tmaxi(t); std::string e = ") " + ty(s, t) + " zqa;"; bool low = s.chance(1, 2); i128 d = s.chance(1, 2) ? 1 : 1 + (i128)s.draw(1000000); set("range fits", "@range(" + lit(s, lo) + ", " + lit(s, hi) + e, low ? "@range(" + lit(s, lo - d) + ", " + lit(s, hi) + e : "@range(" + lit(s, lo) + ", " + lit(s, hi + d) + e); break; }
        case 6: { static const char* bd[] = {"1", "1,", ",1", "", "a, b", "1 2", "1, 2, 3", "1; 2", "0x, 2"}; set("range syntax", "@range(1, 2) uint8 zqa;", "@range(" + std::string(one(s, bd)) + ") uint8 zqa;"); break; }
        case 7: { a = s.chance(1, 3) ? "bool" : s.chance(1, 2) ? "string" : (r.pre = "struct ZQS { uint8 zqi; }\n", "ZQS"); set("range type", a + " zqa;", "@range(0, 1) " + a + " zqa;"); break; }
        case 8: { static const char* d[] = {"@scale(2)", "@offset(1.5)", "@mul(3)", "@div(2)", "@add(1)", "@sub(1)", "@poly(1, 2)", "@spline(0, 0, 1, 1)", "@scale(0.5) @offset(2)"}; a = s.chance(1, 4) ? "bool" : otherType(s, r.pre); set("transform type", a + " zqa;", one(s, d) + (" " + a) + " zqa;"); break; }
        case 9: { t = (int)s.draw(7); int w = 8 * sizeOf(t); bool bl = s.chance(1, 6); if (bl) w = 1; a = bl ? "bool" : ty(s, t); static const int big[] = {0, 1, 2, 63, 191, 192, 255, 256, 1000}; std::string bd = s.chance(1, 4) ? "0" : istr(w + (s.chance(1, 2) ? 1 : 1 + one(s, big))); set("bit width", a + " zqa : " + lit(s, 1 + (int)s.draw(w - 1)) + "; @fill;", a + " zqa : " + bd + "; @fill;"); break; }
        case 10: { static const char* bd[] = {"-1", "1.5", "zqx", "", "257", "256", "-255", "1 1", "4294967297", "18446744073709551617"}; set("bit width syntax", "uint8 zqa : 1; @fill;", "uint8 zqa : " + std::string(one(s, bd)) + "; @fill;"); break; }
        case 11: { a = s.chance(1, 3) ? ty(s, s.chance(1, 2) ? F32 : F64) : otherType(s, r.pre); set("bit field type", a + " zqa;", a + " zqa : " + istr(1 + (int)s.draw(7)) + "; @fill;"); break; }
        case 12: { static const char* d[] = {"@const(1) ", "@match(1) ", "@range(0, 1) ", "@scale(2) ", "@mul(2) ", "@poly(1, 2) ", "@spline(0, 0, 1, 1) ", "@expr(1 + 1) ", "@crc(16) "}; std::string tt = s.chance(1, 2) ? "uint16" : "int32"; size_t k = s.draw(8); if (k == 8) tt = "uint16"; if (s.chance(1, 2)) set("bit field decorator", tt + " zqa : 8;", d[k] + tt + " zqa : 8;"); else set("bit field decorator", std::string(d[k]) + tt + " zqa;", d[k] + tt + " zqa : 8;"); break; }
        case 13: { bool w = s.chance(1, 2); static const char* bad[] = {"0", "8", "15", "17", "24", "31", "33", "64", "-16", "65552", "4294967312", "16.5", "x", ""}; a = w ? "uint32" : "uint16"; set("checksum width", "@crc(" + std::string(w ? "32" : "16") + ") " + a + " zqa;", "@crc(" + std::string(one(s, bad)) + ") " + a + " zqa;"); break; }
        case 14: { bool w = s.chance(1, 2); do a = s.chance(2, 3) ? TN[s.draw(10)] : otherType(s, r.pre); while (a == (w ? "uint32" : "uint16")); std::string d = w ? "@crc(32) " : "@crc(16) "; set("checksum type", d + (w ? "uint32" : "uint16") + " zqa;", d + a + " zqa;"); break; }
        case 15: { static const char* d[] = {"@crc_poly(0x8005) ", "@crc_init(0) ", "@crc_xor(1) ", "@crc_refin ", "@crc_refout "}; a = one(s, d); set("checksum parameters", s.chance(1, 2) ? a + "@crc(16) uint16 zqa;" : "@crc(16) " + a + "uint16 zqa;", a + "uint16 zqa;"); break; }
        case 16: { static const char* d[] = {"poly", "init", "xor"}; bool w = s.chance(1, 2); i128 mx = w ? 0xFFFFFFFFll : 0xFFFF; a = std::string("@crc_") + one(s, d) + "("; std::string e = std::string(w ? ") @crc(32) uint32" : ") @crc(16) uint16") + " zqa;"; set("checksum parameter range", a + lit(s, inside(s, 0, mx)) + e, a + lit(s, outside(s, 0, mx)) + e); break; }
        case 17: { bool w = s.chance(1, 2); a = w ? "@crc(32) uint32 zqa" : "@crc(16) uint16 zqa"; static const char* d[] = {"@const(1) ", "@range(0, 9) ", "@scale(2) ", "@add(2) ", "@expr(1) ", "@poly(1, 2) "}; if (s.chance(1, 2)) set("checksum combination", a + ";", one(s, d) + a + ";"); else set("checksum combination", a + ";", a + (s.chance(1, 2) ? "[2];" : "[] prefix uint8;")); break; }
        case 18: { static const char* d[] = {"rnage", "Range", "constant", "scal", "scale2", "zq", "depends_on", "crc_polynomial", "opt", "maxlen", "unaligned", "version", "packet", "big", "e", "optionals", "endian", "bits", "_"}; a = "@" + std::string(one(s, d)); if (s.chance(1, 2)) a += "(1)"; set("unknown decorator", "uint8 zqa;", a + " uint8 zqa;"); break; }
        case 19: { a = otherType(s, r.pre); set("expression type", "@expr(1 + 2) uint8 zqa;", "@expr(1 + 2) " + a + " zqa;"); break; }
        case 20: { static const char* e[] = {"[3]", "[] prefix uint8", "[] prefix u16"}; set("expression array", "@expr(7) uint8 zqa;", "@expr(7) uint8 zqa" + std::string(one(s, e)) + ";"); break; }
        case 21: { static const char* d[] = {"@const(1)", "@expr(2)", "@scale(2)", "@mul(3)", "@poly(1, 2)", "@spline(0, 0, 1, 1)"}; size_t i = s.draw(5), j = (i + 1 + s.draw(4)) % 6; if (i >= 2 && j >= 2) j = s.draw(1); std::string g = d[s.chance(1, 2) ? i : j]; set("decorator combination", g + " uint16 zqa;", std::string(d[i]) + " " + d[j] + " uint16 zqa;"); break; }
        case 22: { static const char* g[] = {"@count(3) uint8 zqa[];", "uint8 zqb; @count(zqb) uint8 zqa[];", "uint8 zqa[3];"}; static const char* bd[] = {"@count(3) uint8 zqa;", "uint8 zqb; @count(zqb) uint8 zqa;", "@eof uint8 zqa;", "@eof string zqa;", "uint8 zqa[];", "float zqa[];", "@eof uint8 zqa[3];", "@eof @count(3) uint8 zqa[];", "@eof uint8 zqa[] prefix uint8;", "@count(3) uint8 zqa[] prefix uint8;", "uint8 zqa[3] prefix uint8;", "uint8 zqb; @count(zqb) uint8 zqa[] prefix uint8;", "@count() uint8 zqa[];", "@count uint8 zqa[];", "@count(1.5) uint8 zqa[];", "@count(-1) uint8 zqa[];", "@count(4294967296) uint8 zqa[];", "@count(\"a\") uint8 zqa[];", "bool zqa[];", "string zqa[];", "@len(2) bool zqa;"}; set("array size", one(s, g), one(s, bd)); break; }
        case 23: { static const char* p[] = {"uint64", "int8", "int16", "int32", "float", "bool", "string", "byte8", "8", "", "u64", "i8", "double"}; std::string f = s.chance(1, 2) ? "string zqa prefix " : TN[s.draw(9)] + std::string(" zqa[] prefix "); static const char* ok[] = {"uint8", "uint16", "uint32", "u8", "u16", "u32"}; set("prefix type", f + one(s, ok) + ";", f + one(s, p) + ";"); break; }
        case 24: { a = TN[s.draw(10)]; set("prefix use", a + " zqa;", a + " zqa prefix uint8;"); break; }
        case 25: { static const char* bd[] = {"until 1", "until -1", "until 255", "until 0.5", "until", "until x", "max -1", "max 65536", "max 1.5", "max", "max x", "until 0 max 65536", "max 4294967297", "until 256", "prefix uint8 max 5 7", "size 3"}; static const char* g[] = {"", "until 0", "max 10", "until 0 max 65535", "max 0x10", "prefix uint8"}; set("string terminator", "string zqa " + std::string(one(s, g)) + ";", "string zqa " + std::string(one(s, bd)) + ";"); break; }
        case 26: { a = TN[s.draw(11)]; static const char* kw[] = {"self", "packet", "struct", "enum", "switch", "case", "default", "if", "else", "true", "false", "1", "\"a\"", "", "+", "a.b", "@be"}; set("field name", a + " zqa;", a + " " + one(s, kw) + ";"); break; }
        case 27: { static const char* bd[] = {"uint8 zqa uint8 zqb;", "uint8 zqa, zqb;", "uint8;", "zqa;", "uint8 zqa;;", "uint8 zqa = 1;", ": 3;", "uint8 [3] zqa;", "uint8 zqa[3;", "uint8 zqa 3];", "uint8 zqa[3]];", "uint8 zqa[3][2];", "uint8 uint8 zqa;", "uint8 zqa) ;", "@ uint8 zqa;", "@range 1, 2 uint8 zqa;", "@range(1, 2 uint8 zqa;", "@range(1, 2)) uint8 zqa;", "5 zqa;", "\"uint8\" zqa;", "uint8 zqa | 3;", "@const(1);"}; set("field syntax", "uint8 zqa;", one(s, bd)); break; }
        case 28: { static const char* bd[] = {"-1", "1.5", "4294967296", "zq q", "1e2", "18446744073709551618", "-4294967295", "\"2\"", "1,2", "(2)", "2+1"}; a = TN[s.draw(9)]; set("array size literal", a + " zqa[" + lit(s, 1 + (int)s.draw(300)) + "];", a + " zqa[" + one(s, bd) + "];"); break; }
        case 29: { static const char* bd[] = {"@pad(-1)", "@pad(65536)", "@pad(1.5)", "@pad()", "@pad", "@pad(x)", "@fill(2)", "@fill(-1)", "@fill(0.5)", "@fill()", "@fill(x)", "@fill(256)", "@pad(4294967297)", "@fill(257)", "@pad(1, 2)", "@filll"}; static const char* g[] = {"@pad(3)", "@fill(0)", "@fill(1)", "@fill", "@pad(65535)", "@pad(0)"}; set("padding", std::string(one(s, g)) + "; @fill;", std::string(one(s, bd)) + "; @fill;"); break; }
        case 30: { static const char* u[] = {"zqt", "uint", "uint7", "int", "uint128", "u7", "Uint8", "FLOAT", "float32", "char", "uint8_t", "long", "S99", "E99", "P", "string8", "f16", "void", "double64", "u"}; std::string n = one(s, u); set("undefined type", "uint8 zqa;", n + " zqa" + (s.chance(1, 4) ? "[2];" : s.chance(1, 6) ? "[] prefix uint8;" : ";")); break; }
        case 31: { std::string t1 = TN[s.draw(10)], t2 = TN[s.draw(10)], mid = s.chance(1, 2) ? "uint8 zqm; " : ""; static const int forms = 5; std::string x = t1 + " zqa; " + mid, y; switch (s.draw(forms)) { case 0: set("duplicate field", x + t2 + " zqb;", x + t2 + " zqa;"); break; case 1: set("duplicate field", x + "if (1) { " + t2 + " zqb; }", x + "if (1) { " + t2 + " zqa; }"); break; case 2: set("duplicate field", "uint8 zqd; " + x + "switch (zqd) { case 1: { " + t2 + " zqb; } }", "uint8 zqd; " + x + "switch (zqd) { case 1: { " + t2 + " zqa; } }"); break; case 3: set("duplicate field", "@expr(1) uint8 zqa; " + mid + t2 + " zqb;", "@expr(1) uint8 zqa; " + mid + t2 + " zqa;"); break; case 4: r.pre = "struct ZQS { uint8 zqi; }\n"; set("duplicate field", "ZQS zqa; " + t2 + " zqb;", "ZQS zqa; " + t2 + " zqa;"); break; default: set("duplicate field", "uint8 zqa : 4; uint8 zqb : 4;", "uint8 zqa : 4; uint8 zqa : 4;"); } break; }
        case 32: { size_t n = 2 + s.draw(s.chance(1, 4) ? 300 : 8), at = s.draw(n - 1), dup = s.draw(n - 2); if (dup >= at) dup++; int step = 1 + (int)s.draw(3), base = (int)s.range(-5, 300); auto mk = [&](bool bad) { std::string o = "int32 zqd; switch (zqd) { "; for (size_t i = 0; i < n; i++) { size_t v = bad && i == at ? dup : i; o += "case " + (i % 3 || base < 0 ? istr(base + (int)v * step) : hstr(base + (int)v * step)) + strf(": { uint8 zq%zu; } ", i); } return o + "}"; }; set("duplicate case", mk(false), mk(true)); break; }
        case 33: { r.pre = "enum ZQE : uint8 { ZA = 1, ZB, ZC = 7 }\n"; static const char* g[] = {"case 1: uint8 zq1; case ZQE.ZB: uint8 zq2;", "case ZQE.ZA: uint8 zq1; default: uint8 zq2;", "default: { uint8 zq1; } case ZQE.ZC: uint8 zq2;"}; static const char* bd[] = {"case 1: uint8 zq1; case ZQE.ZA: uint8 zq2;", "case ZQE.ZB: uint8 zq1; case ZQE.ZB: uint8 zq2;", "default: uint8 zq1; default: uint8 zq2;", "default: {} case 1: uint8 zq1; default: {}", "case ZQE.ZD: uint8 zq1;", "case ZQF.ZA: uint8 zq1;", "case ZQE: uint8 zq1;", "case ZQE.: uint8 zq1;", "case ZA: uint8 zq1;", "case 1.5: uint8 zq1;", "case 1 uint8 zq1;", "case: uint8 zq1;", "case 1: uint8 zq1", "case 18446744073709551616: uint8 zq1;", "case \"a\": uint8 zq1;", "uint8 zq1;", "case 1: uint8 zq1; } case 2: uint8 zq2;", "case ZQE.za: uint8 zq1;", "case ZQE.Z: uint8 zq1;", "case ZQE.ZAA: uint8 zq1;", "case -9223372036854775809: uint8 zq1;", "case 1, 2: uint8 zq1;", "default uint8 zq1;"}; std::string h = "ZQE zqd; switch (zqd) { "; set("cases", h + one(s, g) + " }", h + one(s, bd) + " }"); break; }
        case 34: { static const char* bd[] = {"switch zqd { case 1: uint8 zq1; }", "switch (zqd { case 1: uint8 zq1; }", "switch (zqd) case 1: uint8 zq1;", "switch () { case 1: uint8 zq1; }", "switch (5) { case 1: uint8 zq1; }", "switch (zqd + 1) { case 1: uint8 zq1; }", "switch (zqd) { case 1: uint8 zq1;", "case 1: uint8 zq1;", "default: uint8 zq1;", "switch { }", "if zqd { uint8 zq1; }", "if (zqd) uint8 zq1;", "if () { uint8 zq1; }", "if (zqd { uint8 zq1; }", "else { uint8 zq1; }", "if (zqd) { uint8 zq1; } else uint8 zq2;", "if (zqd) { uint8 zq1; } else if { uint8 zq2; }", "if (zqd) { } else { } else { uint8 zq2; }", "if (zqd) { uint8 zq1;", "if (zqd == ) { uint8 zq1; }", "if (zqd = 1) { uint8 zq1; }", "{ uint8 zq1; }", "struct ZI { uint8 zq1; }", "packet ZP { uint8 zq1; }", "enum ZI { ZA }"}; static const char* g[] = {"switch (zqd) { case 1: uint8 zq1; }", "switch (zqd) { case 1: { uint8 zq1; } default: { } }", "if (zqd) { uint8 zq1; }", "if (zqd == 1) { uint8 zq1; } else if (zqd > 2) { } else { uint8 zq2; }", "switch (zqd) { }"}; set("statement syntax", std::string("uint8 zqd; ") + one(s, g), std::string("uint8 zqd; ") + one(s, bd)); break; }
        case 35: { static const char* bd[] = {"", "(", "1 +", "* 2", "zqb zqb", "(zqb", "zqb)", "sin()", "pow(1.5)", "foo(1)", "1 + * 2", "sqrt", "zqb.", ".zqb", "zqb..x", "1, 2", "pow(2.0, 3.0, 4.0)", "zqb ? 1 : 2", "zqb = 1", "zqb ** 2", "!", "~", "-", "\"a\"", "zqb[0]", "99999999999999999999", "1.5.5", "0x", "zqb & ", "zqb && ", "$", "zqb @ 2", "int(1.5", "float()", "abs(1, 2)"}; static const char* g[] = {"1", "zqb", "(zqb + 1) * 2", "-zqb", "!zqb", "~zqb & 0xFF", "int(pow(2.0, 3.0))", "zqb << 2 | zqb >> 1", "zqb == 1 && zqb != 2 || zqb <= 3", "int(sqrt(float(zqb)))", "abs(zqb - 5)", "self.zqb"}; bool iff = s.chance(1, 3); size_t k = s.draw(11); if (k == 11 && iff) k = 0; auto w = [&](const char* e) { return iff ? std::string("uint8 zqb; if (") + e + ") { uint8 zqa; }" : std::string("uint8 zqb; @expr(") + e + ") uint8 zqa;"; }; set("expression syntax", w(g[k == 11 ? 1 : k]), w(one(s, bd))); break; }
        case 36: { bool sp = s.chance(1, 2); size_t ok = 1 + s.draw(15), over = 17 + s.draw(30); auto mk = [&](size_t n, bool odd) { std::string o = sp ? "@spline(" : "@poly("; for (size_t i = 0; i < n; i++) { if (i) o += ", "; o += sp ? strf("%zu, %zu", i, i * 2) : strf("%zu.5", i); } if (odd) o += ", 99"; return o + ") float zqa;"; }; bool odd = sp && s.chance(1, 3); if (sp && ok < 2) ok = 2; set("transform tables", mk(s.chance(1, 3) ? 16 : ok, false), odd ? mk(ok, true) : mk(s.chance(1, 3) ? 17 : over, false)); break; }
        case 37: { static const char* d[] = {"scale", "offset", "mul", "div", "add", "sub", "poly", "spline", "crc", "crc_poly", "const", "expr", "count", "pad"}; static const char* bd[] = {"", "x y", "\"1\"", "1 2", "(", "1,", "@"}; std::string n = one(s, d); set("decorator arguments", "uint8 zqa;", "@" + n + "(" + one(s, bd) + ") uint8 zqa;"); break; }
        case 38: { static const char* d[] = {"mul", "div", "add", "sub"}; static const char* bd[] = {"1.5", "9223372036854775808", "-9223372036854775809", "0x8000000000000000", "99999999999999999999"}; static const char* g[] = {"1", "-1", "9223372036854775807", "-9223372036854775808", "0x7F"}; std::string n = one(s, d); set("integer transform value", "@" + n + "(" + one(s, g) + ") int32 zqa;", "@" + n + "(" + one(s, bd) + ") int32 zqa;"); break; }
        // ---- file level
        case 39: { r.where = 1; t = (int)s.draw(7); std::string u = s.chance(1, 6) && t == U32 ? "" : " : " + ty(s, t); i128 mx = tmaxi(t), mn = tmin(t); bool autoinc = s.chance(1, 3); if (autoinc) set("enumerator fits", "enum ZQE" + u + " { A = " + lit(s, mx - 1) + ", B }", "enum ZQE" + u + " { A = " + lit(s, mx) + ", B }"); else set("enumerator fits", "enum ZQE" + u + " { A = " + lit(s, inside(s, mn, mx)) + " }", "enum ZQE" + u + " { A = " + lit(s, outside(s, mn, mx)) + " }"); break; }
        case 40: { r.where = 1; static const char* u[] = {"float", "double", "bool", "string", "ZQ", "f32", "uint", "uint128", "8", "", "P"}; set("enum base type", "enum ZQE : uint8 { A, B }", std::string("enum ZQE : ") + one(s, u) + " { A, B }"); break; }
        case 41: { r.where = 1; static const char* bd[] = {"A, A", "A, B, C, B", "A = 1, B = 1", "A = 1, B = 0, C", "A = 5, B = 4, C", "A = ", "A = x", "A = 1.5", "A,, B", "= 1", "1", "A : 1", "A;", "A = 1 2", "A = B", "packet", "A = 0x10, B = 16", "A = -1, B, C = 0", "\"A\""}; static const char* g[] = {"A, B", "A = 1, B = 2", "A = 5, B, C = 2", "A = 0x10, B = 17", "A = -1, B, C = 5", "A"}; set("enumerators", std::string("enum ZQE : int32 { ") + one(s, g) + " }", std::string("enum ZQE : int32 { ") + one(s, bd) + " }"); break; }
        case 42: { r.where = 1; bool e1 = s.chance(1, 2), e2 = s.chance(1, 2); auto d = [&](bool e, const char* n) { return e ? std::string("enum ") + n + " { A }\n" : std::string("struct ") + n + " { uint8 a; }\n"; }; set("duplicate definition", d(e1, "ZQ1") + d(e2, "ZQ2"), d(e1, "ZQ1") + d(e2, "ZQ1")); break; }
        case 43: { r.where = 1; set("packet name", s.chance(1, 2) ? "struct ZQP { uint8 a; }" : "enum ZQP { A }", s.chance(1, 2) ? "struct P { uint8 a; }" : "enum P { A }"); break; }
        case 44: { r.where = 1; size_t n = 1 + s.draw(6); auto mk = [&](int bits) { std::string o = "@unaligned_bytes struct ZQU {"; size_t m = n; int left = bits; while (left > 0) { int w = m > 1 ? 1 + (int)s.draw((uint64_t)std::min(left, 12) - 1) : left > 60 ? 60 : left; if (m > 1) m--; o += strf(" uint64 f%d : %d;", left, w); left -= w; } return o + " }"; }; int by = 1 + (int)s.draw(4); set("byte boundary", mk(by * 8), mk(by * 8 + 1 + (int)s.draw(6))); break; }
        case 45: { r.where = 1; r.pre = "struct ZQS { uint8 zqi; }\nenum ZQE : uint8 { ZA }\n"; static const char* bd[] = {"float x;", "double x;", "string x prefix uint8;", "ZQS x;", "ZQE x;", "float x[2];", "string x;", "@const(1) uint8 x;", "@range(0, 1) uint8 x;", "@scale(2) uint8 x;", "f32 x : 8;", "bool x : 2; uint8 y : 6;", "uint8 x : 9; uint8 y : 7;", "@expr(1) uint8 x;", "@crc(16) uint16 x;", "@pad(7);", "uint8 x : 4; @pad(3);"}; static const char* g[] = {"uint8 x;", "uint16 x : 16;", "uint8 x : 3; uint8 y : 5;", "bool x; uint8 y : 7;", "uint8 x : 3; @pad(5);", "uint8 x : 3; @fill;", "@pad(8);"}; set("unaligned members", std::string("@unaligned_bytes struct ZQU { uint8 a; ") + one(s, g) + " }", std::string("@unaligned_bytes struct ZQU { uint8 a; ") + one(s, bd) + " }"); break; }
        case 46: { r.where = 1; size_t n = s.draw(4); bool arr = s.chance(1, 2); std::string m, g; for (size_t i = 0; i <= n; i++) { std::string nx = strf("ZR%zu", i + 1 > n ? 0 : i + 1); m += strf("struct ZR%zu { uint8 a; %s b%s; }\n", i, nx.c_str(), arr ? "[] prefix uint8" : ""); } for (size_t i = n + 1; i-- > 0;) g += strf("struct ZR%zu { uint8 a; %s b%s; }\n", i, i == n ? "uint8" : strf("ZR%zu", i + 1).c_str(), arr ? "[] prefix uint8" : ""); set("recursion", g, m); break; }
        case 47: { r.where = 1; static const char* g[] = {"struct ZQ { uint8 a; }", "enum ZQ { A, }", "struct ZQ { }", "// nothing", "@unaligned_bytes struct ZQ { uint8 a : 8; }"}; static const char* bd[] = {"struct ZQ { uint8 a; ", "struct ZQ uint8 a; }", "struct { uint8 a; }", "struct ZQ { uint8 a; } }", "enum ZQ { A", "enum { A }", "enum ZQ A }", "enum ZQ : { A }", "uint8 a;", "}", "{", "ZQ", "struct 5 { uint8 a; }", "struct struct { uint8 a; }", "enum ZQ { A };;%", "#", "$", "\\", "struct ZQ { uint8 a; } ; 5", "`", "'a'", "\"x\"", "switch (a) { }", "if (1) { }", "=", "struct ZQ = P;", "packet", "struct", "enum"}; set("definition syntax", one(s, g), one(s, bd)); break; }
        case 48: { r.where = 1; static const char* g[] = {"@version(0)", "@version(255)", "@version(0x10)"}; static const char* bd[] = {"@version(256)", "@version(-1)", "@version(1.5)", "@version()", "@version", "@version(x)", "@version(\"1\")", "@import(\"zq_missing.cnd\")", "@import(zq)", "@import()", "@import", "@import(\"\")", "@import(\"zq_dir\")", "@import(5)", "@import(\"zq_missing.cnd\"", "@version(1", "@version(65536)", "@version(257)"}; set("file decorators", std::string(one(s, g)) + " ", std::string(one(s, bd)) + " "); break; }
        case 49: { r.where = 2; static const char* g[] = {"packet P { uint8 a; }", "struct S { uint8 a; } packet P = S;", "packet P { }", "struct S { uint8 a; } packet P { S a; }", "struct S { uint8 a; } packet Q = S;"}; static const char* bd[] = {"", "struct S { uint8 a; }", "enum E { A }", "packet P { uint8 a; } packet Q { uint8 a; }", "packet P { uint8 a; } packet P { uint8 a; }", "packet P = S;", "packet P = uint8;", "enum E { A } packet P = E;", "struct S { uint8 a; } packet P = S", "struct S { uint8 a; } packet P S;", "packet { uint8 a; }", "packet 5 { uint8 a; }", "packet P ", "packet P { uint8 a; ", "packet P uint8 a; }", "struct S { uint8 a; } packet P = S; packet Q = S;", "packet P = P;", "packet P { uint8 a; } struct S { P a; }", "packet P { P a; }", "struct S { uint8 a; } packet P = S; packet Q { uint8 a; }", "packet P { S a; } struct S { uint8 a; }", "struct T { S a; } struct S { uint8 a; } packet P { T a; }", "packet P { E a; } enum E { A }", "packet P { uint8 a; } }", "packet struct { uint8 a; }", "// packet P { uint8 a; }", "/* packet P { uint8 a; } */", "struct S { uint8 a; } packet P { S S2; } packet"}; set("one packet", one(s, g), one(s, bd)); break; }
        case 50: { r.where = 1; std::string g = "struct ZQ { uint8 a; uint16 b[3]; string c prefix uint8; @range(1, 2) uint8 d; if (a > 1) { uint8 e; } switch (a) { case 1: uint8 f; default: { uint8 g; } } }"; std::string bd; static const std::string punct = "{}()[];:"; std::vector<size_t> at; for (size_t i = 0; i < g.size(); i++) if (punct.find(g[i]) != std::string::npos) at.push_back(i); size_t p = at[s.draw(at.size() - 1)]; bd = g; if (s.chance(1, 2)) bd.erase(p, 1); else bd.insert(p, 1, g[p] == ';' ? ':' : g[p]); set("punctuation", g, bd); break; }
        default: { static const char* bad[] = {"#", "$", "\\", "`", "'", "?", "\x01", "\x7f", "\xff", "\xc3\xa9", "0", "}", "{", ")", "\""}; set("garbage", "uint8 zqa;", s.chance(1, 2) ? std::string("uint8 zqa; ") + one(s, bad) + " uint8 zqb;" : std::string("uint8 ") + one(s, bad) + " zqa;"); break; }
    }
    return r;
}
static void c18(Case& c) {
    std::string dir = c.scratch + "/w18"; mkdir(dir.c_str(), 0700); mkdir((dir + "/zq_dir").c_str(), 0700);
    Rule r = makeRule(c.s); std::string good, bad, place = "file";
    if (r.where == 2) { good = r.good; bad = r.bad; }
    else {
        Feat F = featFor(c.s); F.alias = false; F.eof = false; F.maxFields = 4; F.optional = true; Gen g(c.s, F); Schema S = g.schema();
        Style st; st.noise = &c.s; st.ws = c.s.chance(1, 2); st.comments = st.ws && c.s.chance(1, 2);
        std::vector<std::string> tail; 
        if (r.where == 1) { bool front = r.name == "packet name" || c.s.chance(1, 2); place = front ? "before the schema" : "after the schema"; std::string text = render(S, st); auto put = [&](const std::string& x) { return front ? r.pre + x + "\n" + text : r.pre + text + "\n" + x + "\n"; }; good = put(r.good); bad = put(r.bad); }
        else {
            // any block of the packet or of an aligned struct
            std::vector<std::pair<Block*, std::string>> blocks;
            std::function<void(Block&, const std::string&)> collect = [&](Block& b, const std::string& n) { blocks.push_back({&b, n}); for (auto& x : b) { for (size_t i = 0; i < x.bodies.size(); i++) collect(x.bodies[i], x.k == Stmt::IF ? n + "/if" : n + "/case"); if (x.k == Stmt::SWITCH ? x.defPos >= 0 : x.hasElse) collect(x.defBody, n + "/else"); } };
            collect(S.packet, "packet"); for (auto& d : S.structs) if (!d.unaligned) collect(d.b, "struct");
            auto& b = blocks[c.s.draw(blocks.size() - 1)]; place = b.second; size_t at = c.s.draw(b.first->size());
            Stmt x; x.k = Stmt::RAW; b.first->insert(b.first->begin() + (long)at, x); (*b.first)[at].raw = "\x02";
            std::string text = render(S, st); size_t p = text.find('\x02'); if (p == std::string::npos) c.fail("harness", "the statement was not rendered");
            good = r.pre + text.substr(0, p) + r.good + text.substr(p + 1); bad = r.pre + text.substr(0, p) + r.bad + text.substr(p + 1);
        }
    }
    c.desc = "rule: " + r.name + "; place: " + place + "\nwithout the mistake: " + showText(r.good, 600) + "\nwith the mistake: " + showText(r.bad, 600) + "\n--- full text with the mistake\n" + showText(bad, 3000) + "\n"; c.mix(bad); note_desc_impl(c.desc); c.count("rule: " + r.name); c.count("place: " + place.substr(0, place.find('/')) + (place.find('/') != std::string::npos ? "/..." : ""));
    std::string in = dir + "/t.cnd", outp = dir + "/t.il", log;
    write_file(in, good); unlink(outp.c_str()); if (runCompile(in, outp, false, false, log, dir)) c.fail("good-rejected", "the schema without the mistake was rejected\n" + showText(log, 1200));
    unlink(outp.c_str()); write_file(in, bad); bool json = c.s.chance(1, 4);
    if (!runCompile(in, outp, json, false, log, dir)) c.fail("bad-accepted", "rule \"" + r.name + "\": the schema with the mistake compiled: " + showText(r.bad, 600));
    if (exists(outp)) c.fail("output", "a rejected schema left an output file");
    c.nontrivial = good != bad;
}
static Reg r18({"C18", "For each of 52 rules of the language a pair of texts is generated with random parameters, one obeying the rule and one breaking it in one place, and inserted at a random statement position of any block (packet, struct, if, else, case, default) or at file level of a generated valid schema in a random layout: the first must compile, the second must not, and must leave no output. Non-trivial: the texts differ.", c18, 100000, 2500000});

// ---------------------------------------------------------------- C20
static void needs(const Schema& S, const Block& b, std::set<int>& o) {
    for (auto& x : b) {
        if (x.k == Stmt::FIELD && x.f.t == STRUCT) o.insert(x.f.ref);
        if (x.k == Stmt::FIELD && x.f.t == ENUM) o.insert(-1 - x.f.ref);
        if (x.k == Stmt::SWITCH && x.sEnum >= 0) for (auto& n : x.caseNames) if (!n.empty()) o.insert(-1 - x.sEnum);
        for (auto& y : x.bodies) needs(S, y, o);
        needs(S, x.defBody, o);
    }
}
static void c20(Case& c) {
    Feat F = withBig(featFor(c.s), 1 | 8 | 32 | 64); F.focus = c.s.chance(1, 2) ? FO_STRUCT : F.focus; F.optional = false; Gen g(c.s, F); Schema S = g.schema();
    if (S.order.empty()) { c.count("no_definitions"); }
    std::string root = c.scratch + "/w20"; std::string o_, e_; run_proc({"/bin/rm", "-rf", root}, "", o_, e_); mkdir(root.c_str(), 0700);
    struct Item { int kind; int v; std::string text; }; // 0 definition, 1 import of file v, 2 import of something missing, 3 mistake
    struct File { std::string dir, name, link; std::vector<Item> items; };
    size_t nf = 1 + c.s.draw(6); std::vector<File> fs(nf);
    static const std::string longd = std::string(120, 'd') + "/", longe = longd + std::string(105, 'e') + "/"; // absolute paths of these exceed 256 characters
    bool lng = c.s.chance(1, 6); std::string dirs[] = {"", "sub/", lng ? longd : "sub/deep/", lng ? longe : "other d\\ir/", "sub/deep/er/"};
    mkdir((root + "/sub").c_str(), 0700); mkdir((root + "/sub/deep").c_str(), 0700); if (lng) mkdir((root + "/" + longd).c_str(), 0700); for (auto& d : dirs) mkdir((root + "/" + d).c_str(), 0700);
    bool sameName = c.s.chance(1, 4); std::set<std::string> used;
    for (size_t i = 0; i < nf; i++) { File& f = fs[i]; do { f.dir = dirs[c.s.draw(4)]; f.name = sameName && c.s.chance(1, 2) ? "types.cnd" : i ? strf("f%zu.cnd", i) : "main.cnd"; if (used.count(f.dir + f.name)) f.name = strf("g%zu.cnd", i); } while (!used.insert(f.dir + f.name).second); if (c.s.chance(1, 6)) f.link = dirs[c.s.draw(4)] + strf("link%zu.cnd", i); }
    // where each definition goes; every file imports what its definitions need, mostly
    std::map<int, size_t> home; std::map<int, std::set<int>> dep; int miss = c.s.chance(1, 4) ? 3 : 0;
    for (int w : S.order) { home[w] = c.s.draw(nf - 1); if (w >= 0) needs(S, S.structs[w].b, dep[w]); }
    std::set<int> pk; if (S.alias >= 0) pk.insert(S.alias); else needs(S, S.packet, pk);
    std::vector<int> ord = S.order; if (c.s.chance(1, 3)) for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[c.s.draw(i - 1)]);
    auto imports = [&](File& f, size_t self, const std::set<int>& d) { for (int x : d) if (home[x] != self && !(miss && c.s.chance(1, (unsigned)miss))) f.items.push_back({1, (int)home[x], ""}); };
    for (int w : ord) { File& f = fs[home[w]]; if (c.s.chance(1, 4)) f.items.push_back({1, (int)c.s.draw(nf - 1), ""}); imports(f, home[w], dep[w]); f.items.push_back({0, w, ""}); }
    if (c.s.chance(1, 3)) { size_t k = c.s.draw(nf - 1); auto& it = fs[k].items; it.insert(it.begin() + (long)c.s.draw(it.size()), {1, (int)c.s.draw(nf - 1), ""}); }
    std::set<int> all; for (int w : S.order) all.insert(w);
    imports(fs[0], 0, c.s.chance(1, 2) ? all : pk); if (c.s.chance(1, 3)) fs[0].items.push_back({1, (int)c.s.draw(nf - 1), ""});
    int trap = (int)c.s.weighted({6, 1, 1}); // a missing file or a mistake, somewhere
    if (trap) { size_t k = c.s.draw(nf - 1); auto& it = fs[k].items; static const char* bad[] = {"struct ZQ { uint8 a }", "enum ZQ { A, A }", "struct ZQ { nosuch a; }", "struct ZQ { uint8 a; uint8 a; }", "$", "packet ZP { uint8 a; }", "struct ZQ {"}; it.insert(it.begin() + (long)c.s.draw(it.size()), trap == 1 ? Item{2, 0, ""} : Item{3, 0, bad[c.s.draw(6)]}); }
    // the language's meaning: a file is included where it is first imported
    std::set<size_t> seen; std::set<int> defined; bool valid = true; size_t repeats = 0, depth = 0, maxDepth = 0; std::vector<int> order2;
    std::function<void(size_t)> visit = [&](size_t k) {
        if (!seen.insert(k).second) { repeats++; return; }
        maxDepth = std::max(maxDepth, ++depth);
        for (auto& it : fs[k].items) { if (!valid) break; if (it.kind == 1) visit((size_t)it.v); else if (it.kind == 0) { for (int d : dep[it.v]) if (!defined.count(d)) valid = false; defined.insert(it.v); order2.push_back(it.v); } else valid = false; }
        depth--;
    };
    visit(0); for (int d : pk) if (!defined.count(d)) valid = false;
    // text
    Style st; st.noise = &c.s; st.ws = c.s.chance(1, 2); st.comments = st.ws && c.s.chance(1, 2);
    for (size_t k = 0; k < nf; k++) {
        File& f = fs[k]; std::string t; size_t endianAt = c.s.draw(f.items.size()), i = 0;
        auto head = [&]() { if (k == 0 && S.topEndian) t += S.topEndian == 1 ? "@big_endian " : "@little_endian "; if (k == 0 && S.version >= 0) t += strf("@version(%d)\n", S.version); };
        for (auto& it : f.items) {
            if (i++ == endianAt) head();
            if (it.kind == 0) t += join(defTokens(S, it.v, st), st) + (!st.ws && c.s.chance(1, 3) ? " " : "\n");
            else if (it.kind == 3) t += it.text + "\n";
            else {
                std::string target = it.kind == 2 ? dirs[c.s.draw(4)] + "nothere.cnd" : (!fs[(size_t)it.v].link.empty() && c.s.chance(1, 2) ? fs[(size_t)it.v].link : fs[(size_t)it.v].dir + fs[(size_t)it.v].name);
                std::string rel; // from this file's directory
                size_t form = c.s.weighted({6, 2, 2});
                std::vector<std::string> from, to; auto split = [](const std::string& p, std::vector<std::string>& v) { std::string x; for (char ch : p) if (ch == '/') { v.push_back(x); x.clear(); } else x += ch; if (!x.empty()) v.push_back(x); };
                split(f.dir, from); split(target, to); size_t same = 0; if (form != 1) while (same < from.size() && same + 1 < to.size() && from[same] == to[same]) same++;
                for (size_t j = same; j < from.size(); j++) rel += "../"; for (size_t j = same; j < to.size(); j++) rel += to[j] + (j + 1 < to.size() ? "/" : "");
                if (form == 2) rel = "./" + rel;
                if (c.s.chance(1, 8)) { size_t sl = rel.find('/', 1); if (sl != std::string::npos) rel.insert(sl, c.s.chance(1, 2) ? "/" : "/."); }
                t += "@import(\"" + rel + "\")" + (c.s.chance(1, 6) ? ";" : "") + "\n";
            }
        }
        if (i <= endianAt) head();
        if (k == 0) { t += join(packetTokens(S, st), st); }
        else if (t.empty() && c.s.chance(1, 2)) t = "// nothing here\n";
        if (c.s.chance(1, 10)) { size_t q = t.find_last_not_of(" \n\r\t"); if (q != std::string::npos && t.find("//", t.rfind('\n', q) == std::string::npos ? 0 : t.rfind('\n', q)) == std::string::npos) t.resize(q + 1); }
        write_file(root + "/" + f.dir + f.name, t); if (!f.link.empty() && symlink((root + "/" + f.dir + f.name).c_str(), (root + "/" + f.link).c_str())) c.fail("harness", "symlink");
        c.desc += "--- " + f.dir + f.name + (f.link.empty() ? "" : " (also " + f.link + ")") + "\n" + t + "\n"; c.mix(t);
    }
    c.desc += valid ? "has to compile\n" : "must not compile\n"; note_desc_impl(c.desc);
    Program P, Q; std::string log, in = root + "/" + fs[0].dir + fs[0].name; bool cd = c.s.chance(1, 3);
    if (cd) { if (chdir((root + "/" + fs[0].dir).c_str())) c.fail("harness", "chdir"); in = (c.s.chance(1, 2) ? "./" : "") + fs[0].name; }
    int rc = compilePath(in, root + "/t.il", P, &log); if (cd && chdir("/")) c.fail("harness", "chdir");
    if (valid && rc) c.fail("split-rejected", "the split schema was rejected\n" + showText(log, 1500));
    if (!valid && !rc) c.fail("split-accepted", "a schema with a missing file, a mistake in an imported file or an undefined type compiled");
    c.count(valid ? "valid" : "invalid"); c.count("repeated_imports", repeats); c.count(strf("import_depth_%zu", maxDepth));
    if (!valid) { c.nontrivial = true; return; }
    if (maxDepth > 1) c.nontrivial = true;
    if (compileText(c.scratch, render(S), Q, &log)) c.fail("compile-rejected", "the single file was rejected\n" + log);
    if (P.p.bytecode_len != Q.p.bytecode_len) c.fail("split-program", strf("the split schema has %zu bytes of bytecode, the single file %zu", (size_t)P.p.bytecode_len, (size_t)Q.p.bytecode_len));
    std::set<std::string> n1, n2; for (uint16_t i = 0; i < P.p.string_count; i++) n1.insert(cnd_get_key_name(&P.p, i)); for (uint16_t i = 0; i < Q.p.string_count; i++) n2.insert(cnd_get_key_name(&Q.p, i));
    if (n1 != n2) c.fail("split-names", "the split schema has other names");
    RefOpts o; o.acceptRaw = c.s.chance(1, 2); o.invalidPct = c.s.chance(1, 3) ? 30 : 0;
    for (int rep = 0; rep < 2; rep++) { RefResult r = refEncode(S, c.s, o); if (r.undef) continue; checkEncode(c, P, r, S.hasEof || r.err ? 0 : 2); if (r.err) continue; RefResult d = refDecode(S, r.bytes, o); if (!d.undef) checkDecode(c, P, r.bytes, d); c.count("behaviours"); }
}
static Reg r20({"C20", "The struct and enum definitions of generated schemas are distributed over one to seven files in five directories (some with absolute paths of more than 256 characters), imported along random graphs (repeats, diamonds, cycles, self imports, symbolic links, relative paths with redundant components), optionally with a missing file or a mistake somewhere; include-once semantics decide whether the result is valid. Valid sets must compile to a program with the single file's names, size and behaviour against the reference codec, invalid ones must not compile. Non-trivial: a file is imported, or the set is invalid.", c20, 80000, 1500000});
