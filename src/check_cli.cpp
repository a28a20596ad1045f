// Properties of the command line tool, observed on real processes.
#include "cnd.h"
#include "cli.h"
#include "il.h"
#include "util.h"
#include "json.h"
#include <cmath>
#include <unistd.h>

std::string env(const char* n) { const char* v = getenv(n); return v ? v : ""; }
void note(Case& c) { note_desc_impl(c.desc); }
void say(Case& c, const std::string& t) { c.desc += t + "\n"; note(c); }
static double asD(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static double asF(uint64_t u) { uint32_t v = (uint32_t)u; float f; memcpy(&f, &v, 4); return f; }
static bool closeD(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b))); }

Ran cli(Case& c, std::vector<std::string> args, const std::string& in, int timeout) {
    Ran r; args.insert(args.begin(), env("PBT_CND"));
    r.rc = run_proc(args, in, r.out, r.err, timeout, c.scratch);
    if (r.rc == 124) c.fail("hang", args[1] + " did not finish");
    if (r.rc >= 98 || r.err.find("Sanitizer") != std::string::npos || r.err.find("runtime error:") != std::string::npos)
        c.fail(r.err.find("LeakSanitizer") != std::string::npos ? "leak" : "crash", strf("%s: exit %d, ", args[1].c_str(), r.rc) + r.err.substr(0, 1500));
    return r;
}

// ---------------------------------------------------------------- C23
// The JSON document that a message stands for
struct N {
    enum K { LEAF, OBJ, ARR } k = LEAF; std::string name; uint8_t op = 0; uint64_t u = 0; std::string data; bool flt = false; int w = 0;
    bool input = false, comp = false; int ev = -1; std::vector<N> kids;
    const N* get(const std::string& n) const { for (auto& x : kids) if (x.name == n) return &x; return nullptr; }
    N* get(const std::string& n) { for (auto& x : kids) if (x.name == n) return &x; return nullptr; }
};
static std::string lastPart(const std::string& k) { size_t p = k.rfind('.'); return p == std::string::npos ? k : k.substr(p + 1); }
static bool isStr(int op) { return op >= OP_STR_NULL && op <= OP_STR_PRE_U32; }
static bool isFl(const N& n) { return n.op == OP_IO_F32 || n.op == OP_IO_F64; }
static double flOf(const N& n) { return n.op == OP_IO_F32 ? asF(n.u) : asD(n.u); }
static bool isSg(int op) { return (op >= OP_IO_I8 && op <= OP_IO_I64) || op == OP_IO_BIT_I; }
static bool isBool(int op) { return op == OP_IO_BOOL || op == OP_IO_BIT_BOOL; }
static int widthOf(const N& n) {
    switch (n.op) { case OP_IO_U8: case OP_IO_I8: return 8; case OP_IO_U16: case OP_IO_I16: return 16; case OP_IO_U32: case OP_IO_I32: return 32; case OP_IO_BIT_U: case OP_IO_BIT_I: return n.w; default: return 64; }
}
struct Tree {
    N root; bool usable = true; std::string why; // usable: the document says all that the message needs
    void no(const std::string& w) { if (usable) { usable = false; why = w; } }
};
static const uint8_t OPOF[11] = {OP_IO_U8, OP_IO_U16, OP_IO_U32, OP_IO_U64, OP_IO_I8, OP_IO_I16, OP_IO_I32, OP_IO_I64, OP_IO_F32, OP_IO_F64, OP_IO_BOOL};
static Tree treeOf(const std::vector<Ev>& ev, const std::string& eofName) {
    Tree T; T.root.k = N::OBJ;
    struct F { std::vector<size_t> path; std::string key; }; // kids move, so positions are kept as paths
    std::vector<F> st{{{}, ""}};
    auto at = [&](const std::vector<size_t>& p) { N* n = &T.root; for (size_t i : p) n = &n->kids[i]; return n; };
    auto add = [&](const Ev& e, N n) {
        N* top = at(st.back().path);
        if (!eofName.empty() && e.key == eofName && st.size() == 1) {
            N a; a.k = N::ARR; a.name = eofName; top->kids.push_back(a); F f = st.back(); f.path.push_back(top->kids.size() - 1); f.key = eofName; st.push_back(f); top = at(f.path);
        }
        n.name = top->k == N::ARR ? "" : lastPart(e.key);
        top->kids.push_back(n);
        return top->kids.size() - 1;
    };
    std::map<std::string, uint64_t> computed;
    for (size_t i = 0; i < ev.size(); i++) {
        const Ev& e = ev[i]; N n; n.op = e.op; n.u = e.u; n.data = e.data; n.flt = e.flt; n.w = e.w; n.ev = (int)i;
        switch (e.op) {
            case OP_RAW_BYTES: break;
            case OP_EXIT_STRUCT: case OP_ARR_END: if (st.size() > 1) st.pop_back(); else T.no("unbalanced"); break;
            case OP_ENTER_STRUCT: { n.k = N::OBJ; size_t k = add(e, n); F f = st.back(); f.path.push_back(k); f.key = e.key; st.push_back(f); break; }
            case OP_ARR_FIXED: case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: case OP_ARR_DYNAMIC: {
                n.k = N::ARR; size_t k = add(e, n); if (!e.u) break; F f = st.back(); f.path.push_back(k); f.key = e.key; st.push_back(f); break; }
            case OP_CTX_QUERY: case OP_LOAD_CTX: {
                // the name must lead to the value from the innermost enclosing struct on
                const N* hit = nullptr;
                for (size_t d = st.size(); d-- > 0 && !hit;) {
                    const N* o = at(st[d].path); if (o->k != N::OBJ) continue;
                    std::string rest = e.key;
                    if (d > 0) { if (rest.compare(0, st[d].key.size() + 1, st[d].key + ".")) continue; rest = rest.substr(st[d].key.size() + 1); }
                    while (o && o->k == N::OBJ) { size_t p = rest.find('.'); o = o->get(rest.substr(0, p)); if (p == std::string::npos) { hit = o; break; } rest = rest.substr(p + 1); }
                }
                if (!hit || hit->k != N::LEAF || isStr(hit->op)) { T.no("refers to a value that is not there"); break; }
                uint64_t v = hit->op == OP_IO_F32 ? 0 : hit->u;
                if (hit->op == OP_IO_F32) { double d = asF(hit->u); memcpy(&v, &d, 8); }
                if (v != e.u) T.no("value in use differs from the field's");
                break; }
            case OP_STORE_CTX: {
                n.op = OPOF[e.t < 0 || e.t > 10 ? (int)U64 : e.t];
                if (n.op == OP_IO_F32) { float f = (float)asD(e.u); uint32_t b; memcpy(&b, &f, 4); n.u = b; }
                else if (n.op == OP_IO_BOOL) n.u = e.u != 0;
                else if (n.op != OP_IO_F64) { int w = widthOf(n); n.u = w == 64 ? e.u : isSg(n.op) ? (uint64_t)((int64_t)(e.u << (64 - w)) >> (64 - w)) : e.u & ((1ull << w) - 1); }
                n.flt = e.flt; n.comp = true; add(e, n); break; }
            default: add(e, n);
        }
    }
    return T;
}
static void walkN(const N& n, const std::function<void(const N&)>& f) { f(n); for (auto& k : n.kids) walkN(k, f); }
static void walkM(N& n, N* parent, const std::function<void(N&, N*)>& f) { f(n, parent); for (auto& k : n.kids) walkM(k, &n, f); }
// Marks what the host supplies: it is in the tree of the encoding, too
static void markInputs(N& d, const N& e) {
    if (d.k == N::LEAF) { d.input = e.k == N::LEAF && !e.comp; d.ev = e.ev; return; }
    d.input = true; d.ev = e.ev;
    if (d.k == N::ARR) { for (size_t i = 0; i < d.kids.size() && i < e.kids.size(); i++) markInputs(d.kids[i], e.kids[i]); return; }
    for (auto& k : d.kids) if (const N* o = e.get(k.name)) markInputs(k, *o);
}

struct Raw { std::string text; }; // replaces the text of one node
static std::string g_eof; // name of the array that may be left out
struct Render { Src& s; bool noise; const N* target = nullptr; std::string repl; bool drop = false; bool used = false; };
static std::string numText(Src& s, const N& n, bool noise) {
    if (isFl(n)) {
        double d = flOf(n);
        std::string t = strf(noise && s.chance(1, 3) ? "%.17e" : "%.17g", d);
        return t;
    }
    bool neg = isSg(n.op) && (int64_t)n.u < 0; uint64_t m = neg ? 0 - n.u : n.u;
    std::string t = strf("%s%llu", neg ? "-" : "", (unsigned long long)m);
    if (!noise || m >= (1ull << 53)) return t;
    if (s.chance(1, 8)) return t + ".0";
    if (m && m % 10 == 0 && s.chance(1, 2)) return strf("%s%llue1", neg ? "-" : "", (unsigned long long)(m / 10));
    if (!m && s.chance(1, 4)) return "-0";
    return t;
}
static std::string strText(Src& s, const std::string& v, bool noise) {
    std::string o = "\"";
    for (size_t i = 0; i < v.size(); i++) {
        unsigned char ch = (unsigned char)v[i];
        if (ch < 0x80 && noise && s.chance(1, 9)) o += strf(s.chance(1, 2) ? "\\u%04x" : "\\u%04X", ch);
        else if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
        else if (ch == '\n') o += "\\n"; else if (ch == '\t') o += "\\t"; else if (ch == '/' && noise) o += "\\/";
        else if (ch < 32) o += strf("\\u%04x", ch);
        else o += (char)ch;
    }
    return o + "\"";
}
static std::string gap(Render& r) { if (!r.noise || !r.s.chance(1, 6)) return ""; static const char* w[] = {" ", "\n", "\t", "\r\n  "}; return w[r.s.draw(3)]; }
static std::string show(Render& r, const N& n) {
    if (&n == r.target && !r.drop) { r.used = true; return r.repl; }
    if (n.k == N::LEAF) return isStr(n.op) ? strText(r.s, n.data, r.noise) : isBool(n.op) ? (n.u ? "true" : "false") : numText(r.s, n, r.noise);
    std::vector<const N*> kids; for (auto& k : n.kids) { if (&k == r.target && r.drop) { r.used = true; continue; } kids.push_back(&k); }
    std::string o = n.k == N::OBJ ? "{" : "["; bool first = true;
    if (n.k == N::OBJ && r.noise) for (size_t i = kids.size(); i > 1; i--) std::swap(kids[i - 1], kids[r.s.draw(i - 1)]);
    auto member = [&](const std::string& key, const std::string& v) { if (!first) o += gap(r) + ","; first = false; o += gap(r); if (n.k == N::OBJ) o += key + gap(r) + ":" + gap(r); o += v; };
    for (auto* k : kids) {
        if (n.k == N::OBJ && r.noise && r.s.chance(1, 10)) { // members that mean nothing
            std::string x = k->name; for (auto& ch : x) ch = (char)(ch >= 'a' && ch <= 'z' ? ch - 32 : ch >= 'A' && ch <= 'Z' ? ch + 32 : ch);
            if (x == k->name || n.get(x)) x = "_extra"; static const char* v[] = {"7", "null", "\"s\"", "[1,{}]", "{\"a\":1}"};
            if (!n.get(x) && x != g_eof) member("\"" + x + "\"", v[r.s.draw(4)]);
        }
        member(strText(r.s, k->name, false), show(r, *k));
    }
    return o + gap(r) + (n.k == N::OBJ ? "}" : "]");
}
// Compares a printed value with the expected one
static std::string cmpJ(const N& n, const J& j, const std::string& at, const std::string& eofName, bool hex, size_t* hexSeen) {
    if (n.k == N::OBJ) {
        if (!j.is(J::OBJ)) return at + ": not an object";
        size_t m = 0;
        for (auto& k : n.kids) { const J* x = j.get(k.name); if (!x) return at + "." + k.name + " is missing"; m++; std::string e = cmpJ(k, *x, at + "." + k.name, eofName, hex, hexSeen); if (!e.empty()) return e; }
        for (auto& p : j.o) { size_t q = 0; for (auto& o : j.o) q += o.first == p.first; if (q > 1) return at + "." + p.first + " is there twice"; if (!n.get(p.first) && !(at == "$" && p.first == eofName && p.second.is(J::ARR) && p.second.a.empty())) return at + "." + p.first + " is not a field"; }
        return "";
    }
    if (n.k == N::ARR) {
        if (hex && j.is(J::STR)) {
            std::string w; for (auto& k : n.kids) { if (k.k != N::LEAF || k.op != OP_IO_U8) return at + ": text instead of an array"; w += strf("%02x", (unsigned)k.u); }
            if (lower(j.s) != w) return at + ": bytes " + j.s + ", expected " + w; (*hexSeen)++; return "";
        }
        if (!j.is(J::ARR)) return at + ": not an array";
        if (j.a.size() != n.kids.size()) return strf("%s: %zu elements, expected %zu", at.c_str(), j.a.size(), n.kids.size());
        for (size_t i = 0; i < n.kids.size(); i++) { std::string e = cmpJ(n.kids[i], j.a[i], strf("%s[%zu]", at.c_str(), i), eofName, hex, hexSeen); if (!e.empty()) return e; }
        return "";
    }
    if (isStr(n.op)) return j.is(J::STR) && j.s == n.data ? "" : at + ": text '" + j.s + "', expected '" + n.data + "'";
    if (isBool(n.op)) return (j.is(J::BOOL) && j.b == (n.u != 0)) ? "" : at + ": expected " + (n.u ? "true" : "false");
    if (isFl(n) && !std::isfinite(flOf(n))) return j.is(J::NUM) ? at + ": a number for a value that is none" : "";
    if (!j.is(J::NUM)) return at + ": not a number";
    if (isFl(n)) {
        double v = strtod(j.s.c_str(), nullptr), w = flOf(n);
        bool ok = n.flt ? closeD(v, w) : n.op == OP_IO_F32 ? (float)v == (float)w : v == w;
        return ok ? "" : at + ": " + j.s + strf(", expected %.17g", w);
    }
    if (j.s.find_first_of(".eE") == std::string::npos) { __int128 v = 0; bool neg = j.s[0] == '-'; for (size_t i = neg; i < j.s.size() && i < 30; i++) v = v * 10 + (j.s[i] - '0'); if (neg) v = -v; __int128 w = isSg(n.op) ? (__int128)(int64_t)n.u : (__int128)n.u; return v == w ? "" : at + ": " + j.s + ", expected " + (isSg(n.op) ? strf("%lld", (long long)n.u) : strf("%llu", (unsigned long long)n.u)); }
    double v = strtod(j.s.c_str(), nullptr); int64_t q = (int64_t)n.u; if ((isSg(n.op) ? (double)q : (double)n.u) == v && std::fabs(v) < 9e15) return "";
    return at + ": " + j.s + strf(", expected %llu", (unsigned long long)n.u);
}

struct Files { std::string il, json, bin, out; };
static void encodeOK(Case& c, const Files& f, const std::string& text, const std::vector<uint8_t>& want, const char* what) {
    write_file(f.json, text); unlink(f.out.c_str());
    Ran r = cli(c, {"encode", f.il, f.json, f.out});
    if (r.rc) c.fail("encode-rejected", std::string(what) + " " + text + " rejected: " + r.out + r.err);
    std::string got = exists(f.out) ? read_file(f.out) : "(no file)";
    if (got != std::string(want.begin(), want.end())) c.fail("encode-bytes", std::string(what) + " " + text + " gives " + hexs((const uint8_t*)got.data(), got.size()) + ", expected " + hexs(want));
}
static void encodeBad(Case& c, const Files& f, const std::string& text, const std::string& what) {
    write_file(f.json, text); unlink(f.out.c_str());
    Ran r = cli(c, {"encode", f.il, f.json, f.out});
    if (r.rc == 0) c.fail("encode-accepted", what + " accepted: " + text);
}
static Files files(Case& c) { return {c.scratch + "/s.il", c.scratch + "/v.json", c.scratch + "/m.bin", c.scratch + "/o.out"}; }

// A document with one value that cannot be encoded; returns "" if there is none to change
static std::string spoil(Case& c, const N& root, std::string& what) {
    Src& s = c.s; std::vector<const N*> cand;
    walkN(root, [&](const N& n) { if (&n != &root && n.input) cand.push_back(&n); });
    if (cand.empty()) return "";
    const N& n = *cand[s.draw(cand.size() - 1)]; Render r{s, s.chance(1, 3)}; r.target = &n; what = n.name.empty() ? "element" : n.name;
    static const char* junk[] = {"null", "\"12\"", "{}", "[]", "[1]", "true", "{\"a\":1}"};
    if (n.k == N::OBJ) { static const char* x[] = {"5", "[]", "null", "\"x\"", "true"}; r.repl = x[s.draw(4)]; what += " (struct) = " + r.repl; }
    else if (n.k == N::ARR) {
        bool sized = n.op == OP_ARR_FIXED || n.op == OP_ARR_DYNAMIC;
        std::string body; { Render q{s, false}; body = show(q, n); }
        size_t k = s.draw(3);
        if (k <= 1 && sized) { // one more or one less
            if (n.kids.empty()) { r.repl = "[0]"; }
            else if (k == 0) { Render q{s, false}; r.repl = body.substr(0, body.size() - 1) + "," + show(q, n.kids[0]) + "]"; }
            else { r.target = &n.kids.back(); r.drop = true; }
            what += " with a wrong number of elements";
        } else if (k == 2 && n.op == OP_ARR_PRE_U8 && !n.kids.empty()) {
            Render q{s, false}; std::string e = show(q, n.kids[0]); r.repl = "["; for (int i = 0; i < 256; i++) r.repl += (i ? "," : "") + e; r.repl += "]"; what += " with 256 elements";
        } else { static const char* x[] = {"5", "{}", "null", "true", "\"xyz\""}; r.repl = x[s.draw(4)]; what += " (array) = " + r.repl; }
    } else if (isStr(n.op)) {
        static const char* x[] = {"5", "[]", "null", "true", "{}"};
        if (s.chance(1, 4) && (n.op == OP_STR_PRE_U8 || n.op == OP_STR_NULL)) return "";
        r.repl = x[s.draw(4)]; what += " (text) = " + r.repl;
    } else if (isBool(n.op)) { static const char* x[] = {"2", "\"true\"", "null", "[]", "{}", "0.5", "-1"}; r.repl = x[s.draw(6)]; what += " (bool) = " + r.repl; }
    else if (isFl(n)) { static const char* x[] = {"\"1\"", "null", "[]", "true", "{}", "1e999"}; r.repl = x[s.draw(n.flt ? 4 : 5)]; what += " (float) = " + r.repl; }
    else {
        int w = widthOf(n); bool sg = isSg(n.op);
        switch (s.draw(4)) {
            case 0: r.repl = junk[s.draw(6)]; break;
            case 1: r.repl = "0.5"; break;
            case 2: { // the first value beyond the greatest
                unsigned __int128 v = ((unsigned __int128)1 << (sg ? w - 1 : w)); if (s.chance(1, 3)) v += s.draw(300); std::string t; while (v) { t.insert(t.begin(), (char)('0' + (int)(v % 10))); v /= 10; } r.repl = t; break; }
            case 3: { unsigned __int128 v = sg ? ((unsigned __int128)1 << (w - 1)) + 1 : 1; std::string t; while (v) { t.insert(t.begin(), (char)('0' + (int)(v % 10))); v /= 10; } r.repl = "-" + t; break; }
            default: r.repl = sg ? "-1e30" : "1e30";
        }
        what += strf(" (%s%d) = ", sg ? "i" : "u", w) + r.repl;
    }
    std::string t = show(r, root);
    return r.used ? t : "";
}
// Damages the text of a document
static std::string damage(Src& s, std::string t) {
    size_t n = t.size();
    switch (s.draw(5)) {
        case 0: return t.substr(0, s.draw(n - 1));
        case 1: { static const char* x[] = {"}", "x", "{}", ",", "]", " 1", "\"", "/*c*/"}; return t + x[s.draw(7)]; }
        case 2: { size_t p = s.draw(n - 1); t.erase(p, 1); return t; }
        case 3: { static const char* x[] = {",", "{", "[", "\"", ":", "}", "01", "\x01", "\\", "'"}; t.insert(s.draw(n), x[s.draw(9)]); return t; }
        case 4: { static const char* x[] = {"", "[]", "5", "null", "\"a\"", "{", "[{}]", "{a:1}", "{\"a\"}"}; return x[s.draw(8)]; }
        default: { t[s.draw(n - 1)] = (char)s.draw(255); return t; }
    }
}
static void c23(Case& c) {
    Src& s = c.s; Schema S; Program P;
    { Feat F = withBig(featFor(s), 1 | 2 | 4 | 8 | 32 | 64); if (s.chance(1, 60)) { F.big = 32; F.sure = true; } Gen g(s, F); S = g.schema(); }
    std::string text = render(S); c.desc = text; c.mix(text); note(c);
    std::string log; if (compileText(c.scratch, text, P, &log)) c.fail("compile-rejected", log);
    Files f = files(c); write_file(f.il, P.il);
    std::string eofName; if (S.hasEof) eofName = S.packet.back().f.name; g_eof = eofName;
    RefOpts o; o.utf8 = true;
    RefResult r = refEncode(S, s, o);
    if (r.undef || r.err || r.feats.count("transform_lossy") || r.feats.count("string_cut")) { c.count("skipped_error_or_undefined"); return; }
    RefResult d = refDecode(S, r.bytes, o);
    if (d.undef || d.err) { c.count("skipped_error_or_undefined"); return; }
    for (auto& k : r.feats) c.count(k.first, (uint64_t)k.second);
    Tree T = treeOf(d.ev, eofName), E = treeOf(r.ev, eofName);
    markInputs(T.root, E.root);
    if (!T.usable) { c.count("skipped_" + T.why); return; }
    bool finite = true, eofBits = false, noVals = T.root.kids.empty(); size_t leaves = 0;
    walkN(T.root, [&](const N& n) { if (n.k == N::LEAF) { leaves++; if (isFl(n) && !std::isfinite(flOf(n))) finite = false; } });
    if (S.hasEof) { const N* a = T.root.get(eofName); const Field& ef = S.packet.back().f; eofBits = ef.bits > 0; if ((!a && ef.hasConst)) { c.count("skipped_eof_const"); return; } bool vis = false; if (a) walkN(*a, [&](const N& n) { if (n.k == N::LEAF && n.input) vis = true; if (n.k == N::OBJ) vis = true; }); if (a && !vis) { c.count("skipped_eof_const"); return; } }
    (void)noVals;
    { Render q{s, false}; say(c, "message " + hexs(r.bytes, 120) + "\ndocument " + show(q, T.root).substr(0, 3000)); }
    c.mix(r.bytes); c.nontrivial = leaves >= 2; c.count("documents"); c.count("leaves", leaves);
    // decode
    write_file(f.bin, r.bytes);
    for (int hex = 0; hex <= 1; hex++) {
        if (hex && !s.chance(1, 3)) break;
        unlink(f.out.c_str());
        std::vector<std::string> a{"decode", f.il, f.bin, f.out}; if (hex) a.push_back("--hex");
        Ran x = cli(c, a);
        if (x.rc) c.fail("decode-rejected", "message " + hexs(r.bytes) + " rejected: " + x.out + x.err);
        std::string got = exists(f.out) ? read_file(f.out) : ""; J j; std::string bad = jsonParse(got, j);
        if (!bad.empty()) c.fail("decode-json", "output is not JSON (" + bad + "): " + showText(got));
        size_t hexSeen = 0; bad = cmpJ(T.root, j, "$", eofName, hex, &hexSeen);
        if (!bad.empty()) c.fail("decode-value", bad + " in " + showText(got));
        c.count(hex ? "decoded_hex" : "decoded"); c.count("hex_arrays", hexSeen);
        if (finite && (hex || s.chance(1, 2))) { encodeOK(c, f, got, r.bytes, "what decode printed"); c.count("reencoded"); }
    }
    if (!finite) return;
    { Render q{s, true}; std::string t = show(q, T.root); encodeOK(c, f, t, r.bytes, "document"); c.count("encoded"); }
    // values that do not fit
    if (s.chance(2, 3)) {
        std::string what, t = spoil(c, T.root, what);
        if (!t.empty()) { say(c, "bad document: " + what); encodeBad(c, f, t, what); c.count("bad_value"); }
    }
    if (s.chance(1, 3)) {
        Render q{s, true}; std::string t = damage(s, show(q, T.root)); J j; std::string bad = jsonParse(t, j);
        if (!bad.empty() || !j.is(J::OBJ)) { say(c, "damaged document"); encodeBad(c, f, t, "malformed document (" + bad + ")"); c.count("bad_json"); }
        else { write_file(f.json, t); cli(c, {"encode", f.il, f.json, f.out}); c.count("other_json"); }
    }
    // a value that a rule of the schema forbids: the library decides
    if (s.chance(1, 2)) {
        std::vector<size_t> cand; for (size_t i = 0; i < r.ev.size(); i++) if ((r.ev[i].op >= OP_IO_U8 && r.ev[i].op <= OP_IO_F64) || r.ev[i].op == OP_IO_BIT_U || r.ev[i].op == OP_IO_BIT_I) cand.push_back(i);
        if (!cand.empty()) {
            size_t k = cand[s.draw(cand.size() - 1)]; std::vector<Ev> ev2(r.ev.begin(), r.ev.end()); N n; n.op = r.ev[k].op; n.w = r.ev[k].w;
            uint64_t v = s.chance(1, 2) ? s.u64() : r.ev[k].u + 1 + s.draw(3); if (isFl(n)) { double x = (double)(int64_t)s.u64() * (s.chance(1, 2) ? 1e-12 : 1); if (n.op == OP_IO_F32) { float y = (float)x; uint32_t b; memcpy(&b, &y, 4); v = b; } else memcpy(&v, &x, 8); }
            else { int w = widthOf(n); if (w < 64) v = isSg(n.op) ? (uint64_t)((int64_t)(v << (64 - w)) >> (64 - w)) : v & ((1ull << w) - 1); }
            ev2[k].u = v; RunResult x = runEncode(P, ev2, r.size + 64, {});
            const N* at = nullptr; walkN(T.root, [&](const N& m) { if (m.k == N::LEAF && m.input && m.ev == (int)k) at = &m; });
            if (at && x.calls == k + 1 && (x.err == CND_ERR_VALIDATION || x.err == CND_ERR_ARITHMETIC)) {
                Render q{s, false}; n.u = v; n.flt = false; q.target = at; q.repl = numText(s, n, false); std::string t = show(q, T.root);
                say(c, "forbidden value"); encodeBad(c, f, t, "forbidden value"); c.count("forbidden_value");
            }
        }
    }
    // damaged messages
    if (s.chance(1, 2)) {
        std::vector<uint8_t> m = mutate(s, r.bytes); RefOpts q; RefResult e = refDecode(S, m, q);
        if (!e.undef) {
            write_file(f.bin, m); unlink(f.out.c_str()); Ran x = cli(c, {"decode", f.il, f.bin, f.out});
            if (e.err && x.rc == 0) c.fail("decode-accepted", "corrupt message " + hexs(m) + " accepted; the library says " + errName(e.err));
            c.count(e.err ? "bad_message" : "other_message");
            Tree U = treeOf(e.ev, eofName); bool texts = true; walkN(U.root, [&](const N& n) { if (isStr(n.op) && (!utf8Valid(n.data) || n.data.find('\0') != std::string::npos)) texts = false; });
            if (!e.err && U.usable && texts) {
                if (x.rc) c.fail("decode-rejected", "message " + hexs(m) + " rejected: " + x.out + x.err);
                std::string got = read_file(f.out); J j; std::string bad = jsonParse(got, j); size_t h = 0; if (bad.empty()) bad = cmpJ(U.root, j, "$", eofName, false, &h);
                if (!bad.empty()) c.fail("decode-value", "message " + hexs(m) + ": " + bad + " in " + showText(got));
                c.count("decoded");
            }
        }
    }
    // files that are not what they should be
    if (s.chance(1, 20)) {
        std::vector<std::string> bad = {c.scratch + "/none", c.scratch}; std::string b = bad[s.draw(1)]; write_file(f.json, "{}"); write_file(f.bin, r.bytes);
        std::vector<std::vector<std::string>> cmds = {{"encode", b, f.json, f.out}, {"encode", f.il, b, f.out}, {"encode", f.il, f.json, c.scratch + "/no/dir"}, {"decode", b, f.bin, f.out}, {"decode", f.il, b, f.out}, {"decode", f.il, f.bin, c.scratch + "/no/dir"}, {"decode", f.json, f.bin, f.out}, {"encode", f.bin, f.json, f.out}};
        auto& a = cmds[s.draw(cmds.size() - 1)]; if (a[2] != f.json || a[0] == "decode") { { Render q{s, false}; write_file(f.json, show(q, T.root)); } if (a[0] == "decode" && a[1] == f.json) {} if (a[1] == f.bin && r.bytes.size() >= 16) return; Ran x = cli(c, a); if (x.rc == 0) c.fail("bad-file", a[0] + " " + a[1] + " " + a[2] + " " + a[3] + " succeeds"); c.count("bad_file"); }
    }
}
static Reg r23({"C23", "Generated schemas are compiled; generated values are encoded by the reference codec and laid out as a JSON document. The real encode command must turn that document (random member order, white space, escapes, number notation and extra members) into exactly the reference bytes, and the real decode command (with and without --hex) must print exactly that document; documents with a value of a wrong type, size or number of elements, values that a rule of the schema forbids (the library decides), damaged JSON text, messages for which the reference codec reports an error, and missing or wrong files must make the command fail without a sanitizer report. Non-trivial: a document of at least two values; distinct by schema text and bytes.", c23, 6000, 120000});

// ---------------------------------------------------------------- C24
static const char* opName(int op) {
    static const struct { int op; const char* n; } T[] = {
#include "opnames.inc"
    };
    for (auto& t : T) if (t.op == op) return t.n;
    return nullptr;
}
static std::vector<std::string> linesOf(const std::string& t) { std::vector<std::string> r; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size(); r.push_back(t.substr(i, e - i)); i = e + 1; } return r; }
// What an operand label of the listing must say, if the listing prints it
static std::map<std::string, std::string> operandsOf(const std::vector<uint8_t>& b, size_t ip) {
    std::map<std::string, std::string> m; int op = b[ip]; auto u16 = [&](size_t i) { return strf("%u", (unsigned)(b[i] | b[i + 1] << 8)); };
    bool keyed = op == OP_ENTER_STRUCT || op == OP_CTX_QUERY || op == OP_META_NAME || (op >= OP_IO_U8 && op <= OP_IO_BOOL) || (op >= OP_IO_BIT_U && op <= OP_IO_BIT_BOOL) || (op >= OP_STR_NULL && op <= OP_ARR_PRE_U32) || op == OP_RAW_BYTES || op == OP_ARR_EOF || op == OP_ARR_DYNAMIC || op == OP_CONST_CHECK || op == OP_SWITCH || op == OP_SWITCH_TABLE || op == OP_LOAD_CTX || op == OP_STORE_CTX;
    if (keyed) m["KeyID"] = u16(ip + 1);
    if (op == OP_META_VERSION) m["Ver"] = strf("%u", b[ip + 1]);
    if (op == OP_STR_NULL) m["MaxLen"] = u16(ip + 3);
    if (op == OP_IO_BIT_U || op == OP_IO_BIT_I) m["Bits"] = strf("%u", b[ip + 3]);
    if (op == OP_ARR_FIXED || op == OP_RAW_BYTES) m["Count"] = strf("%u", g32(b, ip + 3));
    if (op == OP_ARR_DYNAMIC) m["RefKeyID"] = u16(ip + 3);
    if (op >= OP_TRANS_ADD && op <= OP_TRANS_DIV) m["Val"] = strf("%lld", (long long)g64(b, ip + 1));
    if (op == OP_TRANS_POLY || op == OP_TRANS_SPLINE) m["Count"] = strf("%u", b[ip + 1]);
    if (op == OP_CRC_16) { m["Poly"] = strf("0x%04X", b[ip + 1] | b[ip + 2] << 8); m["Init"] = strf("0x%04X", b[ip + 3] | b[ip + 4] << 8); m["Xor"] = strf("0x%04X", b[ip + 5] | b[ip + 6] << 8); m["Flags"] = strf("%u", b[ip + 7]); }
    if (op == OP_CRC_32) { m["Poly"] = strf("0x%08X", g32(b, ip + 1)); m["Init"] = strf("0x%08X", g32(b, ip + 5)); m["Xor"] = strf("0x%08X", g32(b, ip + 9)); m["Flags"] = strf("%u", b[ip + 13]); }
    if (op == OP_SWITCH || op == OP_SWITCH_TABLE) m["TableOff"] = strf("%u", g32(b, ip + 3));
    if (op == OP_JUMP || op == OP_JUMP_IF_NOT) m["Offset"] = strf("%d", (int32_t)g32(b, ip + 1));
    if (op == OP_PUSH_IMM) m["Val"] = strf("%llu", (unsigned long long)g64(b, ip + 1));
    int t = op == OP_CONST_CHECK ? 3 : 1;
    if (op == OP_CONST_CHECK || op == OP_CONST_WRITE || op == OP_RANGE_CHECK || op == OP_ENUM_CHECK || op == OP_EMIT) { const char* n = opName(b[ip + t]); if (n) m["Type"] = n; }
    if (op == OP_ENUM_CHECK) m["Count"] = u16(ip + 2);
    auto value = [&](int ty, size_t i) -> std::string { // integers only
        switch (ty) { case OP_IO_U8: case OP_IO_BOOL: return strf("%u", b[i]); case OP_IO_I8: return strf("%d", (int8_t)b[i]); case OP_IO_U16: return u16(i); case OP_IO_I16: return strf("%d", (int16_t)(b[i] | b[i + 1] << 8));
            case OP_IO_U32: return strf("%u", g32(b, i)); case OP_IO_I32: return strf("%d", (int32_t)g32(b, i)); case OP_IO_U64: return strf("%llu", (unsigned long long)g64(b, i)); case OP_IO_I64: return strf("%lld", (long long)g64(b, i)); default: return ""; } };
    auto size = [](int ty) { return ty == OP_IO_U8 || ty == OP_IO_I8 || ty == OP_IO_BOOL ? 1 : ty == OP_IO_U16 || ty == OP_IO_I16 ? 2 : ty == OP_IO_U32 || ty == OP_IO_I32 ? 4 : ty == OP_IO_U64 || ty == OP_IO_I64 ? 8 : 0; };
    auto dbl = [&](size_t i) { double d; uint64_t u = g64(b, i); memcpy(&d, &u, 8); return strf("%f", d); };
    if (op == OP_SCALE_LIN) { m["Factor"] = dbl(ip + 1); m["Offset"] = dbl(ip + 9); }
    if (op == OP_TRANS_POLY) { std::string v = "["; for (int i = 0; i < b[ip + 1]; i++) v += (i ? ", " : "") + dbl(ip + 2 + 8 * (size_t)i); m["Coeffs"] = v + "]"; }
    if (op == OP_TRANS_SPLINE) { std::string v = "["; for (int i = 0; i < b[ip + 1]; i++) v += (i ? ", (" : "(") + dbl(ip + 2 + 16 * (size_t)i) + ", " + dbl(ip + 10 + 16 * (size_t)i) + ")"; m["Points"] = v + "]"; }
    if (op == OP_ALIGN_PAD || op == OP_ALIGN_FILL) m["Align"] = strf("%u", b[ip + 1]);
    if (op == OP_CONST_CHECK || op == OP_CONST_WRITE) { std::string v = value(b[ip + t], ip + t + 1); if (!v.empty()) m["Val"] = v; }
    if (op == OP_RANGE_CHECK) { int z = size(b[ip + 1]); if (z) m["Range"] = "[" + value(b[ip + 1], ip + 2) + ", " + value(b[ip + 1], ip + 2 + z) + "]"; }
    if (op == OP_ENUM_CHECK) { int z = size(b[ip + 1]); if (z) { std::string v = "["; int n = b[ip + 2] | b[ip + 3] << 8; for (int i = 0; i < n; i++) v += (i ? ", " : "") + value(b[ip + 1], ip + 4 + (size_t)i * z); m["Values"] = v + "]"; } }
    return m;
}
// Numbers may be printed with six digits
static bool sameOperand(const std::string& got, const std::string& want) {
    if (got == want) return true; if (want.find('.') == std::string::npos) return false;
    auto split = [](const std::string& t) { std::vector<std::string> r(1); for (char ch : t) if (strchr("[](), ", ch)) { if (!r.back().empty()) r.emplace_back(); } else r.back() += ch; if (r.back().empty()) r.pop_back(); return r; };
    auto a = split(got), b = split(want); if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) { char *e, *f; double x = strtod(a[i].c_str(), &e), y = strtod(b[i].c_str(), &f); if (*e || *f) return false; if (!(x == y || (x != x && y != y) || fabs(x - y) <= 1e-6 + 1e-5 * fabs(y))) return false; }
    return true;
}
// The jump table of a switch instruction
static void checkTable(Case& c, const std::string& l, const std::vector<uint8_t>& b, size_t sw) {
    size_t t = sw + 7 + g32(b, sw + 3); std::vector<std::string> want, got; std::string cur;
    if (t + 2 > b.size()) return;
    auto i32 = [&](size_t i) { want.push_back(strf("%d", (int32_t)g32(b, i))); };
    if (b[sw] == OP_SWITCH) { unsigned n = b[t] | b[t + 1] << 8; if (t + 6 + 12 * (size_t)n > b.size()) return; want.push_back(strf("%u", n)); i32(t + 2); for (unsigned k = 0; k < n; k++) { want.push_back(strf("%llu", (unsigned long long)g64(b, t + 6 + 12 * (size_t)k))); i32(t + 14 + 12 * (size_t)k); } }
    else { if (t + 20 > b.size()) return; uint64_t lo = g64(b, t), hi = g64(b, t + 8); if (hi < lo || (hi - lo) >= (b.size() - t - 20) / 4) return; want.push_back(strf("%llu", (unsigned long long)lo)); want.push_back(strf("%llu", (unsigned long long)hi)); for (uint64_t k = 0; k <= hi - lo + 1; k++) i32(t + 16 + 4 * (size_t)k); }
    for (size_t i = l.find("table)"); i < l.size(); i++) if (isdigit((unsigned char)l[i]) || (l[i] == '-' && cur.empty())) cur += l[i]; else if (!cur.empty()) { got.push_back(cur); cur.clear(); }
    if (!cur.empty()) got.push_back(cur);
    if (!got.empty() && got != want) c.fail("table", strf("jump table of the switch at %04zX listed as: ", sw) + l.substr(0, 600));
}
// The listing of a program of known, complete instructions
static void checkListing(Case& c, const std::string& out, const std::vector<std::string>& strings, const std::vector<uint8_t>& b, const Layout& L) {
    std::vector<std::string> ls = linesOf(out), names; size_t k = 0, i = 0;
    for (; i < ls.size() && ls[i].find("String Table ---") == std::string::npos; i++) {}
    for (; i < ls.size() && ls[i].find("Bytecode ---") == std::string::npos; i++) if (ls[i][0] == '[') { size_t p = ls[i].find("] "); if (p != std::string::npos) { if (ls[i].substr(1, p - 1) != std::to_string(names.size())) c.fail("string-number", "string listed as " + ls[i]); names.push_back(ls[i].substr(p + 2)); } }
    if (names != strings) c.fail("strings", strf("%zu strings listed, the program has %zu:\n", names.size(), strings.size()) + out.substr(0, 3000));
    for (; i < ls.size(); i++) {
        const std::string& l = ls[i]; size_t p = l.find(": "); if (p == std::string::npos || p < 4 || l.find_first_not_of("0123456789ABCDEFabcdef") != p) continue;
        if (l.find("(jump table)") != std::string::npos) { size_t at = std::stoul(l.substr(0, p), nullptr, 16), owner = 0, n = 0; for (size_t st : L.starts) if ((b[st] == OP_SWITCH || b[st] == OP_SWITCH_TABLE) && st + 7 + (size_t)g32(b, st + 3) == at) { owner = st; n++; } if (n == 1) { checkTable(c, l, b, owner); c.count("tables"); } continue; }
        size_t at = std::stoul(l.substr(0, p), nullptr, 16); std::string n = l.substr(p + 2); n = n.substr(0, n.find(' '));
        if (k >= L.starts.size()) c.fail("extra", "listed after the last instruction: " + l);
        const char* want = opName(b[L.starts[k]]); if (!want) want = "?";
        if (at != L.starts[k] || n != want) c.fail("instruction", strf("listed \"%s\", expected %s at %04zX\n", l.c_str(), want, L.starts[k]) + hexs(b, 600));
        for (auto& o : operandsOf(b, at)) {
            size_t q = l.find(" " + o.first + "="); if (q == std::string::npos) c.fail("operand", "no " + o.first + " in \"" + l + "\"");
            std::string v = l.substr(q + o.first.size() + 2); size_t e = v[0] == '[' ? v.find(']') : v.find(' '); if (e != std::string::npos) v = v.substr(0, v[0] == '[' ? e + 1 : e);
            if (!sameOperand(v, o.second)) c.fail("operand", strf("listed \"%s\", expected %s=%s", l.c_str(), o.first.c_str(), o.second.c_str()));
            if (l.find(" " + o.first + "=", q + 1) != std::string::npos) c.fail("operand", o.first + " listed twice: " + l);
        }
        static const char* labels[] = {"KeyID", "Ver", "MaxLen", "Bits", "Count", "RefKeyID", "Poly", "Init", "Xor", "Flags", "TableOff", "Factor", "Coeffs", "Points", "Align", "Type", "Val", "Range", "Values"};
        auto ops = operandsOf(b, at); bool typed = ops.count("Type") || b[at] == OP_RANGE_CHECK || b[at] == OP_ENUM_CHECK || b[at] == OP_CONST_CHECK || b[at] == OP_CONST_WRITE || b[at] == OP_EMIT;
        for (auto x : labels) if (!ops.count(x) && !typed && l.find(std::string(" ") + x + "=") != std::string::npos) c.fail("operand", strf("the instruction has no %s: ", x) + l);
        k++;
    }
    if (k != L.starts.size()) c.fail("incomplete", strf("%zu of %zu instructions listed, next is %s at %04zX\n", k, L.starts.size(), opName(b[L.starts[k]]) ? opName(b[L.starts[k]]) : "?", L.starts[k]) + out.substr(out.size() > 1500 ? out.size() - 1500 : 0));
}
static void c24(Case& c) {
    Src& s = c.s; std::vector<uint8_t> image; std::string path = c.scratch + "/s.il"; bool corrupt = true;
    auto inspect = [&]() { write_file(path, image); return cli(c, {"inspect", path}); };
    size_t kind = s.weighted({5, 2, 1, 1});
    if (kind == 0) {
        Feat F = withBig(featFor(s), 1 | 8 | 16 | 32 | 64); F.optional = s.chance(1, 3); F.focus = s.chance(1, 3) ? FO_CTRL : F.focus; Gen g(s, F); Schema S = g.schema(); std::string text = render(S), log; Program P;
        if (s.chance(1, 8)) { // a switch with many cases
            size_t n = 30 + s.draw(400), step = s.chance(1, 2) ? 1 : 1 + s.draw(1000000); text = "packet Big { uint32 k; switch (k) {"; for (size_t i = 0; i < n; i++) text += strf(" case %zu: uint8 f%zu;", i * step, i); text += s.chance(1, 2) ? " default: uint16 d; } uint8 after; }" : " } }"; c.count("large_switch");
        }
        c.desc = text; c.mix(text); note(c);
        if (compileText(c.scratch, text, P, &log)) c.fail("compile-rejected", log);
        std::vector<uint8_t> b(P.p.bytecode, P.p.bytecode + P.p.bytecode_len); Layout L; if (!walk(b, L)) c.fail("walk", "compiled bytecode is not a sequence of known instructions: " + hexs(b, 800));
        image = P.il; std::vector<std::string> strings; size_t n = image[6] | image[7] << 8, at = g32(image, 8);
        for (size_t i = 0; i < n; i++) { strings.push_back((const char*)image.data() + at); at += strings.back().size() + 1; }
        Ran r = inspect(); if (r.rc) c.fail("rejected", strf("inspect of a compiled program exits with %d: ", r.rc) + r.out.substr(0, 500) + r.err);
        checkListing(c, r.out, strings, b, L); c.count("program"); if (L.starts.size() > 5) c.nontrivial = true; if (!L.tables.empty()) c.count("program_with_table");
        corrupt = s.chance(1, 2);
    } else if (kind == 1) { // any instructions behind a well-formed header
        std::vector<uint8_t> b; size_t n = 1 + s.draw(40); for (size_t i = 0; i < n; i++) genInstr(s, b); if (s.chance(1, 5)) b.resize(s.draw(b.size()));
        std::vector<std::string> strings; size_t ns = s.draw(5); for (size_t i = 0; i < ns; i++) strings.push_back(strf("name%zu", i));
        image = {'C', 'N', 'D', 'I', 'L', 1, (uint8_t)ns, 0, 16, 0, 0, 0, 0, 0, 0, 0}; for (auto& x : strings) { image.insert(image.end(), x.begin(), x.end()); image.push_back(0); }
        image[12] = (uint8_t)image.size(); image.insert(image.end(), b.begin(), b.end()); c.desc = "image " + hexs(image, 2000); c.mix(image); note(c);
        Ran r = inspect(); Layout L; if (b.empty()) return;
        if (walk(b, L)) { if (r.rc) c.fail("rejected", strf("exit %d: ", r.rc) + r.out + r.err); checkListing(c, r.out, strings, b, L); c.count("instructions"); c.nontrivial = true; } else c.count("bad_instructions");
        corrupt = s.chance(1, 3);
    } else if (kind == 2) { image = {'C', 'N', 'D', 'I', 'L'}; size_t n = s.draw(200); for (size_t i = 0; i < n; i++) image.push_back((uint8_t)(s.chance(1, 3) ? s.draw(255) : s.draw(20))); if (s.chance(1, 5)) image.resize(s.draw(image.size())); c.count("random_file"); c.nontrivial = n > 20; c.mix(image); }
    else {
        std::vector<std::vector<std::string>> cmds = {{"inspect", c.scratch + "/none"}, {"inspect", c.scratch}, {"inspect"}, {"inspect", "/dev/null"}, {"inspect", ""}};
        auto& a = cmds[s.draw(4)]; Ran r = cli(c, a); if (r.rc == 0) c.fail("bad-file", "inspect of a missing or empty file succeeds"); c.count("no_file"); return;
    }
    if (!corrupt) return;
    size_t n = 1 + s.draw(3);
    for (size_t i = 0; i < n && !image.empty(); i++) switch (s.draw(5)) {
        case 0: image = mutate(s, image); break;
        case 1: image.resize(s.draw(image.size())); break;
        case 2: if (image.size() >= 16) { size_t at = 6 + s.draw(9); image[at] = (uint8_t)(s.chance(1, 2) ? 255 : s.draw(255)); } break; // header
        case 3: if (image.size() >= 16) { uint32_t v = (uint32_t)(s.chance(1, 2) ? image.size() - 1 - s.draw(image.size() - 1) : s.u64()); size_t at = s.chance(1, 2) ? 8 : 12; for (int k = 0; k < 4; k++) image[at + k] = (uint8_t)(v >> 8 * k); } break;
        case 4: image[s.draw(image.size() - 1)] = (uint8_t)s.draw(255); break;
        default: for (auto& x : image) if (x == OP_SWITCH || x == OP_SWITCH_TABLE) { if (s.chance(1, 3)) x = OP_SWITCH + OP_SWITCH_TABLE - x; }
    }
    say(c, "corrupt " + hexs(image, 4000)); inspect(); c.count("corrupt");
}
static Reg r24({"C24", "Generated schemas (also switches of up to 430 cases), and images of generated instructions of every opcode behind a well-formed header: the real inspect command must list exactly the strings of the image and, for an independent walk over the bytecode, every instruction at its position with its name and key and the right values of the operands it prints, leaving out jump tables. The same images with bits, bytes, header fields or lengths changed, random files, and missing or empty files must end within 20 s without a sanitizer report. Non-trivial: a program of more than 5 instructions, or a random file of more than 20 bytes; distinct by schema text or image.", c24, 16000, 300000});
