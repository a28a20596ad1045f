// The generator of language constants, compared with an independent model of headers.
#include "cli.h"
#include "util.h"
#include <sys/stat.h>
#include <unistd.h>

namespace {
struct Const { std::string name; long long v; };
typedef std::vector<Const> Consts;
// The name a constant has in the generated code, and its group
bool generated(const std::string& n, std::string& group, std::string& out) {
    static const char* T[][3] = {{"OP_", "OpCode", "Op"}, {"CND_ERR_", "Error", "Err"}, {"CND_MODE_", "Mode", "Mode"}, {"CND_TRANS_", "Trans", "Trans"}, {"CND_LE", "", ""}, {"CND_BE", "", ""}};
    for (auto& t : T) if (n.compare(0, strlen(t[0]), t[0]) == 0) {
        group = t[1]; out = t[2]; std::string rest = n.substr(*t[1] ? strlen(t[0]) : 4), w; rest += "_";
        for (char ch : rest) { if (ch != '_') { w += ch; continue; } if (w == "OOB" || w == "CRC" || w == "ID" || w == "VM") out += w; else for (size_t i = 0; i < w.size(); i++) out += (char)(i ? tolower((unsigned char)w[i]) : toupper((unsigned char)w[i])); w.clear(); }
        return true;
    }
    return false;
}
typedef std::set<std::string> Lines; // "group name value"
bool number(const std::string& t, long long& v) { // as Go, Python and TypeScript read it
    size_t i = !t.empty() && t[0] == '-'; if (i >= t.size() || !isdigit((unsigned char)t[i])) return false;
    if (t[i] == '0' && t.size() > i + 1 && isdigit((unsigned char)t[i + 1])) return false;
    char* e; v = strtoll(t.c_str(), &e, 0); return !*e;
}
Lines expected(const Consts& C, const std::string& lang) {
    Lines L; std::string g, n; for (auto& k : C) if (generated(k.name, g, n) && (lang == "go" || !g.empty())) L.insert(g + " " + n + strf(" %lld", k.v)); return L;
}
std::string trim(std::string t) { while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back(); size_t i = 0; while (i < t.size() && isspace((unsigned char)t[i])) i++; return t.substr(i); }
// Reads generated code. Returns what is wrong.
std::string parseOut(const std::string& t, const std::string& lang, Lines& L) {
    std::istringstream in(t); std::string l, group; bool open = false, imported = false; long members = -1; std::set<std::string> seen;
    while (std::getline(in, l)) {
        std::string x = trim(l); if (x.empty() || x.compare(0, 2, "//") == 0 || x[0] == '#') continue;
        if (lang == "go") {
            if (x == "const (") { if (open) return "nested const"; open = true; continue; }
            if (x == ")") { if (!open) return "stray )"; open = false; continue; }
            if (!open) { if (x.compare(0, 8, "package ") && x.compare(0, 5, "type ")) return "unexpected line " + x; continue; }
            std::istringstream w(x); std::vector<std::string> p; std::string q; while (w >> q) p.push_back(q);
            long long v; if (p.size() == 4 && p[2] == "=" && number(p[3], v)) group = p[1]; else if (p.size() == 3 && p[1] == "=" && number(p[2], v)) group = ""; else return "not a constant: " + x;
            if (!seen.insert(p[0]).second) return "declared twice: " + p[0];
            L.insert(group + " " + p[0] + strf(" %lld", v));
        } else {
            if (lang == "python" && x.compare(0, 6, "class ") == 0) { if (l[0] == ' ' || members == 0 || !imported || x.size() < 16 || x.compare(x.size() - 10, 10, "(IntEnum):")) return "not a class, or one without members: " + x; members = 0; group = x.substr(6, x.find('(') - 6); continue; }
            if (lang == "python" && x.compare(0, 5, "from ") == 0) { imported = x == "from enum import IntEnum"; continue; } if (lang == "python" && l.compare(0, 4, "    ")) return "not indented: " + l; members++;
            if (lang == "ts" && x.compare(0, 12, "export enum ") == 0) { if (open || x.back() != '{') return "nested enum"; open = true; members = 0; group = x.substr(12, x.find(' ', 12) - 12); continue; }
            if (lang == "ts" && x == "}") { if (!open) return "stray }"; if (members == 1) return "an enum without members"; open = false; group.clear(); continue; }
            if (lang == "ts") { if (x.back() != ',') return "no comma: " + x; x.pop_back(); }
            size_t p = x.find(" = "); long long v; if (p == std::string::npos || !number(x.substr(p + 3), v) || group.empty()) return "not a constant: " + x;
            if (!seen.insert(group + "." + x.substr(0, p)).second) return "declared twice: " + x;
            L.insert(group + " " + x.substr(0, p) + strf(" %lld", v));
        }
    }
    if (members == 0 && lang == "python") return "a class without members"; return open ? "unterminated group" : "";
}
std::string diffLines(const Lines& a, const Lines& b) { std::string o; for (auto& x : a) if (!b.count(x)) o += "missing: " + x + "\n"; for (auto& x : b) if (!a.count(x)) o += "wrong: " + x + "\n"; return o.substr(0, 1500); }

Ran gen(Case& c, std::vector<std::string> args) {
    Ran r; args.insert(args.begin(), env("PBT_GEN")); r.rc = run_proc(args, "", r.out, r.err, 20, c.scratch);
    if (r.rc == 124) c.fail("hang", "the generator did not finish");
    if (r.rc >= 98 || r.err.find("Sanitizer") != std::string::npos || r.err.find("runtime error:") != std::string::npos) c.fail("crash", strf("exit %d, ", r.rc) + r.err.substr(0, 1500));
    return r;
}
// ---- generated headers
struct Header {
    Src& s; Consts C; std::string t; std::set<std::string> names; bool exotic = false; std::map<std::string, long long> all;
    explicit Header(Src& s_) : s(s_) {}
    const char* nl() { return crlf ? "\r\n" : "\n"; } bool crlf = false;
    std::string fresh(const std::string& prefix) {
        static const char* w[] = {"ADD", "CRC", "OOB", "ID", "VM", "IO", "U8", "A", "X1", "LONGER", "CRC16", "OK", "CRCX", "F64", "STR", "Z"};
        for (int tries = 0;; tries++) { std::string n = prefix; size_t k = 1 + s.draw(2); for (size_t i = 0; i < k; i++) n += (i ? "_" : "") + std::string(w[s.draw(15)]); if (s.chance(1, 30)) n += std::string(1 + s.draw(230), 'Q'); std::string g, o; if (s.chance(1, 3) || names.size() > 30 || tries) n += strf("_N%zu", names.size()); bool k2 = generated(n, g, o); if (!all.count(n) && names.insert(k2 ? g + o : n).second) return n; }
    }
    std::string blanks() { return s.chance(1, 4) ? (s.chance(1, 2) ? "\t" : "   ") : " "; }
    std::string comment() { static const char* x[] = {"Unknown Opcode", "a = 5, b", "0x12", "don't", "CND_ERR_NOT = 3,", "#define OP_NOT 0x7", "\"quoted", "* / //", "enum { X"}; std::string b = x[s.draw(8)]; return s.chance(1, 2) ? "// " + b : "/* " + b + " */"; }
    std::string lit(long long v) {
        std::string x; switch (s.weighted({4, 4, 1, 1})) { case 0: x = strf("%lld", v); break; case 1: x = v < 0 ? strf("%lld", v) : strf(s.chance(1, 2) ? "0x%02llX" : "0x%llx", v); break; case 2: x = v < 0 ? strf("%lld", v) : strf("%lldu", v); exotic = true; break; default: x = v <= 0 ? strf("%lld", v) : strf("0%llo", v); exotic = true; }
        if (s.chance(1, 12)) { x = "(" + x + ")"; exotic = true; }
        return x;
    }
    void junk() {
        switch (s.draw(9)) {
            case 0: t += "// #define OP_GONE 0x33"; break;
            case 1: t += std::string("/*") + nl() + "#define OP_OLD 0x44" + nl() + "    CND_ERR_OLD = 9," + nl() + "typedef enum { CND_MODE_OLD = 5 };" + nl() + "*/"; break;
            case 2: t += "#define CND_VERSION 3"; break;
            case 3: t += "#ifdef __cplusplus"; t += nl(); t += "#endif"; break;
            case 4: t += "cnd_error_t cnd_execute(cnd_vm_ctx* ctx, uint8_t op);"; break;
            case 5: t += "typedef struct { uint8_t op; cnd_error_t last; } cnd_x;"; break;
            case 6: t += "#define OP_IS_IO(op) ((op) >= 0x10 && (op) <= 0x1A)"; exotic = true; break;
            case 7: t += "#include <stdint.h>"; break;
            case 8: t += std::string(1 + s.draw(3000), '/'); break;
            default: t += "enum cnd_mode use_of_a_name(void);"; break;
        }
        t += nl();
    }
    void define() {
        std::string n = fresh("OP_"); long long v = (long long)s.draw(s.chance(1, 4) ? 3 : 255); std::string val = lit(v);
        if (!C.empty() && s.chance(1, 15)) { const Const& o = C[s.draw(C.size() - 1)]; if (o.name.compare(0, 3, "OP_") == 0) { val = o.name; v = o.v; exotic = true; } }
        std::string lead = s.chance(1, 10) ? (exotic = true, s.chance(1, 2) ? "  #define" : "#  define") : "#define";
        t += lead + blanks() + n + (s.chance(1, 20) ? (exotic = true, std::string("\t/* x */ ")) : blanks()) + val + (s.chance(1, 3) ? " " + comment() : s.chance(1, 10) ? "  " : "") + nl();
        C.push_back({n, v}); all[n] = v;
    }
    void enumeration() {
        static const char* P[] = {"CND_ERR_", "CND_MODE_", "CND_TRANS_", "CND_OTHER_"}; std::string p = P[s.weighted({5, 2, 2, 1})]; bool line = s.chance(1, 5), tdef = s.chance(3, 4); if (line) exotic = true;
        t += tdef ? "typedef enum " : "enum "; if (!tdef || s.chance(1, 3)) t += strf("tag%zu ", names.size()); if (s.chance(1, 10)) { t += nl(); exotic = true; } t += "{"; t += line ? " " : nl();
        size_t n = 1 + s.draw(8); long long next = 0; bool first = true;
        for (size_t i = 0; i < n; i++) {
            std::string name = p == "CND_TRANS_" && s.chance(1, 6) && !all.count("CND_LE") ? "CND_LE" : fresh(p); std::string g, o; if (name == "CND_LE") { generated(name, g, o); names.insert(g + o); }
            bool imp = s.chance(2, 5); long long v = next; std::string txt = name;
            if (!imp) { v = s.chance(1, 3) ? next + (long long)s.draw(5) : s.chance(1, 6) ? -1 - (long long)s.draw(5) : (long long)s.draw(300); std::string val = lit(v); if (s.chance(1, 12) && !first) { val = C.back().name; v = C.back().v; exotic = true; } txt += (s.chance(1, 8) ? "=" : " = ") + val; }
            bool last = i + 1 == n; if (!last || s.chance(1, 3)) txt += ",";
            if (!line && s.chance(1, 20)) { exotic = true; if (s.chance(1, 2)) { t += s.chance(1, 2) ? "#if 1" : "#ifndef NOT"; t += nl(); t += "#endif"; t += nl(); } else define(); }
            if (line) t += txt + " "; else { if (s.chance(1, 12)) t += "    " + comment() + nl(); t += (s.chance(1, 8) ? "\t" : "    ") + txt + (s.chance(1, 3) ? " " + comment() : "") + nl(); if (s.chance(1, 15)) t += nl(); }
            C.push_back({name, v}); all[name] = v; next = v + 1; first = false;
        }
        t += tdef ? strf("} name%zu_t;", names.size()) : "};"; t += nl();
    }
    void run() {
        crlf = s.chance(1, 8); if (s.chance(1, 2)) { t += "#ifndef H"; t += nl(); t += "#define H"; t += nl(); }
        if (s.chance(1, 60)) { size_t k = 1 + s.draw(3); for (size_t i = 0; i < k; i++) { t += "/* " + std::string(s.chance(1, 2) ? 65576 - t.size() % 65536 - s.draw(40) : s.draw(70000), 'x') + " */"; t += nl(); } }
        size_t n = 1 + s.draw(s.chance(1, 12) ? 400 : 25); for (size_t i = 0; i < n; i++) switch (s.weighted({6, 2, 3})) { case 0: define(); break; case 1: enumeration(); break; default: junk(); }
        if (s.chance(1, 2)) { t += "#endif"; if (s.chance(2, 3)) t += nl(); }
        // a comment in the name position of a line must not hide what follows; nothing else may follow
    }
};
// The shipped header, read line by line
struct Item { std::string line, name; long long v = 0; int kind = 0; }; // 1 define, 2 enumerator, 3 start of an enum, 4 end
std::vector<Item> shipped(Case& c) {
    std::string h = read_file(env("PBT_REPO") + "/include/concordia.h"); if (h.empty()) c.fail("header", "the header cannot be read"); std::istringstream in(h); std::string l; std::vector<Item> r; bool inEnum = false;
    while (std::getline(in, l)) {
        Item it; it.line = l; std::string x = l.substr(0, l.find("//")); std::istringstream w(x); std::string a, b, d; w >> a >> b >> d;
        if (a == "#define" && b.compare(0, 3, "OP_") == 0 && !d.empty()) { it.kind = 1; it.name = b; it.v = strtoll(d.c_str(), nullptr, 0); }
        else if (x.find("enum") != std::string::npos && x.find('{') != std::string::npos) { inEnum = true; it.kind = 3; }
        else if (inEnum && x.find('}') != std::string::npos) { inEnum = false; it.kind = 4; }
        else if (inEnum && a.compare(0, 4, "CND_") == 0) { it.kind = 2; it.name = a.substr(0, a.find(',')); it.v = b == "=" ? strtoll(d.c_str(), nullptr, 0) : -999; }
        r.push_back(it);
    }
    return r;
}
Consts constsOf(const std::vector<Item>& v) { Consts C; long long next = 0; for (auto& i : v) { if (i.kind == 3) next = 0; if (i.kind == 1) C.push_back({i.name, i.v}); if (i.kind == 2) { long long x = i.v == -999 ? next : i.v; C.push_back({i.name, x}); next = x + 1; } } return C; }
} // namespace
static void c27(Case& c) {
    Src& s = c.s; std::string path = c.scratch + "/h.h", text; Consts C; static const char* LANG[] = {"go", "python", "ts"}; std::string lang = LANG[s.draw(2)];
    size_t kind = s.weighted({8, 5, 1, 2, 1});
    if (kind == 0) { Header H(s); H.run(); text = H.t; C = H.C; c.count(H.exotic ? "header_varied" : "header_plain"); }
    else if (kind == 1) { // the shipped header with changes
        std::vector<Item> v = shipped(c); size_t n = s.draw(6); std::set<std::string> used;
        for (size_t k = 0; k < n; k++) {
            std::vector<size_t> at; for (size_t i = 0; i < v.size(); i++) if (v[i].kind == 1 || v[i].kind == 2) at.push_back(i); if (at.empty()) break; size_t i = at[s.draw(at.size() - 1)]; Item& x = v[i];
            switch (s.draw(4)) {
                case 0: x.kind = 0; x.line = ""; break;
                case 1: x.v = (long long)s.draw(255); x.line = x.kind == 1 ? "#define " + x.name + strf(s.chance(1, 2) ? " 0x%02llX" : " %lld", x.v) : "    " + x.name + strf(" = %lld,", x.v); break;
                case 2: x.kind = 0; x.line = s.chance(1, 2) ? "// " + x.line : x.line.find("//") == std::string::npos ? "/* " + x.line + " */" : "//" + x.line; break;
                case 3: { std::string nm = strf("%sADDED_N%zu", x.kind == 1 ? "OP_" : x.name.substr(0, x.name.find('_', 4) + 1).c_str(), k); if (x.kind == 2 && (x.name.size() < 8 || !used.insert(nm).second)) break; Item y; y.kind = x.kind; y.name = nm; y.v = (long long)s.draw(255); bool imp = y.kind == 2 && s.chance(1, 2) && i + 1 < v.size() && v[i + 1].kind == 2; if (imp) y.v = -999; y.line = y.kind == 1 ? "#define " + nm + strf(" %lld", y.v) : "    " + nm + (imp ? "," : strf(" = %lld,", y.v)); v.insert(v.begin() + (long)i, y); break; }
                default: if (x.kind == 1) { v.push_back(x); x.kind = 0; x.line = ""; } break; // moved to the end
            }
        }
        for (auto& i : v) text += i.line + "\n"; C = constsOf(v); c.count("shipped_changed");
        if (!n) { // the constants that are shipped
            Lines got, want = expected(C, "go"); std::string t = read_file(env("PBT_REPO") + "/go/consts.go"), bad = parseOut(t, "go", got); if (!bad.empty()) c.fail("consts", bad);
            if (got != want) c.fail("consts", "go/consts.go does not agree with the header:\n" + diffLines(want, got)); c.count("shipped"); c.nontrivial = true;
            Ran r = gen(c, {env("PBT_REPO") + "/include/concordia.h"}); Lines g2; if (r.rc || !parseOut(r.out, "go", g2).empty() || g2 != want) c.fail("generator", "the default output for the shipped header is wrong:\n" + diffLines(want, g2));
        }
    } else if (kind == 2) { // not a header
        std::string bad[] = {c.scratch + "/none.h", c.scratch, c.scratch + "/none/h.h"}; Ran r = gen(c, {bad[s.draw(2)], lang}); if (r.rc == 0) c.fail("unreadable", "a header that cannot be read is not reported; output: " + r.out.substr(0, 500)); c.count("unreadable");
        write_file(path, std::string("#define OP_A 1\n")); if (gen(c, {path, "cobol"}).rc == 0) c.fail("language", "an unknown language is accepted"); if (gen(c, {}).rc == 0) c.fail("usage", "no arguments accepted"); return;
    } else if (kind == 3) { // a value that is no literal: the right value or an error
        static const struct { const char* t; long long v; } X[] = {{"(1 + 2)", 3}, {"1 << 3", 8}, {"(0x10 | 2)", 18}, {"0x10 + 1", 17}, {"'A'", 65}, {"~0", -1}, {"(1) + (2)", 3}, {"0x", -12345}, {"sizeof(int)", 4}, {"OP_UNKNOWN", -12345}}; auto& x = X[s.draw(9)];
        bool e = s.chance(1, 2); text = e ? std::string("typedef enum {\n    CND_ERR_OK = 0,\n    CND_ERR_B = ") + x.t + ",\n    CND_ERR_C\n} e;\n" : std::string("#define OP_A 1\n#define OP_B ") + x.t + "\n"; C = e ? Consts{{"CND_ERR_OK", 0}, {"CND_ERR_B", x.v}, {"CND_ERR_C", x.v + 1}} : Consts{{"OP_A", 1}, {"OP_B", x.v}};
        c.desc = text; c.mix(text); note(c); write_file(path, text); Ran r = gen(c, {path, lang}); c.count("expression_value"); if (r.rc) return;
        Lines got; std::string bad = parseOut(r.out, lang, got); if (!bad.empty() || got != expected(C, lang)) c.fail("expression", "a value that is an expression gives a wrong constant:\n" + r.out); return;
    } else { text = s.chance(1, 2) ? soup(s, s.draw(300)) : read_file(env("PBT_REPO") + "/include/concordia.h"); size_t n = 1 + s.draw(5); for (size_t i = 0; i < n && !text.empty(); i++) { size_t p = s.draw(text.size() - 1); switch (s.draw(2)) { case 0: text[p] = (char)s.draw(255); break; case 1: text.erase(p, 1 + s.draw(50)); break; default: text.insert(p, std::string(s.draw(2000), (char)s.draw(255))); } } c.desc = "damaged " + showText(text, 6000); c.mix(text); note(c); write_file(path, text); gen(c, {path, lang}); c.count("damaged"); return; }
    c.desc = lang + "\n" + text; c.mix(lang + text); note(c); if (C.size() >= 3) c.nontrivial = true;
    write_file(path, text); Ran r = gen(c, lang == "go" && s.chance(1, 3) ? std::vector<std::string>{path} : std::vector<std::string>{path, lang});
    if (r.rc) c.fail("rejected", strf("exit %d: ", r.rc) + r.err);
    Lines got; std::string bad = parseOut(r.out, lang, got); if (!bad.empty()) c.fail("output", bad + "\n" + r.out.substr(0, 3000));
    Lines want = expected(C, lang); if (got != want) c.fail("constants", diffLines(want, got));
}
static Reg r27({"C27", "Generated headers (up to 400 definitions: opcode defines and enums with explicit and implicit values, decimal, hexadecimal, octal and suffixed literals, references, long names, line and block comments that contain definitions, varied layout and line ends) and the shipped header with definitions removed, renumbered, commented out, added and moved, through the real generator in all three languages: the parsed output must be exactly the expected set of names, groups and values. The shipped Go constants are compared with the header. Values that are expressions must give the right value or an error, unreadable headers and unknown languages an error, damaged headers no crash. Non-trivial: at least 3 constants; distinct by language and header text.", c27, 30000, 400000});
