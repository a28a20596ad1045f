// Properties of the compiler and formatter as text processors: survival,
// layout independence, naming, determinism, reporting, formatting.
#include "cnd.h"
#include "json.h"
#include "util.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

// Runs cnd_compile_file with everything it prints captured.
int runCompile(const std::string& in, const std::string& outp, bool json, bool verbose, std::string& log, const std::string& dir) {
    static int keep = -1; if (keep < 0) keep = fcntl(1, F_DUPFD_CLOEXEC, 10);
    std::string lp = dir + "/compile.log"; int fd = open(lp.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    fflush(stdout); dup2(fd, 1); close(fd);
    int rc = cnd_compile_file(in.c_str(), outp.c_str(), json, verbose);
    fflush(stdout); dup2(keep, 1); log = read_file(lp);
    return rc;
}
bool exists(const std::string& p) { struct stat st; return lstat(p.c_str(), &st) == 0; }
std::string lower(std::string s) { for (auto& c : s) c = (char)tolower((unsigned char)c); return s; }
static std::string cut(const std::string& s, size_t n = 1500) { return s.size() <= n ? s : s.substr(0, n) + strf("... (%zu bytes)", s.size()); }
static std::string vis(const std::string& s, size_t n = 1500) { std::string o; for (unsigned char ch : cut(s, n)) o += ch == '\n' || ch == '\t' || (ch >= 32 && ch < 127) ? std::string(1, (char)ch) : strf("\\x%02x", ch); return o; }
std::string showText(const std::string& s, size_t n) { return vis(s, n); }

// ---------------------------------------------------------------- tokens, as an independent scanner sees them
struct STok { char kind; std::string t; }; // c comment, s string, w word or number, p punctuation
static std::vector<STok> scan(const std::string& s) {
    std::vector<STok> o; size_t i = 0, n = s.size();
    while (i < n) {
        unsigned char ch = (unsigned char)s[i];
        if (ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n') { i++; continue; }
        size_t b = i;
        if (ch == '/' && i + 1 < n && s[i + 1] == '/') { while (i < n && s[i] != '\n') i++; std::string t = s.substr(b, i - b); while (!t.empty() && (t.back() == '\r' || t.back() == ' ' || t.back() == '\t')) t.pop_back(); o.push_back({'c', t}); continue; }
        if (ch == '/' && i + 1 < n && s[i + 1] == '*') { size_t e = s.find("*/", i + 2); i = e == std::string::npos ? n : e + 2; std::string t = s.substr(b, i - b); if (e == std::string::npos) while (isspace((unsigned char)t.back())) t.pop_back(); o.push_back({'c', t}); continue; }
        if (ch == '"') { size_t e = s.find('"', i + 1); i = e == std::string::npos ? n : e + 1; std::string t = s.substr(b, i - b); if (e == std::string::npos) while (isspace((unsigned char)t.back())) t.pop_back(); o.push_back({'s', t}); continue; }
        if (isalnum(ch) || ch == '_' || ch == '.') { while (i < n && (isalnum((unsigned char)s[i]) || s[i] == '_' || s[i] == '.')) i++; o.push_back({'w', s.substr(b, i - b)}); continue; }
        // neighbouring operator characters belong together
        static const std::string ops = "=!<>&|+-*/%^~"; if (ops.find((char)ch) != std::string::npos) { while (i < n && ops.find(s[i]) != std::string::npos && !(s[i] == '/' && i + 1 < n && (s[i + 1] == '/' || s[i + 1] == '*'))) i++; if (i == b) i++; o.push_back({'o', s.substr(b, i - b)}); continue; }
        o.push_back({'p', std::string(1, (char)ch)}); i++;
    }
    return o;
}
// Formatting may only change layout. Checks one text.
static void formatOracle(Case& c, const std::string& text, std::string* result = nullptr) {
    std::vector<char> z(text.begin(), text.end()); z.push_back(0);
    char* heap = (char*)malloc(z.size()); memcpy(heap, z.data(), z.size());
    char* f1 = nullptr; if (!limited(3000, [&]() { f1 = cnd_format_source(heap); })) c.fail("format-time", "formatting used more than 3 s");
    if (!f1) c.fail("format-null", "no result");
    if (memcmp(heap, z.data(), z.size())) c.fail("format-input", "formatting modified its input");
    std::string a = f1; free(f1); free(heap);
    auto t0 = scan(text), t1 = scan(a);
    for (size_t i = 0; i < t0.size() || i < t1.size(); i++) {
        if (i >= t0.size() || i >= t1.size() || t0[i].kind != t1[i].kind || t0[i].t != t1[i].t)
            c.fail(i < t0.size() && t0[i].kind == 'c' ? "format-comment" : "format-token", strf("token %zu: %s became %s\nformatted:\n%s", i, i < t0.size() ? vis(t0[i].t, 80).c_str() : "(none)", i < t1.size() ? vis(t1[i].t, 80).c_str() : "(none)", vis(a).c_str()));
    }
    char* f2 = cnd_format_source(a.c_str()); std::string b = f2 ? f2 : ""; free(f2);
    if (a != b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; c.fail("format-idempotent", strf("formatting twice differs from once at byte %zu\nonce:\n%s\ntwice:\n%s", i, vis(a, 700).c_str(), vis(b, 700).c_str())); }
    if (result) *result = a;
}

// ---------------------------------------------------------------- C17
static const char* VOC[] = {"packet", "struct", "enum", "switch", "case", "default", "if", "else", "true", "false", "self", "uint8", "u8", "byte", "int16", "uint32", "u64", "i64", "float", "f64", "bool", "string", "prefix", "until", "max", "P", "S", "E", "a", "b", "x", "{", "}", "[", "]", "(", ")", ";", ":", ",", ".", "@", "=", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "&&", "||", "0", "1", "8", "-1", "0x", "0xFF", "1.5", "255", "65536", "99999999999999999999", "-9223372036854775808", "1e5", "\"s\"", "\"", "/*", "*/", "//", "///", "\n", "@import", "@big_endian", "@const", "@range", "@crc", "@crc_poly", "@expr", "@count", "@optional", "@pad", "@fill", "@eof", "@scale", "@poly", "@spline", "@unaligned_bytes", "@version", "sin", "pow", "float", "int", "abs", "$", "#", "?", "\\", "\x01", "\xff", "\xc3\xa9"};
std::string soup(Src& s, size_t n) { std::string o; for (size_t i = 0; i < n; i++) { o += VOC[s.draw(sizeof VOC / sizeof *VOC - 1)]; if (!s.chance(1, 5)) o += ' '; if (s.chance(1, 10)) o += '\n'; } return o; }
std::vector<std::string> mutTokens(Src& s, std::vector<std::string> t) {
    size_t n = 1 + s.draw(3);
    for (size_t i = 0; i < n && !t.empty(); i++) {
        size_t p = s.draw(t.size() - 1), q = s.draw(t.size() - 1);
        switch (s.weighted({4, 3, 3, 3, 2, 1})) {
            case 0: t[p] = VOC[s.draw(sizeof VOC / sizeof *VOC - 1)]; break;
            case 1: t.erase(t.begin() + (long)p); break;
            case 2: t.insert(t.begin() + (long)p, VOC[s.draw(sizeof VOC / sizeof *VOC - 1)]); break;
            case 3: std::swap(t[p], t[q]); break;
            case 4: { if (p > q) std::swap(p, q); std::vector<std::string> x(t.begin() + (long)p, t.begin() + (long)std::min(q + 1, p + 12)); size_t at = s.draw(t.size()); t.insert(t.begin() + (long)at, x.begin(), x.end()); break; }
            default: t.resize(p); break;
        }
    }
    return t;
}
static std::string rep(const std::string& a, size_t n) { std::string o; o.reserve(a.size() * n); for (size_t i = 0; i < n; i++) o += a; return o; }
// Inputs aimed at the compiler's limits. must: 1 has to compile, 0 must not, -1 either
static std::string stress(Src& s, const std::string& dir, int& must, std::string& what) {
    must = -1; size_t n; 
    auto size = [&](size_t reasonable, size_t huge) { if (s.chance(1, 2)) { must = 1; return 1 + (size_t)s.draw(reasonable - 1); } return 1 + (size_t)s.draw(huge); };
    auto pk = [](const std::string& b) { return "packet P {\n uint8 a;\n" + b + "\n}\n"; };
    switch (s.draw(29)) {
        case 0: n = size(60, 20000); what = strf("parentheses %zu", n); return pk(" @expr(" + rep("(", n) + "a" + rep(")", n) + ") uint8 e;");
        case 1: { n = size(60, 40000); static const char* u[] = {"!", "~", "- ", "-"}; std::string x = u[s.draw(3)]; if (x == "-") must = -1; what = strf("unary %zu", n); return pk(" @expr(" + rep(x, n) + "a) uint8 e;"); }
        case 2: n = size(60, 8000); what = strf("nested if %zu", n); return pk(rep("if (a == 1) {", n) + " uint8 z; " + rep("}", n));
        case 3: { n = size(400, 8000); must = 1; what = strf("else if chain %zu", n); std::string t = "if (a == 1) { uint8 z; }"; for (size_t i = 0; i < n; i++) t += strf(" else if (a == %zu) { uint8 y%zu; }\n", i % 200, i); return pk(t); }
        case 4: n = size(40, 3000); what = strf("nested switch %zu", n); return pk(rep("switch (a) { case 1: {", n) + " uint8 z; " + rep("} }", n));
        case 5: n = size(40, 3000); what = strf("nested case fields %zu", n); return pk(rep("switch (a) { case 1: ", n) + " uint8 z; " + rep(" }", n));
        case 6: { n = s.chance(1, 2) ? 1 + s.draw(9) : 1 + s.draw(70); if (n <= 10) must = 1; what = strf("struct doubling %zu", n); std::string t = "struct S0 { uint8 a; }\n"; for (size_t i = 1; i <= n; i++) t += strf("struct S%zu { S%zu a; S%zu b; }\n", i, i - 1, i - 1); return t + strf("packet P { S%zu x; }\n", n); }
        case 7: { n = size(50, 400); what = strf("struct chain %zu", n); std::string t = "struct S0 { uint8 a; }\n"; for (size_t i = 1; i <= n; i++) t += strf("struct S%zu { S%zu a; }\n", i, i - 1); return t + strf("packet P { S%zu x; }\n", n); }
        case 8: { n = size(1000, 300000); what = strf("long name %zu", n); return pk("uint16 " + rep("x", n) + ";"); }
        case 9: { n = 1 + s.draw(20000); must = 0; what = strf("junk %zu", n); return pk(rep(s.chance(1, 2) ? "$" : "# ", n)); }
        case 10: { n = size(500, 3000); must = 1; what = strf("many fields %zu", n); std::string t; for (size_t i = 0; i < n; i++) t += strf("uint8 f%zu;", i) + (i % 7 ? "" : "\n"); return pk(t); }
        case 11: { n = size(300, 2000); must = 1; what = strf("many enumerators %zu", n); std::string t = "enum E : uint16 {"; for (size_t i = 0; i < n; i++) t += strf(" V%zu,", i); return t + "}\npacket P { E e; }\n"; }
        case 12: { n = size(300, 2000); must = 1; what = strf("many cases %zu", n); std::string t = "switch (a) {"; for (size_t i = 0; i < n; i++) t += strf(" case %zu: uint8 c%zu;\n", i * (n % 3 + 1), i); return pk(t + "}"); }
        case 13: { n = 1 + s.draw(5000); must = 0; what = strf("open blocks %zu", n); return "packet P " + rep(s.chance(1, 2) ? "{ if (1) " : "{", n); }
        case 14: { n = size(200, 100000); must = 1; what = strf("long comment %zu", n); return (s.chance(1, 2) ? "/*" + rep("*", n) + "*/" : "//" + rep("/", n) + "\n") + pk(""); }
        case 15: { n = 1 + s.draw(300000); must = 0; what = strf("unterminated string %zu", n); return "@import(\"" + rep("x", n); }
        case 16: { n = size(300, 3000); must = 1; what = strf("long sum %zu", n); std::string t = "a"; for (size_t i = 0; i < n; i++) t += i % 2 ? " + 1" : " + a"; return pk("@expr(" + t + ") uint32 e;"); }
        case 17: { // imports inside imports
            n = s.chance(1, 2) ? 1 + s.draw(20) : 1 + s.draw(300); if (n <= 21) must = 1; what = strf("import chain %zu", n);
            for (size_t i = 1; i <= n; i++) write_file(dir + strf("/i%zu.cnd", i), (i < n ? strf("@import(\"i%zu.cnd\")\n", i + 1) : std::string()) + strf("struct I%zu { uint8 a; }\n", i));
            return "@import(\"i1.cnd\")\npacket P { I1 x; }\n"; }
        case 18: { what = "odd import"; must = 0; static const char* t[] = {".", "/", "", "missing.cnd", "nul.cnd", "broken.cnd", "..", "/dev/null/x", "t.cnd/", "%s%s%n"}; size_t k = s.draw(9); write_file(dir + "/nul.cnd", std::string("struct X { uint8 a; }\0 ", 23)); write_file(dir + "/broken.cnd", "struct Y { uint8 a }"); return std::string("@import(\"") + t[k] + "\")\npacket P { uint8 a; }\n"; }
        case 19: { what = "self import"; must = 1; return "@import(\"t.cnd\")\n@import(\"./t.cnd\")\npacket P { uint8 a; }\n"; }
        case 20: { n = 1 + s.draw(400); must = 0; what = strf("import path %zu", n); return "@import(\"" + rep("d/", n) + "x.cnd\")\n" + pk(""); }
        case 21: case 22: case 23: { // dotted references and names in every place that takes one, with lengths around powers of two
            size_t k = 1 + s.draw(4), total = s.chance(1, 3) ? 1 + s.draw(600) : (16u << s.draw(8)) + s.draw(8) - 4; what = strf("reference of %zu characters in %zu parts", total, k); std::string r;
            for (size_t i = 0, left = total; i < k; i++) { size_t here = i + 1 == k ? left : 1 + (s.chance(1, 2) ? left / (k - i) : s.draw(left)); here = std::min(here, left > k - i ? left - (k - i) : 1); if (i) r += '.'; r += rep(std::string(1, (char)('m' + i)), std::max<size_t>(here, 1)); left -= std::min(left, here + 1); if (!left && i + 1 < k) break; }
            std::string first = r.substr(0, r.find('.')), last = r.substr(r.rfind('.') == std::string::npos ? 0 : r.rfind('.') + 1), st = "struct T { uint8 " + last + "; }\n";
            switch (s.draw(10)) {
                case 0: return pk("if (" + r + " > 0) { uint8 z; }");
                case 1: return pk("@expr(" + r + " + a) uint8 z;");
                case 2: return pk("switch (" + r + ") { case 1: uint8 z; }");
                case 3: return pk("@count(" + r + ") uint8 z[];");
                case 4: return pk("uint8 z[" + r + "];");
                case 5: return pk("@crc_poly(" + r + ") @crc(16) uint16 z;");
                case 6: return "enum " + first + " { " + last + ", B }\npacket P { " + first + " e; switch (e) { case " + first + "." + last + ": uint8 z; case " + r + ": uint8 y; } }\n";
                case 7: return st + "packet P { T " + first + "; if (" + first + "." + last + " > 0) { uint8 z; } @count(" + first + "." + last + ") uint8 w[]; }\n";
                case 8: return "struct " + first + " { uint8 " + last + "; }\npacket " + last + " { " + first + " " + last + "; if (" + last + "." + last + " == 0) { uint8 z; } }\n";
                default: return pk("string " + last + " prefix " + (s.chance(1, 2) ? r : std::string("uint8")) + "; @" + r + " uint8 z;");
            }
        }
        case 24: case 25: case 26: { // parameter lists of every length around powers of two
            n = s.chance(1, 2) ? s.draw(40) : (4u << s.draw(7)) + s.draw(6) - 3; bool sp = s.chance(1, 2); what = strf("%s of %zu numbers", sp ? "spline" : "polynomial", n); std::string t; static const char* ty[] = {"uint8", "int16", "uint32", "double", "float", "i64"};
            for (size_t i = 0; i < n; i++) t += (i ? "," : "") + (sp ? strf(i % 2 ? "%zu.5" : "%zu", i / 2) : strf(s.chance(1, 9) ? "-%zu.25" : "%zu", i % 9)); if (s.chance(1, 20)) { t += ","; must = 0; } else if (n > (sp ? 32 : 16)) must = 0; else if (sp ? n >= 4 && n % 2 == 0 : n >= 2) must = 1;
            return pk(std::string(sp ? "@spline(" : "@poly(") + t + ") " + ty[s.draw(5)] + " z;"); }
        case 27: case 28: { // numbers of any length
            n = s.chance(1, 2) ? s.draw(80) : (4u << s.draw(10)) + s.draw(6) - 3; std::string d = rep(s.chance(1, 2) ? "0" : s.chance(1, 2) ? "9" : "1", n), x = s.chance(1, 4) ? "0x" + d + "1" : s.chance(1, 4) ? "0b" + d + "1" : s.chance(1, 2) ? d + "1" : s.chance(1, 2) ? "1." + d : d + "." + d; if (s.chance(1, 6)) x = "-" + x; what = strf("number of %zu digits", n);
            switch (s.draw(9)) { case 0: return pk("@expr(a + " + x + ") uint8 z;"); case 1: return pk("@const(" + x + ") uint64 z;"); case 2: return pk("@range(" + x + ", " + x + ") double z;"); case 3: return pk("@scale(" + x + ") double z;"); case 4: return pk("uint8 z[" + x + "];"); case 5: return pk("switch (a) { case " + x + ": uint8 z; }"); case 6: return "enum E { A = " + x + " }\n" + pk("E z;"); case 7: return pk("uint64 z : " + x + ";"); case 8: return pk("@poly(" + x + "," + x + ") double z; @pad(" + x + ");"); default: return "@version(" + x + ")\n" + pk("@crc(16) @crc_poly(" + x + ") uint16 z;"); } }
        default: { n = 1 + s.draw(2000); what = strf("decorators %zu", n); static const char* t[] = {"@be ", "@optional ", "@eof ", "@crc_refin ", "@fill ", "@scale(2) ", "@pad(3) ", "@const(1) ", "@poly(1,2) "}; return pk(rep(t[s.draw(8)], n) + "uint8 q;"); }
    }
}
static std::string source17(Case& c, const std::string& dir, int& must, std::string& what) {
    std::string text;
    size_t kind = c.s.weighted({3, 6, 4, 2, 4});
    switch (kind) {
        case 0: text = soup(c.s, c.s.draw(80)); what = "tokens"; break;
        case 1: { Feat F = featFor(c.s); Gen g(c.s, F); Schema S = g.schema(); text = join(mutTokens(c.s, tokens(S))); what = "mutated tokens"; break; }
        case 2: { Feat F = featFor(c.s); Gen g(c.s, F); Schema S = g.schema(); std::string r = render(S); std::vector<uint8_t> v(r.begin(), r.end()); v = mutate(c.s, v); text.assign(v.begin(), v.end()); what = "mutated bytes"; break; }
        case 3: { size_t n = c.s.draw(200); for (size_t i = 0; i < n; i++) text += (char)(c.s.chance(1, 3) ? c.s.draw(255) : 32 + c.s.draw(94)); what = "random bytes"; break; }
        default: text = stress(c.s, dir, must, what);
    }
    return text;
}
static void c17(Case& c) {
    std::string text, what; int must = -1; std::string dir = c.scratch + "/w17"; mkdir(dir.c_str(), 0700);
    text = source17(c, dir, must, what);
    bool nul = text.find('\0') != std::string::npos; bool json = c.s.chance(1, 3), verbose = c.s.chance(1, 8), stale = c.s.chance(1, 3);
    std::string in = dir + "/t.cnd", outp = dir + "/t.il", log; write_file(in, text); unlink(outp.c_str()); if (stale) write_file(outp, std::string("stale"));
    c.desc = what + "\n" + vis(text) + "\n"; c.mix(text); note_desc_impl(c.desc); c.count("kind_" + what.substr(0, what.find(' ')));
    int rc = -1; if (!limited(10000, [&]() { rc = runCompile(in, outp, json, verbose, log, dir); })) c.fail("time", "compiling used more than 10 s of processor time");
    if (must == 1 && rc) c.fail("rejected", "a valid schema was rejected\n" + cut(log, 600));
    if (must == 0 && !rc) c.fail("accepted", "an invalid schema was accepted");
    if (nul && !rc) c.fail("accepted", "a file with a NUL character compiled");
    if (rc == 0) {
        c.count("compiled"); Program P; std::string il = read_file(outp); P.il.assign(il.begin(), il.end());
        if (!loadProgram(P)) c.fail("image", "the compiled image does not load");
        int e = cnd_verify_program(&P.p); if (e) c.fail("verify", strf("the compiled program does not verify: %s", errName(e)));
    } else {
        c.count("rejected");
        if (stale ? read_file(outp) != "stale" : exists(outp)) c.fail("output", "a failed compilation wrote the output file");
        if (lower(log).find("error") == std::string::npos && !json) c.fail("message", "compilation failed without an error message\n" + cut(log, 600));
        if (log.empty()) c.fail("message", "compilation failed silently");
    }
    if (log.size() > 400000 + 20 * text.size()) c.fail("flood", strf("%zu bytes of messages for %zu bytes of input", log.size(), text.size()));
    if (!nul && text.size() < 20000) formatOracle(c, text);
    if (text.size() > 10) c.nontrivial = true;
}
static Reg r17({"C17", "Source files are generated as token soup, token- and byte-level mutations of generated schemas, random bytes, and stress inputs (deep nesting of every kind, exponential struct sizes, floods of errors, odd imports); each is compiled (with and without JSON and verbose output and a stale output file) and formatted under sanitizers with a processor-time budget, and the return value, messages, output file and the loaded, verified image are checked. Non-trivial: more than ten bytes of text.", c17, 30000, 800000});

// ---------------------------------------------------------------- C22
static void c22(Case& c) {
    std::string dir = c.scratch + "/w22"; mkdir(dir.c_str(), 0700);
    Feat F = withBig(featFor(c.s), 1 | 8 | 16 | 32 | 64); F.optional = true; Gen g(c.s, F); Schema S = g.schema();
    Style st; st.noise = &c.s; st.ws = true; st.comments = c.s.chance(3, 4); st.synonyms = c.s.chance(1, 2); st.numbers = c.s.chance(1, 2);
    std::string text = c.s.chance(1, 6) ? render(S) : render(S, st), log, out;
    c.desc = text; c.mix(text); note_desc_impl(c.desc);
    std::string in = dir + "/t.cnd", fo = dir + "/f.cnd"; Program P, Q; write_file(in, text);
    if (compilePath(in, dir + "/t.il", P, &log)) c.fail("compile-rejected", "a valid schema was rejected\n" + log);
    formatOracle(c, text, &out); if (out != text) c.nontrivial = true;
    c.count("comments", std::count(text.begin(), text.end(), '*') / 2);
    // the same through files
    unlink(fo.c_str()); bool inplace = c.s.chance(1, 3); if (inplace) fo = in;
    if (cnd_format_file(in.c_str(), fo.c_str())) c.fail("format-file", "formatting a readable file failed");
    if (read_file(fo) != out) c.fail("format-file", "the formatted file differs from the formatted text");
    if (!inplace && read_file(in) != text) c.fail("format-file", "formatting changed its input file");
    write_file(in, out);
    if (compilePath(in, dir + "/t.il", Q, &log)) c.fail("format-breaks", "the formatted schema does not compile\n" + log + "\n" + vis(out));
    if (P.il != Q.il) c.fail("format-program", "the formatted schema compiles to another program\n" + vis(out));
    if (c.s.chance(1, 20)) { // files that cannot be read or written
        int fd = open("/dev/null", O_WRONLY | O_CLOEXEC); static int keep = -1; if (keep < 0) keep = fcntl(2, F_DUPFD_CLOEXEC, 10); fflush(stderr); dup2(fd, 2); close(fd);
        std::string nul = dir + "/nul.cnd"; write_file(nul, text + std::string("\0x", 2)); unlink((dir + "/o").c_str());
        int a = cnd_format_file((dir + "/none.cnd").c_str(), (dir + "/o").c_str()), b = cnd_format_file(dir.c_str(), (dir + "/o").c_str()), d = cnd_format_file(in.c_str(), (dir + "/no/such/dir").c_str()), e = cnd_format_file(nul.c_str(), (dir + "/o").c_str()), f = cnd_format_file(in.c_str(), "/dev/full");
        fflush(stderr); dup2(keep, 2); c.count("unreadable");
        if (!a || !b) c.fail("unreadable", "formatting a missing file or a directory reported success");
        if (!e) c.fail("unreadable", "formatting a file that cannot be read as text reported success");
        if (!d || !f) c.fail("unwritable", "formatting into a file that cannot be written reported success");
        if (exists(dir + "/o")) c.fail("unreadable", "an output file was created for an unreadable input");
    }
}
static Reg r22({"C22", "Generated schemas are rendered with random whitespace, line ends, comments, documentation comments, synonyms and number notations, then formatted as text and through files (also in place): the formatted text must have the same tokens and comments by an independent scanner, compile to the identical image, and not change when formatted again; missing, unreadable and unwritable files must be reported. Non-trivial: formatting changed the text.", c22, 150000, 3000000});

// ---------------------------------------------------------------- renaming
typedef std::function<std::string(const std::string&)> Rn;
static std::string rnDotted(const std::string& n, const Rn& f) { std::string o; size_t p = 0; for (;;) { size_t q = n.find('.', p); o += f(n.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) return o; o += '.'; p = q + 1; } }
static ExprP rnExpr(const ExprP& e, const Rn& f) { if (!e) return e; ExprP n(new Expr(*e)); if (n->k == Expr::REF && n->s != "self") n->s = rnDotted(n->s, f); for (auto& x : n->a) x = rnExpr(x, f); return n; }
static void rnBlock(Block& b, const Rn& f) {
    for (auto& s : b) {
        if (s.k == Stmt::FIELD) { s.f.name = f(s.f.name); if (!s.f.aref.empty()) s.f.aref = rnDotted(s.f.aref, f); s.f.expr = rnExpr(s.f.expr, f); }
        if (!s.sref.empty()) s.sref = rnDotted(s.sref, f);
        for (auto& n : s.caseNames) if (!n.empty()) n = rnDotted(n, f);
        for (auto& x : s.bodies) rnBlock(x, f);
        rnBlock(s.defBody, f); for (auto& e : s.conds) e = rnExpr(e, f);
    }
}
static Schema renamed(Schema S, const Rn& f) {
    for (auto& e : S.enums) { e.name = f(e.name); for (auto& v : e.vals) v.first = f(v.first); }
    for (auto& d : S.structs) { d.name = f(d.name); rnBlock(d.b, f); }
    S.pname = f(S.pname); rnBlock(S.packet, f); return S;
}
static void allNames(const Schema& S, std::set<std::string>& o, std::set<std::string>& types) { Rn f = [&](const std::string& n) { o.insert(n); return n; }; renamed(S, f); for (auto& e : S.enums) types.insert(e.name); for (auto& d : S.structs) types.insert(d.name); }

// ---------------------------------------------------------------- C32
static void c32(Case& c) {
    Feat F = withBig(featFor(c.s), 1 | 8 | 32 | 64); F.optional = true; Gen g(c.s, F); Schema S = g.schema(); std::string plain = render(S), log; Program P, Q;
    c.desc = plain; c.mix(plain); note_desc_impl(c.desc);
    if (compileText(c.scratch, plain, P, &log)) c.fail("compile-rejected", "a valid schema was rejected\n" + log);
    for (int i = 0; i < 3; i++) {
        Style st; st.noise = &c.s; st.ws = c.s.chance(3, 4); st.comments = st.ws && c.s.chance(2, 3); st.synonyms = c.s.chance(2, 3); st.numbers = c.s.chance(2, 3);
        std::string t = render(S, st); size_t keep = c.desc.size(); c.desc += "--- variant\n" + t; c.mix(t); note_desc_impl(c.desc);
        if (t != plain) c.nontrivial = true;
        if (compileText(c.scratch, t, Q, &log)) c.fail("variant-rejected", "another layout of the same schema was rejected\n" + log);
        if (P.il != Q.il) c.fail("variant-program", "another layout of the same schema compiles to another program");
        c.count(st.comments ? "with_comments" : "layout"); if (st.synonyms) c.count("synonyms"); if (st.numbers) c.count("numbers"); c.desc.resize(keep);
    }
    // renaming
    std::map<std::string, std::string> m; std::set<std::string> names, types; allNames(S, names, types);
    size_t i = 0; for (auto& n : names) { std::string x = c.s.chance(1, 3) ? n + "_r" : c.s.chance(1, 2) ? strf("N%zu", i) : std::string(1 + c.s.draw(60), 'k') + strf("%zu_", i); i++; m[n] = x; }
    Schema R = renamed(S, [&](const std::string& n) { return m.at(n); }); std::string t = render(R);
    c.desc += "--- renamed\n" + t; note_desc_impl(c.desc);
    if (compileText(c.scratch, t, Q, &log)) c.fail("renamed-rejected", "the renamed schema was rejected\n" + log);
    size_t hp = P.il.size() - P.p.bytecode_len, hq = Q.il.size() - Q.p.bytecode_len;
    if (P.p.bytecode_len != Q.p.bytecode_len || memcmp(&P.il[hp], &Q.il[hq], P.p.bytecode_len) || P.p.string_count != Q.p.string_count) c.fail("renamed-program", "renaming changed the bytecode");
    for (uint16_t k = 0; k < P.p.string_count; k++) { std::string a = cnd_get_key_name(&P.p, k), b = cnd_get_key_name(&Q.p, k), w = rnDotted(a, [&](const std::string& n) { auto it = m.find(n); return it == m.end() ? n : it->second; }); if (w != b) c.fail("renamed-name", "name " + a + " became " + b + " instead of " + w); }
    c.count("renamed");
}
static Reg r32({"C32", "Every generated schema is compiled plainly, in three random layouts (whitespace, line ends, comments, doc comments, synonymous types and decorators, hexadecimal and decimal numbers) which must give byte-identical images, and with every name replaced injectively, which must give the same bytecode and exactly the renamed string table. Non-trivial: a variant text differs.", c32, 120000, 2000000});

// ---------------------------------------------------------------- C19
static const char* ODD[] = {"prefix", "max", "until", "uint8", "u8", "string", "byte", "count", "len", "range", "crc", "expr", "version", "import", "_", "__", "a", "A", "aa", "aaa", "ab", "a_b", "self_", "selfish", "iff", "cases", "e5", "E", "x0", "true_", "packet_", "packets", "structs", "defaults", "elses", "big_endian", "optional", "eof", "P", "Q9", "_0", "O0", "l1", "bool", "f64"};
static void names(const Schema& S, const Block& b, const std::string& pre, std::set<std::string>& o) {
    for (auto& s : b) {
        if (s.k == Stmt::FIELD) { o.insert(pre + s.f.name); if (s.f.t == STRUCT) names(S, S.structs[s.f.ref].b, pre + s.f.name + ".", o); }
        for (auto& x : s.bodies) names(S, x, pre, o);
        names(S, s.defBody, pre, o);
    }
}
// Schemas with up to 65535 names: keys beyond every byte and sign boundary.
namespace {
struct ManyHost { const std::vector<const char*>* table; const std::vector<std::pair<int, std::string>>* want; size_t pos = 0; bool enc = false; uint64_t sel = 0; uint8_t mul = 1; std::string bad; };
cnd_error_t manyCb(cnd_vm_ctx* x, uint16_t key, uint8_t op, void* p) {
    ManyHost* h = (ManyHost*)x->user_ptr; size_t i = h->pos++; auto fail = [&](const std::string& m) { if (h->bad.empty()) h->bad = m; return CND_ERR_CALLBACK; };
    if (i >= h->want->size()) return fail("more events than fields"); const auto& w = (*h->want)[i];
    if (op != w.first) return fail(strf("event %zu has operation %02x instead of %02x", i, op, w.first));
    if (op == OP_EXIT_STRUCT) return CND_ERR_OK;
    if (key >= h->table->size() || w.second != (*h->table)[key]) return fail(strf("event %zu names key %u (%s) instead of %s", i, key, key < h->table->size() ? (*h->table)[key] : "none", w.second.c_str()));
    if (op == OP_CTX_QUERY || op == OP_LOAD_CTX) memcpy(p, &h->sel, 8);
    if (op == OP_IO_U8) { uint8_t v = (uint8_t)(i * h->mul); if (h->enc) *(uint8_t*)p = v; else if (*(uint8_t*)p != v) return fail(strf("event %zu (%s) has the value %u instead of %u", i, w.second.c_str(), *(uint8_t*)p, v)); }
    return CND_ERR_OK;
}
}
static void manyNames(Case& c) {
    static const size_t near[] = {256, 4096, 8192, 16384, 32768, 65500}; size_t n = c.s.chance(1, 2) ? near[c.s.draw(5)] - 12 + c.s.draw(24) : 100 + c.s.draw(65000); c.count("many_names");
    bool nested = c.s.chance(1, 2); size_t per = nested ? 1 + c.s.draw(400) : 0; std::string text = "// " + strf("%zu names, %zu per struct\n", n, per), stem = std::string(1 + c.s.draw(3), 'f'); std::vector<std::string> leaf; std::vector<std::pair<int, std::string>> ev;
    if (nested) { text += "struct T {\n"; for (size_t i = 0; i < per; i++) text += strf("  uint8 %s%zu;\n", stem.c_str(), i); text += "}\n"; }
    size_t names = 6 + per; text += "packet P {\n"; // the names inside a struct definition count too
    if (nested) for (size_t k = 0; names + per + 1 < n; k++) { std::string nm = strf("t%zu", k); text += "  T " + nm + ";\n"; ev.push_back({OP_ENTER_STRUCT, nm}); for (size_t i = 0; i < per; i++) { leaf.push_back(nm + "." + stem + strf("%zu", i)); ev.push_back({OP_IO_U8, leaf.back()}); } ev.push_back({OP_EXIT_STRUCT, ""}); names += per + 1; }
    for (size_t i = 0; names + 4 < n; i++, names++) { std::string nm = (nested ? "g" : stem) + strf("%zu", i); text += "  uint8 " + nm + ";\n"; leaf.push_back(nm); ev.push_back({OP_IO_U8, nm}); }
    if (leaf.empty()) return;
    std::vector<std::string> flat; for (auto& l : leaf) if (l.find('.') == std::string::npos) flat.push_back(l);
    std::string ref = flat.empty() ? "" : flat[c.s.chance(1, 3) ? flat.size() - 1 : c.s.draw(flat.size() - 1)], ref2 = leaf[c.s.draw(leaf.size() - 1)]; uint64_t sel = c.s.draw(3); bool hit = sel == 2;
    if (flat.size()) text += "  switch (" + ref + ") {\n    case 2: uint8 yes;\n    default: uint8 no;\n  }\n"; text += "  if (" + ref2 + " == 2) { uint8 then; }\n}\n";
    if (flat.size()) { ev.push_back({OP_CTX_QUERY, ref}); ev.push_back({OP_IO_U8, hit ? "yes" : "no"}); } ev.push_back({OP_LOAD_CTX, ref2}); if (hit) ev.push_back({OP_IO_U8, "then"});
    std::string log; Program P; c.desc = text.substr(0, 200) + "...\n"; c.mix(text); note_desc_impl(c.desc);
    if (compileText(c.scratch, text, P, &log)) c.fail("compile-rejected", strf("a valid schema with %zu names was rejected\n", n) + log.substr(0, 300));
    std::vector<const char*> table; const char* q = (const char*)P.il.data() + (P.il[8] | P.il[9] << 8 | P.il[10] << 16 | (uint32_t)P.il[11] << 24); for (size_t i = 0; i < P.p.string_count; i++) { table.push_back(q); q += strlen(q) + 1; }
    std::set<std::string> have(table.begin(), table.end()); if (have.size() != table.size()) c.fail("name-twice", "two keys have the same name");
    for (auto& e : ev) if (e.first != OP_EXIT_STRUCT && !have.count(e.second)) c.fail("name-missing", "no key is named " + e.second);
    for (int i = 0; i < 12; i++) { size_t k = i < 2 ? table.size() - 1 - (size_t)i : c.s.draw(table.size() - 1); const char* g = cnd_get_key_name(&P.p, (uint16_t)k); if (!g || strcmp(g, table[k])) c.fail("name-missing", strf("key %zu is named %s instead of %s", k, g ? g : "nothing", table[k])); uint16_t id = cnd_get_key_id(&P.p, table[k]); if (id != k) c.fail("name-lookup", strf("looking up %s gives %u instead of %zu", table[k], id, k)); }
    size_t size = 0; for (auto& e : ev) if (e.first == OP_IO_U8) size++;
    std::vector<uint8_t> b(size); for (int dir = 0; dir < 2; dir++) {
        ManyHost h; h.table = &table; h.want = &ev; h.enc = !dir; h.sel = sel; h.mul = (uint8_t)(1 + 2 * (n % 100)); cnd_vm_ctx x; cnd_init(&x, dir ? CND_MODE_DECODE : CND_MODE_ENCODE, &P.p, b.data(), b.size(), manyCb, &h); int e = cnd_execute(&x);
        if (e || h.pos != ev.size() || x.cursor != size) c.fail("many-names", strf("%s gives %s after %zu of %zu events and %zu of %zu bytes: ", dir ? "decode" : "encode", errName(e), h.pos, ev.size(), (size_t)x.cursor, size) + h.bad);
    }
    c.nontrivial = true; c.count("names", table.size());
}
static void c19(Case& c) {
    if (c.s.chance(1, 150)) { manyNames(c); return; }
    Feat F = withBig(featFor(c.s), 1 | 8 | 32 | 64); F.alias = c.s.chance(1, 4); if (c.s.chance(1, 2)) F.focus = c.s.chance(1, 2) ? FO_STRUCT : FO_CTRL; Gen g(c.s, F); Schema S0 = g.schema();
    std::set<std::string> all, types; allNames(S0, all, types); std::map<std::string, std::string> m; std::set<std::string> used;
    bool odd = c.s.chance(3, 4);
    if (odd) { c.count("odd_names"); for (auto& n : all) {
        std::string x; do { switch (c.s.weighted({6, 2, 2, 1})) { case 0: x = ODD[c.s.draw(sizeof ODD / sizeof *ODD - 1)]; break; case 1: x = n; break; case 2: x = n + (c.s.chance(1, 2) ? "_" : "x"); break; default: x = std::string(10 + c.s.draw(40), 'n') + strf("%zu", used.size()); }
            static const std::set<std::string> builtin = {"uint8", "u8", "string", "byte", "bool", "f64"}; if (types.count(n) && builtin.count(x)) x = "T" + x;
            while (used.count(x)) x += (char)('a' + used.size() % 26);
            static const std::set<std::string> functions = {"sin", "cos", "tan", "sqrt", "log", "abs", "pow", "float", "int", "if", "else", "case", "enum", "true", "self"}; if (functions.count(x)) x += '_'; } while (!used.insert(x).second);
        m[n] = x; } }
    Schema S = odd ? renamed(S0, [&](const std::string& n) { return m.at(n); }) : S0;
    std::string text = render(S), log; Program P; c.desc = text; c.mix(text); note_desc_impl(c.desc);
    if (compileText(c.scratch, text, P, &log)) c.fail("compile-rejected", "a valid schema was rejected\n" + log);
    std::set<std::string> want; if (S.alias >= 0) names(S, S.structs[S.alias].b, "", want); else names(S, S.packet, "", want);
    want.insert(S.pname);
    std::set<std::string> have;
    for (uint16_t k = 0; k < P.p.string_count; k++) {
        const char* n = cnd_get_key_name(&P.p, k); if (!n) c.fail("name-missing", strf("key %u has no name", k));
        if (!have.insert(n).second) c.fail("name-twice", std::string("two keys are named ") + n);
        if (!want.count(n)) c.fail("name-foreign", std::string("the program has a name no field has: ") + n);
        if (cnd_get_key_id(&P.p, n) != k) c.fail("name-lookup", strf("looking up %s gives %u instead of %u", n, cnd_get_key_id(&P.p, n), k));
        c.count("names");
    }
    // a value is reported by its name: every non-constant field's name is present
    std::vector<std::string> q = {"", ".", "no_such_field", "a.b.c.d.e.f"}; for (auto& n : have) { q.push_back(n + "x"); q.push_back("." + n); q.push_back(n + "."); if (n.size() > 1) q.push_back(n.substr(0, n.size() - 1)); }
    for (auto& n : q) { bool h = have.count(n) > 0; uint16_t k = cnd_get_key_id(&P.p, n.c_str()); if ((k != 0xFFFF) != h) c.fail("name-unknown", "looking up \"" + n + strf("\" gives %u", k)); }
    for (unsigned k : {(unsigned)P.p.string_count, P.p.string_count + 1u, 0xFFFEu, 0xFFFFu}) if (k >= P.p.string_count && cnd_get_key_name(&P.p, (uint16_t)k)) c.fail("key-unknown", strf("key %u has a name", k));
    RefOpts o; o.acceptRaw = c.s.chance(1, 2); bool dotted = false; for (auto& n : have) if (n.find('.') != std::string::npos) dotted = true;
    for (int rep = 0; rep < 2; rep++) { RefResult r = refEncode(S, c.s, o); if (r.undef || r.err) continue; checkEncode(c, P, r, S.hasEof ? 0 : 2); RefResult d = refDecode(S, r.bytes, o); if (d.undef) continue; checkDecode(c, P, r.bytes, d); if (dotted && r.ev.size() > 2) c.nontrivial = true; c.count("events", r.ev.size()); }
}
static Reg r19({"C19", "One case in 150: schemas with 100 to 65500 names, flat or nested, in which every event, references from conditions and a switch, and sampled lookups must name the right key. Otherwise: generated schemas, mostly with nested structs and references, are renamed with adversarial names (type and decorator words, prefixes of each other, very long); the string table must be a set of qualified field names with exact lookups both ways, near-miss and foreign lookups absent, and every event of encode and decode, including the context queries of conditions, switches, counts and expressions, must carry the reference's qualified name. Non-trivial: qualified names and more than two events.", c19, 200000, 3000000});

// ---------------------------------------------------------------- C30
static bool wordy(char ch) { return isalnum((unsigned char)ch) || ch == 0x5f || ch == 0x2e; }
// What the compiler's ordinary messages say: where and what
struct Msg { long line, col; std::string text; };
static std::vector<Msg> messages(const std::string& log, const std::string& path) {
    std::string t; for (size_t i = 0; i < log.size(); i++) { if (log[i] == '\x1b') { while (i < log.size() && log[i] != 'm') i++; continue; } t += log[i]; }
    std::vector<Msg> o; size_t p = 0;
    while (p < t.size()) { size_t q = t.find('\n', p); if (q == std::string::npos) q = t.size(); std::string l = t.substr(p, q - p); p = q + 1; if (l.compare(0, path.size() + 1, path + ":")) continue; long a, b; int n = 0; if (sscanf(l.c_str() + path.size(), ":%ld:%ld: error: %n", &a, &b, &n) == 2 && n) o.push_back({a, b, l.substr(path.size() + (size_t)n)}); }
    return o;
}
// A message's place in the text, or npos
static size_t placeOf(const std::string& t, long line, long col) { size_t p = 0; for (long i = 1; i < line; i++) { p = t.find('\n', p); if (p == std::string::npos) return p; p++; } p += (size_t)col - 1; return p <= t.size() ? p : std::string::npos; }
static void positions(Case& c, const std::string& dir, const std::string& text) {
    std::string in = dir + "/where.cnd", out = dir + "/where.il", log, log2, jsonLog; write_file(in, text); runCompile(in, out, true, false, jsonLog, dir); runCompile(in, out, false, false, log, dir);
    auto m = messages(log, in); if (m.empty()) c.fail("where-none", "no message says where the error is\n" + cut(log, 600));
    // the JSON report says the same
    std::vector<J> js; size_t p = 0; while (p < jsonLog.size()) { size_t q = jsonLog.find('\n', p); J j; if (jsonParse(jsonLog.substr(p, q - p), j).empty() && j.get("line")) js.push_back(j); p = q + 1; }
    if (js.size() != m.size()) c.fail("where-json", strf("%zu messages, %zu in JSON", m.size(), js.size()));
    for (size_t i = 0; i < m.size(); i++) {
        if (atol(js[i].get("line")->s.c_str()) != m[i].line || (utf8Valid(text) && js[i].get("message")->s.substr(0, js[i].get("message")->s.find('\n')) != m[i].text)) c.fail("where-json", strf("message %zu is line %ld: %s, in JSON line %s: %s", i, m[i].line, m[i].text.c_str(), js[i].get("line")->s.c_str(), js[i].get("message")->s.c_str()));
        size_t at = placeOf(text, m[i].line, m[i].col); const std::string& tok = js[i].get("token")->s; if (at == std::string::npos) c.fail("where-outside", strf("message %zu is at %ld:%ld, which is outside the text", i, m[i].line, m[i].col));
        if (utf8Valid(tok) && tok.find("\xef\xbf\xbd") == std::string::npos && text.compare(at, tok.size(), tok)) c.fail("where-token", strf("message %zu names the token '%s' at %ld:%ld, where the text has '%s'", i, vis(tok, 60).c_str(), m[i].line, m[i].col, vis(text.substr(at, 40), 60).c_str()));
    }
    // layout in front of an error moves it, and nothing else
    size_t k = c.s.draw(m.size() - 1), at = placeOf(text, m[k].line, m[k].col); long nl = c.s.chance(1, 3) ? (long)c.s.draw(20) : c.s.chance(1, 6) ? (long)c.s.draw(70000) : 0; size_t sp = c.s.chance(1, 2) ? c.s.draw(4) : c.s.draw(c.s.chance(1, 3) ? 70000 : 600);
    bool atStart = c.s.chance(1, 3); if (atStart) at = 0; if (at && wordy(text[at - 1])) sp = std::max<size_t>(sp, 1);
    // the text the insertion goes into must not be inside a token
    if (at && (text[at - 1] != ' ' && text[at - 1] != '\n')) return;
    std::string v = text.substr(0, at) + std::string((size_t)nl, '\n') + std::string(sp, ' ') + text.substr(at); write_file(in, v); runCompile(in, out, false, false, log2, dir); auto m2 = messages(log2, in);
    long L = 1 + (long)std::count(text.begin(), text.begin() + (long)at, '\n'), C = 1; for (size_t i = at; i > 0 && text[i - 1] != '\n'; i--) C++;
    if (m2.size() != m.size()) c.fail("where-layout", strf("%ld line breaks and %zu spaces at %ld:%ld turn %zu messages into %zu", nl, sp, L, C, m.size(), m2.size()));
    for (size_t i = 0; i < m.size(); i++) {
        bool after = m[i].line > L || (m[i].line == L && m[i].col >= C); long wl = m[i].line + (after ? nl : 0), wc = m[i].col; if (after && m[i].line == L) wc += nl ? (long)sp - (C - 1) : (long)sp;
        if (m2[i].text != m[i].text || m2[i].line != wl || m2[i].col != wc) c.fail("where-layout", strf("after inserting %ld line breaks and %zu spaces at %ld:%ld, message %zu '%s' moved from %ld:%ld to %ld:%ld '%s'", nl, sp, L, C, i, m[i].text.c_str(), m[i].line, m[i].col, m2[i].line, m2[i].col, m2[i].text.c_str()));
    }
    c.count("positions");
}
static void c30(Case& c) {
    std::string dir = c.scratch + "/w30"; mkdir(dir.c_str(), 0700); mkdir((dir + "/sub").c_str(), 0700);
    std::string text; bool valid = c.s.chance(1, 2);
    Feat F = withBig(featFor(c.s), 1 | 8 | 32 | 64); F.optional = true; Gen g(c.s, F); Schema S = g.schema();
    if (valid) { Style st; st.noise = &c.s; st.ws = st.comments = c.s.chance(1, 2); text = render(S, st); }
    else if (c.s.chance(2, 3)) { auto t = mutTokens(c.s, tokens(S)); static const char* bad[] = {"\"quote\\\"\"", "\\", "\"\xff\xfe\"", "\"\xc3\xa9\"", "\"tab\there\"", "\"\x01\x7f\"", "\"multi\nline\"", "$", "\"\xed\xa0\x80\"", "\"\xf4\x90\x80\x80\"", "\"\xe2\x82\""}; t.insert(t.begin() + (long)c.s.draw(t.size()), bad[c.s.draw(10)]); text = join(t); }
    else text = soup(c.s, c.s.draw(40));
    if (text.find('\0') != std::string::npos) return;
    static const char* fn[] = {"t.cnd", "we ird.cnd", "quo\"te.cnd", "back\\slash.cnd", "new\nline.cnd", "t\xc3\xa9.cnd", "bad\xff.cnd", "tab\t.cnd", "%s%n.cnd", "sub/t.cnd", "ctl\x01.cnd", "\x7f.cnd"};
    std::string in = dir + "/" + fn[c.s.draw(11)], o1 = dir + "/" + (c.s.chance(1, 2) ? "o.il" : std::string(fn[c.s.draw(11)]) + ".il"), o2 = dir + "/second.il";
    c.desc = "file " + vis(in.substr(dir.size() + 1)) + "\n" + vis(text) + "\n"; c.mix(text); c.mix(in); note_desc_impl(c.desc);
    write_file(in, text); unlink(o1.c_str()); unlink(o2.c_str());
    bool verbose = c.s.chance(1, 4); std::string log, log2;
    heapFill = (int)c.s.draw(255); // memory holds whatever was there before
    int rc = runCompile(in, o1, true, verbose, log, dir);
    auto report = [&](const std::string& lg, int code, const std::string& ip, const std::string& op) {
        size_t p = 0, lines = 0; bool success = false, msg = false; J last;
        while (p < lg.size()) {
            size_t q = lg.find('\n', p); if (q == std::string::npos) c.fail("json-line", "the last line is not terminated: " + vis(lg.substr(p), 300));
            std::string line = lg.substr(p, q - p), e; p = q + 1; lines++; J j; e = jsonParse(line, j);
            if (!e.empty() || !j.is(J::OBJ)) c.fail("json-line", "a printed line is no JSON object (" + e + "): " + vis(line, 400));
            const J* st = j.get("status"); if (st && st->s == "success") { success = true; last = j; }
            if (j.get("message") || j.get("error")) msg = true;
            if (const J* ln = j.get("line")) { long n = atol(ln->s.c_str()); if (!ln->is(J::NUM) || n < 1 || n > 1 + std::count(text.begin(), text.end(), '\n')) c.fail("json-where", "an error is reported outside the file: line " + ln->s); }
        }
        if (!lines) c.fail("json-none", "nothing was reported");
        if (success != (code == 0)) c.fail("json-status", strf("return value %d, reported %s", code, success ? "success" : "failure"));
        if (code && !msg) c.fail("json-status", "a failure without a message");
        if (!code) {
            std::string il = read_file(op); Program P; P.il.assign(il.begin(), il.end()); if (!loadProgram(P)) c.fail("image", "the image does not load");
            const J* s = last.get("stats"); if (!s || !s->get("strings") || !s->get("bytecode_size")) c.fail("json-stats", "no statistics");
            if (s->get("strings")->s != strf("%u", P.p.string_count) || s->get("bytecode_size")->s != strf("%zu", (size_t)P.p.bytecode_len)) c.fail("json-stats", "reported " + s->get("strings")->s + " strings and " + s->get("bytecode_size")->s + strf(" bytes, the image has %u and %zu", P.p.string_count, (size_t)P.p.bytecode_len));
            const J *a = last.get("input"), *b = last.get("output"); if (utf8Valid(ip) && (!a || a->s != ip)) c.fail("json-path", "reported input path differs"); if (utf8Valid(op) && (!b || b->s != op)) c.fail("json-path", "reported output path differs");
        }
    };
    report(log, rc, in, o1); c.count(rc ? "rejected" : "compiled"); c.nontrivial = true;
    if (valid && rc) c.fail("compile-rejected", "a valid schema was rejected\n" + log);
    if (rc && c.s.chance(1, 3) && log.find("\"line\"") != std::string::npos) positions(c, dir, text);
    // again: after other compilations, from another path and directory, without JSON
    std::string first = read_file(o1);
    size_t n = c.s.draw(2); for (size_t i = 0; i < n; i++) { std::string other = dir + "/other.cnd", lg; Feat F2 = featFor(c.s); Gen g2(c.s, F2); Schema S2 = g2.schema(); write_file(other, c.s.chance(1, 2) ? render(S2) : join(mutTokens(c.s, tokens(S2)))); runCompile(other, dir + "/other.il", c.s.chance(1, 2), false, lg, dir); c.count("earlier_compilations"); }
    std::string in2 = dir + "/sub/copy.cnd", arg = in2; write_file(in2, text); bool cd = c.s.chance(1, 2); if (cd) { if (chdir((dir + "/sub").c_str())) c.fail("harness", "chdir"); arg = c.s.chance(1, 2) ? "copy.cnd" : "./../sub/copy.cnd"; }
    heapFill = (int)c.s.draw(255);
    bool js = c.s.chance(1, 2); int rc2 = runCompile(arg, o2, js, verbose && js, log2, dir); if (cd && chdir("/")) c.fail("harness", "chdir");
    if ((rc == 0) != (rc2 == 0)) c.fail("deterministic-status", strf("the same text gives %d and %d", rc, rc2));
    if (js) report(log2, rc2, arg, o2);
    if (!rc && read_file(o2) != first) c.fail("deterministic-bytes", "the same text compiles to different images");
    if (c.s.chance(1, 10)) { // files that cannot be opened or written
        std::string l; int a = runCompile(dir + "/none\"\n.cnd", o2, true, false, l, dir); report(l, a, "", o2); if (!a) c.fail("missing", "compiling a missing file succeeded");
        a = runCompile(dir, dir + "/o3.il", true, false, l, dir); report(l, a, "", ""); if (!a || exists(dir + "/o3.il")) c.fail("missing", "compiling a directory succeeded");
        if (!rc) { a = runCompile(in, dir + "/no/such\"dir/o.il", true, false, l, dir); report(l, a, in, ""); if (!a) c.fail("unwritable", "writing into a missing directory succeeded"); a = runCompile(in, "/dev/full", true, false, l, dir); report(l, a, in, ""); if (!a) c.fail("unwritable", "writing to a full device succeeded"); a = runCompile(in, dir, true, false, l, dir); report(l, a, in, ""); if (!a) c.fail("unwritable", "writing to a directory succeeded"); }
        c.count("unopenable");
    }
    unlink(in.c_str()); unlink(o1.c_str());
}
static Reg r30({"C30", "Valid and broken generated sources, with file names and text containing quotes, backslashes, control characters, line breaks and invalid UTF-8, are compiled in JSON mode and again after other compilations, from another path and working directory: images must be identical, every printed line must be a JSON object by a strict parser, and status, message, line, statistics and paths must agree with the return value and the image; the ordinary messages of a broken source name places where the text has the reported token, agree with the JSON report, and move exactly with layout inserted before them; unopenable and unwritable files must be reported. Every case is non-trivial.", c30, 100000, 1500000});

// ---------------------------------------------------------------- C37, the library in one process
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
static int openFiles() { int n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
void compileLeaks(Case& c) {
    std::string text, what; int must = -1; std::string dir = c.scratch + "/w17"; mkdir(dir.c_str(), 0700);
    if (c.s.chance(1, 3)) { Feat F = withBig(featFor(c.s), 1 | 2 | 4 | 8 | 32 | 64); F.optional = c.s.chance(1, 4); Gen g(c.s, F); Schema S = g.schema(); Style st; st.noise = &c.s; st.ws = st.comments = st.synonyms = st.numbers = c.s.chance(1, 2); text = render(S, st); what = "valid schema"; }
    else text = source17(c, dir, must, what);
    size_t imports = c.s.chance(1, 4) ? 1 + c.s.draw(3) : 0;
    for (size_t i = 0; i < imports; i++) { std::string n = strf("i%zu.cnd", i); size_t k = c.s.draw(4); if (k == 4) unlink((dir + "/" + n).c_str()); else write_file(dir + "/" + n, k == 3 ? std::string("@import(\"t.cnd\")\nstruct Broken {") : strf("%sstruct Imp%zu { uint8 a; }\nenum ImpE%zu : uint8 { X%zu = 1 }\n", k == 2 ? "@import(\"i0.cnd\")\n" : "", i, k == 1 ? (size_t)0 : i, i)); text = "@import(\"" + n + "\")\n" + text; }
    bool json = c.s.chance(1, 3), verbose = c.s.chance(1, 8); size_t outKind = c.s.weighted({10, 1, 1}); std::string in = dir + "/t.cnd", outp = outKind == 0 ? dir + "/t.il" : outKind == 1 ? dir + "/no/such/dir" : "/dev/full"; write_file(in, text); if (c.s.chance(1, 40)) in = dir + "/missing.cnd";
    c.desc = what + (json ? ", JSON messages" : "") + (outKind ? ", to " + outp : "") + "\n" + vis(text) + "\n"; c.mix(text); note_desc_impl(c.desc); c.count("source_" + what.substr(0, what.find(' '))); if (imports) c.count("imports"); if (outKind) c.count("unwritable_output");
    int rc = 0; bool fmt = text.find('\0') == std::string::npos && text.size() < 20000; std::string log; log.reserve(1 << 16); size_t mem[4]; int fds[4];
    auto once = [&]() {
        { std::string l; rc = runCompile(in, outp, json, verbose, l, dir); }
        if (fmt) { char* f = cnd_format_source(text.c_str()); free(f); cnd_format_file(in.c_str(), (dir + "/t.fmt").c_str()); cnd_format_file(in.c_str(), "/dev/full"); cnd_format_file(in.c_str(), (dir + "/no/such/dir").c_str()); }
    };
    auto rounds = [&]() { for (int i = 0; i < 4; i++) { if (i) once(); mem[i] = __sanitizer_get_current_allocated_bytes(); fds[i] = openFiles(); } };
    if (!limited(30000, rounds)) c.fail("time", "compiling three times used more than 30 s of processor time");
    c.count(rc ? "rejected" : "compiled");
    if (fds[3] > fds[2] && fds[2] > fds[1]) c.fail("files", strf("%d files stay open after each run", fds[3] - fds[2]));
    if (mem[3] > mem[2] && mem[2] > mem[1]) c.fail("memory", strf("%zu bytes are lost in each run", mem[3] - mem[2]));
    if (text.size() > 10) c.nontrivial = true;
}
