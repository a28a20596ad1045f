// The language server as a message-driven process: generated sessions against a model of its
// documents, with the compiler and the formatter deciding what it should say about them.
#include "cli.h"
#include "json.h"
#include "util.h"
#include <sys/stat.h>
#include <unistd.h>

namespace {
struct Def { std::string name; bool isEnum; int line; std::vector<std::string> members; };
struct Ident { std::string t; int line, col; bool wide; bool dec; size_t at; }; // col counts UTF-16 units, at bytes
// Words of a text with their positions, and the structs and enums it defines
struct Words { std::vector<Ident> ids; std::vector<Def> defs; };
// UTF-16 code units of a part of a UTF-8 text
int units(const std::string& s, size_t from, size_t to) { int n = 0; for (size_t k = from; k < to; k++) { unsigned char ch = (unsigned char)s[k]; if ((ch & 0xC0) != 0x80) n += ch >= 0xF0 ? 2 : 1; } return n; }
Words wordsOf(const std::string& s) {
    Words W; size_t i = 0, n = s.size(), ls = 0; int line = 0; std::vector<std::pair<std::string, int>> tk; // tokens and lines
    auto adv = [&](size_t to) { for (; i < to; i++) if (s[i] == '\n') { line++; ls = i + 1; } };
    auto word = [](unsigned char ch) { return isalnum(ch) || ch == '_'; };
    bool at = false;
    while (i < n) {
        unsigned char ch = (unsigned char)s[i];
        if (ch == '/' && i + 1 < n && s[i + 1] == '/') { size_t e = s.find('\n', i); adv(e == std::string::npos ? n : e); continue; }
        if (ch == '/' && i + 1 < n && s[i + 1] == '*') { size_t e = s.find("*/", i + 2); adv(e == std::string::npos ? n : e + 2); continue; }
        if (ch == '"') { size_t e = s.find('"', i + 1); adv(e == std::string::npos ? n : e + 1); tk.push_back({"\"", line}); at = false; continue; }
        if (isalpha(ch) || ch == '_') { size_t e = i; while (e < n && word((unsigned char)s[e])) e++; W.ids.push_back({s.substr(i, e - i), line, units(s, ls, i), units(s, ls, i) != (int)(i - ls), at, i}); tk.push_back({s.substr(i, e - i), line}); adv(e); at = false; continue; }
        if (isdigit(ch)) { size_t e = i; while (e < n && (word((unsigned char)s[e]) || s[e] == '.')) e++; tk.push_back({"0", line}); adv(e); at = false; continue; }
        if (!isspace(ch)) { tk.push_back({std::string(1, (char)ch), line}); at = ch == '@'; }
        adv(i + 1);
    }
    // names may be spelled like keywords, so definitions are read in order
    int depth = 0;
    for (size_t k = 0; k + 1 < tk.size(); k++) {
        const std::string& w = tk[k].first; if (w == "{") depth++; else if (w == "}") depth--;
        if (depth) continue;
        if (w == "packet" || w == "=" || w == "@") { k++; continue; }
        if (w != "struct" && w != "enum") continue;
        Def d{tk[k + 1].first, tk[k].first == "enum", tk[k + 1].second, {}}; if (!isalpha((unsigned char)d.name[0]) && d.name[0] != '_') continue;
        if (d.isEnum) { size_t m = k + 2; while (m < tk.size() && tk[m].first != "{") m++; for (m++; m < tk.size() && tk[m].first != "}"; m++) if (tk[m - 1].first == "{" || tk[m - 1].first == ",") if (isalpha((unsigned char)tk[m].first[0]) || tk[m].first[0] == '_') d.members.push_back(tk[m].first); }
        W.defs.push_back(d); k++;
    }
    return W;
}
struct Doc { std::string uri, path; bool onDisk = false, open = false; std::string disk, text; bool now(std::string& t) const { if (open) { t = text; return true; } t = disk; return onDisk; } };
struct Exp { enum K { RESP, DIAG, MAYBE } k; std::string id; std::string what; std::function<void(const J&)> check; bool error = false, any = false; };

struct Session {
    Case& c; Src& s; std::vector<Doc> docs; std::vector<Exp> exp; std::string in; int nextId = 1; bool over = false; std::string dir; std::string log;
    std::set<std::string> disks;
    bool onlyRun = false;
    explicit Session(Case& c_) : c(c_), s(c_.s) {}
    std::string jtext(const std::string& t) {
        if (s.chance(1, 2)) return jsonStr(t);
        std::string o = "\""; unsigned k = 1 + (unsigned)s.draw(8);
        for (size_t i = 0; i < t.size();) {
            unsigned char ch = (unsigned char)t[i]; size_t len = ch < 0x80 ? 1 : ch < 0xE0 ? 2 : ch < 0xF0 ? 3 : 4; uint32_t cp = len == 1 ? ch : len == 2 ? ch & 31 : len == 3 ? ch & 15 : ch & 7;
            for (size_t q = 1; q < len; q++) cp = cp << 6 | ((unsigned char)t[i + q] & 63);
            if (ch < 32 || ch == '"' || ch == '\\' || (i % k == 0 && s.chance(1, 4))) { if (cp < 0x10000) o += strf("\\u%04x", cp); else { uint32_t v = cp - 0x10000; o += strf("\\u%04X\\u%04x", 0xD800 + (v >> 10), 0xDC00 + (v & 1023)); } } else o += t.substr(i, len);
            i += len;
        }
        return o + "\"";
    }
    void frame(const std::string& body) {
        std::string len = strf("Content-Length: %zu\r\n", body.size()), type = "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n";
        switch (s.weighted({8, 1, 1, 1})) { case 1: in += type + len; break; case 2: in += len + type; break; case 3: in += "X-" + std::string(s.draw(3000), 'x') + "\r\n" + len; break; default: in += len; }
        in += "\r\n" + body; log += body.size() > 1500 ? body.substr(0, 1500) + "...\n" : body + "\n";
    }
    std::string newId() {
        if (s.chance(1, 3)) { static const char* x[] = {"\"a\"", "\"\"", "\"id-1\"", "\"\xC3\xA9\xF0\x9F\x98\x80\"", "\"q\\\"x\"", "0", "-1", "2147483647", "-2147483648"}; return x[s.draw(8)]; }
        return std::to_string(nextId++);
    }
    std::string call(const std::string& id, const std::string& method, const std::string& params) {
        std::vector<std::string> m = {"\"jsonrpc\":\"2.0\""}; if (!id.empty()) m.push_back("\"id\":" + id); m.push_back("\"method\":\"" + method + "\""); if (!params.empty()) m.push_back("\"params\":" + params);
        for (size_t i = m.size(); i > 1; i--) std::swap(m[i - 1], m[s.chance(1, 2) ? i - 1 : s.draw(i - 1)]);
        std::string o; const char* sp = s.chance(1, 6) ? "\n " : ""; for (auto& x : m) o += (o.empty() ? "{" : ",") + std::string(sp) + x; return o + sp + "}";
    }
    // the scratch directory differs between workers and must not influence the choices
    std::string juri(const Doc& d) { std::string p = "file://" + dir; std::string a = jsonStr(p); a.pop_back(); return a + jtext(d.uri.substr(p.size())).substr(1); }
    std::string docPar(const Doc& d, const std::string& more = "") { return "{\"textDocument\":{\"uri\":" + juri(d) + "}" + more + "}"; }
    std::string posPar(const Doc& d, int line, int col) { return docPar(d, strf(",\"position\":{\"line\":%d,\"character\":%d}", line, col)); }
    // ---- what the documents say
    std::string docText(); std::string docText0();
    bool compiles(const Doc& d, const std::string& text) {
        write_file(d.path, text); Program P; std::string l; int rc = compilePath(d.path, dir + "/oracle.il", P, &l);
        if (d.onDisk) write_file(d.path, d.disk); else unlink(d.path.c_str());
        return rc == 0;
    }
    void diag(const Doc& d, const std::string& text) {
        bool ok = compiles(d, text); c.count(ok ? "diag_clean" : "diag_error"); std::string uri = d.uri;
        exp.push_back({Exp::DIAG, "", ok ? "no diagnostics" : "an error", [this, ok, uri, text](const J& m) {
            const J* p = m.get("params"); const J* u = p ? p->get("uri") : nullptr; const J* l = p ? p->get("diagnostics") : nullptr;
            if (!u || u->s != uri) c.fail("diag-uri", "diagnostics for another document");
            if (!l || !l->is(J::ARR)) c.fail("diag-form", "no list of diagnostics");
            bool err = false; for (auto& x : l->a) { const J *sv = x.get("severity"), *r = x.get("range"), *ms = x.get("message"); if (!sv || sv->s == "1") err = true; if (!r || !r->get("start") || !r->get("end")) c.fail("diag-form", "diagnostic without range");
                else if (text.find("@import") == std::string::npos && text.find('\r') == std::string::npos) { const J *ln = r->get("start")->get("line"), *ch = r->get("start")->get("character"); if (!ln || !ch) c.fail("diag-form", "incomplete range"); size_t at = 0; long line = atol(ln->s.c_str()); for (long i = 0; i < line && at != std::string::npos; i++) { at = text.find('\n', at); if (at != std::string::npos) at++; } if (line < 0 || at == std::string::npos || atol(ch->s.c_str()) < 0 || atol(ch->s.c_str()) > units(text, at, std::min(text.find('\n', at), text.size()))) c.fail("diag-range", "an error at " + ln->s + ":" + ch->s + ", which is outside of the text:\n" + showText(text)); } if (!ms || !ms->is(J::STR) || ms->s.empty()) c.fail("diag-form", "diagnostic without message"); }
            if (err == ok) c.fail(ok ? "diag-false" : "diag-missing", ok ? "errors published for a text that compiles:\n" + showText(text) : "no error published for a text that does not compile:\n" + showText(text));
        }});
    }
    void respond(const std::string& id, const std::string& what, std::function<void(const J&)> f, bool any = false) { exp.push_back({Exp::RESP, id, what, f, false, any}); c.count("requests"); }
    // ---- one step
    void step();
    void odd();
    void run();
};
std::string utf8Only(std::string t) { for (auto& ch : t) if (!ch) ch = ' '; if (!utf8Valid(t)) for (auto& ch : t) if ((unsigned char)ch >= 0x80) ch = '?'; return t; }
std::string Session::docText() {
    std::string t = docText0(); if (!s.chance(1, 3)) return t;
    static const char* x[] = {"/*\xC3\xA9*/", "/* \xF0\x9D\x84\x9E */", "/*\xE6\xBC\xA2\xE5\xAD\x97 \xF0\x9F\x98\x80\xC3\xBC*/"}; // comments that are longer in UTF-8 than in UTF-16
    size_t n = 1 + s.draw(3); for (size_t i = 0; i < n; i++) { Words W = wordsOf(t); if (W.ids.empty()) break; const Ident& w = W.ids[s.draw(W.ids.size() - 1)]; if (!w.dec) t.insert(w.at, x[s.draw(2)]); }
    return t;
}
std::string Session::docText0() {
    switch (s.weighted({8, 4, 2, 1, 2})) {
        case 0: case 1: {
            Feat F = featFor(s); F.optional = s.chance(1, 3); F.maxFields = 5; Gen g(s, F); Schema S = g.schema(); Style st; st.noise = &s; st.ws = s.chance(1, 2); st.comments = s.chance(1, 2); st.synonyms = s.chance(1, 3); st.numbers = s.chance(1, 4);
            std::vector<std::string> t = tokens(S, st); if (s.chance(1, 3)) t = mutTokens(s, t);
            return utf8Only(join(t, st));
        }
        case 2: { // long documentation, names and enums
            std::string o; size_t nd = s.draw(3); for (size_t k = 0; k < nd; k++) { size_t lines = 1 + s.draw(4), len = s.chance(1, 3) ? s.draw(3000) : s.draw(60); for (size_t i = 0; i < lines; i++) o += "/// " + std::string(len, (char)('a' + s.draw(25))) + (s.chance(1, 4) ? " \xC3\xA9\xE2\x82\xAC" : "") + "\n";
                std::string nm = strf("T%zu", k) + std::string(s.chance(1, 4) ? s.draw(240) : 0, 'n'); o += "enum " + nm + " : uint16 {\n"; size_t m = 1 + s.draw(s.chance(1, 3) ? 300 : 6); for (size_t i = 0; i < m; i++) o += (s.chance(1, 8) ? "  /// about it\n" : "") + strf("  V%zu_%zu%s = %zu,\n", k, i, std::string(s.chance(1, 6) ? s.draw(200) : 0, 'm').c_str(), i); o += "}\n"; }
            o += "/// \xE2\x98\x83 " + std::string(s.chance(1, 3) ? 5000 : 3, 'd') + "\nstruct Sn {\n  uint8 a;\n  uint16 b[2];\n}\npacket Pk { Sn s; }\n"; return o; }
        case 3: if (s.chance(1, 3)) { size_t n = 55 + s.draw(20); std::string o = "packet P { uint8 k;", z; for (size_t i = 0; i < n; i++) { o += strf(" switch (k) { case %zu:", i); z += " }"; } c.count("deep_switches"); return o + " uint8 x;" + z + " }"; }
            return s.chance(1, 4) ? "" : utf8Only(soup(s, 1 + s.draw(60)));
        default: { // imports of the other documents
            std::string o; size_t n = 1 + s.draw(2); for (size_t i = 0; i < n; i++) { const Doc& d = docs[s.draw(docs.size() - 1)]; o += "@import(\"" + (s.chance(1, 8) ? "missing.cnd" : d.path.substr(d.path.rfind('/') + 1)) + "\")\n"; }
            o += "enum Own : uint8 { A = 1, B = 2 }\nstruct Mine { Own o; uint8 x; }\n"; if (s.chance(1, 2)) o += "packet Pq { Mine m; }\n"; return o; }
    }
}
const char* METHODS[] = {"definition", "hover", "completion", "formatting", "documentSymbol"};
void Session::odd() {
    switch (s.draw(6)) {
        case 0: { static const char* x[] = {"", "{", "nul", "{\"id\":1,\"method\":\"shutdown\"", "[1,", "{'id':1}", "\x01", "{\"a\":}"}; frame(x[s.draw(7)]); exp.push_back({Exp::MAYBE, "", "", nullptr}); c.count("bad_json"); break; }
        case 1: { static const char* x[] = {"[]", "5", "null", "\"shutdown\"", "true", "{}", "{\"id\":987654}", "{\"jsonrpc\":\"2.0\",\"id\":987654,\"result\":null}", "{\"jsonrpc\":\"2.0\",\"method\":5}"}; frame(x[s.draw(8)]); exp.push_back({Exp::MAYBE, "", "", nullptr}); c.count("no_call"); break; }
        case 2: { static const char* x[] = {"initialized", "$/cancelRequest", "$/setTrace", "textDocument/willSave", "nonsense", "", "workspace/didChangeConfiguration", "textDocument/willSaveWaitUntil", "workspace/didRenameFiles"}; frame(call("", x[s.draw(8)], s.chance(1, 3) ? docPar(docs[s.draw(docs.size() - 1)], ",\"contentChanges\":[{\"text\":\"packet Other { uint8 x; }\"}]") : s.chance(1, 2) ? "{\"a\":[1]}" : "")); c.count("unknown_notification"); break; }
        case 3: { static const char* x[] = {"textDocument/references", "nonsense", "", "$/unknown", "workspace/symbol", "initialize2", "textDocument/definitio"}; std::string id = newId(); frame(call(id, x[s.draw(6)], s.chance(1, 2) ? "{}" : "")); Exp e{Exp::RESP, id, "answer to an unknown request", nullptr}; e.any = true; exp.push_back(e); c.count("unknown_request"); break; }
        case 4: { // requests without what they need
            static const char* x[] = {"", "{}", "[]", "null", "5", "{\"textDocument\":5,\"position\":{\"line\":0,\"character\":0}}", "{\"textDocument\":{\"uri\":5},\"position\":{\"line\":0,\"character\":0}}", "{\"textDocument\":{},\"position\":{}}", "{\"textDocument\":{\"uri\":null},\"position\":null}"};
            std::string par = s.chance(1, 2) ? x[s.draw(8)] : docPar(docs[s.draw(docs.size() - 1)], s.chance(1, 2) ? "" : s.chance(1, 2) ? ",\"position\":{\"line\":\"0\"}" : ",\"position\":[1,2]"); std::string id = newId(); std::string m = METHODS[s.draw(4)];
            frame(call(id, "textDocument/" + m, par)); Exp e{Exp::RESP, id, "answer to incomplete " + m, nullptr}; e.any = true; exp.push_back(e); c.count("incomplete_request"); break; }
        case 5: { static const char* m[] = {"didOpen", "didChange", "didSave", "didClose"}; static const char* x[] = {"", "{}", "[]", "null", "{\"textDocument\":{}}", "{\"textDocument\":{\"uri\":5,\"text\":6}}", "{\"textDocument\":7,\"contentChanges\":[]}", "{\"textDocument\":{\"uri\":5},\"contentChanges\":[{\"text\":\"x\"}]}", "{\"textDocument\":{\"uri\":\"file:///none\"},\"contentChanges\":[]}", "{\"textDocument\":{\"uri\":\"file:///none\"},\"contentChanges\":[5]}", "{\"textDocument\":{\"uri\":\"file:///none\",\"text\":null},\"contentChanges\":{}}"}; frame(call("", std::string("textDocument/") + m[s.draw(3)], x[s.draw(10)])); c.count("incomplete_notification"); break; }
        default: { // a position far away
            std::string id = newId(); static const char* p[] = {"-1", "2147483647", "-2147483648", "1e300", "99999999999", "0.5", "100000"}; const Doc& d = docs[s.draw(docs.size() - 1)];
            frame(call(id, std::string("textDocument/") + METHODS[s.draw(2)], docPar(d, std::string(",\"position\":{\"line\":") + (s.chance(1, 2) ? "0" : p[s.draw(6)]) + ",\"character\":" + p[s.draw(6)] + "}"))); Exp e{Exp::RESP, id, "answer for a far position", nullptr}; e.any = true; exp.push_back(e); c.count("far_position"); break; }
    }
}
void Session::step() {
    Doc& d = docs[s.draw(docs.size() - 1)]; std::string text;
    switch (s.weighted({4, 4, 3, 3, 3, 2, 2, 1, 1, 1, 2, 4})) {
        case 0: { d.open = true; d.text = docText(); frame(call("", "textDocument/didOpen", "{\"textDocument\":{\"uri\":" + juri(d) + ",\"languageId\":\"cnd\",\"version\":1,\"text\":" + jtext(d.text) + "}}")); diag(d, d.text); c.count("open"); break; }
        case 1: { // definition and hover
            bool hover = s.chance(1, 2); if (!d.now(text)) { std::string id = newId(); frame(call(id, hover ? "textDocument/hover" : "textDocument/definition", posPar(d, (int)s.draw(5), (int)s.draw(20)))); respond(id, "nothing", [this](const J& r) { if (!r.is(J::NUL)) c.fail("answer", "an answer about a document that does not exist"); }); break; }
            Words W = wordsOf(text); int line = (int)s.draw(30), col = (int)s.draw(40); const Ident* at = nullptr; std::string id = newId();
            if (!W.ids.empty() && s.chance(5, 6)) { std::vector<size_t> cand; if (s.chance(2, 3)) for (size_t i = 0; i < W.ids.size(); i++) for (auto& f : W.defs) if (f.name == W.ids[i].t) { cand.push_back(i); break; } at = &W.ids[cand.empty() ? s.draw(W.ids.size() - 1) : cand[s.draw(cand.size() - 1)]]; line = at->line; col = at->col + (int)s.draw(at->t.size()); }
            frame(call(id, hover ? "textDocument/hover" : "textDocument/definition", posPar(d, line, col)));
            bool valid = compiles(d, text) && text.find("@import") == std::string::npos && text.find('\\') == std::string::npos; Exp e{Exp::RESP, id, hover ? "hover" : "definition", nullptr}; c.count("requests");
            const Def* f = nullptr; if (at) for (auto& x : W.defs) if (x.name == at->t) f = &x;
            if (valid && at && !at->dec) { if (at->wide) c.count("after_wide_characters");
                if (f) { Def def = *f; std::string uri = d.uri; c.count(hover ? "hover_known" : "definition_known");
                    e.check = [this, def, uri, hover, text, line, col](const J& r) {
                        std::string where = strf(" for %s at %d:%d of\n", def.name.c_str(), line, col) + showText(text);
                        if (!r.is(J::OBJ)) c.fail(hover ? "hover" : "definition", "no answer" + where);
                        if (!hover) { const J *u = r.get("uri"), *g = r.get("range"), *st = g ? g->get("start") : nullptr, *l = st ? st->get("line") : nullptr; if (!u || u->s != uri) c.fail("definition", "another document" + where); if (!l || l->s != std::to_string(def.line)) c.fail("definition", "line " + (l ? l->s : "missing") + strf(" instead of %d", def.line) + where); return; }
                        const J *ct = r.get("contents"), *v = ct ? ct->get("value") : nullptr; if (!v || !v->is(J::STR)) c.fail("hover", "no contents" + where);
                        if (v->s.find(def.name) == std::string::npos) c.fail("hover", "the name is missing" + where);
                        for (auto& m : def.members) if (v->s.find("`" + m + "`") == std::string::npos) c.fail("hover", "enumerator " + m + " is missing" + where);
                    }; }
                else { bool builtin = at->dec; if (!builtin) e.check = [this, hover, text, line, col](const J& r) { if (!r.is(J::NUL)) c.fail(hover ? "hover" : "definition", strf("an answer for what is neither a struct nor an enum at %d:%d of\n", line, col) + showText(text)); }; }
            } else if (!e.check) c.count("unchecked_position");
            exp.push_back(e); break; }
        case 2: { // completion
            std::string id = newId(); std::vector<std::string> want, never; int line, col;
            if (s.chance(1, 2)) { // a document written for it
                d.open = true; std::string t; size_t n = 1 + s.draw(6); bool ex = s.chance(1, 2), mem = s.chance(1, 4); bool plain = !mem && s.chance(1, 6), other = s.chance(1, 3); t = "enum En : uint8 { Aa = 1, Bb = 2, Cc = 3 }\n" + std::string(other ? "struct O { uint8 elsewhere; }\n" : "") + std::string(s.chance(1, 4) ? "@unaligned_bytes\n" : "") + "struct Q {\n";
                for (size_t i = 0; i < n; i++) { std::string f = strf("f%zu", i), v; switch (s.draw(9)) { case 0: v = "uint8 " + f + ";"; break; case 1: v = "int64 " + f + ";"; break; case 2: v = "uint16 " + f + "[3];"; break; case 3: v = "string " + f + " prefix uint8;"; break; case 4: v = "@range(1, 100) uint8 " + f + ";"; break; case 5: v = "En " + f + ";"; break; case 6: v = "@const(3) uint32 " + f + ";"; break; case 7: v = "uint8 k" + f + ";\n switch (k" + f + ") { case 1: uint8 " + f + "; case 2: uint16 g" + f + "; default: int8 h" + f + "; }"; break; case 8: v = "@scale(0.5) uint8 " + f + ";"; break; default: v = "uint8 k" + f + ";\n if (k" + f + " > 3) { uint32 " + f + "; }"; } t += "  " + v + "\n"; want.push_back(f); }
                if (t.find("@unaligned") != std::string::npos && t.find("switch") == std::string::npos) {}
                line = (int)std::count(t.begin(), t.end(), '\n'); std::string last = plain ? "  En e" : mem ? "  @const(En." : ex ? "  @expr(" : "  @count("; if (!mem && !plain && s.chance(1, 2)) last += ex ? "f0 + " : ""; if (s.chance(1, 4)) last = "/*\xF0\x9D\x84\x9E\xF0\x9D\x84\x9E\xE6\xBC\xA2\xE6\xBC\xA2\xC3\xA9 */" + last; t += last; col = units(last, 0, last.size()); if (s.chance(1, 2)) t += plain ? "e;\n}\npacket P { Q q; }\n" : ") uint8 z;\n}\npacket P { Q q; }\n";
                if (plain) { want = {"struct", "if"}; never = {"Aa", "Bb", "Cc"}; } else if (other) never = {"elsewhere"}; if (plain) {} else if (mem) want = {"Aa", "Bb", "Cc"}; else if (ex) { want.push_back("sin"); want.push_back("pow"); want.push_back("float"); }
                bool bits = t.find("@unaligned") != std::string::npos; if (bits && !mem && !plain) want.clear(); // some of its fields are not allowed there
                d.text = t; frame(call("", "textDocument/didOpen", "{\"textDocument\":{\"uri\":" + juri(d) + ",\"text\":" + jtext(t) + "}}")); diag(d, t); c.count(plain ? "complete_plain" : mem ? "complete_enum" : ex ? "complete_expr" : "complete_count");
            } else { if (!d.now(text)) break; line = (int)s.draw(10); col = (int)s.draw(30); if (s.chance(1, 3)) { line = 0; col = 0; if (compiles(d, text)) { for (auto& f : wordsOf(text).defs) want.push_back(f.name); want.push_back("struct"); want.push_back("packet"); want.push_back("@range"); c.count("complete_top"); } } }
            if (!d.now(text)) break;
            frame(call(id, "textDocument/completion", posPar(d, line, col)));
            respond(id, "completion", [this, want, never, text, line, col](const J& r) {
                const J* l = r.is(J::ARR) ? &r : r.get("items"); if (!l || !l->is(J::ARR)) c.fail("completion", "no list of items");
                std::map<std::string, int> n; for (auto& x : l->a) { const J* b = x.get("label"); if (!b || !b->is(J::STR)) c.fail("completion", "item without label"); n[b->s]++; }
                for (auto& w : want) if (!n.count(w)) c.fail("completion", strf("%s is not offered at %d:%d of\n", w.c_str(), line, col) + showText(text));
                for (auto& w : never) if (n.count(w)) c.fail("completion", strf("%s is offered at %d:%d of\n", w.c_str(), line, col) + showText(text));
            }); break; }
        case 3: { // formatting
            std::string id = newId(); frame(call(id, "textDocument/formatting", docPar(d, ",\"options\":{\"tabSize\":4,\"insertSpaces\":true}")));
            if (!d.now(text)) { respond(id, "nothing", [this](const J& r) { if (!r.is(J::NUL)) c.fail("answer", "formatted a document that does not exist"); }); break; }
            char* f = cnd_format_source(text.c_str()); std::string want = f ? f : text; free(f); c.count("format");
            respond(id, "formatting", [this, want, text](const J& r) {
                if (!r.is(J::ARR) || r.a.size() > 1) c.fail("formatting", "no list of one edit"); std::string got = text;
                if (r.a.size()) { const J &e = r.a[0], *g = e.get("range"), *a = g ? g->get("start") : nullptr, *b = g ? g->get("end") : nullptr, *t = e.get("newText"); if (!a || !b || !t || !a->get("line") || !b->get("line")) c.fail("formatting", "incomplete edit"); if (a->get("line")->s != "0" || a->get("character")->s != "0" || atol(b->get("line")->s.c_str()) < (long)std::count(text.begin(), text.end(), '\n')) c.fail("formatting", "the edit does not replace the document"); got = t->s; }
                if (got != want) c.fail("formatting", "formatted text\n" + showText(got) + "\ninstead of\n" + showText(want));
            }); break; }
        case 4: { // symbols
            std::string id = newId(); frame(call(id, "textDocument/documentSymbol", docPar(d)));
            if (!d.now(text)) { respond(id, "nothing", [this](const J& r) { if (!r.is(J::NUL)) c.fail("answer", "symbols of a document that does not exist"); }); break; }
            bool valid = compiles(d, text); c.count("symbols"); std::vector<Def> defs = wordsOf(text).defs; std::string uri = d.uri;
            respond(id, "symbols", [this, valid, defs, text, uri](const J& r) {
                if (!r.is(J::ARR)) c.fail("symbols", "no list"); if (!valid) return; std::multiset<std::string> got, want; for (auto& x : defs) want.insert(strf("%s %s %d", x.isEnum ? "enum" : "struct", x.name.c_str(), x.line));
                for (auto& x : r.a) { const J *n = x.get("name"), *k = x.get("kind"), *lo = x.get("location"), *g = lo ? lo->get("range") : x.get("range"), *st = g ? g->get("start") : nullptr, *l = st ? st->get("line") : nullptr; if (!n || !k || !l) c.fail("symbols", "incomplete symbol"); if (lo && (!lo->get("uri") || lo->get("uri")->s != uri)) c.fail("symbols", "symbol in another document"); if (k->s != "23" && k->s != "10") continue; got.insert((k->s == "10" ? "enum " : "struct ") + n->s + " " + l->s); }
                if (got != want) { std::string a, b; for (auto& x : got) a += x + "; "; for (auto& x : want) b += x + "; "; c.fail("symbols", "listed " + a + " instead of " + b + "\n" + showText(text)); }
            }); break; }
        case 5: { if (!d.open) break; std::string par = "[", t; size_t n = 1 + s.draw(2); for (size_t i = 0; i < n; i++) { t = docText(); par += (i ? ",{\"text\":" : "{\"text\":") + jtext(t) + "}"; } d.text = t; frame(call("", "textDocument/didChange", docPar(d, ",\"contentChanges\":" + par + "]"))); diag(d, t); c.count("change"); break; }
        case 6: { frame(call("", "textDocument/didSave", docPar(d))); if (d.onDisk) diag(d, d.disk); c.count("save"); break; }
        case 7: { frame(call("", "textDocument/didClose", docPar(d))); d.open = false; c.count("close"); break; }
        case 8: { std::string id = newId(); frame(call(id, "initialize", "{\"processId\":1,\"capabilities\":{}}")); respond(id, "capabilities", [this](const J& r) { if (!r.get("capabilities") || !r.get("capabilities")->is(J::OBJ)) c.fail("initialize", "no capabilities"); const J* cp = r.get("capabilities")->get("completionProvider"); const J* tc = cp ? cp->get("triggerCharacters") : nullptr; if (tc) { if (!tc->is(J::ARR)) c.fail("initialize", "triggerCharacters is not a list"); for (auto& x : tc->a) if (!x.is(J::STR)) c.fail("initialize", "a trigger character is not a string"); } }); break; }
        case 9: { std::string id = newId(); frame(call(id, "shutdown", s.chance(1, 2) ? "null" : "")); respond(id, "null", [this](const J& r) { if (!r.is(J::NUL)) c.fail("shutdown", "result is not null"); }); break; }
        case 10: { // a name defined in an imported file
            std::vector<const Doc*> cand; for (auto& o : docs) if (&o != &d && o.onDisk && o.disk.find("@import") == std::string::npos && o.disk.find('\\') == std::string::npos) cand.push_back(&o);
            if (cand.empty()) break; const Doc& o = *cand[s.draw(cand.size() - 1)]; if (!compiles(o, o.disk)) break;
            std::vector<Def> defs = wordsOf(o.disk).defs; if (defs.empty()) break; const Def& f = defs[s.draw(defs.size() - 1)]; std::string rel = o.path.substr(o.path.rfind('/') + 1); static const char* pre[] = {"", "./", ".//", "../lsp/"};
            d.open = true; d.text = "@import(\"" + std::string(pre[s.chance(1, 3) ? s.draw(3) : 0]) + rel + "\")\n" + (s.chance(1, 2) ? "/// own\n" : ""); int line = (int)std::count(d.text.begin(), d.text.end(), '\n'); std::string head = "struct Mine_ { uint8 a_; "; d.text += head + f.name + " b_; }\n"; if (o.disk.find("packet") == std::string::npos) d.text += "packet Pq_ { Mine_ m_; }\n";
            frame(call("", "textDocument/didOpen", "{\"textDocument\":{\"uri\":" + juri(d) + ",\"text\":" + jtext(d.text) + "}}")); diag(d, d.text); bool ok = compiles(d, d.text); bool hover = s.chance(1, 3);
            std::string id = newId(); frame(call(id, hover ? "textDocument/hover" : "textDocument/definition", posPar(d, line, (int)head.size() + (int)s.draw(f.name.size())))); std::string opath = o.path, name = f.name; int oline = f.line;
            if (!ok) { Exp e{Exp::RESP, id, "definition", nullptr}; e.any = true; exp.push_back(e); break; } c.count(hover ? "hover_imported" : "definition_imported");
            respond(id, hover ? "hover" : "definition", [this, hover, opath, name, oline](const J& r) {
                std::string where = " for the imported " + name; if (!r.is(J::OBJ)) c.fail("import-definition", "no answer" + where);
                if (hover) { const J *ct = r.get("contents"), *v = ct ? ct->get("value") : nullptr; if (!v || v->s.find(name) == std::string::npos) c.fail("import-definition", "the name is missing" + where); return; }
                const J *u = r.get("uri"), *g = r.get("range"), *st = g ? g->get("start") : nullptr, *l = st ? st->get("line") : nullptr; std::string p; if (u && !u->s.compare(0, 7, "file://")) for (size_t i = 7; i < u->s.size(); i++) if (u->s[i] == '%' && i + 2 < u->s.size()) { p += (char)std::stoi(u->s.substr(i + 1, 2), nullptr, 16); i += 2; } else p += u->s[i];
                char* rp = realpath(p.c_str(), nullptr); std::string got = rp ? rp : ""; free(rp); if (got != opath) c.fail("import-definition", "file " + (u ? u->s : "missing") + where); if (!l || l->s != std::to_string(oline)) c.fail("import-definition", "line " + (l ? l->s : "missing") + strf(" instead of %d", oline) + where);
            }); break; }
        default: odd();
    }
}
void Session::run() {
    char* rp = realpath(c.scratch.c_str(), nullptr); dir = std::string(rp) + "/lsp"; free(rp); mkdir(dir.c_str(), 0700);
    static const char* names[] = {"a.cnd", "b.cnd", "with space.cnd", "d%25.cnd", "\xC3\xA9.cnd", "p+q,(r)~[s];&=@.cnd", "zJKLMNOkjmno:.cnd"}; size_t nd = 1 + s.draw(3);
    for (size_t i = 0; i < 7; i++) unlink((dir + "/" + names[i]).c_str());
    for (size_t i = 0; i < nd; i++) { Doc d; std::string n = names[s.chance(1, 4) ? i : i < 2 && s.chance(1, 2) ? i : s.draw(6)]; bool dup = false; for (auto& o : docs) if (o.path == dir + "/" + n) dup = true; if (dup) continue; d.path = dir + "/" + n; d.uri = "file://"; size_t plain = d.path.rfind('/'); bool more = s.chance(1, 3), low = s.chance(1, 2); // clients differ in what they escape and in the case of the digits
        for (size_t j = 0; j < d.path.size(); j++) { unsigned char ch = (unsigned char)d.path[j]; bool esc = ch <= ' ' || ch == '%' || ch >= 0x80 || (j > plain && ch != '/' && (strchr("+,()~[];&=@:", ch) || (more && s.chance(1, 3)))); if (esc && ch > ' ' && ch < 0x80) c.count("uri_escaped_plain"); d.uri += esc ? strf(low ? "%%%02x" : "%%%02X", ch) : std::string(1, (char)ch); }
        docs.push_back(d); }
    for (auto& d : docs) if (s.chance(2, 3)) { std::string t = docText(); d.onDisk = true; d.disk = t; write_file(d.path, t); log += "on disk " + d.path.substr(dir.size() + 1) + ":\n" + t + "\n"; }
    if (s.chance(1, 40)) { // an editor with many files open
        size_t many = 5 + s.draw(150); c.count("many_documents");
        for (size_t i = 0; i < many; i++) { Doc d; d.path = dir + strf("/m%zu.cnd", i); d.uri = "file://" + d.path; d.open = true; d.text = strf("struct M%zu {\n  uint8 a;\n}\npacket P {\n  M%zu m;\n}\n", i, i); frame(call("", "textDocument/didOpen", "{\"textDocument\":{\"uri\":" + juri(d) + ",\"languageId\":\"cnd\",\"version\":1,\"text\":" + jtext(d.text) + "}}")); diag(d, d.text); docs.push_back(d); }
    }
    size_t n = 1 + s.draw(14); for (size_t i = 0; i < n; i++) step();
    size_t tail = s.weighted({5, 1, 4}); 
    if (tail == 1) frame(call("", "exit", "")); 
    else if (tail == 2) { static const char* x[] = {"Content-Length: 100\r\n\r\n{\"id\":1}", "Content-Length: -5\r\n\r\n{}", "Content-Length: 99999999999999\r\n\r\n{}", "Content-Length: abc\r\n\r\n{}", "Content-Length:", "\r\n", "\r\n\r\n", "garbage", "garbage\r\n\r\n{}", "Content-Length: 4294967297\r\n\r\n{}", "{\"jsonrpc\":\"2.0\"}", "Content-Length: 18446744073709551615\r\n\r\n", "Content-Length: 2147483648\r\n\r\n{}", "Content-Length: 3\r\n\r\n", "Content-Length: 0\r\n\r\n"}; std::string t = x[s.draw(14)]; if (s.chance(1, 4)) { t.clear(); size_t k = s.draw(4000); for (size_t i = 0; i < k; i++) t += (char)s.draw(255); } in += t; log += "then " + showText(t, 100) + "\n"; exp.push_back({Exp::MAYBE, "", "", nullptr}); c.count("garbage_end"); }
    if (s.chance(1, 10)) { size_t cut = in.size() * s.draw(1000) / 1000; in.resize(cut); exp.clear(); log += strf("cut after %zu bytes\n", cut); c.count("cut"); over = true; }
    c.desc = log; c.mix(in); note(c);
    Ran r = cli(c, {"lsp"}, in);
    if (onlyRun) return;
    if (r.rc > 1) c.fail("exit", strf("exit status %d: ", r.rc) + r.err.substr(0, 1000));
    size_t p = 0, k = 0, messages = 0;
    auto nextExp = [&]() { while (k < exp.size() && exp[k].k == Exp::MAYBE) k++; };
    while (p < r.out.size()) {
        size_t e = r.out.find("\r\n\r\n", p); if (e == std::string::npos) c.fail("framing", "output without header: " + showText(r.out.substr(p), 300));
        std::string h = r.out.substr(p, e - p); size_t len = 0; int used = 0; if (sscanf(h.c_str(), "Content-Length: %zu%n", &len, &used) != 1 || (size_t)used != h.size()) c.fail("framing", "bad header: " + showText(h, 300));
        if (e + 4 + len > r.out.size()) c.fail("framing", strf("message of %zu bytes is announced as %zu", r.out.size() - e - 4, len));
        std::string body = r.out.substr(e + 4, len); p = e + 4 + len; messages++; J m; std::string bad = jsonParse(body, m); if (!bad.empty()) c.fail("json", bad + " in " + showText(body)); if (!utf8Valid(body)) c.fail("json", "not UTF-8");
        if (!m.get("jsonrpc") || m.get("jsonrpc")->s != "2.0") c.fail("message", "no jsonrpc version: " + showText(body, 300));
        if (over) continue;
        const J *id = m.get("id"), *me = m.get("method");
        // a message that could not be understood may be answered with an error
        if (id && id->is(J::NUL) && m.get("error")) { size_t q = k; while (q < exp.size() && exp[q].k != Exp::MAYBE) q++; if (k < exp.size() && exp[k].k == Exp::MAYBE) { k++; continue; } c.fail("extra", "unexpected error message " + showText(body, 300)); }
        if (id && id->s == "987654" && k < exp.size() && exp[k].k == Exp::MAYBE && m.get("error")) { k++; continue; }
        nextExp(); if (k >= exp.size()) c.fail("extra", "unexpected message " + showText(body, 300));
        Exp& x = exp[k++];
        if (x.k == Exp::DIAG) { if (!me || me->s != "textDocument/publishDiagnostics") c.fail("order", "expected diagnostics, got " + showText(body, 300)); x.check(m); continue; }
        if (me || !id) c.fail("order", "expected " + x.what + ", got " + showText(body, 300));
        J want; jsonParse(x.id, want); if (want.k != id->k || want.s != id->s) c.fail("id", "expected the answer to " + x.id + " (" + x.what + "), got " + showText(body, 300));
        const J *res = m.get("result"), *er = m.get("error"); if (!res == !er) c.fail("answer", "neither or both of result and error: " + showText(body, 300));
        if (x.any) continue;
        if (er) c.fail("answer", "error instead of " + x.what + ": " + showText(body, 300));
        if (x.check) x.check(*res);
    }
    nextExp(); if (!over && k < exp.size()) c.fail("unanswered", strf("%zu expected messages are missing, first: ", exp.size() - k) + exp[k].what + " " + exp[k].id + "\n" + r.err);
    c.count("messages", messages); if (messages >= 3) c.nontrivial = true;
}
} // namespace
void lspTraffic(Case& c) { Session S(c); S.onlyRun = true; S.run(); c.nontrivial = true; }
static void c25(Case& c) { Session S(c); S.run(); }
static Reg r25({"C25", "Generated sessions of up to 15 steps over up to four documents on disk or open in the editor (valid schemas in several spellings, damaged ones, long documentation comments and enumerations, imports of each other), sent to the real server process with varied headers, escapes and ids: open, change, save, close, definition, hover, completion, formatting, symbols, initialize, shutdown, unknown and incomplete requests and notifications, bodies that are not JSON or not a call, far positions, and garbage, truncation or exit at the end. Every message of the server must be well framed valid JSON; every request must have exactly one answer with its id, in order; diagnostics contain an error exactly when the compiler rejects the text; formatting, symbols, definition, hover and completion answers are compared with the formatter and with the definitions found by an independent scanner. Non-trivial: at least 3 messages from the server; distinct by the bytes sent.", c25, 12000, 250000});
