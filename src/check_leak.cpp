// C37: memory and files are given back, by the library in one process and by the tool's commands and the language server.
#include "cli.h"
#include "json.h"
#include "util.h"
#include <sys/stat.h>
#include <unistd.h>
void compileLeaks(Case& c);
void lspTraffic(Case& c);
void goLeaks(Case& c);
static void commands(Case& c) {
    Src& s = c.s; std::string w = c.scratch + "/w37", in = w + "/t.cnd", il = w + "/t.il", bin = w + "/m.bin", js = w + "/m.json", out = w + "/out", text; mkdir(w.c_str(), 0700);
    Feat F = withBig(featFor(s), 1 | 8 | 32 | 64); Gen g(s, F); Schema S = g.schema(); text = render(S); bool bad = s.chance(1, 6); if (bad) { text.clear(); for (auto& t : mutTokens(s, tokens(S))) text += t + " "; }
    c.desc = "commands on:\n" + text + "\n"; c.mix(text); note(c); write_file(in, text);
    auto where = [&](const std::string& o) { return s.chance(1, 12) ? s.chance(1, 2) ? std::string("/dev/full") : w + "/no/such" : o; };
    auto run = [&](std::vector<std::string> a) { std::string l; for (auto& x : a) l += " " + (x.rfind(w, 0) == 0 ? x.substr(w.size() + 1) : x); say(c, l); Ran r = cli(c, a); c.count(a[0] + (r.rc ? "_fails" : "_ok")); return r.rc; };
    auto damage = [&](const std::string& f) { std::string t = read_file(f); std::vector<uint8_t> v(t.begin(), t.end()); v = mutate(s, v); write_file(f, v); c.count("damaged_input"); };
    if (s.chance(1, 3)) run({"fmt", in, where(out)});
    std::vector<std::string> a{"compile", in, where(il)}; if (s.chance(1, 3)) a.push_back("--json"); if (s.chance(1, 6)) a.push_back("-v"); if (run(a) || a[2] != il) return;
    if (s.chance(1, 8)) damage(il); c.nontrivial = true;
    if (s.chance(1, 3)) run({"inspect", il});
    RefOpts o; o.utf8 = true; RefResult r = refEncode(S, s, o); if (bad || r.undef) return; std::vector<uint8_t> m = r.bytes; if (r.err || s.chance(1, 4)) m = mutate(s, m);
    write_file(bin, m); a = {"decode", il, bin, where(js)}; if (s.chance(1, 4)) a.push_back("--hex"); if (run(a) || a[3] != js) return;
    if (s.chance(1, 2)) { // the document, damaged as a text or with a value of another kind
        std::string h = read_file(js); size_t hp = std::string::npos; for (size_t q = 0; (q = h.find('"', q)) != std::string::npos; q++) { size_t e = h.find_first_not_of("0123456789ABCDEFabcdef", q + 1); if (e != std::string::npos && e > q + 4 && h[e] == '"') hp = q + 1 + s.draw(e - q - 2); }
        if (hp != std::string::npos && s.chance(2, 3)) { h[hp] = 'z'; write_file(js, h); c.count("bad_hex_digit"); }
        else if (s.chance(1, 8)) { static const char* X[] = {"[1,2]", "\"text\"", "3", "null", "{} x", "{\"a\":1} {\"a\":", "", " ", "[{\"a\":[1,{}]}]"}; write_file(js, std::string(X[s.draw(8)])); c.count("no_object"); }
        else if (s.chance(1, 2)) damage(js);
        else { std::string t = read_file(js); size_t p = 0; std::vector<size_t> at; while ((p = t.find(": ", p)) != std::string::npos) at.push_back(p += 2); for (size_t q = 0; (q = t.find(":\t", q)) != std::string::npos;) at.push_back(q += 2);
            if (!at.empty()) { static const char* X[] = {"null", "{}", "[]", "\"x\"", "-1", "1e300", "[[1],{}]", "{\"a\":[1,{}]}", "true", "99999999999999999999", "\"12zz\"", "\"0A1\""}; p = at[s.draw(at.size() - 1)]; size_t e = t.find_first_of(",}\n", p); t.replace(p, e == std::string::npos ? e : e - p, X[s.draw(11)]); write_file(js, t); c.count("value_of_another_kind"); } }
    }
    run({"encode", il, js, where(out)});
}
static std::string msg(const std::string& b) { return strf("Content-Length: %zu\r\n\r\n", b.size()) + b; }
// Many messages about few documents, with hardly any files to spare: the last answers must be those of the beginning.
static void longSession(Case& c) {
    Src& s = c.s; std::string w = c.scratch + "/s37"; mkdir(w.c_str(), 0700); char* rp = realpath(w.c_str(), nullptr); w = rp; free(rp); size_t n = 1 + s.draw(3), rounds = 20 + s.draw(40); std::string main = "", in;
    for (size_t i = 0; i < n; i++) { std::string t = strf("struct L%zu { uint8 a; }\n", i); if (i && s.chance(1, 3)) t = strf("@import(\"l%zu.cnd\")\n", i - 1) + t; write_file(w + strf("/l%zu.cnd", i), t); main += strf("@import(\"l%zu.cnd\")\n", i); }
    main += strf("packet P { L%zu x; uint8 y; }\n", n - 1); std::string uri = "file://" + w + "/m.cnd", id = "{\"textDocument\":{\"uri\":\"" + uri + "\"}"; write_file(w + "/m.cnd", main);
    auto call = [&](const char* m, const std::string& p, int nr = 0) { in += msg(std::string("{\"jsonrpc\":\"2.0\",") + (nr ? strf("\"id\":%d,", nr) : "") + "\"method\":\"" + m + "\",\"params\":" + p + "}"); };
    call("textDocument/didOpen", "{\"textDocument\":{\"uri\":\"" + uri + "\",\"languageId\":\"cnd\",\"version\":1,\"text\":" + jsonStr(main) + "}}");
    size_t bad = s.draw(3), kinds = 1 + s.draw(30); static const char* M[] = {"definition", "hover", "completion", "documentSymbol", "formatting"};
    for (size_t i = 0; i < rounds; i++) {
        std::string t = main; if (i + 1 < rounds && bad && i % (bad + 1) == 0) t = bad == 1 ? "@import(\"none.cnd\")\n" + main : bad == 2 ? main + "struct {" : "@import(\"l0.cnd\n" + main;
        call("textDocument/didChange", id + std::string(",\"contentChanges\":[{\"text\":") + jsonStr(t) + "}]}");
        for (size_t k = 0; k < 5; k++) if (kinds >> k & 1) call((std::string("textDocument/") + M[k]).c_str(), id + ",\"position\":{\"line\":" + strf("%zu", n) + ",\"character\":11},\"options\":{\"tabSize\":4,\"insertSpaces\":true}}", (int)(i * 10 + k + 1));
        if (s.chance(1, 8)) { std::string z = s.chance(1, 2) ? "file:///C:/w.cnd" : "file://" + w + "/l0.cnd"; call("textDocument/hover", "{\"textDocument\":{\"uri\":\"" + z + "\"},\"position\":{\"line\":0,\"character\":8}}", (int)(i * 10 + 6)); } // not open; with a drive letter
        if (s.chance(1, 8)) call("textDocument/didSave", id + "}"); if (s.chance(1, 12)) { call("textDocument/didClose", id + "}"); call("textDocument/didOpen", "{\"textDocument\":{\"uri\":\"" + uri + "\",\"languageId\":\"cnd\",\"version\":1,\"text\":" + jsonStr(main) + "}}"); }
    }
    c.desc = strf("%zu rounds about %zu imported files, %zu requests kinds %zu, files limited\n", rounds, n, bad, kinds) + main; c.mix(main); note(c); c.count("long_sessions"); c.nontrivial = true;
    Ran r; r.rc = run_proc({"/bin/sh", "-c", "ulimit -n 16; exec \"$@\"", "sh", env("PBT_CND"), "lsp"}, in, r.out, r.err, 30, c.scratch);
    if (r.rc == 124) c.fail("hang", "the server did not finish");
    if (r.rc > 1 || r.err.find("Sanitizer") != std::string::npos) c.fail(r.err.find("LeakSanitizer") != std::string::npos ? "leak" : "crash", strf("exit %d, ", r.rc) + r.err.substr(0, 1500));
    std::map<std::string, std::string> first; size_t p = 0, diags = 0; std::string lastDiag;
    while (p < r.out.size()) {
        size_t e = r.out.find("\r\n\r\n", p), len = 0; if (e == std::string::npos || sscanf(r.out.c_str() + p, "Content-Length: %zu", &len) != 1 || e + 4 + len > r.out.size()) c.fail("framing", "bad output"); J m; std::string b = r.out.substr(e + 4, len); p = e + 4 + len; std::string why = jsonParse(b, m); if (!why.empty()) c.fail("json", why);
        if (m.get("method")) { diags++; const J* q = m.get("params"); q = q ? q->get("diagnostics") : nullptr; if (!q) c.fail("diag-form", "no list of diagnostics"); lastDiag = b; if (b.find("none.cnd") == std::string::npos && !bad && !q->a.empty()) c.fail("files", strf("after %zu good texts the server reports ", diags - 1) + b.substr(0, 400)); }
    }
    if (!diags) c.fail("silent", "no diagnostics"); J m; jsonParse(lastDiag, m); const J* q = m.get("params"); q = q ? q->get("diagnostics") : nullptr; if (!q || !q->a.empty()) c.fail("files", "the last, correct text has errors: " + lastDiag.substr(0, 400));
}
static void c37(Case& c) {
    static bool once = false; if (!once) { once = true; if (getenv("PBT_LEAKS")) { std::string o = env("ASAN_OPTIONS") + ":detect_leaks=1"; setenv("ASAN_OPTIONS", o.c_str(), 1); } }
    switch (c.s.weighted({40, 3, 4, 1, 2})) { case 0: compileLeaks(c); break; case 1: lspTraffic(c); break; case 2: commands(c); break; case 3: longSession(c); break; default: goLeaks(c); }
}
static Reg r37({"C37", "Generated sources (valid, damaged, soup, stress inputs, with imports, unwritable outputs) are compiled and formatted three times in one process, and the bytes still allocated and the files still open afterwards must not grow; commands with good and damaged inputs and generated language server sessions run in processes that look for lost memory at their end; the Go package loads and runs programs hundreds of times with both heaps measured; long server sessions with imports run with sixteen files at most and must end with the diagnostics of the beginning. Non-trivial: more than ten bytes of text, a compiled schema, or a session.", c37, 24000, 1500000});
