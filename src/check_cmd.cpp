// C33: what the commands do to files, over histories of commands in one directory.
#include "cli.h"
#include "json.h"
#include "util.h"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

typedef std::map<std::string, std::string> Files;
static std::string vis(const std::string& s, size_t n = 300) { return showText(s, n); }
static Files listing(const std::string& dir) {
    Files f; DIR* d = opendir(dir.c_str()); if (!d) return f;
    while (dirent* e = readdir(d)) { std::string n = e->d_name, p = dir + "/" + n; if (n == "." || n == "..") continue; struct stat st; lstat(p.c_str(), &st); f[n] = S_ISDIR(st.st_mode) ? "<dir>" : read_file(p); }
    closedir(d); return f;
}
static void wipe(const std::string& dir) { for (auto& f : listing(dir)) if (f.second == "<dir>") rmdir((dir + "/" + f.first).c_str()); else unlink((dir + "/" + f.first).c_str()); }
struct Known { Schema S; std::string text; std::vector<uint8_t> image; bool json; };

static void c33(Case& c) {
    Src& s = c.s; std::string w = c.scratch + "/w33", tmp = c.scratch + "/t33"; mkdir(w.c_str(), 0700); mkdir(tmp.c_str(), 0700); wipe(w); mkdir((w + "/sub").c_str(), 0700);
    std::vector<Known> K;
    for (size_t i = 0, n = 1 + s.draw(1); i < n; i++) {
        Feat F = featFor(s); F.floats = F.eof = F.trans = F.consts = F.expr = false; F.maxFields = 4; F.depth = 2; F.fillers = false; if (F.focus == FO_EXPR) F.focus = FO_NONE; Gen g(s, F); Known k; k.S = g.schema(); k.text = render(k.S); k.json = true; Program P; std::string log;
        if (compileText(c.scratch, k.text, P, &log)) c.fail("compile-rejected", log + k.text); k.image = P.il; K.push_back(k); c.desc += k.text; c.mix(k.text);
    }
    static const std::vector<std::string> names = {"a.cnd", "b.cnd", "a.il", "b.il", "v.json", "m.bin", "new.out", "n w.x", "-v", "%s"};
    Files M = listing(w);
    auto put = [&](const std::string& n, const std::string& t, const char* what) { write_file(w + "/" + n, t); M[n] = t; say(c, "write " + n + ": " + what + " " + vis(t, 120)); };
    std::set<std::string> messages; // with the number of their schema in front
    auto content = [&](size_t kind, const char*& what) -> std::string {
        size_t ki = s.draw(K.size() - 1); Known& k = K[ki];
        auto msg = [&]() { RefOpts o; o.utf8 = true; o.acceptRaw = s.chance(1, 2); RefResult r = refEncode(k.S, s, o); if (r.undef || r.err) return std::string("\x01\x02"); std::string m(r.bytes.begin(), r.bytes.end()); messages.insert(strf("%zu:", ki) + m); return m; };
        switch (kind) {
            case 0: what = "schema"; return k.text;
            case 1: { what = "broken schema"; std::string t = k.text; switch (s.draw(3)) { case 0: t += "\n$"; break; case 1: t.resize(t.rfind('}')); break; case 2: t += "\npacket Second { uint8 a; }\n"; break; default: t += "\nstruct D { uint8 q; uint8 q; }\n"; } return t; }
            case 2: what = "image"; return std::string(k.image.begin(), k.image.end());
            case 3: { what = "damaged image"; std::vector<uint8_t> v = k.image; if (s.chance(1, 2)) v.resize(s.draw(15)); else v[s.draw(4)] ^= 0x20; return std::string(v.begin(), v.end()); }
            case 4: what = "message"; return msg();
            case 5: { what = "cut message"; std::string m = msg(); m.resize(s.draw(m.size())); return m; }
            case 6: what = "no JSON"; return s.chance(1, 2) ? "{\"a\": " : s.chance(1, 2) ? "[1,2]" : "";
            default: what = "empty document"; return "{}";
        }
    };
    for (size_t i = 0; i < 6; i++) if (i < 2 || s.chance(2, 3)) { const char* what; std::string t = content(i < 2 ? (s.chance(1, 4) ? 1 : 0) : i < 4 ? (s.chance(1, 4) ? 3 : 2) : i == 4 ? 7 : s.chance(1, 4) ? 5 : 4, what); put(names[i], t, what); }
    std::map<std::string, std::pair<int, std::string>> memo; std::map<std::string, std::pair<int, std::string>> decoded; // document -> schema, message
    auto known = [&](const std::string& im) { for (size_t i = 0; i < K.size(); i++) if (im.size() == K[i].image.size() && !memcmp(im.data(), K[i].image.data(), im.size())) return (int)i; return -1; };
    auto validText = [&](const std::string& t) { for (auto& k : K) if (k.text == t) return true; return false; };
    size_t ops = 3 + s.draw(5), done = 0, refused = 0;
    for (size_t step = 0; step < ops; step++) {
        size_t op = s.weighted({4, 4, 4, 4, 1, 1, 1, 3});
        auto file = [&](size_t pref) { return s.chance(4, 5) ? names[pref] : s.chance(1, 6) ? std::string("missing.x") : s.chance(1, 12) ? std::string("sub") : names[s.draw(names.size() - 1)]; };
        if (op == 7) { size_t n = s.draw(5); const char* what; std::string t = content(s.draw(7), what); put(names[n], t, what); continue; }
        std::vector<std::string> a; int want = -1; std::string out, result; bool haveResult = false, stdoutResult = false, writes = true; std::string memoKey;
        auto outName = [&](size_t pref) { return s.chance(3, 5) ? names[pref] : s.chance(1, 5) ? std::string("sub") : s.chance(1, 5) ? std::string("nodir/x") : s.chance(1, 5) ? std::string("/dev/full") : names[s.draw(names.size() - 1)]; };
        bool few = s.chance(1, 20);
        if (op == 0) { // compile
            std::string in = file(s.draw(1)); out = outName(2 + s.draw(1)); a = {"compile", in, out};
            if (s.chance(1, 4)) a.push_back("--json"); if (s.chance(1, 4)) a.push_back(s.chance(1, 2) ? "-v" : "--verbose");
            if (!M.count(in) || in == "sub") want = 1;
            else { std::string log, o = tmp + "/o.il"; unlink(o.c_str()); int rc = runCompile(w + "/" + in, o, false, false, log, tmp); want = rc != 0; if (!rc) { result = read_file(o); haveResult = true; }
                if (validText(M[in]) && rc) c.fail("compile-rejected", "a valid schema was rejected: " + log); if (known(M[in]) >= 0 && !rc) c.fail("compile-accepted", "an image was compiled"); }
        } else if (op == 1) { // fmt
            std::string in = file(s.draw(1)); a = {"fmt", in}; if (s.chance(2, 3)) { out = s.chance(1, 2) ? in : outName(0); a.push_back(out); } else { writes = false; stdoutResult = true; }
            if (!M.count(in) || in == "sub") want = 1;
            else if (M[in].find('\0') == std::string::npos) { char* f = cnd_format_source(M[in].c_str()); want = f == nullptr; if (f) { result = f; haveResult = true; } free(f); }
        } else if (op == 2) { // decode
            std::string il = file(2 + s.draw(1)), in = file(5); out = outName(4); bool hex = s.chance(1, 5); a = {"decode", il, in, out}; if (hex) a.push_back("--hex");
            if (!M.count(il) || il == "sub" || !M.count(in) || in == "sub") want = 1;
            else { memoKey = std::string(hex ? "dh" : "d") + "\1" + M[il] + "\1" + M[in]; int k = known(M[il]); Program P; P.il.assign(M[il].begin(), M[il].end());
                if (k < 0 && !loadProgram(P)) want = 1;
                if (k >= 0) { RefOpts o; std::vector<uint8_t> v(M[in].begin(), M[in].end()); RefResult r = refDecode(K[(size_t)k].S, v, o); bool ascii = true; for (auto& e : r.ev) if (e.op >= OP_STR_NULL && e.op <= OP_STR_PRE_U32 && (!utf8Valid(e.data) || e.data.find('\0') != std::string::npos)) ascii = false; if (!r.undef && (ascii || r.err)) want = r.err != 0; } }
        } else if (op == 3) { // encode
            std::string il = file(2 + s.draw(1)), in = file(4); out = outName(5); a = {"encode", il, in, out};
            if (!M.count(il) || il == "sub" || !M.count(in) || in == "sub") want = 1;
            else { memoKey = "e\1" + M[il] + "\1" + M[in]; int k = known(M[il]); Program P; P.il.assign(M[il].begin(), M[il].end()); J j;
                if ((k < 0 && !loadProgram(P)) || !jsonParse(M[in], j).empty() || !j.is(J::OBJ)) want = 1;
                else if (k >= 0 && decoded.count(M[in]) && decoded[M[in]].first == k) { want = 0; result = decoded[M[in]].second; haveResult = true; c.count("round_trips"); } }
        } else if (op == 4) { std::string il = file(2); a = {"inspect", il}; writes = false; if (!M.count(il) || il == "sub") want = 1; else if (known(M[il]) >= 0) want = 0; else { Program P; P.il.assign(M[il].begin(), M[il].end()); if (!loadProgram(P)) want = 1; } }
        else if (op == 5) { static const char* h[] = {"help", "-h", "--help", "version", "-v", "--version"}; a = {h[s.draw(5)]}; writes = false; want = 0; }
        else { static const char* h[] = {"frobnicate", "Compile", "compil", "compilee", "--json", "", "decode ", "enc"}; a = {h[s.draw(7)], names[0], names[6]}; writes = false; want = 1; }
        bool badOut = writes && (out == "sub" || out == "nodir/x" || out == "/dev/full");
        if (few) { if (a[0] == "fmt") a.resize(1); else if (op <= 4) a.resize(1 + s.draw(a[0] == "inspect" ? 0 : a[0] == "compile" ? 1 : 2)); if (op <= 4) { want = 1; haveResult = false; badOut = false; writes = false; memoKey.clear(); stdoutResult = false; } }
        std::string line = "cnd"; for (auto& x : a) line += " '" + x + "'"; 
        std::string pout, perr; auto args = a; args.insert(args.begin(), env("PBT_CND")); int rc = run_proc(args, "", pout, perr, 20, w);
        say(c, line + strf(" => %d ", rc) + vis(pout + perr, 200)); c.mix(line);
        if (rc == 124) c.fail("hang", line); if (rc >= 98 || perr.find("Sanitizer") != std::string::npos || perr.find("runtime error:") != std::string::npos) c.fail("crash", line + strf(": exit %d ", rc) + perr.substr(0, 1500));
        // some failures to write only show when the content is not empty
        if (badOut && want != 1) { if (out == "/dev/full" && (!haveResult || result.empty())) want = -1; else want = 1; }
        if (want == 0 && rc) c.fail("status-failure", line + strf(" exits with %d although it must succeed: ", rc) + vis(pout + perr));
        if (want == 1 && !rc) c.fail("status-success", line + " exits with 0 although it must fail: " + vis(pout + perr));
        Files now = listing(w);
        if (rc == 0 && writes && out != "/dev/full") {
            if (!now.count(out)) c.fail("no-output", line + " succeeds without writing " + out);
            if (haveResult && now[out] != result) c.fail("output", line + ": " + out + " holds " + vis(now[out]) + " instead of " + vis(result));
            if (!memoKey.empty()) { auto it = memo.find(memoKey); if (it != memo.end() && it->second.first == 0 && it->second.second != now[out]) c.fail("not-repeatable", line + " gave another result before: " + vis(it->second.second)); }
            if (op == 2) { int k = known(M[a[1]]); if (k >= 0) { std::string m = M[a[2]];
                J j; std::string e = jsonParse(now[out], j); if (!e.empty() || !j.is(J::OBJ)) c.fail("document", line + " wrote no JSON object: " + e);
                if (messages.count(strf("%d:", k) + m)) decoded[now[out]] = {k, m}; } }
            M[out] = now[out]; done++;
        }
        if (stdoutResult && haveResult && rc == 0 && pout != result) c.fail("stdout", line + " printed " + vis(pout) + " instead of " + vis(result));
        if (!memoKey.empty() && !badOut) { auto it = memo.find(memoKey); if (it == memo.end()) memo[memoKey] = {rc != 0, rc ? "" : M[out]}; else if (it->second.first != (rc != 0)) c.fail("not-repeatable", line + " had another status before"); }
        if (op == 5 && (pout.empty() || (a[0] == "help" && (pout.find("compile") == std::string::npos || pout.find("decode") == std::string::npos)))) c.fail("help", line + " printed " + vis(pout));
        if (want == 1 && rc && op != 5 && (pout + perr).empty()) c.fail("silent", line + " fails without a message");
        if (rc) { refused++; c.count("refused"); } else c.count("done_" + a[0]);
        for (auto& f : now) { auto it = M.find(f.first); if (it == M.end()) c.fail("stray-file", line + strf(" (exit %d) created ", rc) + f.first); if (it->second != f.second) c.fail("file-changed", line + strf(" (exit %d) changed ", rc) + f.first + ": " + vis(f.second) + " before: " + vis(it->second)); }
        for (auto& f : M) if (!now.count(f.first)) c.fail("file-lost", line + strf(" (exit %d) removed ", rc) + f.first);
    }
    if (done >= 2) c.nontrivial = true;
    wipe(w); wipe(tmp);
}
static Reg r33({"C33", "A generated history of 3-8 commands (compile, fmt, encode, decode, inspect, help, misuse; missing, wrong, damaged and identical input and output files, unwritable outputs) in one directory of generated schemas, images, messages and documents, next to a model of the directory: after each command the exit status, the output file and every other file are compared with the model. Non-trivial: at least two commands of the history wrote their output; distinct by schemas and commands.", c33, 9000, 200000});

// ---------------------------------------------------------------- C34
// The build helpers of include/nob_concordia.h against the tool itself
static void c34(Case& c) {
    Src& s = c.s; std::string d[2] = {c.scratch + "/n1", c.scratch + "/n2"}; for (auto& x : d) { mkdir(x.c_str(), 0700); wipe(x); }
    Feat F = featFor(s); F.floats = F.eof = F.trans = F.consts = F.expr = false; F.fillers = false; F.maxFields = 4; if (F.focus == FO_EXPR) F.focus = FO_NONE; Gen g(s, F); Schema S = g.schema(); std::string text = render(S), log; Program P;
    if (compileText(c.scratch, text, P, &log)) c.fail("compile-rejected", log + text);
    c.desc = text; c.mix(text);
    if (s.chance(1, 6)) text.resize(text.size() - 2);
    static const std::vector<std::string> names = {"in.cnd", "out.il", "data.json", "data.bin", "with space", "-o", "--json", "q'uote\"", "$HOME", "a;b", "*", "back\\slash", "-", "\xc3\xa9"};
    auto pickName = [&](std::set<std::string>& used, size_t pref) { std::string n = s.chance(1, 2) ? names[pref] : names[s.draw(names.size() - 1)]; while (used.count(n)) n += "2"; used.insert(n); return n; };
    std::set<std::string> used; std::string in = pickName(used, 0), il = pickName(used, 1), bin = pickName(used, 3), js = pickName(used, 2), bin2 = pickName(used, 3);
    RefOpts o; o.utf8 = true; RefResult r = refEncode(S, s, o); std::string msg(r.bytes.begin(), r.bytes.end()); bool good = !r.undef && !r.err; if (s.chance(1, 6)) { msg.resize(s.draw(msg.size())); good = false; }
    for (auto& x : d) { write_file(x + "/" + in, text); write_file(x + "/" + bin, msg); }
    struct Call { std::vector<std::string> a; }; std::vector<Call> calls = {{{"compile", in, il}}, {{"decode", il, bin, js}}, {{"encode", il, js, bin2}}};
    if (s.chance(1, 5)) calls[s.draw(2)].a[2] = "missing"; if (s.chance(1, 8)) calls[s.draw(2)].a.back() = "nodir/x";
    int done = 0;
    bool stale = s.chance(1, 3); // left over from an earlier build
    for (auto& k : calls) {
        if (stale && k.a.back() != "nodir/x") for (auto& x : d) { write_file(x + "/" + k.a.back(), "old"); c.count("stale_output"); }
        int rc[2]; std::string out[2], err[2];
        for (int i = 0; i < 2; i++) { std::vector<std::string> a = k.a; if (!i) { a.insert(a.begin() + 1, env("PBT_CND")); a.insert(a.begin(), env("PBT_NOB")); } else a.insert(a.begin(), env("PBT_CND")); rc[i] = run_proc(a, "", out[i], err[i], 30, d[i]); }
        std::string line; for (auto& x : k.a) line += " '" + x + "'"; say(c, "helper" + line + strf(" => %d", rc[0])); c.mix(line);
        if (rc[0] > 1) c.fail("helper-crash", line + strf(": exit %d ", rc[0]) + err[0].substr(0, 800));
        if ((rc[0] == 0) != (rc[1] == 0)) c.fail("helper-status", "the helper for" + line + (rc[0] ? " fails, the tool succeeds: " : " reports success, the tool fails: ") + vis(out[0] + err[0]));
        Files f0 = listing(d[0]), f1 = listing(d[1]);
        for (auto& f : f1) if (!f0.count(f.first)) c.fail("helper-output", "the helper for" + line + " did not write " + f.first); else if (f0[f.first] != f.second) c.fail("helper-output", "the helper for" + line + " wrote something else to " + f.first);
        for (auto& f : f0) if (!f1.count(f.first)) c.fail("helper-stray", "the helper for" + line + " created " + f.first);
        if (rc[0] == 0) { done++; c.count("helper_" + k.a[0]); if (!f0.count(k.a.back())) c.fail("helper-output", "the helper for" + line + " reports success without " + k.a.back()); if (k.a[0] == "encode" && good && k.a[2] == js && f0[k.a.back()] != msg) c.fail("helper-roundtrip", "decode and encode do not give the message again"); } else c.count("helper_refused");
    }
    std::string dep = "deps" + std::string(s.draw(3), 'x') + (s.chance(1, 3) ? "/sub dir" : ""), out, err; if (run_proc({env("PBT_NOB"), "flags", dep}, "", out, err, 30, d[0])) c.fail("helper-flags", err.substr(0, 500));
    std::string want = "-I" + dep + "/concordia/include\n|\n-L" + dep + "/concordia/build_nob\n-lconcordia\n-lcnd_compiler\n" + dep + "/concordia/build_nob/cnd\n"; if (out != want) c.fail("helper-flags", "flags are " + vis(out) + " instead of " + vis(want));
    if (done >= 2) c.nontrivial = true;
    for (auto& x : d) wipe(x);
}
static Reg r34({"C34", "For a generated schema, message and file names (spaces, quotes, dashes, shell characters), sometimes broken, the build helpers cnd_compile, cnd_decode and cnd_encode of nob_concordia.h are called in one directory and the tool itself in another; status and all files must agree. Non-trivial: at least two helpers succeeded; distinct by schema and names.", c34, 2500, 60000});
