// The Go package compared with the C library: the same program, data and host answers.
#include "cli.h"
#include "il.h"
#include "util.h"
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>

namespace {
// ---- the driver process
struct Driver { const char *what, *cmd[3]; pid_t pid = -1, owner = -1; int in = -1, out = -1; std::string err; }; // cmd: environment variables that name the program and its arguments
Driver g_go = {"the Go program", {"PBT_GO"}}, g_wasm = {"the runtime built for 32-bit WebAssembly", {"PBT_NODE", "PBT_RUNJS", "PBT_WASM"}}, g_alt = {"the runtime built by gcc with unsigned char and short enumerations", {"PBT_ALT"}};
void stopDriver(Driver& d) { if (d.pid > 0 && d.owner == getpid()) { close(d.in); close(d.out); kill(d.pid, SIGKILL); waitpid(d.pid, nullptr, 0); } d.pid = -1; }
void startDriver(Case& c, Driver& g_drv) {
    if (g_drv.pid > 0 && g_drv.owner == getpid()) return;
    signal(SIGPIPE, SIG_IGN); std::string arg[3]; const char* av[4] = {}; for (int i = 0; i < 3 && g_drv.cmd[i]; i++) { arg[i] = env(g_drv.cmd[i]); av[i] = arg[i].c_str(); } int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) c.fail("driver", "no pipe");
    g_drv.err = c.scratch + "/" + g_drv.cmd[0] + ".err"; int e = open(g_drv.err.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    pid_t p = vfork();
    if (!p) { dup2(a[0], 0); dup2(b[1], 1); dup2(e, 2); execv(av[0], (char**)av); _exit(127); }
    close(a[0]); close(b[1]); close(e); g_drv.pid = p; g_drv.owner = getpid(); g_drv.in = a[1]; g_drv.out = b[0];
}
bool xfer(int fd, char* p, size_t n, bool wr) {
    while (n) { struct pollfd f = {fd, (short)(wr ? POLLOUT : POLLIN), 0}; if (poll(&f, 1, 15000) <= 0) return false; ssize_t k = wr ? write(fd, p, n) : read(fd, p, n); if (k <= 0) return false; p += k; n -= (size_t)k; }
    return true;
}
std::string ask(Case& c, const std::string& req, Driver& g_drv = g_go) {
    startDriver(c, g_drv); uint32_t n = (uint32_t)req.size(); std::string all((const char*)&n, 4), res; all += req;
    bool ok = xfer(g_drv.in, &all[0], all.size(), true) && xfer(g_drv.out, (char*)&n, 4, false); if (ok) { res.resize(n); ok = xfer(g_drv.out, &res[0], n, false); }
    if (!ok) { std::string e = read_file(g_drv.err); stopDriver(g_drv); c.fail("crash", std::string(g_drv.what) + " ended or did not answer: " + e.substr(0, 1500)); }
    return res;
}

// ---- the C side: a host that decides answers and records everything
struct Ans { uint8_t kind = 0; uint64_t v = 0; std::string b; };
struct Host { const std::vector<Ev>* script = nullptr; size_t pos = 0; uint64_t rng = 1; long failAt = -1; std::vector<Ans> ans; std::string log; uint32_t last = 0; bool lastIsCount = false, names = true; bool raw = false; };
uint64_t rnd(Host* h) { uint64_t x = h->rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return h->rng = x; }
std::string hx(const void* p, size_t n) { std::string o; for (size_t i = 0; i < n; i++) o += strf("%02x", ((const uint8_t*)p)[i]); return o; }
int width(uint8_t op) {
    switch (op) {
        case OP_IO_U8: case OP_IO_I8: case OP_IO_BOOL: case OP_IO_BIT_BOOL: case OP_ARR_PRE_U8: return 1;
        case OP_IO_U16: case OP_IO_I16: case OP_ARR_PRE_U16: return 2;
        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: case OP_ARR_PRE_U32: case OP_ARR_FIXED: case OP_ARR_DYNAMIC: return 4;
        default: return 8;
    }
}
cnd_error_t record(struct cnd_vm_ctx_t* c, uint16_t key, uint8_t op, void* p) {
    Host* h = (Host*)c->user_ptr; long idx = (long)h->ans.size(); bool enc = c->mode == CND_MODE_ENCODE; const char* nm = h->names ? cnd_get_key_name(c->program, key) : nullptr;
    h->log += strf("ev %u %u %d ", op, key, (int)c->mode) + hx(nm ? nm : "", nm ? strlen(nm) : 0) + " ";
    Ans a; const Ev* e = nullptr;
    if (h->script && h->pos < h->script->size() && (*h->script)[h->pos].op == op) e = &(*h->script)[h->pos++]; else h->script = nullptr;
    uint64_t r = rnd(h), v = e ? e->u : (r & 7) == 0 ? r >> 3 : (r >> 3) & 3, got = 0; std::string text; bool count = false;
    if (idx == h->failAt || idx > 1500 || (e && e->decline)) a.kind = 1;
    switch (op) {
        case OP_ENTER_STRUCT: case OP_EXIT_STRUCT: case OP_ARR_END: break;
        case OP_RAW_BYTES:
            if (a.kind) break;
            if (e) a.b = e->data; else if (h->raw && h->lastIsCount && (r & 16)) for (uint32_t i = 0; i < h->last; i++) a.b += (char)rnd(h); else { a.kind = 1; break; }
            a.kind = 3; if (enc) memcpy(p, a.b.data(), a.b.size()); else text = hx(p, a.b.size()); break;
        case OP_STR_NULL: case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
            if (enc) { if (a.kind) break; if (e) a.b = e->data; else { size_t n = r % 12; for (size_t i = 0; i < n; i++) a.b += (char)(rnd(h) % 255 + 1); if ((r >> 8) % 9 == 0) break; } a.kind = 4; }
            else if (op == OP_STR_NULL) text = hx(p, strlen((const char*)p));
            else { int w = op == OP_STR_PRE_U8 ? 1 : op == OP_STR_PRE_U16 ? 2 : 4; const uint8_t* q = (const uint8_t*)p; uint64_t m = 0; for (int i = 0; i < w; i++) m |= (uint64_t)(c->endianness == CND_LE ? q[i - w] : q[-1 - i]) << 8 * i; text = hx(p, m); }
            break;
        case OP_CTX_QUERY: case OP_LOAD_CTX: if (!a.kind) a.kind = 2; a.v = v; memcpy(p, &v, 8); break;
        default: {
            int n = width(op); bool in = !enc || op == OP_ARR_FIXED || op == OP_ARR_DYNAMIC || op == OP_STORE_CTX;
            if (op == OP_IO_BOOL || op == OP_IO_BIT_BOOL) v = v != 0;
            if (in) { memcpy(&got, p, (size_t)n); if (op == OP_IO_BOOL || op == OP_IO_BIT_BOOL) got = got != 0; if (op >= OP_IO_I8 && op <= OP_IO_I64) got = (uint64_t)((int64_t)(got << (64 - 8 * n)) >> (64 - 8 * n)); v = got; }
            else { memcpy(p, &v, (size_t)n); a.v = v; if (!a.kind) a.kind = 2; }
            if (op == OP_ARR_FIXED || op == OP_ARR_DYNAMIC || (op >= OP_ARR_PRE_U8 && op <= OP_ARR_PRE_U32)) { count = true; h->last = (uint32_t)(n == 4 ? v : v & ((1u << 8 * n) - 1)); }
        }
    }
    h->lastIsCount = count; h->log += strf("%llu ", (unsigned long long)got) + text + "\n"; h->ans.push_back(a);
    if (op >= OP_STR_NULL && op <= OP_STR_PRE_U32 && a.kind == 4) { *(const char**)p = nullptr; static thread_local std::string keep; keep = a.b; *(const char**)p = keep.c_str(); }
    return a.kind == 1 ? CND_ERR_CALLBACK : CND_ERR_OK;
}
void put32(std::string& s, uint32_t v) { s.append((const char*)&v, 4); }
void putBytes(std::string& s, const void* p, size_t n) { put32(s, (uint32_t)n); s.append((const char*)p, n); }
// What the error text of the Go package must say
const char* const WORD[] = {"", "bounds", "invalid op", "validation", "callback", "overflow", "underflow", "crc", "arithmetic"};
void errorLine(Case& c, const std::string& what, const std::string& got, int err) {
    if (!err) { if (got != "nil") c.fail("error", what + ": the Go package reports '" + got + "', the C library success"); return; }
    if (got == "nil") c.fail("error", what + strf(": the Go package reports success, the C library %s", errName(err)));
    int is = atoi(got.c_str()); if (lower(got).find(WORD[err]) == std::string::npos || (err == 5 && lower(got).find("stack") == std::string::npos)) c.fail("error-text", what + ": error text '" + got + "' for " + errName(err));
    if (is != (err <= 4 ? (err == 1 ? 1 : err == 2 ? 2 : err == 3 ? 3 : 4) : err == 5 ? 5 : err == 6 ? 6 : -1)) c.fail("error-value", what + ": the error value does not stand for " + std::string(errName(err)) + ": " + got);
}
struct Lines2 { std::vector<std::string> v; };
std::vector<std::string> split(const std::string& t) { std::vector<std::string> v; std::istringstream in(t); std::string l; while (std::getline(in, l)) v.push_back(l); return v; }

bool g_leaks = false; // only look at what is left on the heaps (C37)
void heapLines(Case& c, const std::vector<std::string>& got) {
    unsigned long long m[4], o[4]; if (got.size() != 2 || sscanf(got[0].c_str(), "c %llu %llu %llu %llu", m, m + 1, m + 2, m + 3) != 4 || sscanf(got[1].c_str(), "go %llu %llu %llu %llu", o, o + 1, o + 2, o + 3) != 4) c.fail("protocol", "no answer");
    c.nontrivial = true; c.count("go_uses", 300); if (m[3] >= m[2] + 1600 && m[2] >= m[1] + 1600) c.fail("go-memory", "the C heap after 0, 100, 200 and 300 uses of a program through the Go package: " + got[0]);
    if (o[3] >= o[2] + 100 && o[2] >= o[1] + 100) c.fail("go-objects", "the Go heap after 0, 100, 200 and 300 uses of a program through the Go package: " + got[1]);
}
// Runs one program both ways.
struct Job { const std::vector<uint8_t>* prog; bool raw = false; bool enc; std::vector<uint8_t> data; const std::vector<Ev>* script = nullptr; long failAt = -1; bool takeRaw = false; };
int both(Case& c, const Job& j) {
    Src& s = c.s; uint64_t seed = s.u64() | 1; cnd_program p; memset(&p, 0, sizeof p); std::vector<uint8_t> code = *j.prog;
    int api = (int)s.weighted({1, 4}), par = api ? (int)s.weighted({6, 1, 1, 1}) : 0, gc = s.chance(1, 25) ? 1 + (int)s.draw(5) : 0; long nest = -1; if (api && s.chance(1, 6)) nest = (long)s.draw(6) + (s.chance(1, 2) ? 1000 : 0);
    int ld = 0; if (j.raw) cnd_program_load(&p, code.data(), code.size()); else ld = cnd_program_load_il(&p, code.data(), code.size());
    if (ld) c.fail("load", "a compiled image does not load");
    Host h; h.script = j.script; h.rng = seed; h.failAt = j.failAt; h.raw = j.takeRaw; h.names = api != 0;
    uint8_t* b = (uint8_t*)malloc(j.data.size() ? j.data.size() : 1); memcpy(b, j.data.data(), j.data.size());
    cnd_vm_ctx ctx; cnd_init(&ctx, j.enc ? CND_MODE_ENCODE : CND_MODE_DECODE, &p, b, j.data.size(), record, &h); int err = cnd_execute(&ctx);
    std::string after = hx(b, j.data.size()); free(b);
    if (g_leaks) { par = api ? 0 : 1; api = 10; }
    std::string req; req += (char)api; req += (char)(j.enc ? 0 : 1); req += (char)par; req += (char)gc; put32(req, (uint32_t)(int32_t)nest); putBytes(req, code.data(), code.size()); putBytes(req, j.data.data(), j.data.size());
    put32(req, (uint32_t)h.ans.size()); for (auto& a : h.ans) { req += (char)a.kind; req.append((const char*)&a.v, 8); putBytes(req, a.b.data(), a.b.size()); }
    std::vector<std::string> nm; if (api) { for (uint32_t i = 0; i < p.string_count && i < 40; i++) { const char* q = cnd_get_key_name(&p, (uint16_t)i); if (q) nm.push_back(q); } nm.push_back("no such field"); nm.push_back(""); if (nm.size() > 3) nm.push_back(nm[0].substr(0, nm[0].size() / 2)); }
    put32(req, (uint32_t)nm.size()); for (auto& n : nm) putBytes(req, n.data(), n.size());
    say(c, strf("%s through Go (api %d, %d in parallel, nested at %ld), data %s; C: %s %zu callbacks", j.enc ? "encode" : "decode", api, par, nest, hx(j.data.data(), std::min<size_t>(j.data.size(), 200)).c_str(), errName(err), h.ans.size()));
    std::vector<std::string> want; std::string res = ask(c, req); std::vector<std::string> got = split(res);
    if (g_leaks) { heapLines(c, got); return err; }
    if (api) { want.push_back("load nil"); for (auto& n : nm) want.push_back(strf("id %u", cnd_get_key_id(&p, n.c_str()))); for (size_t i = 0; i < nm.size() + 3; i++) { const char* q = cnd_get_key_name(&p, (uint16_t)i); want.push_back("name " + hx(q ? q : "", q ? strlen(q) : 0)); } const char* q = cnd_get_key_name(&p, 0xFFFF); want.push_back("name " + hx(q ? q : "", q ? strlen(q) : 0)); }
    for (auto& l : split(h.log)) want.push_back(l);
    size_t ei = want.size(); want.push_back("error"); want.push_back("data " + after); if (api) want.push_back("closed  65535");
    for (size_t i = 0; i < want.size() || i < got.size(); i++) {
        if (i == ei) { if (i >= got.size() || got[i].compare(0, 6, "error ")) c.fail("callbacks", "the Go package makes a further callback: " + (i < got.size() ? got[i] : "")); errorLine(c, "execution", got[i].substr(6), err); continue; }
        std::string w = i < want.size() ? want[i] : "(end)", g = i < got.size() ? got[i] : "(end)";
        if (w != g) c.fail(w.compare(0, 2, "ev") == 0 ? "callbacks" : w.compare(0, 4, "data") == 0 ? "bytes" : "binding", "C library: " + w.substr(0, 700) + "\nGo package: " + g.substr(0, 700) + (g.find("differs") != std::string::npos && i + 1 < got.size() ? "\n" + res.substr(res.find("differs"), 1500) : ""));
    }
    c.count(std::string(j.enc ? "encode_" : "decode_") + errName(err)); if (par) c.count("parallel"); if (nest >= 0 && nest % 1000 < (long)h.ans.size()) c.count(nest < 1000 ? "nested" : "nested_after_the_answer"); if (gc) c.count("with_gc"); if (!api) c.count("one_call"); if (h.ans.size() >= 3) c.nontrivial = true;
    return err;
}
// Loading of an image that may be damaged
void loadOnly(Case& c, const std::vector<uint8_t>& im) {
    cnd_program p; memset(&p, 0, sizeof p); std::vector<uint8_t> code = im; bool il = im.size() >= 5 && !memcmp(im.data(), "CNDIL", 5); int ld = il ? cnd_program_load_il(&p, code.data(), code.size()) : CND_ERR_OK; if (!il) cnd_program_load(&p, code.data(), code.size()); if (im.empty()) return;
    std::string req; req += (char)(g_leaks ? 10 : 2); req += '\0'; req += g_leaks ? '\2' : '\0'; req += '\0'; put32(req, 0); putBytes(req, im.data(), im.size()); put32(req, 0); put32(req, 0);
    std::vector<std::string> nm; if (!ld) { for (uint32_t i = 0; i < p.string_count && i < 40; i++) { const char* q = cnd_get_key_name(&p, (uint16_t)i); if (q) nm.push_back(q); } nm.push_back("x"); }
    put32(req, (uint32_t)nm.size()); for (auto& n : nm) putBytes(req, n.data(), n.size());
    say(c, "load through Go " + hx(im.data(), std::min<size_t>(im.size(), 400)) + "; C: " + errName(ld));
    std::vector<std::string> got = split(ask(c, req)), want; if (g_leaks) { heapLines(c, got); return; } if (got.empty() || got[0].compare(0, 5, "load ")) c.fail("protocol", "no answer"); errorLine(c, "loading", got[0].substr(5), ld); c.count(ld ? "load_refused" : il ? "load_ok" : "load_bytecode"); if (ld) return;
    want.push_back(got[0]); for (auto& n : nm) want.push_back(strf("id %u", cnd_get_key_id(&p, n.c_str()))); for (size_t i = 0; i < nm.size() + 3; i++) { const char* q = cnd_get_key_name(&p, (uint16_t)i); want.push_back("name " + hx(q ? q : "", q ? strlen(q) : 0)); } const char* q = cnd_get_key_name(&p, 0xFFFF); want.push_back("name " + hx(q ? q : "", q ? strlen(q) : 0)); want.push_back("closed  65535");
    for (size_t i = 0; i < want.size() || i < got.size(); i++) { std::string w = i < want.size() ? want[i] : "(end)", g = i < got.size() ? got[i] : "(end)"; if (w != g) c.fail("lookup", "C library: " + w + "\nGo package: " + g); }
}
} // namespace
static void c26(Case& c) {
    Src& s = c.s; Gen g(s, withBig(featFor(s), 1 | 4 | 8 | 32 | 64)); Schema S = g.schema(); bool opt = !S.hasEof && S.alias < 0 && s.chance(1, 3);
    if (opt) { static const char* X[] = {"u8 oa%zu;", "i16 oa%zu;", "u64 oa%zu;", "float oa%zu;", "double oa%zu;", "bool oa%zu;", "string oa%zu prefix uint8;", "string oa%zu prefix uint16;", "string oa%zu prefix uint32;", "string oa%zu until 0 max 9;", "@big_endian string oa%zu prefix uint16;", "@big_endian string oa%zu prefix uint32;", "u8 oa%zu[] prefix uint16;", "@scale(0.5) u16 oa%zu;", "@add(3) i32 oa%zu;", "u16 oa%zu[3];"}; size_t n = 1 + s.draw(3); for (size_t i = 0; i < n; i++) { Stmt st; st.k = Stmt::RAW; st.raw = "@optional " + strf(X[s.draw(15)], i); S.packet.push_back(st); } }
    std::string text = render(S); c.desc = text + "\n"; c.mix(text); note(c); Program P; std::string log;
    if (compileText(c.scratch, text, P, &log)) c.fail("compile-rejected", "valid schema rejected: " + log);
    std::vector<uint8_t> bytecode(P.p.bytecode, P.p.bytecode + P.p.bytecode_len);
    for (int rep = 0; rep < 3; rep++) {
        size_t keep = c.desc.size(); RefOpts o; o.acceptRaw = s.chance(1, 2); o.invalidPct = s.chance(1, 4) ? 12 : 0; Job j; RefResult r = refEncode(S, s, o); c.mix(r.bytes);
        bool rawcode = s.chance(1, 10) && !bytecode.empty(); j.prog = rawcode ? &bytecode : &P.il; j.raw = rawcode; j.failAt = s.chance(1, 6) ? (long)s.draw(8) : -1; j.takeRaw = s.chance(1, 2);
        if (rawcode && bytecode.size() >= 5 && !memcmp(bytecode.data(), "CNDIL", 5)) continue;
        if (s.chance(1, 2)) { // encode
            j.enc = true; if (!opt && !r.undef && s.chance(5, 6)) j.script = &r.ev; else if (r.undef) { c.count("undefined_skipped"); continue; }
            size_t cap = r.size + (S.hasEof ? 0 : s.draw(6)) + (opt ? s.draw(12) : 0); if (s.chance(1, 6)) cap = s.draw(cap); j.data.assign(cap, (uint8_t)s.draw(255));
        } else { // decode
            j.enc = false; std::vector<uint8_t> in = r.bytes; if (r.undef || r.err || s.chance(1, 3)) in = mutate(s, in); if (opt) for (size_t k = s.draw(24); k; k--) in.push_back((uint8_t)s.draw(s.chance(1, 2) ? 5 : 255)); if (s.chance(1, 6)) in.resize(s.draw(in.size()));
            RefResult d = refDecode(S, in, o); if (d.undef) { c.count("undefined_skipped"); continue; } if (!opt) j.script = &d.ev; j.data = in; c.mix(in);
            both(c, j); c.desc.resize(keep); continue;
        }
        both(c, j); c.desc.resize(keep);
    }
    if (s.chance(1, 3)) { std::vector<uint8_t> im = s.chance(2, 3) ? mutate(s, P.il) : P.il; if (s.chance(1, 3)) im.resize(s.draw(std::min<size_t>(im.size(), 24))); loadOnly(c, im); }
}
void goLeaks(Case& c) { if (!g_leaks) { setenv("MALLOC_ARENA_MAX", "1", 1); g_leaks = true; } c26(c); }
static Reg r26({"C26", "A generated schema (all language features, one third with optional fields at the end) is compiled and encoded or decoded three times - valid, invalid, truncated and mutated data, hosts that refuse at a point, byte arrays taken whole or element by element - by the C library under a recording host and by a Go program that uses the Go package and gives the same answers through its typed accessors (one call or loaded program, up to three goroutines sharing the program, another execution nested in a callback, garbage collections in callbacks). Every callback with key, name, mode and value, the error value and text, and the data afterwards must agree. One third also load a whole, damaged or cut image and compare the outcome and all key lookups. Non-trivial: at least three callbacks; distinct by schema text and data.", c26, 24000, 500000});

// ---- the runtime on another target and in another build
namespace {
std::string cutText(const std::string& t) { return t.size() > 900 ? t.substr(0, 900) + "..." : t; }
bool floatCode(const std::vector<uint8_t>& code) {
    auto is = [](uint8_t o) { return o == OP_IO_F32 || o == OP_IO_F64 || o == 0x43 || o == 0x4C || o == 0x4D || (o >= 0x80 && o <= 0x97); };
    Layout L; if (!walk(code, L)) { for (uint8_t o : code) if (is(o)) return true; return false; } for (size_t i : L.starts) if (is(code[i])) return true; return false;
}
struct Port { const std::vector<uint8_t>* prog; bool image = true, enc = false, loadOnly = false, math = false, code = false; std::vector<uint8_t> data; const std::vector<Ev>* script = nullptr; long failAt = -1; bool takeRaw = false; };
void ported(Case& c, const Port& j) {
    Src& s = c.s; uint64_t seed = s.u64() | 1; bool names = j.image && s.chance(1, 2); cnd_program p; memset(&p, 0, sizeof p); std::vector<uint8_t> code = *j.prog; code.reserve(1); std::vector<std::string> want, nm; Host h; int ld = 0, err = 0;
    if (j.image) ld = cnd_program_load_il(&p, code.data(), code.size()); else cnd_program_load(&p, code.data(), code.size());
    want.push_back(strf("load %d", ld));
    if (!ld) {
        want.push_back(strf("verify %d", cnd_verify_program(&p)));
        if (s.chance(1, 3)) { for (uint32_t i = 0; j.image && i < p.string_count && i < 20; i++) { const char* q = cnd_get_key_name(&p, (uint16_t)i); if (q && strlen(q) < 60000) nm.push_back(q); } nm.push_back("no such field"); nm.push_back(""); }
        for (auto& n : nm) want.push_back(strf("id %u", cnd_get_key_id(&p, n.c_str())));
        if (!j.loadOnly) {
            h.script = j.script; h.rng = seed; h.failAt = j.failAt; h.raw = j.takeRaw; h.names = names; uint8_t* b = (uint8_t*)malloc(j.data.size() ? j.data.size() : 1); memcpy(b, j.data.data(), j.data.size());
            cnd_vm_ctx ctx; cnd_init(&ctx, j.enc ? CND_MODE_ENCODE : CND_MODE_DECODE, &p, b, j.data.size(), record, &h);
            if (!limited(j.code ? 60 : 5000, [&]() { err = cnd_execute(&ctx); })) { c.count("slow_skipped"); return; }
            for (auto& l : split(h.log)) want.push_back(l);
            want.push_back(strf("error %d", err)); want.push_back(strf("cursor %zu %u", (size_t)ctx.cursor, (unsigned)ctx.bit_offset)); want.push_back("data " + hx(b, j.data.size())); free(b);
        }
    }
    std::string req; req += (char)((j.enc ? 1 : 0) | (j.image ? 2 : 0) | (j.loadOnly ? 4 : 0) | (names ? 8 : 0)); putBytes(req, code.data(), code.size()); putBytes(req, j.data.data(), j.data.size());
    put32(req, (uint32_t)h.ans.size()); for (auto& a : h.ans) { req += (char)a.kind; req.append((const char*)&a.v, 8); putBytes(req, a.b.data(), a.b.size()); }
    put32(req, (uint32_t)nm.size()); for (auto& n : nm) putBytes(req, n.data(), n.size());
    say(c, strf("%s, program of %zu bytes%s, data %s; here: load %d, %s, %zu callbacks", j.loadOnly ? "load" : j.enc ? "encode" : "decode", code.size(), j.code ? (" " + hx(code.data(), std::min<size_t>(code.size(), 300))).c_str() : "", hx(j.data.data(), std::min<size_t>(j.data.size(), 200)).c_str(), ld, errName(err), h.ans.size()));
    for (Driver* d : {&g_wasm, &g_alt}) {
        if (d == &g_wasm && env("PBT_WASM").empty()) { c.count("no_32_bit_build"); continue; }
        if (d == &g_wasm && j.math) { c.count("library_functions_native_only"); continue; }
        std::vector<std::string> got = split(ask(c, req, *d));
        for (size_t i = 0; i < want.size() || i < got.size(); i++) {
            std::string w = i < want.size() ? want[i] : "(end)", g = i < got.size() ? got[i] : "(end)"; if (w == g) continue;
            if (j.code && floatCode(code)) { c.count("float_code_differs"); break; } // which NaN an operation gives is the processor's choice
            size_t k = 0; while (k < w.size() && k < g.size() && w[k] == g[k]) k++; k = k > 100 ? k - 100 : 0;
            c.fail(w.compare(0, 2, "ev") == 0 ? "callbacks" : w.compare(0, 4, "data") == 0 ? "bytes" : "result", strf("line %zu from character %zu\nthis build: ", i, k) + w.substr(k, 700) + "\n" + d->what + ": " + g.substr(k, 700));
        }
    }
    c.count(j.loadOnly ? ld ? "load_refused" : "load_ok" : std::string(j.code ? "bytecode_" : j.enc ? "encode_" : "decode_") + errName(err)); if (h.ans.size() >= 3) c.nontrivial = true;
}
} // namespace
// The whole tool, by this build and by the other compiler
static void toolBoth(Case& c) {
    Src& s = c.s; std::string w = c.scratch + "/w36", in = w + "/t.cnd", il = w + "/t.il", fm = w + "/f.cnd", bin = w + "/m.bin", js = w + "/m.json", out = w + "/out", text; mkdir(w.c_str(), 0700);
    Feat F = withBig(featFor(s), 1 | 2 | 4 | 8 | 32 | 64); F.optional = s.chance(1, 4); Gen g(s, F); Schema S = g.schema(); size_t kind = s.weighted({4, 3, 1, 1});
    if (kind == 0) { Style st; st.noise = &s; st.ws = st.comments = s.chance(1, 2); st.synonyms = st.numbers = s.chance(1, 2); text = render(S, st); }
    else if (kind == 1) for (auto& t : mutTokens(s, tokens(S))) text += t + " ";
    else if (kind == 2) { std::string r = render(S); std::vector<uint8_t> v(r.begin(), r.end()); v = mutate(s, v); text.assign(v.begin(), v.end()); }
    else text = soup(s, s.draw(60));
    if (kind && s.chance(1, 3)) { size_t n = 1 + s.draw(3); for (size_t i = 0; i < n; i++) text.insert(s.draw(text.size()), 1, (char)s.range(0x80, 0xFF)); c.count("bytes_above_127"); }
    c.desc = "the tool on:\n" + text + "\n"; c.mix(text); note(c); write_file(in, text);
    auto twice = [&](std::vector<std::string> args, const std::string& result, bool stdoutToo) {
        unlink(result.c_str()); Ran a = cli(c, args), b; bool ha = exists(result); std::string fa = ha ? read_file(result) : ""; unlink(result.c_str());
        std::vector<std::string> alt = args; alt.insert(alt.begin(), env("PBT_ALTCND")); b.rc = run_proc(alt, "", b.out, b.err, 20, c.scratch); bool hb = exists(result); std::string fb = hb ? read_file(result) : "";
        if (a.rc != b.rc) c.fail("tool-status", strf("%s: exit status %d, built by gcc with unsigned char and short enumerations %d\n", args[0].c_str(), a.rc, b.rc) + a.out + a.err + b.out + b.err);
        if (a.out + a.err != b.out + b.err) c.fail("tool-text", args[0] + " prints\n" + cutText(a.out + a.err) + "\nbuilt by gcc with unsigned char and short enumerations\n" + cutText(b.out + b.err)); (void)stdoutToo;
        if (ha != hb || fa != fb) c.fail("tool-file", args[0] + " writes\n" + hx(fa.data(), std::min<size_t>(fa.size(), 400)) + "\nbuilt by gcc with unsigned char and short enumerations\n" + hx(fb.data(), std::min<size_t>(fb.size(), 400)));
        c.count("tool_" + args[0] + (a.rc ? "_fails" : "_ok")); return a.rc;
    };
    twice({"fmt", in, fm}, fm, true); if (s.chance(1, 4)) twice({"compile", in, il, "--json"}, il, true);
    if (twice({"compile", in, il}, il, true)) return;
    twice({"inspect", il}, w + "/none", true); c.nontrivial = true; if (kind) return;
    RefOpts o; o.utf8 = true; RefResult r = refEncode(S, s, o); if (r.undef || F.optional) return; std::vector<uint8_t> m = r.bytes; if (r.err || s.chance(1, 4)) m = mutate(s, m);
    write_file(bin, m); std::vector<std::string> a{"decode", il, bin, js}; if (s.chance(1, 4)) a.push_back("--hex"); if (twice(a, js, true)) return;
    std::string t = read_file(js); if (s.chance(1, 3) && !t.empty()) { std::vector<uint8_t> v(t.begin(), t.end()); v = mutate(s, v); t.assign(v.begin(), v.end()); write_file(js, t); } twice({"encode", il, js, out}, out, true);
}
static void c36(Case& c) {
    Src& s = c.s; if (s.chance(1, 14)) { toolBoth(c); return; }
    if (s.chance(1, 6)) { // any bytecode
        Port j; std::vector<uint8_t> code; size_t n = 1 + s.draw(20); for (size_t i = 0; i < n; i++) genInstr(s, code); if (s.chance(1, 6)) code.resize(s.draw(code.size())); if (s.chance(1, 4)) code = mutate(s, code);
        if (s.chance(1, 3)) { // counts and offsets near 4 GiB, after something was read
            if (s.chance(1, 2)) code.insert(code.begin(), {OP_IO_U8, 0, 0}); Layout L; walk(code, L); std::vector<size_t> at; for (size_t i : L.starts) { if ((code[i] == OP_RAW_BYTES || code[i] == 0x51 || code[i] == 0x53) && i + 7 <= code.size()) at.push_back(i + 3); if ((code[i] == 0x50 || code[i] == 0x52) && i + 5 <= code.size()) at.push_back(i + 1); }
            if (at.empty()) { at.push_back(code.size() + 3); static const uint8_t X[] = {OP_RAW_BYTES, 0x51, 0x53}; code.push_back(X[s.draw(2)]); for (int i = 0; i < 30; i++) code.push_back(0); }
            uint32_t v = ~(uint32_t)s.draw(48); memcpy(&code[at[s.draw(at.size() - 1)]], &v, 4); c.count("operand_near_4_GiB");
        }
        c.mix(code); j.prog = &code; j.image = false; j.code = true; j.enc = s.chance(1, 2); j.data.resize(s.draw(64)); for (auto& b : j.data) b = (uint8_t)s.draw(s.chance(1, 2) ? 4 : 255); j.failAt = s.chance(1, 8) ? (long)s.draw(8) : -1; ported(c, j); return;
    }
    Gen g(s, withBig(featFor(s), 1 | 2 | 4 | 8 | 16 | 32 | 64)); Schema S = g.schema(); bool opt = !S.hasEof && S.alias < 0 && s.chance(1, 4);
    if (opt) { static const char* X[] = {"u8 oa%zu;", "i16 oa%zu;", "u64 oa%zu;", "bool oa%zu;", "string oa%zu prefix uint8;", "string oa%zu prefix uint32;", "string oa%zu until 0 max 9;", "@big_endian string oa%zu prefix uint32;", "u8 oa%zu[] prefix uint32;", "u8 oa%zu[] prefix uint16;", "@add(3) i32 oa%zu;", "u16 oa%zu[3];"}; size_t n = 1 + s.draw(3); for (size_t i = 0; i < n; i++) { Stmt st; st.k = Stmt::RAW; st.raw = "@optional " + strf(X[s.draw(11)], i); S.packet.push_back(st); } }
    std::string text = render(S); c.desc = text + "\n"; c.mix(text); note(c); Program P; std::string log;
    if (compileText(c.scratch, text, P, &log)) c.fail("compile-rejected", "valid schema rejected: " + log);
    std::vector<uint8_t> bytecode(P.p.bytecode, P.p.bytecode + P.p.bytecode_len); bool math = false, inexact = false;
    for (const char* w : {"sin(", "cos(", "tan(", "log(", "exp(", "pow("}) if (text.find(w) != std::string::npos) math = true;
    for (const char* w : {"@expr", "@scale", "@poly", "@spline", "float", "double", "f32", "f64"}) if (text.find(w) != std::string::npos) inexact = true;
    for (int rep = 0; rep < 3; rep++) {
        size_t keep = c.desc.size(); RefOpts o; o.acceptRaw = s.chance(1, 2); o.invalidPct = s.chance(1, 4) ? 12 : 0; Port j; RefResult r = refEncode(S, s, o); c.mix(r.bytes);
        j.image = !s.chance(1, 10) || bytecode.empty(); j.prog = j.image ? &P.il : &bytecode; j.failAt = s.chance(1, 6) ? (long)s.draw(8) : -1; j.takeRaw = s.chance(1, 2); j.math = math; j.enc = s.chance(1, 2); RefResult d;
        if (j.enc) {
            bool free = opt || r.undef || s.chance(1, 6); if (free && inexact) { c.count("undefined_skipped"); continue; }
            if (!free) j.script = &r.ev; size_t cap = r.size + (S.hasEof ? 0 : s.draw(6)) + (opt ? s.draw(12) : 0); if (s.chance(1, 6)) cap = s.draw(cap); j.data.assign(cap, (uint8_t)s.draw(255));
        } else {
            std::vector<uint8_t> in = r.bytes; if (r.undef || r.err || s.chance(1, 3)) in = mutate(s, in); if (opt) for (size_t k = s.draw(24); k; k--) in.push_back((uint8_t)s.draw(s.chance(1, 2) ? 5 : 255)); if (s.chance(1, 6)) in.resize(s.draw(in.size()));
            if (s.chance(1, 4) && in.size() >= 4) { size_t at = s.draw(in.size() - 4); uint32_t v = ~(uint32_t)s.draw(s.chance(1, 2) ? 3 : 300); bool be = s.chance(1, 2); for (int i = 0; i < 4; i++) in[at + (size_t)i] = (uint8_t)(v >> 8 * (be ? 3 - i : i)); c.count("length_near_4_GiB"); }
            if (inexact || !opt) { d = refDecode(S, in, o); if (d.undef || (opt && inexact)) { c.count("undefined_skipped"); continue; } } if (!opt) j.script = &d.ev; j.data = in; c.mix(in);
        }
        ported(c, j); c.desc.resize(keep);
    }
    if (s.chance(1, 3)) { Port j; std::vector<uint8_t> im = s.chance(3, 4) ? mutate(s, P.il) : P.il; if (s.chance(1, 3)) im.resize(s.draw(std::min<size_t>(im.size(), 24))); if (s.chance(1, 3) && im.size() >= 16) { size_t at = 8 + 4 * s.draw(1); uint32_t v = ~(uint32_t)s.draw(64); memcpy(&im[at], &v, 4); } j.prog = &im; j.loadOnly = true; ported(c, j); }
}
static Reg r36({"C36", "A generated schema (all language features, one quarter with optional fields at the end; one sixth of the cases: any instructions instead) is compiled and encoded or decoded three times - valid, invalid, cut, mutated data, lengths near 4 GiB, hosts that refuse at a point - by this build, by the runtime compiled for 32-bit WebAssembly (4-byte pointers and sizes) and by the runtime compiled with gcc -O3 -funsigned-char -fshort-enums; hosts give the same answers. One third also load a whole, damaged or cut image. Load and verification results, key lookups, every callback with key, name and value, the error, the final position and the data must agree. In one of 14 cases the tool of both native builds compiles, formats, lists, decodes and encodes valid and damaged input: files, output and status must agree. Non-trivial: at least three callbacks, or a compiled schema; distinct by schema text or code and data.", c36, 50000, 1500000});
