// What the run-time library takes from its surroundings: no heap memory, a bounded stack, a read-only program, and data handed over in place.
#include "cnd.h"
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" __attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
namespace {
thread_local int g_lib = 0; // inside the library, outside of the host
thread_local uint64_t g_heap = 0;
void onMalloc(const volatile void*, size_t) { if (g_lib) g_heap++; }
void onFree(const volatile void*) { if (g_lib) g_heap++; }

const size_t STACK = 1 << 19, LIMIT = 16384; const uint64_t MARK = 0xC3A5C3A55A3C5A3Cull;
char* stackLow() { static char* m = nullptr; if (!m) m = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return m; }
size_t const PAINT = 1 << 17; // how far below the frame the stack is painted
__attribute__((noinline)) void paint(char* from) { for (volatile uint64_t *p = (uint64_t*)(((uintptr_t)from - PAINT) & ~7ull), *e = (uint64_t*)((uintptr_t)from & ~7ull); p < e; p++) *p = MARK; }
__attribute__((noinline)) size_t depth(char* from) { const volatile uint64_t *p = (uint64_t*)(((uintptr_t)from - PAINT) & ~7ull), *e = (uint64_t*)((uintptr_t)from & ~7ull); while (p < e && *p == MARK) p++; return (size_t)((char*)e - (char*)p); }

struct Res {
    HostRun h; char* base = nullptr; size_t used = 0, scans = 0; const uint8_t* buf = nullptr; size_t len = 0; const cnd_program* p = nullptr; const uint8_t* im = nullptr; size_t imLen = 0;
    char* str = nullptr; size_t strCap = 0; std::string bad; size_t strings = 0, raws = 0; bool fatal = false;
};
bool within(const void* q, size_t n, const uint8_t* b, size_t len) { const uint8_t* p = (const uint8_t*)q; return p >= b && p <= b + len && n <= (size_t)(b + len - p); }
// Frame of the callback: what lies above it down from the base is the library's stack at this point.
__attribute__((noinline)) cnd_error_t answer(struct cnd_vm_ctx_t* c, uint16_t key, uint8_t op, void* ptr, Res& r) {
    bool enc = c->mode == CND_MODE_ENCODE, str = op >= OP_STR_NULL && op <= OP_STR_PRE_U32; auto bad = [&](const std::string& t) { if (r.bad.empty()) r.bad = t; };
    const Ev* e = r.h.pos < r.h.script->size() ? &(*r.h.script)[r.h.pos] : nullptr; c->user_ptr = &r.h;
    cnd_error_t rc = hostCb(c, key, op, ptr); c->user_ptr = &r; if (rc != CND_ERR_OK || !e || e->op != op) return rc;
    const char* nm = cnd_get_key_name(c->program, key); if (nm && !within(nm, strlen(nm) + 1, r.im, r.imLen)) bad("a field name does not lie in the program image");
    if (str && !enc) { r.strings++; size_t n = e->data.size() + (op == OP_STR_NULL ? 1 : 0); if (!within(ptr, n, r.buf, r.len) && n > 0) bad("a decoded string is not handed over in place: " + evStr(*e)); }
    if (op == OP_RAW_BYTES) { r.raws++; if (!within(ptr, e->data.size(), r.buf, r.len)) bad("an array of bytes is not handed over in place: " + evStr(*e)); }
    if (str && enc) { // the string of the host lives until the next callback only
        r.strings++; size_t n = e->data.size() + 1; if (r.str) { memset(r.str, '#', r.strCap); free(r.str); } r.str = (char*)malloc(n); r.strCap = n; memcpy(r.str, e->data.c_str(), n); *(const char**)ptr = r.str;
    }
    return rc;
}
cnd_error_t resCb(struct cnd_vm_ctx_t* c, uint16_t key, uint8_t op, void* ptr) {
    g_lib = 0; Res& r = *(Res*)c->user_ptr; char* me = (char*)__builtin_frame_address(0); bool scan = r.scans < 60; if (scan) { r.scans++; r.used = std::max(r.used, depth(r.base)); }
    r.used = std::max(r.used, (size_t)(r.base - me)); cnd_error_t rc = answer(c, key, op, ptr, r);
    if (r.str && !(op >= OP_STR_NULL && op <= OP_STR_PRE_U32)) { memset(r.str, '#', r.strCap); free(r.str); r.str = nullptr; }
    if (r.scans < 60) { char* low = me - 1024; size_t n = PAINT - (size_t)(r.base - low); for (volatile uint64_t *p = (uint64_t*)(((uintptr_t)r.base - PAINT) & ~7ull), *e = p + n / 8; p < e; p++) *p = MARK; }
    g_lib = 1; return rc;
}
// Runs f on a thread whose stack is observed.
struct Job { const std::function<void()>* f; }; void* entry(void* a) { (*((Job*)a)->f)(); return nullptr; }
void onThread(Case& c, const std::function<void()>& f) {
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, stackLow(), STACK); pthread_t t; Job j{&f};
    int e = pthread_create(&t, &a, entry, &j); pthread_attr_destroy(&a); if (e) { c.count("no_thread"); return; } pthread_join(t, nullptr);
}
struct Out { int err = 0; size_t used = 0; uint64_t heap = 0; };
// The library call itself, with its stack and heap use
template <class F> __attribute__((noinline)) Out observe(Res* r, F f) {
    char* base = (char*)__builtin_frame_address(0) - 256; if (r) r->base = base; paint(base); g_heap = 0; g_lib = 1; int e = f(); g_lib = 0; Out o; o.err = e; o.heap = g_heap;
    if (r && r->scans >= 60) o.used = r->used; else o.used = std::max(r ? r->used : 0, depth(base)); return o;
}
} // namespace
static void c35(Case& c) {
    static bool hooked = __sanitizer_install_malloc_and_free_hooks && __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); if (!hooked) c.count("no_heap_hook");
    Gen g(c.s, withBig(featFor(c.s), 1 | 2 | 4 | 8 | 16 | 32 | 64)); Schema S = g.schema(); std::string text = render(S), log; c.desc = text + "\n"; c.mix(text); note_desc_impl(c.desc); Program P;
    if (compileText(c.scratch, text, P, &log)) c.fail("compile-rejected", "valid schema rejected: " + log);
    size_t n = P.il.size(), pg = 4096, room = (n + pg - 1) / pg * pg; uint8_t* m = (uint8_t*)mmap(nullptr, room + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); uint8_t* im = m + (room - n); memcpy(im, P.il.data(), n); mprotect(m, room, PROT_READ); mprotect(m + room, pg, PROT_NONE);
    struct Unmap { void* m; size_t n; ~Unmap() { munmap(m, n); } } um{m, room + pg};
    cnd_program p; memset(&p, 0xEE, sizeof p); size_t most = 0;
    auto judge = [&](const char* what, const Out& o) {
        if (o.heap) c.fail("heap", strf("%s: the library allocated or freed heap memory %llu times", what, (unsigned long long)o.heap));
        if (o.used > LIMIT) c.fail("stack", strf("%s: the library used %zu bytes of stack or more", what, o.used)); most = std::max(most, o.used);
    };
    Out o; auto call = [&](Res* r, std::function<int()> f) { onThread(c, [&] { o = observe(r, f); }); };
    call(nullptr, [&] { return (int)cnd_program_load_il(&p, im, n); }); judge("loading", o); if (o.err) c.fail("load", "an image in read-only memory does not load");
    call(nullptr, [&] { return (int)cnd_verify_program(&p); }); judge("verification", o); if (o.err) c.fail("verify", "an image in read-only memory is not verified");
    std::vector<std::string> names; { const cnd_program* q = &P.p; for (uint32_t i = 0; i < q->string_count && i < 300; i++) { const char* s = cnd_get_key_name(q, (uint16_t)i); names.push_back(s ? s : ""); } }
    std::string wrong; call(nullptr, [&] { for (size_t i = 0; i < names.size(); i++) { const char* s = cnd_get_key_name(&p, (uint16_t)i); if (!s || !within(s, names[i].size() + 1, im, n) || strcmp(s, names[i].c_str())) return 1; uint16_t id = cnd_get_key_id(&p, names[i].c_str()); if (id == 0xFFFF) return 1; } cnd_get_key_id(&p, "no such name"); cnd_get_key_name(&p, 0xFFFF); for (int i = 0; i < 10; i++) cnd_error_string((cnd_error_t)i); return 0; });
    judge("looking up names", o); if (o.err) c.fail("names", "a name is not found in place in the image");
    for (int rep = 0; rep < 3; rep++) {
        RefOpts ro; ro.acceptRaw = c.s.chance(1, 2); ro.invalidPct = c.s.chance(1, 5) ? 15 : 0; RefResult e = refEncode(S, c.s, ro); for (auto& k : e.feats) c.count(k.first); if (e.undef) { c.count("undefined_skipped"); continue; }
        std::vector<uint8_t> in = e.bytes; if (e.err || c.s.chance(1, 3)) in = mutate(c.s, in); RefResult d = refDecode(S, in, ro); c.mix(e.bytes); c.mix(in);
        size_t keep = c.desc.size(); c.desc += "encode: " + evList(e.ev) + " => " + (e.err ? errName(e.err) : hexs(e.bytes, 100)) + "\ndecode " + hexs(in, 100) + " => " + errName(d.err) + "\n"; note_desc_impl(c.desc);
        long failAt = c.s.chance(1, 8) ? (long)c.s.draw(e.ev.size()) : -1; bool cut = !e.err && failAt < 0 && c.s.chance(1, 8); size_t cap = e.err ? e.bytes.size() + 16 : cut ? c.s.draw(e.size) : e.size + (S.hasEof ? 0 : c.s.draw(4));
        for (int dir = 0; dir < 2; dir++) {
            if (dir && d.undef) continue; const RefResult& R = dir ? d : e; size_t len = dir ? in.size() : cap; uint8_t* b = (uint8_t*)malloc(len ? len : 1); if (len && dir) memcpy(b, in.data(), len); else if (len) memset(b, 0xA5, len);
            Res r; r.h.script = &R.ev; r.h.failAt = failAt; r.h.shortCap = !dir && cut; r.buf = b; r.len = len; r.p = &p; r.im = im; r.imLen = n; cnd_vm_ctx ctx; memset(&ctx, 0xEE, sizeof ctx);
            call(&r, [&] { cnd_init(&ctx, dir ? CND_MODE_DECODE : CND_MODE_ENCODE, &p, b, len, resCb, &r); return (int)cnd_execute(&ctx); });
            std::string got = hexs(b, std::min<size_t>(len, 200)); bool same = !dir && !R.err && !cut && failAt < 0 && R.size <= len && !memcmp(b, R.bytes.data(), R.bytes.size()); free(b); free(r.str);
            const char* what = dir ? "decoding" : "encoding"; judge(what, o); if (!r.bad.empty()) c.fail("place", r.bad);
            if (!cut && failAt < 0) { if (!r.h.mismatch.empty() || o.err != R.err) c.fail("result", strf("%s with a program in read-only memory: %s, reference %s; %s", what, errName(o.err), errName(R.err), r.h.mismatch.c_str())); if (!dir && !R.err && !same) c.fail("bytes", "with strings that live until the next callback only: encoded " + got + ", reference " + hexs(R.bytes, 200)); }
            c.count(strf("%s_%s", dir ? "decode" : "encode", errName(o.err))); if (r.strings) c.count("strings", r.strings); if (r.raws) c.count("byte_arrays", r.raws); if (r.h.calls >= 3) c.nontrivial = true;
        }
        c.desc.resize(keep);
    }
    c.count(strf("stack_below_%zu", (most + 1023) / 1024 * 1024));
}
static Reg r35({"C35", "A generated schema (all language features, at times deeply nested, of scores of types, with long strings and arrays) is compiled and its image placed in read-only pages; loading, verification, name lookups, and encodes and decodes of valid, invalid, cut and mutated messages, with hosts that refuse at a point, run on a thread whose stack below the call is painted, with a hook on the allocator: no allocation or release, at most 16 KiB of stack, names pointing into the image, decoded strings and byte arrays into the buffer, and strings given when encoding valid only until the next callback. Non-trivial: an operation with at least three callbacks; distinct by schema text and messages.", c35, 60000, 400000});
