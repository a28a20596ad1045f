/* Runs requests of the harness on this build of the runtime and reports everything observable.
 * Built for 32-bit WebAssembly (driven by run.js) and as a native program. */
#include "concordia.h"
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#ifdef VMDRV_WASM
extern uint8_t __heap_base;
static uintptr_t brk_;
static void* get(size_t n) {
    if (!brk_) brk_ = (uintptr_t)&__heap_base;
    brk_ = (brk_ + 15) & ~(uintptr_t)15;
    void* p = (void*)brk_; brk_ += n;
    size_t have = __builtin_wasm_memory_size(0) * 65536u;
    if (brk_ > have) { if (__builtin_wasm_memory_grow(0, (brk_ - have + 65535) / 65536 + 256) == (size_t)-1) __builtin_trap(); }
    return p;
}
static void release(void) { brk_ = (uintptr_t)&__heap_base; }
#define EXPORT(n) __attribute__((export_name(n)))
#else
#include <stdio.h>
#include <stdlib.h>
static void* blocks[8]; static int nblocks;
static void* get(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); blocks[nblocks++ & 7] = p; return p; }
static void release(void) { for (int i = 0; i < nblocks && i < 8; i++) free(blocks[i]); nblocks = 0; }
#define EXPORT(n)
#endif

static uint8_t* out; static size_t outLen, outCap;
static void putc_(char c) { if (outLen < outCap) out[outLen++] = (uint8_t)c; }
static void puts_(const char* s) { while (*s) putc_(*s++); }
static void putu(uint64_t v) { char b[24]; int n = 0; do b[n++] = (char)('0' + v % 10); while (v /= 10); while (n) putc_(b[--n]); }
static void hex(const void* p, size_t n) { static const char H[] = "0123456789abcdef"; const uint8_t* q = (const uint8_t*)p; for (size_t i = 0; i < n; i++) { putc_(H[q[i] >> 4]); putc_(H[q[i] & 15]); } }

static const uint8_t* at;
static uint32_t u32(void) { uint32_t v = at[0] | (uint32_t)at[1] << 8 | (uint32_t)at[2] << 16 | (uint32_t)at[3] << 24; at += 4; return v; }
static uint64_t u64(void) { uint64_t l = u32(); return l | (uint64_t)u32() << 32; }

typedef struct { const uint8_t* ans; uint32_t left; uint8_t* data; size_t len; char* str; int names; } host;
static int width(uint8_t op) {
    switch (op) {
        case 0x10: case 0x14: case 0x1A: case 0x22: case 0x35: return 1;
        case 0x11: case 0x15: case 0x36: return 2;
        case 0x12: case 0x16: case 0x18: case 0x37: case 0x34: case 0x3B: return 4;
        default: return 8;
    }
}
static cnd_error_t cb(cnd_vm_ctx* c, uint16_t key, uint8_t op, void* p) {
    host* h = (host*)c->user_ptr; int enc = c->mode == CND_MODE_ENCODE; const char* nm = h->names ? cnd_get_key_name(c->program, key) : NULL;
    puts_("ev "); putu(op); putc_(' '); putu(key); putc_(' '); putu((uint64_t)c->mode); putc_(' '); if (nm) hex(nm, strlen(nm)); putc_(' ');
    if (!h->left) { puts_("unexpected\n"); return CND_ERR_CALLBACK; }
    h->left--; at = h->ans; uint8_t kind = *at++; uint64_t v = u64(), got = 0; uint32_t n = u32(); const uint8_t* b = at; h->ans = at + n;
    switch (op) {
        case 0x03: case 0x04: case 0x38: putu(0); putc_(' '); break;
        case 0x39:
            putu(0); putc_(' '); if (kind != 3) break;
            if (n > (size_t)(h->data + h->len - (uint8_t*)p)) puts_("outside"); else if (enc) memcpy(p, b, n); else hex(p, n);
            break;
        case 0x30: case 0x31: case 0x32: case 0x33:
            putu(0); putc_(' ');
            if (enc) { if (kind == 4) { memcpy(h->str, b, n); h->str[n] = 0; *(const char**)p = h->str; } break; }
            if (op == 0x30) { hex(p, strlen((const char*)p)); break; }
            { int w = op == 0x31 ? 1 : op == 0x32 ? 2 : 4; const uint8_t* q = (const uint8_t*)p; uint64_t m = 0; for (int i = 0; i < w; i++) m |= (uint64_t)(c->endianness == CND_LE ? q[i - w] : q[-1 - i]) << 8 * i;
              if (m && (q < h->data || q > h->data + h->len || m > (uint64_t)(h->data + h->len - q))) { puts_("outside "); putu(m); } else hex(p, (size_t)m); }
            break;
        case 0x06: case 0x60: memcpy(p, &v, 8); putu(0); putc_(' '); break;
        default: {
            int k = width(op), in = !enc || op == 0x34 || op == 0x3B || op == 0x78;
            if (!in) { memcpy(p, &v, (size_t)k); putu(0); putc_(' '); break; }
            memcpy(&got, p, (size_t)k);
            if (op == 0x1A || op == 0x22) got = got != 0;
            if (op >= 0x14 && op <= 0x17 && k < 8) { uint64_t s = (uint64_t)1 << (8 * k - 1); got = (got ^ s) - s; }
            putu(got); putc_(' ');
        }
    }
    putc_('\n');
    return kind == 1 ? CND_ERR_CALLBACK : CND_ERR_OK;
}

/* Request: flags (1 encode, 2 image, 4 verify only, 8 names), program, data, answers, names */
EXPORT("req") uint8_t* req(uint32_t n) { release(); return (uint8_t*)get(n); }
EXPORT("res") uint8_t* res(void) { return out; }
EXPORT("serve") uint32_t serve(uint8_t* r, uint32_t n) {
    uint8_t flags = r[0]; at = r + 1; uint32_t pl = u32(); const uint8_t* pb = at; at += pl; uint32_t dl = u32(); const uint8_t* db = at; at += dl;
    uint8_t* prog = (uint8_t*)get(pl); memcpy(prog, pb, pl); uint8_t* data = (uint8_t*)get(dl); memcpy(data, db, dl);
    host h; h.left = u32(); h.ans = at; h.data = data; h.len = dl; h.str = (char*)get(n + 1); h.names = (flags & 8) != 0;
    uint32_t left = h.left; while (left--) { at += 9; uint32_t k = u32(); at += k; }
    outCap = 1024 + (size_t)n * 4 + (size_t)h.left * 64; uint32_t nn = u32(); outCap += (size_t)nn * 64; out = (uint8_t*)get(outCap + (flags & 8 ? (size_t)h.left * 600 : 0)); if (flags & 8) outCap += (size_t)h.left * 600; outLen = 0;
    const uint8_t* names = at; cnd_program p; memset(&p, 0xEE, sizeof p); int e = 0;
    if (flags & 2) e = cnd_program_load_il(&p, prog, pl); else cnd_program_load(&p, prog, pl);
    puts_("load "); putu((uint64_t)e); putc_('\n'); if (e) return (uint32_t)outLen;
    puts_("verify "); putu((uint64_t)cnd_verify_program(&p)); putc_('\n');
    at = names; for (uint32_t i = 0; i < nn; i++) { uint32_t k = u32(); memcpy(h.str, at, k); h.str[k] = 0; at += k; puts_("id "); putu(cnd_get_key_id(&p, h.str)); putc_('\n'); }
    if (flags & 4) return (uint32_t)outLen;
    cnd_vm_ctx c; memset(&c, 0xEE, sizeof c); cnd_init(&c, flags & 1 ? CND_MODE_ENCODE : CND_MODE_DECODE, &p, data, dl, cb, &h); e = cnd_execute(&c);
    puts_("error "); putu((uint64_t)e); puts_("\ncursor "); putu(c.cursor); putc_(' '); putu(c.bit_offset); puts_("\ndata "); hex(data, dl); putc_('\n');
    return (uint32_t)outLen;
}
#ifndef VMDRV_WASM
int main(void) {
    for (;;) {
        uint32_t n; if (fread(&n, 4, 1, stdin) != 1) return 0;
        uint8_t* r = req(n); if (n && fread(r, 1, n, stdin) != n) return 0;
        n = serve(r, n); fwrite(&n, 4, 1, stdout); fwrite(out, 1, n, stdout); fflush(stdout);
    }
}
#endif
