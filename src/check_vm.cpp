// Properties of the virtual machine on its own: hostile bytecode, limits,
// the verifier and image loading.
#include "cnd.h"
#include "il.h"
#include <cmath>
#include "util.h"

static uint8_t* heapCopy(const std::vector<uint8_t>& v, uint8_t** base) { uint8_t* m = (uint8_t*)malloc(v.size() ? v.size() : 1); *base = m; uint8_t* b = v.size() ? m : m + 1; if (v.size()) memcpy(b, v.data(), v.size()); return b; }
static void put16(std::vector<uint8_t>& o, uint16_t v) { o.push_back((uint8_t)v); o.push_back((uint8_t)(v >> 8)); }
static void put32(std::vector<uint8_t>& o, uint32_t v) { put16(o, (uint16_t)v); put16(o, (uint16_t)(v >> 16)); }
static void put64(std::vector<uint8_t>& o, uint64_t v) { put32(o, (uint32_t)v); put32(o, (uint32_t)(v >> 32)); }

// ---------------------------------------------------------------- C05
struct Loose { uint64_t rng; unsigned failPct; uint64_t calls, bytes; const cnd_program* prog; const char* problem; std::vector<std::string>* strs; };
static uint64_t rnd(Loose* l) { uint64_t x = l->rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return l->rng = x; }
static volatile uint8_t g_sink;
static void touch(const void* p, size_t n) { const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) g_sink = g_sink + b[i]; }
static cnd_error_t looseCb(struct cnd_vm_ctx_t* c, uint16_t key, uint8_t op, void* p) {
    Loose* l = (Loose*)c->user_ptr; l->calls++;
    const char* nm = cnd_get_key_name(c->program, key); if (nm) touch(nm, strlen(nm) + 1);
    bool enc = c->mode == CND_MODE_ENCODE; uint64_t r = rnd(l), v = (r & 7) == 0 ? r >> 3 : (r >> 3) & 3;
    if (l->failPct && rnd(l) % 100 < l->failPct) return CND_ERR_CALLBACK;
    size_t n = 0;
    switch (op) {
        case OP_ENTER_STRUCT: case OP_EXIT_STRUCT: case OP_ARR_END: return CND_ERR_OK;
        case OP_RAW_BYTES: return rnd(l) & 1 ? CND_ERR_OK : CND_ERR_CALLBACK;
        case OP_STR_NULL: case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
            if (enc) { *(const char**)p = (r & 15) == 0 ? nullptr : (*l->strs)[v % l->strs->size()].c_str(); return CND_ERR_OK; }
            if (op == OP_STR_NULL) touch(p, strlen((const char*)p) + 1);
            else {
                int w = op == OP_STR_PRE_U8 ? 1 : op == OP_STR_PRE_U16 ? 2 : 4; const uint8_t* q = (const uint8_t*)p; uint64_t m = 0;
                for (int i = 0; i < w; i++) m |= (uint64_t)(c->endianness == CND_LE ? q[i - w] : q[-1 - i]) << 8 * i;
                touch(p, m);
            }
            return CND_ERR_OK;
        case OP_IO_U8: case OP_IO_I8: case OP_IO_BOOL: case OP_IO_BIT_BOOL: case OP_ARR_PRE_U8: n = 1; break;
        case OP_IO_U16: case OP_IO_I16: case OP_ARR_PRE_U16: n = 2; break;
        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: case OP_ARR_PRE_U32: case OP_ARR_FIXED: case OP_ARR_DYNAMIC: n = 4; break;
        case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_CTX_QUERY: case OP_LOAD_CTX: case OP_STORE_CTX: n = 8; break;
        default: if (!l->problem) l->problem = "callback with an undocumented type"; return CND_ERR_OK;
    }
    touch(p, n);
    if (enc || op == OP_CTX_QUERY || op == OP_LOAD_CTX) if (op != OP_ARR_FIXED && op != OP_STORE_CTX && op != OP_ARR_DYNAMIC) {
        if ((op == OP_IO_F32 || op == OP_IO_F64) && (r & 64)) { double d = (double)(int64_t)v * 0.5; float f = (float)d; if (n == 4) memcpy(p, &f, 4); else memcpy(p, &d, 8); }
        else memcpy(p, &v, n);
    }
    return CND_ERR_OK;
}
static const uint8_t ALLOPS[] = {0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1A, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3A, 0x3B, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4A, 0x4B, 0x4C, 0x4D, 0x50, 0x51, 0x52, 0x53, 0x60, 0x61, 0x62, 0x63, 0x64, 0x65, 0x78};
static uint64_t edge(Src& s) { switch (s.weighted({4, 2, 2, 1})) { case 0: return s.draw(9); case 1: return s.u64(); case 2: { static const uint64_t e[] = {UINT64_MAX, 1ull << 63, (1ull << 63) - 1, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 64, 63, 0x3FF0000000000000ull, 0x7FF0000000000000ull, 0x7FF8000000000000ull, 0xC3E0000000000000ull, 0x43E0000000000000ull}; return e[s.draw(12)]; } default: return 0 - s.draw(9); } }
static int typeSize(uint8_t t) { static const int z[] = {1, 2, 4, 8, 1, 2, 4, 8, 4, 8, 1}; return t >= 0x10 && t <= 0x1A ? z[t - 0x10] : 0; }
void genInstr(Src& s, std::vector<uint8_t>& o) {
    uint8_t op;
    switch (s.weighted({6, 3, 2})) { case 0: op = ALLOPS[s.draw(sizeof ALLOPS - 1)]; break; case 1: op = (uint8_t)(0x60 + s.draw(0x3F)); break; default: op = (uint8_t)s.draw(255); }
    o.push_back(op);
    auto key = [&]() { put16(o, (uint16_t)(s.chance(1, 10) ? s.draw(65535) : s.draw(5))); };
    auto rel = [&](bool table) { put32(o, (uint32_t)(s.chance(1, 6) ? s.draw(UINT32_MAX) : s.chance(1, table ? 40 : 6) ? 0 - s.draw(30) : s.draw(60))); };
    auto type = [&]() { uint8_t t = s.chance(1, 12) ? (uint8_t)s.draw(255) : (uint8_t)(0x10 + s.draw(10)); o.push_back(t); return typeSize(t); };
    switch (op) {
        case 0x05: case 0x23: case 0x24: o.push_back((uint8_t)s.draw(s.chance(1, 3) ? 255 : 16)); break;
        case 0x03: case 0x06: case 0x07: case 0x60: case 0x78: case 0x22: case 0x31: case 0x32: case 0x33: case 0x35: case 0x36: case 0x37: case 0x3A: key(); break;
        case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17: case 0x18: case 0x19: case 0x1A: key(); break;
        case 0x20: case 0x21: key(); o.push_back((uint8_t)s.draw(s.chance(1, 4) ? 255 : 64)); break;
        case 0x30: key(); put16(o, (uint16_t)(s.chance(1, 3) ? s.draw(65535) : s.draw(8))); break;
        case 0x34: case 0x39: key(); put32(o, (uint32_t)(s.chance(1, 5) ? s.draw(UINT32_MAX) : s.draw(6))); break;
        case 0x3B: key(); key(); break;
        case 0x40: { key(); int n = type(); for (int i = 0; i < n; i++) o.push_back((uint8_t)s.draw(255)); break; }
        case 0x41: { int n = type(); for (int i = 0; i < n; i++) o.push_back((uint8_t)s.draw(255)); break; }
        case 0x42: { int n = 2 * type(); for (int i = 0; i < n; i++) o.push_back((uint8_t)s.draw(255)); break; }
        case 0x4B: { int n = type(); uint16_t k = (uint16_t)(s.chance(1, 8) ? s.draw(65535) : s.draw(4)); put16(o, k); if (k < 6) for (int i = 0; i < n * k; i++) o.push_back((uint8_t)s.draw(3)); break; }
        case 0x43: put64(o, edge(s)); put64(o, edge(s)); break;
        case 0x45: case 0x46: case 0x47: case 0x48: case 0x61: put64(o, edge(s)); break;
        case 0x44: put16(o, (uint16_t)s.draw(65535)); put16(o, (uint16_t)s.draw(65535)); put16(o, (uint16_t)s.draw(65535)); o.push_back((uint8_t)s.draw(3)); break;
        case 0x49: put32(o, s.chance(1, 2) ? 0x04C11DB7u : (uint32_t)s.u64()); put32(o, (uint32_t)s.u64()); put32(o, (uint32_t)s.u64()); o.push_back((uint8_t)s.draw(3)); break;
        case 0x4C: { size_t n = s.chance(1, 8) ? s.draw(255) : s.draw(4); o.push_back((uint8_t)n); if (n < 6) for (size_t i = 0; i < n; i++) put64(o, edge(s)); break; }
        case 0x4D: { size_t n = s.chance(1, 8) ? s.draw(255) : s.draw(4); o.push_back((uint8_t)n); if (n < 6) for (size_t i = 0; i < 2 * n; i++) put64(o, edge(s)); break; }
        case 0x50: case 0x52: rel(false); break;
        case 0x51: case 0x53: key(); rel(true); break;
        case 0x65: type(); break;
    }
}
static void c05(Case& c) {
    std::vector<uint8_t> image, code; bool il = false; cnd_program p; memset(&p, 0, sizeof p); uint8_t* base = nullptr;
    size_t kind = c.s.weighted({5, 2, 5});
    if (kind == 0) { size_t n = 1 + c.s.draw(20); for (size_t i = 0; i < n; i++) genInstr(c.s, code); if (c.s.chance(1, 6)) code.resize(c.s.draw(code.size())); if (c.s.chance(1, 4)) code = mutate(c.s, code); c.count("kind_instructions"); }
    else if (kind == 1) { size_t n = c.s.draw(60); for (size_t i = 0; i < n; i++) code.push_back((uint8_t)(c.s.chance(1, 2) ? ALLOPS[c.s.draw(sizeof ALLOPS - 1)] : c.s.draw(255))); c.count("kind_random"); }
    else {
        Feat F = withBig(featFor(c.s), 1 | 8 | 16 | 32 | 64); F.optional = true; Gen g(c.s, F); Schema S = g.schema(); std::string text = render(S); Program P; 
        if (compileText(c.scratch, text, P)) c.fail("compile-rejected", "valid schema rejected");
        c.desc = text; image = P.il; il = true; size_t hdr = image.size() - P.p.bytecode_len;
        size_t n = c.s.draw(4);
        for (size_t i = 0; i < n && image.size() > hdr; i++) switch (c.s.weighted({5, 3, 2, 1, 2})) {
            case 0: image[hdr + c.s.draw(image.size() - hdr - 1)] ^= (uint8_t)(1u << c.s.draw(7)); break;
            case 1: image[hdr + c.s.draw(image.size() - hdr - 1)] = (uint8_t)c.s.draw(255); break;
            case 2: image.resize(hdr + c.s.draw(image.size() - hdr)); break;
            case 3: image.erase(image.begin() + (long)(hdr + c.s.draw(image.size() - hdr - 1))); break;
            default: { std::vector<uint8_t> ins; genInstr(c.s, ins); image.insert(image.begin() + (long)(hdr + c.s.draw(image.size() - hdr - 1)), ins.begin(), ins.end()); }
        }
        c.count("kind_mutated_program");
    }
    const std::vector<uint8_t>& bytes = il ? image : code;
    uint8_t* b = heapCopy(bytes, &base);
    if (il) { if (cnd_program_load_il(&p, b, bytes.size())) { free(base); c.count("not_loaded"); return; } }
    else cnd_program_load(&p, b, bytes.size());
    c.desc += "bytecode " + hexs(p.bytecode, p.bytecode_len, 600) + "\n"; c.mix(bytes); note_desc_impl(c.desc);
    int ver = cnd_verify_program(&p); c.count(ver ? "verifier_rejects" : "verifier_accepts");
    std::vector<std::string> strs = {"", "a", "hello", std::string(300, 'x')};
    for (int rep = 0; rep < 3; rep++) {
        bool enc = c.s.chance(1, 2); std::vector<uint8_t> data(c.s.draw(c.s.chance(1, 4) ? 300 : 24));
        for (auto& x : data) x = (uint8_t)(c.s.chance(1, 2) ? c.s.draw(3) : c.s.draw(255));
        uint8_t* dbase; uint8_t* d = heapCopy(data, &dbase);
        Loose l{c.s.u64() | 1, (unsigned)(c.s.chance(1, 4) ? 10 : 0), 0, 0, &p, nullptr, &strs};
        size_t keep = c.desc.size(); c.desc += strf("%s, data %s, host seed %llu\n", enc ? "encode" : "decode", hexs(data).c_str(), (unsigned long long)l.rng); note_desc_impl(c.desc);
        cnd_vm_ctx ctx; memset(&ctx, 0xA7, sizeof ctx); cnd_init(&ctx, enc ? CND_MODE_ENCODE : CND_MODE_DECODE, &p, d, data.size(), looseCb, &l);
        int e = -1; bool ended = limited(60, [&]() { e = cnd_execute(&ctx); });
        if (!ended) c.count("endless_or_long"); else {
            c.count(std::string("status_") + errName(e));
            if (e < 0 || e > CND_ERR_ARITHMETIC) c.fail("status", strf("undocumented status %d", e));
            if (l.problem) c.fail("callback", l.problem);
        }
        if (memcmp(b, bytes.data(), bytes.size())) c.fail("code-modified", "execution modified the bytecode");
        if (!enc && data.size() && memcmp(d, data.data(), data.size())) c.fail("data-modified", "decoding modified its input");
        if (l.calls >= 2) c.nontrivial = true;
        free(dbase); c.desc.resize(keep);
    }
    free(base);
}
static Reg r05({"C05", "Bytecode is generated as random instruction sequences with boundary arguments, as random bytes, or by mutating the bytecode of generated compiled schemas (bit flips, replaced, inserted and removed bytes and instructions, cuts); each is verified and executed three times over random data in exact-size heap blocks, in both modes, with a host that reads and writes every pointer to the size of its type. AddressSanitizer and UBSan decide; bytecode and decoded data must stay unmodified and the status documented. Non-trivial: at least two callbacks were made; distinct by bytecode.", c05, 90000, 2500000});

// ---------------------------------------------------------------- C15
static ExprP lit(uint64_t v) { ExprP e(new Expr); e->k = Expr::INT; e->i = v; return e; }
static void c15(Case& c) {
    size_t kind = c.s.weighted({3, 3, 3});
    if (kind == 0) { // array nesting
        int depth = 1 + (int)c.s.draw(11); c.count(strf("array_depth_%d", depth));
        Schema S; // struct i contains an array of struct i+1
        S.topEndian = (int)c.s.draw(2);
        bool toEnd = depth >= 2 && c.s.chance(1, 4); if (toEnd) { S.hasEof = true; c.count("innermost_to_end"); } // the innermost array takes the rest of the data
        auto arr = [&](Block& b, int ref, int t, const char* name) {
            Stmt st; Field& f = st.f; f.name = name; f.t = t; f.ref = ref;
            if (toEnd) { if (ref >= 0) { f.ak = Field::A_FIXED; f.acount = 1; } else f.ak = Field::A_EOF; f.maxcount = 2; b.push_back(st); return; }
            switch (t == STR ? (c.s.chance(1, 2) ? 4 : 0) : (int)c.s.draw(4)) {
                case 0: f.ak = Field::A_FIXED; f.acount = 1 + (uint32_t)c.s.draw(1); break; case 1: f.ak = Field::A_PRE8; break; case 2: f.ak = Field::A_PRE16; break; case 3: f.ak = Field::A_PRE32; break;
                default: { Stmt n; n.f.name = std::string("n") + name; n.f.t = U8; n.f.maxv = 2; b.push_back(n); f.ak = Field::A_DYN; f.aref = n.f.name; } }
            f.maxcount = 2; b.push_back(st);
            if (c.s.chance(1, 2)) { Stmt q; q.f.name = std::string("z") + name; q.f.t = U8; b.push_back(q); }
        };
        int leaf = c.s.chance(1, 2) ? U16 : c.s.chance(1, 2) || toEnd ? U8 : STR; // bytes may be offered in bulk, which needs no level
        for (int i = depth - 1; i >= 1; i--) { StructDef d; d.name = strf("S%d", i); bool last = i == depth - 1; arr(d.b, last ? -1 : (int)S.structs.size() - 1, last ? leaf : STRUCT, "a"); if (last) for (auto& st : d.b) if (st.f.name == "a" && leaf == STR) st.f.sk = Field::S_P8; S.structs.push_back(d); S.order.push_back((int)S.structs.size() - 1); }
        arr(S.packet, depth == 1 ? -1 : (int)S.structs.size() - 1, depth == 1 ? leaf : STRUCT, "a"); if (depth == 1 && leaf == STR) for (auto& st : S.packet) if (st.f.name == "a") st.f.sk = Field::S_P8;
        Stmt e; e.f.name = "last"; e.f.t = U16; if (!toEnd) S.packet.push_back(e);
        std::string text = render(S), log; Program P; c.desc = text; c.mix(text); note_desc_impl(c.desc);
        if (compileText(c.scratch, text, P, &log)) c.fail("compile-rejected", log);
        RefOpts o; o.acceptRaw = c.s.chance(1, 2);
        for (int rep = 0; rep < 2; rep++) {
            RefResult r = refEncode(S, c.s, o); if (r.undef) continue;
            RunResult x = runEncode(P, r.ev, r.err ? r.bytes.size() + 64 : r.size, {});
            bool deep = r.err != 0; c.count(deep ? "too_deep" : "within_limit"); if (depth >= 7) c.nontrivial = true;
            if (deep) { if (!x.err) c.fail("depth-accepted", strf("array nesting deeper than %d was accepted on encode", CND_MAX_LOOP_DEPTH)); if (!x.mismatch.empty()) c.fail("depth-event", x.mismatch); }
            else {
                checkEncode(c, P, r, toEnd ? 0 : 2); RefResult d = refDecode(S, r.bytes, o); checkDecode(c, P, r.bytes, d);
                for (int i = 0; i < 3; i++) { std::vector<uint8_t> in = mutate(c.s, r.bytes); RefResult m = refDecode(S, in, o); if (m.undef) continue; if (m.err == CND_ERR_OOB || m.err == CND_ERR_STACK_OVERFLOW) { RunResult y = runDecode(P, m.ev, in); if (!y.err) c.fail("decode-status", "a message the reference rejects was accepted: " + hexs(in)); if (!y.mismatch.empty()) c.fail("decode-event", y.mismatch); } else checkDecode(c, P, in, m); }
            }
            if (deep) { // deep messages are rejected on decode too; all counts one
                std::vector<uint8_t> ones; for (int i = 0; i < 200; i++) ones.push_back(1);
                RefResult d = refDecode(S, ones, o); if (!d.undef && d.err) { RunResult y = runDecode(P, d.ev, ones); if (!y.err) c.fail("depth-accepted", "array nesting deeper than the limit was accepted on decode"); }
            }
        }
    } else if (kind == 1) { // expression depth
        int n = 1 + (int)c.s.draw(11); c.count(strf("expr_depth_%d", n)); if (n >= 6) c.nontrivial = true;
        ExprP e = lit(c.s.draw(50)); static const char* ops[] = {"+", "-", "*", "|", "^", "&"};
        for (int i = 0; i < n; i++) { ExprP b(new Expr); b->k = Expr::BIN; b->s = ops[c.s.draw(5)]; bool right = c.s.chance(5, 6); ExprP l = lit(c.s.draw(50)); if (right) b->a = {l, e}; else b->a = {e, l}; e = b; }
        Schema S; Stmt a; a.f.name = "a"; a.f.t = U32; a.f.expr = e; S.packet.push_back(a); Stmt z; z.f.name = "z"; z.f.t = U8; S.packet.push_back(z);
        if (c.s.chance(1, 2)) { Stmt i; i.k = Stmt::IF; ExprP q(new Expr); q->k = Expr::BIN; q->s = ">"; q->a = {lit(3), e}; i.conds.push_back(q); Stmt in; in.f.name = "y"; in.f.t = U8; i.bodies.push_back(Block{in}); S.packet.push_back(i); }
        std::string text = render(S), log; Program P; c.desc = text; c.mix(text); note_desc_impl(c.desc);
        if (compileText(c.scratch, text, P, &log)) c.fail("compile-rejected", log);
        RefOpts o; RefResult r = refEncode(S, c.s, o); if (r.undef) return;
        c.count(r.err ? "stack_overflow" : "stack_fits"); checkEncode(c, P, r, 3);
        if (!r.err) checkDecode(c, P, r.bytes, refDecode(S, r.bytes, o));
        else { std::vector<uint8_t> in(12, 0); RefResult d = refDecode(S, in, o); if (!d.undef) checkDecode(c, P, in, d); }
        // the same context machinery still works
        Schema T; Stmt t; t.f.name = "v"; t.f.t = U16; T.packet.push_back(t); Program Q; if (!compileText(c.scratch, render(T), Q)) { RefResult q = refEncode(T, c.s, o); checkEncode(c, Q, q, 0); }
    } else { // termination: to-end arrays whose elements may be empty
        Feat F; F.focus = FO_CTRL; F.depth = 2; F.eof = false; F.alias = false; F.maxFields = 4; F.arrays = c.s.chance(1, 2); Gen g(c.s, F); Schema S = g.schema();
        StructDef d; d.name = "Elem"; 
        { Stmt sw; if (c.s.chance(2, 3)) { Stmt n; n.f.name = "k"; n.f.t = c.s.chance(1, 2) ? U8 : U16; if (c.s.chance(1, 3)) n.f.opt = true; d.b.push_back(n); sw.k = Stmt::SWITCH; sw.sref = "k"; sw.cases = {0, 1, 2}; sw.caseNames.resize(3); Stmt q; q.f.name = "q"; q.f.t = U8; Stmt s2; s2.f.name = "s2"; s2.f.t = STR; sw.bodies = {Block{}, Block{q}, Block{s2}}; d.b.push_back(sw); }
          else { sw.k = Stmt::IF; ExprP e = lit(c.s.draw(1)); sw.conds = {e}; Stmt q; q.f.name = "q"; q.f.t = U8; q.f.bits = 0; if (c.s.chance(1, 2)) q.f.opt = true; sw.bodies = {Block{q}}; d.b.push_back(sw); } }
        if (c.s.chance(1, 3)) { Stmt a; a.f.name = "arr"; a.f.t = U16; a.f.ak = Field::A_PRE8; d.b.push_back(a); }
        S.structs.push_back(d); S.order.push_back((int)S.structs.size() - 1);
        Stmt a; a.f.name = "rest_"; a.f.t = STRUCT; a.f.ref = (int)S.structs.size() - 1; a.f.ak = c.s.chance(4, 5) ? Field::A_EOF : Field::A_PRE16; S.packet.push_back(a); S.hasEof = true;
        std::string text = render(S), log; Program P; c.desc = text; note_desc_impl(c.desc);
        if (compileText(c.scratch, text, P, &log)) { c.count("termination_schema_rejected"); return; }
        std::vector<std::string> strs = {"", "ab"};
        for (int rep = 0; rep < 4; rep++) {
            std::vector<uint8_t> data(c.s.draw(40)); for (auto& x : data) x = (uint8_t)(c.s.chance(2, 3) ? c.s.draw(2) : c.s.draw(255)); c.mix(data);
            bool enc = c.s.chance(1, 3);
            Loose l{c.s.u64() | 1, 0, 0, 0, &P.p, nullptr, &strs}; uint8_t* dbase; uint8_t* b = heapCopy(data, &dbase);
            size_t keep = c.desc.size(); c.desc += strf("%s over %s\n", enc ? "encode" : "decode", hexs(data).c_str()); note_desc_impl(c.desc);
            cnd_vm_ctx ctx; cnd_init(&ctx, enc ? CND_MODE_ENCODE : CND_MODE_DECODE, &P.p, b, data.size(), looseCb, &l);
            int e = 0; bool ended = limited(5000, [&]() { e = cnd_execute(&ctx); }); free(dbase);
            if (!ended) c.fail("endless", strf("execution of a compiled schema did not end within 5 s of processor time (%llu callbacks)", (unsigned long long)l.calls));
            if (e < 0 || e > CND_ERR_ARITHMETIC) c.fail("status", strf("undocumented status %d", e));
            c.count("terminated"); if (l.calls > 3) c.nontrivial = true; c.desc.resize(keep);
        }
    }
}
static Reg r15({"C15", "One third: structs nesting arrays of all counted kinds 1-12 deep (a quarter with an innermost array to the end of the data), encoded and decoded against the reference with its limit of eight levels. One third: expressions needing 1-12 evaluation stack entries in computed fields and conditions, against the reference with its limit, followed by an ordinary message. One third: schemas with arrays to the end of data whose elements may be empty, executed over random data in both modes, which must end within 5 s of processor time. Non-trivial: nesting of at least 7, expression depth of at least 6, or an execution with more than 3 callbacks; distinct by schema text and data.", c15, 96000, 400000});

// ---------------------------------------------------------------- C16
// Independent knowledge of the instruction set (SPEC and header): argument bytes per opcode.
int argLen(const std::vector<uint8_t>& b, size_t ip) { // -1 unknown, -2 cut
    uint8_t op = b[ip]; size_t left = b.size() - ip - 1;
    auto fixed = [&](size_t n) { return n > left ? -2 : (int)n; };
    if (op == 0 || op == 1 || op == 2 || op == 4 || op == 0x25 || op == 0x26 || op == 0x38 || op == 0x4A || (op >= 0x62 && op <= 0x64)) return 0;
    if (op == 5 || op == 0x23 || op == 0x24 || op == 0x65) return fixed(1);
    if (op == 3 || op == 6 || op == 7 || (op >= 0x10 && op <= 0x1A) || op == 0x22 || (op >= 0x31 && op <= 0x33) || (op >= 0x35 && op <= 0x37) || op == 0x3A || op == 0x60 || op == 0x78) return fixed(2);
    if (op == 0x20 || op == 0x21) return fixed(3);
    if (op == 0x30 || op == 0x3B || op == 0x50 || op == 0x52) return fixed(4);
    if (op == 0x34 || op == 0x39 || op == 0x51 || op == 0x53) return fixed(6);
    if (op == 0x44) return fixed(7);
    if (op == 0x49) return fixed(13);
    if (op == 0x43) return fixed(16);
    if (op == 0x61 || (op >= 0x45 && op <= 0x48)) return fixed(8);
    if (op == 0x4C || op == 0x4D) { if (left < 1) return -2; return fixed(1 + (size_t)b[ip + 1] * (op == 0x4C ? 8 : 16)); }
    if (op == 0x41 || op == 0x42) { if (left < 1) return -2; return fixed(1 + (size_t)typeSize(b[ip + 1]) * (op == 0x42 ? 2 : 1)); }
    if (op == 0x40) { if (left < 3) return -2; return fixed(3 + (size_t)typeSize(b[ip + 3])); }
    if (op == 0x4B) { if (left < 3) return -2; return fixed(3 + (size_t)typeSize(b[ip + 1]) * (b[ip + 2] | b[ip + 3] << 8)); }
    // expression instructions have no arguments
#define N(x) if (op == x) return 0;
    N(OP_ADD) N(OP_SUB) N(OP_MUL) N(OP_DIV) N(OP_MOD) N(OP_NEG) N(OP_FADD) N(OP_FSUB) N(OP_FMUL) N(OP_FDIV) N(OP_FNEG) N(OP_SIN) N(OP_COS) N(OP_TAN) N(OP_SQRT) N(OP_POW) N(OP_LOG) N(OP_ABS) N(OP_ITOF) N(OP_FTOI)
    N(OP_EQ_F) N(OP_NEQ_F) N(OP_GT_F) N(OP_LT_F) N(OP_GTE_F) N(OP_LTE_F) N(OP_BIT_AND) N(OP_BIT_OR) N(OP_BIT_XOR) N(OP_BIT_NOT) N(OP_SHL) N(OP_SHR) N(OP_EQ) N(OP_NEQ) N(OP_GT) N(OP_LT) N(OP_GTE) N(OP_LTE) N(OP_LOG_AND) N(OP_LOG_OR) N(OP_LOG_NOT)
#undef N
    return -1;
}
uint32_t g32(const std::vector<uint8_t>& b, size_t i) { return (uint32_t)b[i] | (uint32_t)b[i + 1] << 8 | (uint32_t)b[i + 2] << 16 | (uint32_t)b[i + 3] << 24; }
uint64_t g64(const std::vector<uint8_t>& b, size_t i) { return g32(b, i) | (uint64_t)g32(b, i + 4) << 32; }
static void p32(std::vector<uint8_t>& b, size_t i, uint32_t v) { for (int k = 0; k < 4; k++) b[i + k] = (uint8_t)(v >> 8 * k); }
bool walk(const std::vector<uint8_t>& b, Layout& L) {
    std::map<size_t, size_t> tab; size_t ip = 0;
    while (ip < b.size()) {
        auto t = tab.find(ip); if (t != tab.end()) { size_t n = t->second; tab.erase(t); ip += n; continue; }
        int a = argLen(b, ip); if (a < 0) return false;
        L.starts.push_back(ip); L.lens.push_back((size_t)a + 1); size_t base = ip + (size_t)a + 1; uint8_t op = b[ip];
        if (op == 0x50 || op == 0x52) L.jumps.push_back({ip + 1, base});
        if (op == 0x51 || op == 0x53) {
            size_t at = base + g32(b, ip + 3), n; if (at > b.size()) return false;
            if (op == 0x51) { if (at + 6 > b.size()) return false; size_t k = b[at] | b[at + 1] << 8; n = 6 + 12 * k; if (at + n > b.size()) return false; L.jumps.push_back({at + 2, base}); for (size_t i = 0; i < k; i++) L.jumps.push_back({at + 6 + 12 * i + 8, base}); }
            else { if (at + 20 > b.size()) return false; uint64_t k = g64(b, at + 8) - g64(b, at) + 1; if (k > b.size()) return false; n = 20 + 4 * (size_t)k; if (at + n > b.size()) return false; L.jumps.push_back({at + 16, base}); for (size_t i = 0; i < k; i++) L.jumps.push_back({at + 20 + 4 * i, base}); }
            L.tables.push_back({at, n}); tab[at] = n; L.jumps.push_back({SIZE_MAX, ip});
        }
        ip = base;
    }
    return true;
}
static int verify(const std::vector<uint8_t>& b) {
    uint8_t* base; uint8_t* p = heapCopy(b, &base); cnd_program g; memset(&g, 0, sizeof g); cnd_program_load(&g, p, b.size()); int e = cnd_verify_program(&g); 
    bool same = b.empty() || !memcmp(p, b.data(), b.size()); free(base); return same ? e : 99; }
static void c16(Case& c) {
    if (c.s.chance(1, 4)) { // straight-line code with no switch: the verdict is decided by the instruction table alone
        std::vector<uint8_t> b; size_t n = 1 + c.s.draw(12);
        for (size_t i = 0; i < n; i++) {
            std::vector<uint8_t> ins; genInstr(c.s, ins); if (ins[0] == 0x51 || ins[0] == 0x53) continue;
            if (ins[0] == 0x65 || (ins[0] >= 0x40 && ins[0] <= 0x42) || ins[0] == 0x4B) continue; // typed arguments have further rules
            b.insert(b.end(), ins.begin(), ins.end());
        }
        if (c.s.chance(1, 3)) b.resize(c.s.draw(b.size()));
        int want = 0; size_t ip = 0;
        while (ip < b.size() && !want) { int a = argLen(b, ip); uint8_t op = b[ip]; if (a == -1) want = CND_ERR_INVALID_OP; else if (a == -2) want = CND_ERR_OOB; else { if (op == 0x50 || op == 0x52) { int64_t t = (int64_t)(ip + 5) + (int32_t)g32(b, ip + 1); if (t < 0 || t > (int64_t)b.size()) want = CND_ERR_OOB; } if (op == 0x51 || op == 0x53 || op == 0x65 || (op >= 0x40 && op <= 0x42) || op == 0x4B) { c.count("skipped_typed"); return; } ip += (size_t)a + 1; } }
        c.desc = "bytecode " + hexs(b) + strf(" expected %s\n", errName(want)); c.mix(b); note_desc_impl(c.desc);
        int e = verify(b); if (e != want) c.fail("verdict", strf("verifier says %s, expected %s", errName(e), errName(want)));
        c.count(want ? "straight_rejected" : "straight_accepted"); if (b.size() > 3) c.nontrivial = true; return;
    }
    Feat F = withBig(featFor(c.s), 1 | 8 | 16 | 32 | 64); if (c.s.chance(1, 3)) F.focus = FO_CTRL; Gen g(c.s, F); Schema S = g.schema(); std::string text = render(S), log; Program P;
    c.desc = text; c.mix(text); note_desc_impl(c.desc);
    if (compileText(c.scratch, text, P, &log)) c.fail("compile-rejected", log);
    int e = cnd_verify_program(&P.p); if (e) c.fail("compiled-rejected", strf("the verifier rejects a compiled program: %s\n%s", errName(e), hexs(P.p.bytecode, P.p.bytecode_len, 800).c_str()));
    c.count("compiled_accepted");
    std::vector<uint8_t> b(P.p.bytecode, P.p.bytecode + P.p.bytecode_len); Layout L;
    if (!walk(b, L)) c.fail("walk", "compiled bytecode is not a sequence of known instructions: " + hexs(b, 800));
    if (L.starts.empty()) return;
    c.nontrivial = true;
    auto bad = [&](const std::vector<uint8_t>& m, const char* what, int want) {
        int v = verify(m); c.count(std::string("corrupt_") + what);
        if (v == 0) c.fail("corrupt-accepted", std::string(what) + " accepted: " + hexs(m, 800));
        if (v == 99) c.fail("modified", "the verifier modified the program");
        if (want >= 0 && v != want) c.fail("corrupt-status", strf("%s reported as %s instead of %s: %s", what, errName(v), errName(want), hexs(m, 800).c_str()));
    };
    for (int rep = 0; rep < 6; rep++) {
        std::vector<uint8_t> m = b; size_t i = c.s.draw(L.starts.size() - 1);
        switch (c.s.weighted({3, 3, L.jumps.empty() ? 0u : 5u, 2})) {
            case 0: { static const uint8_t unk[] = {0x08, 0x0F, 0x1B, 0x1F, 0x27, 0x2F, 0x3C, 0x3F, 0x4E, 0x4F, 0x54, 0x5F, 0xA0, 0xB7, 0xC8, 0xD3, 0xEE, 0xFE, 0xFF}; std::vector<uint8_t> t(1, unk[c.s.draw(18)]); t.resize(1); if (argLen(t, 0) != -1) break; m[L.starts[i]] = t[0]; bad(m, "unknown_instruction", CND_ERR_INVALID_OP); break; }
            case 1: { if (L.lens[i] < 2) break; size_t cut = L.starts[i] + 1 + c.s.draw(L.lens[i] - 2); bool tab = false; for (auto& t : L.tables) if (t.first < cut && L.starts[i] > t.first) tab = true; (void)tab; m.resize(cut); 
                bool early = false; for (auto& j : L.jumps) if (j.first != SIZE_MAX) { if (j.first + 4 <= cut) { int64_t t = (int64_t)j.second + (int32_t)g32(b, j.first); if (t > (int64_t)cut) early = true; } } (void)early;
                bad(m, "cut_instruction", CND_ERR_OOB); break; }
            case 2: {
                auto& j = L.jumps[c.s.draw(L.jumps.size() - 1)];
                if (j.first == SIZE_MAX) { size_t base = j.second + 7; uint32_t rel = c.s.chance(1, 2) ? (uint32_t)(b.size() - base + 1 + c.s.draw(50)) : 0x80000000u + (uint32_t)c.s.draw(0x7FFFFFFF); if (rel <= b.size() - base) break; p32(m, j.second + 3, rel); bad(m, "table_outside", CND_ERR_OOB); break; }
                int64_t t = c.s.chance(1, 2) ? (int64_t)b.size() + 1 + (int64_t)c.s.draw(1000) : -1 - (int64_t)c.s.draw(1000); if (c.s.chance(1, 4)) t = t > 0 ? INT32_MAX : INT32_MIN; else t -= (int64_t)j.second;
                if ((int64_t)j.second + t >= 0 && (int64_t)j.second + t <= (int64_t)b.size()) break;
                p32(m, j.first, (uint32_t)(int32_t)t); bad(m, "jump_outside", CND_ERR_OOB); break; }
            default: { std::vector<uint8_t> q = mutate(c.s, b); int v = verify(q); if (v == 99) c.fail("modified", "the verifier modified the program"); c.count(v ? "mutation_rejected" : "mutation_accepted");
                // a program it accepts is a sequence of known, complete instructions
                Layout M; if (!v && !walk(q, M)) c.fail("corrupt-accepted", "accepted although it is no sequence of known instructions: " + hexs(q, 800));
                if (!v) for (auto& j : M.jumps) if (j.first != SIZE_MAX) { int64_t t = (int64_t)j.second + (int32_t)g32(q, j.first); if (t < 0 || t > (int64_t)q.size()) c.fail("corrupt-accepted", "accepted with a jump outside: " + hexs(q, 800)); }
            }
        }
    }
    if (c.s.chance(1, 4)) { std::vector<uint8_t> r(c.s.draw(60)); for (auto& x : r) x = (uint8_t)(c.s.chance(1, 2) ? ALLOPS[c.s.draw(sizeof ALLOPS - 1)] : c.s.draw(255)); c.desc += "random " + hexs(r); note_desc_impl(c.desc); int v = verify(r); if (v == 99) c.fail("modified", "the verifier modified the program"); c.count("random_bytes"); }
}
static Reg r16({"C16", "Generated schemas are compiled and must verify; their bytecode is then corrupted at instruction boundaries found by an independent instruction table: unknown opcode, cut inside an instruction, jump or table entry or table position outside, which must be rejected with the documented error, and randomly mutated, where anything accepted must be a sequence of known instructions with targets inside. A quarter of the cases are straight-line instruction sequences whose verdict is decided by the table alone. Exact-size heap blocks under AddressSanitizer. Non-trivial: a program of at least one instruction was corrupted, or a sequence of more than 3 bytes judged; distinct by schema text or bytes.", c16, 112000, 500000});

// ---------------------------------------------------------------- C21
static void c21(Case& c) {
    std::vector<std::string> names; std::vector<uint8_t> img, code; bool valid = true;
    size_t kind = c.s.weighted({3, 3, 1});
    if (kind == 0) { Feat F = featFor(c.s); Gen g(c.s, F); Schema S = g.schema(); Program P; std::string text = render(S); c.desc = text; if (compileText(c.scratch, text, P)) c.fail("compile-rejected", "valid schema rejected"); img = P.il; c.count("kind_compiled"); }
    else if (kind == 1) {
        size_t n = c.s.draw(8); for (size_t i = 0; i < n; i++) { std::string t; size_t k = c.s.draw(6); for (size_t j = 0; j < k; j++) t += (char)(c.s.chance(1, 4) ? 1 + c.s.draw(254) : 'a' + c.s.draw(3)); names.push_back(t); }
        size_t gap = c.s.chance(1, 3) ? c.s.draw(5) : 0, k = c.s.draw(20); for (size_t i = 0; i < k; i++) code.push_back((uint8_t)c.s.draw(255));
        const char* h = "CNDIL"; img.assign(h, h + 5); img.push_back(1); put16(img, (uint16_t)names.size()); put32(img, (uint32_t)(16 + gap)); size_t sz = 0; for (auto& t : names) sz += t.size() + 1; put32(img, (uint32_t)(16 + gap + sz));
        for (size_t i = 0; i < gap; i++) img.push_back((uint8_t)c.s.draw(255)); for (auto& t : names) { img.insert(img.end(), t.begin(), t.end()); img.push_back(0); } img.insert(img.end(), code.begin(), code.end()); c.count("kind_assembled");
    } else { size_t n = c.s.draw(60); for (size_t i = 0; i < n; i++) img.push_back((uint8_t)c.s.draw(255)); if (c.s.chance(1, 2) && img.size() >= 6) { memcpy(img.data(), "CNDIL\1", 6); if (img.size() >= 16) { img[9] = img[10] = img[11] = img[13] = img[14] = img[15] = 0; img[7] = 0; } } c.count("kind_random"); }
    size_t tries = 1 + c.s.draw(6);
    for (size_t t = 0; t < tries; t++) {
        std::vector<uint8_t> m = img;
        if (t) switch (c.s.weighted({3, 4, 2, 2})) {
            case 0: m.resize(c.s.draw(m.size())); break;
            case 1: if (m.size() >= 16) { size_t f = c.s.draw(4); static const int at[] = {8, 12, 6, 5, 0}; uint32_t v; switch (c.s.draw(3)) { case 0: v = (uint32_t)m.size() + (uint32_t)c.s.draw(3) - 1; break; case 1: v = (uint32_t)c.s.draw(m.size()); break; case 2: v = (uint32_t)c.s.u64(); break; default: v = (uint32_t)(0 - c.s.draw(20)); }
                if (f < 2) p32(m, (size_t)at[f], v); else if (f == 2) { m[6] = (uint8_t)v; m[7] = (uint8_t)(c.s.chance(1, 2) ? 0 : v >> 8); } else if (f == 3) m[5] = (uint8_t)c.s.draw(4); else m[c.s.draw(4)] ^= (uint8_t)(1u << c.s.draw(7)); } break;
            case 2: m = mutate(c.s, m); break;
            default: if (m.size() > 16) m[16 + c.s.draw(m.size() - 17)] = (uint8_t)(1 + c.s.draw(254)); // may remove a terminator
        }
        size_t keep = c.desc.size(); c.desc += "image " + hexs(m, 500) + "\n"; c.mix(m); note_desc_impl(c.desc);
        // reference
        bool ok = m.size() >= 16 && !memcmp(m.data(), "CNDIL", 5) && m[5] == 1; std::vector<std::string> strs; size_t so = 0, bo = 0;
        if (ok) { so = g32(m, 8); bo = g32(m, 12); size_t n = m[6] | m[7] << 8; ok = so <= m.size() && bo <= m.size(); size_t q = so; for (size_t i = 0; ok && i < n; i++) { size_t e = q; while (e < m.size() && m[e]) e++; if (e >= m.size()) ok = false; else { strs.push_back(std::string((char*)&m[q], e - q)); q = e + 1; } } }
        uint8_t* base; uint8_t* p = heapCopy(m, &base); cnd_program g; memset(&g, 0, sizeof g);
        int e = cnd_program_load_il(&g, p, m.size());
        if ((e == 0) != ok) c.fail("load", strf("load says %s, the image is %s", errName(e), ok ? "well formed" : "malformed"));
        c.count(ok ? "loaded" : "rejected"); if (t && m.size() >= 16) c.nontrivial = true;
        if (t == 0 && kind == 1 && !ok) valid = false;
        if (!valid) c.fail("generator", "assembled image should be valid");
        if (ok) {
            if (g.bytecode != p + bo || g.bytecode_len != m.size() - bo) c.fail("bytecode", "the program's bytecode is not the image's");
            std::vector<size_t> ks; for (size_t i = 0; i < strs.size() && i < 40; i++) ks.push_back(i); ks.push_back(strs.size()); ks.push_back(strs.size() + 1); ks.push_back(0xFFFF); ks.push_back(0x7FFF);
            for (size_t k : ks) if (k <= 0xFFFF) { const char* nm = cnd_get_key_name(&g, (uint16_t)k); bool has = k < strs.size(); if ((nm != nullptr) != has || (has && strs[k] != nm)) c.fail("name", strf("key %zu gives %s, stored is %s", k, nm ? nm : "none", has ? strs[k].c_str() : "none")); }
            std::vector<std::string> q = {"", "zz", "a", "nope"}; for (size_t i = 0; i < strs.size() && i < 40; i++) { q.push_back(strs[i]); q.push_back(strs[i] + "x"); if (!strs[i].empty()) q.push_back(strs[i].substr(0, strs[i].size() - 1)); }
            for (auto& s2 : q) { size_t want = 0xFFFF; for (size_t i = 0; i < strs.size(); i++) if (!strcmp(strs[i].c_str(), s2.c_str())) { want = i; break; } uint16_t k = cnd_get_key_id(&g, s2.c_str()); if (k != want) c.fail("id", strf("name \"%s\" gives key %u, stored at %zu", s2.c_str(), k, want)); c.count("lookups"); }
        } 
        free(base); c.desc.resize(keep);
    }
    if (cnd_program_load_il(nullptr, img.data(), img.size()) == 0 ) c.fail("null", "null program accepted");
    cnd_program z; memset(&z, 0, sizeof z); if (cnd_program_load_il(&z, nullptr, 20) == 0) c.fail("null", "null image accepted");
}
static Reg r21({"C21", "Images of generated compiled schemas, images assembled from random string tables and bytecode with gaps, and random bytes, each with up to six corruptions (cuts, header fields set to boundary values, bytes changed, terminators removed), are loaded from exact-size heap blocks; acceptance, bytecode bounds and the result of looking up every key, absent keys, every name and near-miss names are compared with an independent parse of the image. Non-trivial: a corrupted image of at least a header's length was judged; distinct by image bytes.", c21, 180000, 1000000});
