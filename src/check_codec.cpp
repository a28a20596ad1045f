// Properties decided by comparing the library with the reference codec on
// generated schemas, values and messages.
#include "cnd.h"
#include <cmath>
#include <sys/mman.h>
#include <unistd.h>

struct Built { Schema S; std::string text; Program P; };
static void note(Case& c) { note_desc_impl(c.desc); }
static void say(Case& c, const std::string& t) { c.desc += t + "\n"; note(c); }
static void compileInto(Case& c, Built& b) {
    b.text = render(b.S); c.desc = b.text; c.mix(b.text); note(c);
    std::string log; int rc = compileText(c.scratch, b.text, b.P, &log);
    if (rc) c.fail("compile-rejected", "valid schema rejected: " + log);
    if (!b.P.p.bytecode && b.P.p.bytecode_len) c.fail("load-rejected", "compiled image does not load");
    Program q; q.il = b.P.il; if (!loadProgram(q)) c.fail("load-rejected", "compiled image does not load");
}
static void build(Case& c, Built& b, Feat F) { Gen g(c.s, F); b.S = g.schema(); compileInto(c, b); }
static void absorb(Case& c, const RefResult& r, const char* pre = "") { for (auto& k : r.feats) c.count(std::string(pre) + k.first, (uint64_t)k.second); }
static RefOpts opts(Case& c, unsigned invalid = 0) { RefOpts o; o.acceptRaw = c.s.chance(1, 2); o.invalidPct = invalid; return o; }
static bool rich(const RefResult& r) { return r.nfields >= 3; }

// Encodes one set of generated values and compares with the reference.
static RefResult enc(Case& c, Built& b, RefOpts o, size_t extra) {
    RefResult r = refEncode(b.S, c.s, o); absorb(c, r);
    if (r.undef) { c.count("undefined_skipped"); return r; }
    say(c, strf("encode (raw bytes %s): ", o.acceptRaw ? "taken" : "declined") + evList(r.ev) + " => " + (r.err ? errName(r.err) : hexs(r.bytes, 120)));
    checkEncode(c, b.P, r, b.S.hasEof && !r.err ? 0 : extra);
    c.count(r.err ? "encode_errors" : "encode_ok"); c.mix(r.bytes);
    return r;
}
static RefResult dec(Case& c, Built& b, RefOpts o, const std::vector<uint8_t>& in, const char* what) {
    RefResult r = refDecode(b.S, in, o);
    if (r.undef) { c.count("undefined_skipped"); return r; }
    size_t keep = c.desc.size();
    say(c, strf("decode %s %s => %s: ", what, hexs(in, 120).c_str(), errName(r.err)) + evList(r.ev));
    checkDecode(c, b.P, in, r);
    c.count(std::string("decode_") + errName(r.err));
    c.desc.resize(keep);
    return r;
}

// ---------------------------------------------------------------- C01
// A host that records what decoding reports, without any expectation.
struct Rec { std::vector<Ev> ev; const Program* P; std::vector<Ev>* ctxv; bool declineRaw; };
static bool strOp(int op) { return op >= OP_STR_NULL && op <= OP_STR_PRE_U32; }
static void c01(Case& c) {
    Built b; build(c, b, withBig(featFor(c.s), 31 | 32 | 64));
    for (int rep = 0; rep < 3; rep++) {
        RefOpts o = opts(c); RefResult r = refEncode(b.S, c.s, o); absorb(c, r);
        if (r.undef || r.err || r.feats.count("transform_lossy")) { c.count("skipped_error_or_undefined"); continue; }
        size_t keep = c.desc.size();
        say(c, "values: " + evList(r.ev));
        RunResult x = runEncode(b.P, r.ev, r.size + (b.S.hasEof ? 0 : c.s.draw(6)), {});
        if (!x.mismatch.empty() || x.err) c.fail("encode", strf("encoding admissible values: %s %s", errName(x.err), x.mismatch.c_str()));
        x.buf.resize(x.size);
        RefResult d = refDecode(b.S, x.buf, o);
        if (d.undef) { c.desc.resize(keep); continue; }
        // every supplied value must come back, in order (decode also reports constants)
        size_t j = 0;
        for (auto& e : r.ev) {
            if (e.op == OP_CTX_QUERY || e.op == OP_LOAD_CTX || e.op == OP_STORE_CTX || e.decline) continue;
            Ev want = e; bool ok = false;
            for (; j < d.ev.size() && !ok; j++) {
                const Ev& g = d.ev[j]; if (g.op != want.op || g.key != want.key) continue;
                if (strOp(g.op)) ok = want.data.compare(0, g.data.size(), g.data) == 0 && (g.data.size() == want.data.size() || g.data.size() >= 0);
                else if (g.op == OP_RAW_BYTES) ok = g.data == want.data;
                else if (g.flt) { double p, q; memcpy(&p, &g.u, 8); memcpy(&q, &want.u, 8); ok = std::fabs(p - q) <= 1e-9 * std::fmax(1, std::fabs(p)); }
                else ok = g.u == want.u;
                if (!ok) break;
            }
            if (!ok) c.fail("roundtrip-value", "encoded " + evStr(e) + " but message " + hexs(x.buf) + " decodes to " + evList(d.ev));
        }
        RunResult y = runDecode(b.P, d.ev, x.buf);
        if (!y.mismatch.empty() || y.err) c.fail("decode", strf("decoding the produced bytes %s: %s %s", hexs(x.buf).c_str(), errName(y.err), y.mismatch.c_str()));
        if (y.size != x.size) c.fail("decode-size", strf("encoded %zu bytes, decode consumed %zu", x.size, y.size));
        // re-encode what was decoded: drop what encode never asks for
        std::vector<Ev> again; size_t q = 0;
        for (auto& e : r.ev) { for (; q < d.ev.size(); q++) { if (d.ev[q].op == e.op && d.ev[q].key == e.key) break; } Ev n = q < d.ev.size() ? d.ev[q++] : e; again.push_back(n); }
        RunResult z = runEncode(b.P, again, x.size, {});
        if (z.err || z.buf != x.buf) c.fail("reencode", "re-encoding the decoded values gives " + hexs(z.buf) + " instead of " + hexs(x.buf) + " " + z.mismatch);
        if (rich(r)) c.nontrivial = true; c.mix(x.buf); c.count("round_trips");
    }
}
static Reg r01({"C01", "A generated schema (all language features) is compiled, three generated admissible value sets are encoded, the bytes decoded, every value compared and the decoded values re-encoded. Non-trivial: a completed round trip of a message with at least 3 fields; distinct by schema text and bytes.", c01, 120000, 600000});

// ---------------------------------------------------------------- C02
static void c02(Case& c) {
    Built b; build(c, b, withBig(featFor(c.s), 31 | 32 | 64));
    for (int rep = 0; rep < 3; rep++) { RefResult r = enc(c, b, opts(c, c.s.chance(1, 4) ? 10 : 0), c.s.draw(9)); if (!r.undef && !r.err && rich(r)) c.nontrivial = true; }
}
static Reg r02({"C02", "A generated schema is compiled and three generated value sets are encoded into a dirty buffer with 0-9 spare bytes; bytes, size, host events and status are compared with the reference encoder working on the schema tree. Non-trivial: a successfully encoded message with at least 3 fields; distinct by schema text and bytes.", c02, 150000, 900000});

// ---------------------------------------------------------------- C03
static std::vector<uint8_t> randomBytes(Case& c, size_t max) { std::vector<uint8_t> v(c.s.draw(max)); for (auto& x : v) x = (uint8_t)(c.s.chance(1, 3) ? c.s.draw(3) : c.s.draw(255)); return v; }
static void c03(Case& c) {
    Built b; build(c, b, withBig(featFor(c.s), 31 | 32 | 64));
    RefOpts o = opts(c); RefResult r = refEncode(b.S, c.s, o); absorb(c, r);
    std::vector<uint8_t> base = r.undef || r.err ? randomBytes(c, 30) : r.bytes;
    say(c, "base message " + hexs(base, 120));
    for (int i = 0; i < 8; i++) {
        o.acceptRaw = c.s.chance(1, 2);
        std::vector<uint8_t> in = i == 0 ? base : c.s.chance(1, 8) ? randomBytes(c, 40) : mutate(c.s, base);
        c.mix(in);
        RefResult d = dec(c, b, o, in, "message"); absorb(c, d, "dec_");
        if (!d.undef && i && d.ev.size() >= 3) c.nontrivial = true;
    }
}
static Reg r03({"C03", "A generated schema is compiled, one valid message encoded, and that message, seven mutations of it (bit flips, byte changes, cuts, insertions) or random bytes decoded from an exact-size buffer; every reported event and the final status are compared with the reference decoder. Non-trivial: a mutated message for which the reference reports at least 3 events; distinct by schema text and messages.", c03, 100000, 600000});

// ---------------------------------------------------------------- C04
static void c04(Case& c) {
    Feat F = withBig(featFor(c.s), 1 | 8 | 32 | 64); F.fillers = false; Built b; build(c, b, F);
    RefOpts o = opts(c); RefResult r = refEncode(b.S, c.s, o); absorb(c, r);
    if (r.undef || r.err) { c.count("skipped_error_or_undefined"); return; }
    say(c, "values: " + evList(r.ev) + " => " + hexs(r.bytes, 120)); c.mix(r.bytes);
    if (r.size >= 4) c.nontrivial = true;
    size_t step = r.size > 80 ? 1 + r.size / 60 : 1;
    if (!b.S.hasEof) for (size_t cap = 0; cap <= r.size; cap += step) {
        std::vector<uint8_t> prior(cap, (uint8_t)(cap * 7 + 1));
        size_t keep = c.desc.size(); say(c, strf("encode into %zu bytes", cap));
        RunResult x = runEncode(b.P, r.ev, cap, prior, -1, cap < r.size); c.count("short_encodes");
        if (cap < r.size) { if (x.err != CND_ERR_OOB) c.fail("short-encode", strf("encoding a %zu byte message into %zu bytes returned %s %s", r.size, cap, errName(x.err), x.mismatch.c_str())); if (!x.mismatch.empty()) c.fail("short-encode-events", x.mismatch); }
        c.desc.resize(keep);
    }
    checkEncode(c, b.P, r, 0); if (!b.S.hasEof) checkEncode(c, b.P, r, 1 + c.s.draw(40));
    for (size_t n = 0; n < r.size; n += step) { std::vector<uint8_t> in(r.bytes.begin(), r.bytes.begin() + (long)n); RefResult d = dec(c, b, o, in, "cut message"); if (!d.undef && d.err == CND_ERR_OOB) c.count("cut_rejected"); else c.count("cut_other"); }
    std::vector<uint8_t> longer = r.bytes; size_t k = 1 + c.s.draw(5); for (size_t i = 0; i < k; i++) longer.push_back((uint8_t)c.s.draw(255));
    dec(c, b, o, longer, "message with trailing bytes");
}
static Reg r04({"C04", "For a generated schema and value set the message is encoded into heap buffers of every capacity from 0 to its size (sampled above 80 bytes) plus larger ones, and every prefix of it and one extension is decoded, each in an exact-size heap allocation under AddressSanitizer, against the reference. Non-trivial: a message of at least 4 bytes; distinct by schema text and bytes.", c04, 36000, 250000});

// ---------------------------------------------------------------- C06
// decodes from pages mapped read-only: any write faults
static RunResult roDecode(const Program& P, const std::vector<Ev>& ev, const std::vector<uint8_t>& in, cnd_vm_ctx& ctx) {
    size_t pg = 4096, n = (in.size() + pg) / pg * pg; uint8_t* m = (uint8_t*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    uint8_t* p = m + (n - in.size()); if (!in.empty()) memcpy(p, in.data(), in.size()); mprotect(m, n, PROT_READ);
    HostRun h; h.script = &ev; cnd_init(&ctx, CND_MODE_DECODE, &P.p, p, in.size(), hostCb, &h); int e = cnd_execute(&ctx);
    RunResult r{e, ctx.cursor + (ctx.bit_offset ? 1 : 0), {}, h.mismatch, h.calls};
    if (r.mismatch.empty() && e == 0 && h.pos < ev.size()) r.mismatch = strf("finished after %zu of %zu events", h.pos, ev.size());
    munmap(m, n); return r;
}
static void c06(Case& c) {
    Built b[2]; int nb = 1 + (int)c.s.draw(1); Feat F = withBig(featFor(c.s), 1 | 4 | 8 | 16 | 32 | 64); build(c, b[0], F); std::string t0 = c.desc;
    if (nb == 2) { build(c, b[1], featFor(c.s)); c.desc = t0 + "--- second schema\n" + c.desc; }
    cnd_vm_ctx ctx; memset(&ctx, 0xEE, sizeof ctx); size_t ops = 2 + c.s.draw(6); int good = 0;
    std::vector<std::vector<uint8_t>> last(2);
    for (size_t i = 0; i < ops; i++) {
        int w = nb == 2 ? (int)c.s.draw(1) : 0; Built& B = b[w]; RefOpts o = opts(c, c.s.chance(1, 3) ? 25 : 0);
        if (c.s.chance(1, 2)) {
            RefResult r = refEncode(B.S, c.s, o); absorb(c, r); if (r.undef) continue;
            bool eof = B.S.hasEof; size_t extra1 = eof ? 0 : c.s.draw(8), extra2 = eof ? 0 : c.s.draw(300);
            say(c, strf("op %zu: encode schema %d: ", i, w) + evList(r.ev) + " => " + (r.err ? errName(r.err) : hexs(r.bytes, 100)));
            size_t base = r.err ? r.bytes.size() + 16 : r.size; std::vector<uint8_t> res[2];
            for (int k = 0; k < 2; k++) { // same values, different prior contents and capacity, same context object
                size_t cap = base + (k ? extra2 : extra1); uint8_t* m = (uint8_t*)malloc(cap + 1); for (size_t q = 0; q < cap; q++) m[q] = k ? (uint8_t)(q * 73 + 11) : 0xFF;
                HostRun h; h.script = &r.ev; cnd_init(&ctx, CND_MODE_ENCODE, &B.P.p, m, cap, hostCb, &h); int e = cnd_execute(&ctx); size_t sz = ctx.cursor + (ctx.bit_offset ? 1 : 0);
                std::string mm = h.mismatch; if (mm.empty() && !e && h.pos < r.ev.size()) mm = "stopped early"; res[k].assign(m, m + (e ? 0 : std::min(sz, cap))); bool tail = true; for (size_t q = sz; !e && q < cap; q++) if (m[q] != (k ? (uint8_t)(q * 73 + 11) : 0xFF)) tail = false; free(m);
                if (!mm.empty() || e != r.err) c.fail("history-encode", strf("operation %zu: %s, reference %s; %s", i, errName(e), errName(r.err), mm.c_str()));
                if (!tail) c.fail("encode-tail", "bytes after the message were modified");
            }
            if (!r.err) { if (res[0] != r.bytes) c.fail("history-encode-bytes", "encoded " + hexs(res[0]) + " reference " + hexs(r.bytes)); if (res[0] != res[1]) c.fail("encode-impure", "the same values gave " + hexs(res[0]) + " and " + hexs(res[1])); last[w] = r.bytes; good++; }
            c.count(r.err ? "failed_encodes" : "encodes"); c.mix(r.bytes);
        } else {
            std::vector<uint8_t> in = last[w].empty() ? randomBytes(c, 24) : c.s.chance(1, 3) ? last[w] : mutate(c.s, last[w]);
            RefResult d = refDecode(B.S, in, o); if (d.undef) continue;
            say(c, strf("op %zu: decode schema %d: ", i, w) + hexs(in, 100) + " => " + errName(d.err));
            RunResult x = roDecode(B.P, d.ev, in, ctx); c.count(d.err ? "failed_decodes" : "decodes"); c.mix(in);
            if (!x.mismatch.empty() || x.err != d.err) c.fail("history-decode", strf("operation %zu: %s, reference %s; %s", i, errName(x.err), errName(d.err), x.mismatch.c_str()));
            good++;
        }
    }
    if (good >= 2) c.nontrivial = true;
}
static Reg r06({"C06", "A generated history of 2-8 encodes and decodes, of valid, invalid and mutated messages, of one or two generated schemas, all through one context object: every encode is done twice with different prior buffer contents and capacity, every decode from read-only pages ending at a page boundary; results are compared with the reference for each operation alone. Non-trivial: at least two operations with defined meaning; distinct by schema texts and messages.", c06, 60000, 400000});

// ---------------------------------------------------------------- C07
static void c07(Case& c) {
    Feat F; F.big = 1 | 8 | 32 | 64; F.focus = FO_RANGE; F.crc = false; F.trans = false; F.strings = c.s.chance(1, 4); F.eof = false; F.fillers = false; F.maxFields = 5;
    Built b; build(c, b, F); RefResult good; bool have = false;
    for (int rep = 0; rep < 4; rep++) {
        RefResult r = enc(c, b, opts(c, rep == 0 ? 0 : 40), 3);
        if (r.undef) continue;
        if (!r.err) { if (rep == 0) { good = r; have = true; } if (r.feats.count("range") || r.feats.count("enum") || r.feats.count("const")) c.nontrivial = true; }
    }
    if (!have) return;
    // every byte position of the message takes some other values: constraints must decide each
    for (int i = 0; i < 24; i++) {
        std::vector<uint8_t> in = good.bytes; if (in.empty()) break;
        size_t p = c.s.draw(in.size() - 1); uint8_t old = in[p];
        switch (c.s.draw(3)) { case 0: in[p] ^= (uint8_t)(1u << c.s.draw(7)); break; case 1: in[p] = (uint8_t)(old + 1); break; case 2: in[p] = (uint8_t)(old - 1); break; default: in[p] = (uint8_t)c.s.draw(255); }
        dec(c, b, opts(c), in, "altered message");
    }
}
static Reg r07({"C07", "Schemas rich in const, match, range (all integer types and floats), enum and bool fields; values at, just inside and just outside the bounds are encoded, and messages with one byte changed decoded, against the reference. Non-trivial: at least one constrained field accepted in an encoded message; distinct by schema text and bytes.", c07, 80000, 500000});

// ---------------------------------------------------------------- C08
static void c08(Case& c) {
    Feat F; F.big = 1 | 4 | 32 | 64; F.focus = FO_CRC; F.maxFields = 6; F.eof = false; F.fillers = false;
    Gen g(c.s, F); Built b; b.S = g.schema();
    if (b.S.alias < 0) { // make sure the packet carries a checksum
        Field f; f.name = "chk"; bool w32 = c.s.chance(1, 2); f.t = w32 ? U32 : U16; f.crc.width = w32 ? 32 : 16; uint64_t m = w32 ? 0xFFFFFFFF : 0xFFFF;
        f.crc.hasPoly = c.s.chance(1, 2); f.crc.hasInit = c.s.chance(1, 2); f.crc.hasXor = c.s.chance(1, 2); f.crc.refin = c.s.chance(1, 2); f.crc.refout = c.s.chance(1, 2); f.crc.crcLast = c.s.chance(1, 2);
        f.crc.poly = (uint32_t)(c.s.draw(m) | 1); f.crc.init = (uint32_t)c.s.draw(m); f.crc.xo = (uint32_t)c.s.draw(m); if (c.s.chance(1, 3)) f.endian = 1 + (int)c.s.draw(1);
        Stmt st; st.f = f; bool dup = false; for (auto& x : b.S.packet) if (x.k == Stmt::FIELD && x.f.name == "chk") dup = true; if (!dup) b.S.packet.push_back(st);
    }
    compileInto(c, b);
    RefOpts o = opts(c); RefResult r = enc(c, b, o, 2); if (r.undef || r.err) return;
    dec(c, b, o, r.bytes, "message");
    if (r.feats.count("crc") && r.size >= 3) c.nontrivial = true;
    size_t bits = r.size * 8, n = bits < 160 ? bits : r.size > 2000 ? 12 : 160;
    for (size_t i = 0; i < n; i++) { // single-bit corruption: all positions of short messages
        size_t k = bits <= 160 ? i : c.s.draw(bits - 1); std::vector<uint8_t> in = r.bytes; in[k / 8] ^= (uint8_t)(1u << (k % 8));
        RefResult d = dec(c, b, o, in, "message with one bit flipped"); c.count("single_bit_flips");
        if (!d.undef && d.err == CND_ERR_CRC_MISMATCH) c.count("flip_caught_by_crc");
    }
    for (int i = 0; i < 6; i++) dec(c, b, o, mutate(c.s, r.bytes), "mutated message");
}
static Reg r08({"C08", "Schemas with CRC fields of both widths and random parameters in random decorator order, at top level, in structs, branches and after other fields; the encoded bytes are compared with a bit-serial reference CRC, and every single-bit flip (160 sampled on long messages) and some burst mutations are decoded. Non-trivial: an encoded message of at least 3 bytes containing a checksum; distinct by schema text and bytes.", c08, 25000, 150000});

// ---------------------------------------------------------------- C09
static long double fnT(const Trans& t, long double x) {
    if (t.k == Trans::SCALE) return x * t.f + t.o;
    if (t.k == Trans::POLY) { long double y = 0; for (size_t i = t.pts.size(); i-- > 0;) y = y * x + t.pts[i]; return y; }
    size_t n = t.pts.size() / 2;
    for (size_t i = 0; i + 1 < n; i++) { long double x0 = t.pts[2 * i], y0 = t.pts[2 * i + 1], x1 = t.pts[2 * i + 2], y1 = t.pts[2 * i + 3]; if (x >= x0 && x <= x1) return y0 + (x - x0) * (y1 - y0) / (x1 - x0); }
    return 0;
}
static int64_t sx(uint64_t v, int t) { int n = sizeOf(t); v <<= 64 - 8 * n; return isSigned(t) ? (int64_t)v >> (64 - 8 * n) : (int64_t)(v >> (64 - 8 * n)); }
static void c09(Case& c) {
    if (c.s.chance(1, 2)) { // whole schemas against the reference
        Feat F; F.focus = FO_TRANS; F.dyadic = false; F.maxFields = 6; Built b; build(c, b, F);
        for (int rep = 0; rep < 3; rep++) {
            RefResult r = enc(c, b, opts(c), 3); if (r.undef || r.err) continue;
            if (r.feats.count("transform")) c.nontrivial = true;
            RefOpts o = opts(c); dec(c, b, o, r.bytes, "message"); for (int i = 0; i < 2; i++) dec(c, b, o, mutate(c.s, r.bytes), "mutated message");
        }
        return;
    }
    // one transformed field between two plain ones, arbitrary values
    Feat F; F.dyadic = false; Gen g(c.s, F); Built b; Field pre, x, post; pre.name = "pre"; pre.t = (int)c.s.draw(I64); post.name = "post"; post.t = (int)c.s.draw(I64);
    x.name = "x"; x.t = (int)c.s.draw(F64); g.trans(x); if (c.s.chance(1, 3)) x.endian = 1 + (int)c.s.draw(1);
    b.S.topEndian = (int)c.s.draw(2); for (Field* f : {&pre, &x, &post}) { Stmt st; st.f = *f; b.S.packet.push_back(st); }
    compileInto(c, b);
    const Trans& t = x.tr; bool fe = t.k == Trans::SCALE || t.k == Trans::POLY || t.k == Trans::SPLINE, fl = isFloat(x.t), be = x.endian ? x.endian == 1 : b.S.topEndian == 1;
    int n = sizeOf(x.t), off = sizeOf(pre.t);
    for (int rep = 0; rep < 6; rep++) {
        RefOpts o = opts(c); RefResult r = refEncode(b.S, c.s, o); if (r.undef || r.err) { c.count("undefined_skipped"); continue; }
        size_t ei = 0; while (ei < r.ev.size() && r.ev[ei].key != "x") ei++;
        size_t keep = c.desc.size(); say(c, "message " + hexs(r.bytes) + ": " + evList(r.ev)); c.mix(r.bytes); c.nontrivial = true; c.count(std::string("kind_") + std::to_string(t.k));
        checkDecode(c, b.P, r.bytes, refDecode(b.S, r.bytes, o)); // the declared function of the raw value
        auto rawOf = [&](const std::vector<uint8_t>& v) { uint64_t u = 0; for (int i = 0; i < n; i++) u |= (uint64_t)v[off + i] << 8 * (be ? n - 1 - i : i); return u; };
        std::vector<Ev> sc = r.ev; Ev& e = sc[ei];
        uint64_t raw0 = rawOf(r.bytes);
        if (fe) {
            double y; memcpy(&y, &e.u, 8); long double step = 0;
            if (!fl) { // move the value by less than a raw step, inside the range
                int64_t q = sx(raw0, x.t); long double up = fnT(t, q + 1) - fnT(t, q);
                bool edge = t.k == Trans::SPLINE && q + 1 > t.pts[t.pts.size() - 2];
                if (!edge && q < (int64_t)1 << 40 && (uint64_t)q + 1 <= (isSigned(x.t) ? (1ull << (8 * n - 1)) - 1 : n == 8 ? UINT64_MAX : (1ull << 8 * n) - 1)) { y = (double)(fnT(t, q) + up * (long double)c.s.draw(1000) / 1000.0L); step = fabsl(up); }
                else step = fabsl(fnT(t, q) - fnT(t, q - 1));
                memcpy(&e.u, &y, 8);
            } else if (t.k != Trans::SPLINE) { y = (double)c.s.range(-1000000, 1000000) / (1 + (double)c.s.draw(100000)); memcpy(&e.u, &y, 8); }
            else { y = (t.pts[1] + t.pts[t.pts.size() - 1]) / 2; memcpy(&e.u, &y, 8); }
            RunResult z = runEncode(b.P, sc, r.size, {});
            if (z.err || !z.mismatch.empty()) c.fail("encode", strf("encoding x=%.17g: %s %s", y, errName(z.err), z.mismatch.c_str()));
            uint64_t rw = rawOf(z.buf); long double back; 
            if (fl) { float fv; double dv; uint32_t u4 = (uint32_t)rw; memcpy(&fv, &u4, 4); memcpy(&dv, &rw, 8); long double v = n == 4 ? (long double)fv : dv; back = fnT(t, v); step = (fabsl(y) + fabsl(t.o) + (t.pts.size() > 1 ? fabs(t.pts[0]) + fabs(t.pts[1]) : 0) + fabsl(v) + 1) * 1e-6L * (fabsl(t.f) + 1 + (t.pts.size() > 1 ? fabs(t.pts[1]) : 0)); if (t.pts.size() > 2) step *= 100; }
            else back = fnT(t, sx(rw, x.t));
            if (fabsl(back - y) > step * 1.0001L + fabsl(y) * 1e-9L) c.fail("inverse", strf("x=%.17g was written as raw %s, whose value is %.17Lg (raw step %Lg)", y, hexs(z.buf.data() + off, n).c_str(), back, step));
            c.count("fractional_values");
        } else if (!fl) {
            int64_t v = (int64_t)e.u; if (t.k == Trans::MUL && t.iv) v = (int64_t)((uint64_t)sx(raw0, x.t) * (uint64_t)t.iv); // an image, then moved towards zero's side by less than a step
            if (t.k == Trans::MUL && sx(raw0, x.t) < (1ll << 20) && sx(raw0, x.t) > -(1ll << 20)) { int64_t m = (int64_t)c.s.draw((uint64_t)std::llabs(t.iv) - 1); v += v > 0 ? m : v < 0 ? -m : 0; }
            else if (t.k == Trans::MUL) continue;
            e.u = (uint64_t)v; RunResult z = runEncode(b.P, sc, r.size, {});
            if (z.err || !z.mismatch.empty()) c.fail("encode", strf("encoding x=%lld: %s %s", (long long)v, errName(z.err), z.mismatch.c_str()));
            int64_t q = sx(rawOf(z.buf), x.t);
            if (t.k == Trans::MUL) { if (std::llabs((long long)((__int128)q * t.iv - v)) >= std::llabs(t.iv)) c.fail("inverse", strf("x=%lld was written as raw %lld, whose value is %lld", (long long)v, (long long)q, (long long)(q * t.iv))); }
            else if (z.buf != std::vector<uint8_t>(r.bytes)) c.fail("inverse", "encoding the decoded value gives " + hexs(z.buf));
            c.count("integer_values");
        }
        c.desc.resize(keep);
    }
}
static Reg r09({"C09", "Half the cases: schemas rich in transforms (linear, integer, polynomial to degree 4, spline to 16 points; random decimal parameters) on all wire types and arrays, encoded and decoded intact and mutated against the reference, re-encoding restoring the raw value. Other half: one transformed field between two plain ones; raw values decoded against the declared function, and values between two raw steps encoded, where the written raw value must lie within one step. Non-trivial: at least one transformed value processed; distinct by schema text and bytes.", c09, 140000, 500000});

// ---------------------------------------------------------------- C10
static void c10(Case& c) {
    Feat F; F.focus = FO_EXPR; F.crc = false; F.trans = false; F.eof = false; F.fillers = false; F.maxFields = 5; F.arrays = c.s.chance(1, 3); F.strings = false;
    Built b; build(c, b, F); int n = 0;
    for (int rep = 0; rep < 4; rep++) {
        RefOpts o = opts(c); RefResult r = enc(c, b, o, 4);
        if (r.undef && !r.err && r.feats.count("expr_nan")) { RefResult d = dec(c, b, o, r.bytes, "message with NaN"); if (!d.undef) { c.count("nan_messages"); n++; } dec(c, b, o, mutate(c.s, r.bytes), "mutated message"); }
        if (r.undef) continue;
        n += r.feats.count("expr") ? r.feats["expr"] : 0;
        if (r.err) continue;
        dec(c, b, o, r.bytes, "message");
        if (!r.floats.empty() && c.s.chance(1, 2)) { auto [at, n] = r.floats[c.s.draw(r.floats.size() - 1)]; std::vector<uint8_t> v = r.bytes; for (int i = 0; i < n; i++) v[at + (size_t)i] = 0xFF; RefResult d = dec(c, b, o, v, "message with NaN for a number"); if (d.err == CND_ERR_VALIDATION) c.count("nan_rejected"); }
        for (int i = 0; i < 2; i++) dec(c, b, o, mutate(c.s, r.bytes), "mutated message");
    }
    if (n) c.nontrivial = true;
}
static Reg r10({"C10", "Schemas rich in computed fields and conditions with random expression trees (all operators and functions, integer and double, references, minimal or redundant parentheses); each encoded with four value sets and decoded intact and mutated; every stored value, reference lookup, byte and status is compared with a direct evaluation of the tree. Non-trivial: at least one expression evaluated; distinct by schema text and bytes.", c10, 80000, 500000});

// ---------------------------------------------------------------- C11
static void c11(Case& c) {
    Feat F; F.big = 1 | 8 | 16 | 32 | 64; F.focus = FO_CTRL; F.crc = false; F.fillers = c.s.chance(1, 6); F.maxFields = 4; F.eof = c.s.chance(1, 8);
    Built b; build(c, b, F); bool hit = false;
    for (int rep = 0; rep < 6; rep++) {
        RefOpts o = opts(c); RefResult r = enc(c, b, o, 4); if (r.undef) continue;
        if (r.feats.count("switch") || r.feats.count("if")) hit = true;
        if (r.err) continue;
        dec(c, b, o, r.bytes, "message");
        for (int i = 0; i < 2; i++) dec(c, b, o, mutate(c.s, r.bytes), "mutated message");
    }
    if (hit) c.nontrivial = true;
}
static Reg r11({"C11", "Schemas rich in nested if/else chains and switches (dense, sparse, shuffled, negative, 64-bit and enum cases, 0-40 of them, with and without default) inside packets, structs and arrays; six value sets with discriminators biased to the cases and next to them are encoded and decoded against the reference. Non-trivial: at least one branch decision taken; distinct by schema text and bytes.", c11, 60000, 400000});

// ---------------------------------------------------------------- C12
// Arrays of up to millions of elements, and counts up to 2^32-1 over short buffers
namespace {
struct BigArr {
    int kind = 0, t = 0, esz = 1, eop = 0, sop = 0; uint32_t n = 0; bool enc = false, raw = false, be = false; uint64_t seed = 0; // kind 0 fixed, 1 @count, 2 prefix
    int state = 0; uint32_t k = 0; uint32_t rawCalls = 0; std::string bad; const cnd_program* p = nullptr; size_t room = 0;
    uint64_t elem(uint32_t i) const { uint64_t v = (seed + i) * 0x9E3779B97F4A7C15ull >> 20; return t == BOOL ? v & 1 : esz == 8 ? v : v & ((1ull << (8 * esz)) - 1); }
    void put(std::vector<uint8_t>& o, uint64_t v, int size) const { for (int i = 0; i < size; i++) o.push_back((uint8_t)(v >> 8 * (be ? size - 1 - i : i))); }
    cnd_error_t fail(const std::string& m) { if (bad.empty()) bad = m; return CND_ERR_CALLBACK; }
    cnd_error_t val(uint64_t want, int size, void* ptr, const char* what) { if (enc) { memcpy(ptr, &want, (size_t)size); return CND_ERR_OK; } uint64_t got = 0; memcpy(&got, ptr, (size_t)size); return got == want ? CND_ERR_OK : fail(strf("%s %u has the value %llu instead of %llu", what, k, (unsigned long long)got, (unsigned long long)want)); }
};
cnd_error_t bigArrCb(cnd_vm_ctx* x, uint16_t key, uint8_t op, void* ptr) {
    BigArr& h = *(BigArr*)x->user_ptr; if (!h.bad.empty()) return CND_ERR_CALLBACK;
    const char* nm = cnd_get_key_name(h.p, key); std::string unexpected = strf("event %02x (%s) in state %d after %u elements", op, nm ? nm : "", h.state, h.k);
    for (;;) switch (h.state) {
        case 0: if (op != OP_IO_U8) return h.fail(unexpected); h.state = h.kind == 1 ? 1 : 3; return h.val(0x5A, 1, ptr, "b");
        case 1: if (op != OP_IO_U32) return h.fail(unexpected); h.state = 2; return h.val(h.n, 4, ptr, "n");
        case 2: { if (op != OP_CTX_QUERY) return h.fail(unexpected); h.state = 3; uint64_t v = h.n; memcpy(ptr, &v, 8); return CND_ERR_OK; }
        case 3: { if (op != h.sop) return h.fail(unexpected); h.state = 4; uint32_t v; if (h.enc && h.kind == 2) { memcpy(ptr, &h.n, 4); return CND_ERR_OK; } memcpy(&v, ptr, 4); return v == h.n ? CND_ERR_OK : h.fail(strf("the array starts with the count %u instead of %u", v, h.n)); }
        case 4: // elements
            if (op == OP_RAW_BYTES) {
                if (h.eop != OP_IO_U8 && h.eop != OP_IO_I8) return h.fail(unexpected); if (h.k || h.rawCalls++) return h.fail("the bulk byte path in the middle of an array"); if (h.n > h.room) return h.fail("the bulk byte path over data that is not there");
                if (!h.raw) return CND_ERR_CALLBACK;
                uint8_t* q = (uint8_t*)ptr; for (h.k = 0; h.k < h.n; h.k++) { if (h.enc) q[h.k] = (uint8_t)h.elem(h.k); else if (q[h.k] != (uint8_t)h.elem(h.k)) return h.fail(strf("byte %u of the bulk path differs", h.k)); }
                h.state = 5; return CND_ERR_OK;
            }
            if (op == OP_ARR_END) { if (h.k != h.n) return h.fail(strf("the array ends after %u of %u elements", h.k, h.n)); h.state = 5; return CND_ERR_OK; }
            if (op != h.eop || h.k == h.n) return h.fail(unexpected);
            { cnd_error_t e = h.val(h.elem(h.k), h.esz, ptr, "element"); h.k++; return e; }
        case 5: if (op != OP_IO_U16) return h.fail(unexpected); h.state = 6; return h.val(0xBEEF, 2, ptr, "z");
        default: return h.fail(unexpected);
    }
}
}
static void bigArrays(Case& c) {
    static const struct { const char* n; int t, sz, op; } T[] = {{"uint8", U8, 1, OP_IO_U8}, {"byte", U8, 1, OP_IO_U8}, {"int8", I8, 1, OP_IO_I8}, {"bool", BOOL, 1, OP_IO_BOOL}, {"uint16", U16, 2, OP_IO_U16}, {"int32", I32, 4, OP_IO_I32}, {"uint64", U64, 8, OP_IO_U64}};
    BigArr h; size_t ti = c.s.weighted({4, 2, 3, 2, 3, 1, 1}); h.t = T[ti].t; h.esz = T[ti].sz; h.eop = T[ti].op; h.kind = (int)c.s.draw(2); h.be = c.s.chance(1, 3); h.seed = c.s.draw(1u << 20);
    h.sop = h.kind == 0 ? OP_ARR_FIXED : h.kind == 1 ? OP_ARR_DYNAMIC : OP_ARR_PRE_U32;
    uint64_t n = c.s.chance(1, 2) ? (1ull << (16 + c.s.draw(5))) + c.s.draw(6) : c.s.chance(1, 2) ? (1ull << (20 + c.s.draw(12))) + c.s.draw(1u << (1 + c.s.draw(19))) : 0xFFFFFFFFull - c.s.draw(300); if (n > 0xFFFFFFFFull) n = 0xFFFFFFFFull; h.n = (uint32_t)n;
    std::string cnt = c.s.chance(1, 2) ? strf("%u", h.n) : strf("0x%x", h.n), t = h.be ? "@big_endian " : ""; t += "packet P { uint8 b; ";
    if (h.kind == 0) t += c.s.chance(1, 2) ? std::string(T[ti].n) + " a[" + cnt + "]; " : "@count(" + cnt + ") " + T[ti].n + " a[]; "; else if (h.kind == 1) t += std::string("uint32 n; @count(n) ") + T[ti].n + " a[]; "; else t += std::string(T[ti].n) + " a[] prefix uint32; ";
    t += "uint16 z; }\n"; Program P; std::string log; if (compileText(c.scratch, t, P, &log)) c.fail("compile-rejected", "a valid schema was rejected\n" + t + log);
    if (int e = cnd_verify_program(&P.p)) c.fail("verify", strf("the program does not verify: %s", errName(e)));
    size_t head = 1 + (h.kind ? 4 : 0); uint64_t total = head + (uint64_t)h.n * (uint64_t)h.esz + 2; bool full = total <= (9u << 18);
    size_t len = full ? (size_t)total : head + (c.s.chance(1, 2) ? (size_t)(total & ((1u << (16 + c.s.draw(4))) - 1)) : (size_t)c.s.draw(70000)); if (full && c.s.chance(1, 5)) { full = false; len = (size_t)total - 1 - c.s.draw(total / 2); } if (!full && len > total - 3) len = total - 3;
    std::vector<uint8_t> msg; msg.push_back(0x5A); if (h.kind) h.put(msg, h.n, 4); for (uint32_t i = 0; msg.size() < len && i < h.n; i++) h.put(msg, h.elem(i), h.esz); if (full) h.put(msg, 0xBEEF, 2); msg.resize(len);
    c.desc = t + strf("%zu bytes of %llu\n", len, (unsigned long long)total); c.mix(c.desc); note_desc_impl(c.desc); h.p = &P.p; h.room = len < head ? 0 : len - head;
    for (int enc = 0; enc < 2; enc++) for (int raw = 0; raw < 2; raw++) {
        BigArr r = h; r.enc = enc; r.raw = raw; std::vector<uint8_t> b(len, 0xA5); if (!enc) b = msg; uint8_t* heap = (uint8_t*)malloc(len ? len : 1); memcpy(heap, b.data(), len);
        cnd_vm_ctx x; cnd_init(&x, enc ? CND_MODE_ENCODE : CND_MODE_DECODE, &P.p, heap, len, bigArrCb, &r); int e = cnd_execute(&x); std::vector<uint8_t> got(heap, heap + len); free(heap);
        std::string w = strf("%s with the bulk path %s: ", enc ? "encoding" : "decoding", raw ? "accepted" : "declined");
        if (!r.bad.empty()) c.fail("big-array-events", w + r.bad);
        if (full) { if (e || r.state != 6 || x.cursor != len) c.fail("big-array", w + strf("%s after %u of %u elements, cursor %zu of %zu", errName(e), r.k, r.n, (size_t)x.cursor, len)); if (got != msg) c.fail("big-array-bytes", w + "the bytes differ"); }
        else { if (e != CND_ERR_OOB) c.fail("big-array-short", w + strf("%zu of %llu bytes gave %s", len, (unsigned long long)total, errName(e))); uint64_t fit = len < head ? 0 : (len - head) / (size_t)h.esz; if (h.kind != 0 && len < head) fit = 0; if (r.state == 4 && (r.k < fit || r.k > fit + 1)) c.fail("big-array-short", w + strf("%u elements of the %llu that are there", r.k, (unsigned long long)fit)); }
    }
    c.count(full ? "big_arrays" : "big_arrays_short"); c.nontrivial = true;
}
static void c12(Case& c) {
    if (c.s.chance(1, 250)) return bigArrays(c);
    Feat F; F.big = 2 | 32 | 64; F.focus = FO_ARRAY; F.crc = false; F.expr = c.s.chance(1, 4); F.maxFields = 5; F.fillers = c.s.chance(1, 10);
    Built b; build(c, b, F); bool hit = false;
    for (int rep = 0; rep < 4; rep++) {
        RefOpts o = opts(c); RefResult r = enc(c, b, o, 4); if (r.undef) continue;
        if (r.narr) hit = true;
        if (r.err) continue;
        dec(c, b, o, r.bytes, "message");
        for (int i = 0; i < 4; i++) { std::vector<uint8_t> in = mutate(c.s, r.bytes); if (!in.empty() && c.s.chance(1, 6)) { size_t p = c.s.draw(in.size() - 1); for (size_t k = p; k < in.size() && k < p + 4; k++) in[k] = 0xFF; } dec(c, b, o, in, "mutated message"); }
    }
    if (hit) c.nontrivial = true;
}
static Reg r12({"C12", "Schemas rich in fixed, length-prefixed, count-referenced and to-end arrays of every element type, nested through structs, counts 0-6 and around 256, in places up to millions of elements and (over short buffers) 2^32-1; encoded with four value sets accepting or declining the bulk byte path, decoded intact and mutated (including huge counts) against the reference. Non-trivial: at least one array processed; distinct by schema text and bytes.", c12, 50000, 400000});

// ---------------------------------------------------------------- C13
static void c13(Case& c) {
    Feat F; F.big = 4 | 32 | 64; F.focus = FO_STR; F.crc = false; F.expr = false; F.maxFields = 4; F.fillers = false; F.ifs = c.s.chance(1, 3);
    Built b; build(c, b, F); bool hit = false;
    for (int rep = 0; rep < 4; rep++) {
        RefOpts o = opts(c); RefResult r = enc(c, b, o, 4); if (r.undef) continue;
        if (r.feats.count("string")) hit = true;
        if (r.err) continue;
        dec(c, b, o, r.bytes, "message");
        for (int i = 0; i < 5; i++) dec(c, b, o, mutate(c.s, r.bytes), "mutated message");
    }
    if (hit) c.nontrivial = true;
}
static Reg r13({"C13", "Schemas rich in terminated (with and without maximum) and length-prefixed strings, alone and as array elements; contents from empty to beyond the maximum and beyond 255 bytes with arbitrary non-zero bytes; encoded, and decoded intact, mutated and cut, in exact-size buffers, against the reference. Non-trivial: at least one string processed; distinct by schema text and bytes.", c13, 70000, 400000});

// ---------------------------------------------------------------- C14
static void c14(Case& c) {
    Feat F = withBig(featFor(c.s), 1 | 8 | 32 | 64); F.eof = false; F.alias = false; F.maxFields = 3; F.depth = 2;
    Gen g(c.s, F); Built b; b.S = g.schema();
    Gen::Scope sc; sc.packet = true; for (auto& st : b.S.packet) if (st.k == Stmt::FIELD) sc.used.insert(st.f.name);
    std::function<void(const Block&)> names = [&](const Block& k) { for (auto& st : k) { if (st.k == Stmt::FIELD) sc.used.insert(st.f.name); for (auto& x : st.bodies) names(x); names(st.defBody); } }; names(b.S.packet);
    g.S = b.S; g.F.structs = g.F.crc = g.F.expr = false; size_t k = 1 + c.s.draw(3), bitCases = 0;
    for (size_t i = 0; i < k; i++) {
        Field f = g.field(sc); if (f.t == STRUCT || f.crc.width || f.expr) continue;
        if (f.ak == Field::A_NONE && !f.bits && f.t != STR && !f.hasConst && c.s.chance(1, 3)) { static const Field::AK ks[] = {Field::A_PRE8, Field::A_PRE16, Field::A_FIXED, Field::A_PRE32}; f.ak = ks[c.s.draw(3)]; f.acount = 1 + (uint32_t)c.s.draw(3); }
        f.opt = true; Stmt st; st.f = f; b.S.packet.push_back(st); if (f.bits) bitCases++;
    }
    if (c.s.chance(1, 6)) { // an optional field in the middle of the packet
        size_t j = c.s.draw(b.S.packet.size() - 1); Stmt& st = b.S.packet[j];
        if (st.k == Stmt::FIELD && st.f.t != STRUCT && !st.f.crc.width && !st.f.expr) st.f.opt = true;
    }
    compileInto(c, b);
    Built plain; plain.S = b.S; for (auto& st : plain.S.packet) st.f.opt = false;
    std::string pt = render(plain.S), log; if (compileText(c.scratch, pt, plain.P, &log)) c.fail("compile-rejected", "schema without @optional rejected: " + log);
    for (int rep = 0; rep < 2; rep++) {
        RefOpts o = opts(c); RefResult r = enc(c, b, o, 3); if (r.undef || r.err) continue;
        say(c, "message " + hexs(r.bytes));
        { // complete message: the marker makes no difference
            RefResult d = refDecode(plain.S, r.bytes, o); if (!d.undef) { checkDecode(c, plain.P, r.bytes, d); checkDecode(c, b.P, r.bytes, d); c.count("with_and_without_marker"); }
        }
        size_t from = r.size > 70 ? r.size - 70 : 0;
        for (size_t n = from; n <= r.size; n++) {
            std::vector<uint8_t> in(r.bytes.begin(), r.bytes.begin() + n);
            RefResult d = dec(c, b, o, in, "cut message"); if (d.undef) continue;
            if (d.feats.count("optional_missing")) { c.count("missing_fields"); if (!d.err) { c.count("accepted_with_missing"); c.nontrivial = true; } }
            RefResult e = refDecode(plain.S, in, o); if (!e.undef && n < r.size) { checkDecode(c, plain.P, in, e); if (e.err) c.count("plain_rejected"); }
        }
        for (int i = 0; i < 3; i++) dec(c, b, o, mutate(c.s, r.bytes), "mutated message");
    }
    bool str = false; for (auto& st : b.S.packet) if (st.k == Stmt::FIELD && st.f.opt && st.f.t == STR && st.f.ak == Field::A_NONE) str = true;
    if (str) { // a host may leave an optional string out of the message
        RefOpts o = opts(c); o.declineOpt = true; RefResult r = enc(c, b, o, 3);
        for (auto& e : r.ev) if (e.decline && strOp(e.op)) c.count("left_out");
        if (!r.undef && !r.err) dec(c, b, o, r.bytes, "message without the left out strings");
    }
}
static Reg r14({"C14", "A generated schema is given 1-4 trailing optional fields of every kind (numbers, bit fields, strings, enums, arrays, with constraints, transforms and byte orders), sometimes one in the middle; its messages are decoded complete, cut at every byte (last 70) and mutated, against the reference, next to the same schema without the markers. Non-trivial: a cut message accepted with a missing field; distinct by schema text and bytes.", c14, 12000, 300000});

// ---------------------------------------------------------------- C29
static void c29(Case& c) {
    Feat F; F.big = 1 | 2 | 32 | 64; F.focus = c.s.chance(1, 2) ? FO_ENDIAN : FO_BITS; F.crc = false; F.expr = c.s.chance(1, 4); F.maxFields = 6; F.arrays = c.s.chance(1, 2);
    Built b; build(c, b, F);
    for (int rep = 0; rep < 3; rep++) { RefOpts o = opts(c); RefResult r = enc(c, b, o, 3); if (r.undef || r.err) continue; dec(c, b, o, r.bytes, "message"); dec(c, b, o, mutate(c.s, r.bytes), "mutated message"); if (r.size >= 3) c.nontrivial = true; }
    // metamorphic: give one aligned multi-byte primitive the other byte order; only its bytes may change, and they reverse
    if (b.S.alias >= 0) return;
    std::vector<size_t> cand; for (size_t i = 0; i < b.S.packet.size(); i++) { Stmt& st = b.S.packet[i]; if (st.k == Stmt::FIELD && st.f.t <= F64 && !st.f.bits && st.f.ak == Field::A_NONE && !st.f.expr && !st.f.crc.width && sizeOf(st.f.t) > 1) cand.push_back(i); }
    if (cand.empty()) return;
    size_t w = cand[c.s.draw(cand.size() - 1)]; Schema T = b.S; Field& f = T.packet[w].f; int cur = f.endian ? f.endian : b.S.topEndian == 1 ? 1 : 2; f.endian = 3 - cur;
    RefResult r = refEncode(b.S, c.s, opts(c)); if (r.undef || r.err) return;
    Built b2; b2.S = T; std::string d = c.desc; compileInto(c, b2); c.desc = d + "--- same schema with the byte order of " + f.name + " changed\n" + c.desc; say(c, "values: " + evList(r.ev));
    RunResult x = runEncode(b.P, r.ev, r.size, {}), y = runEncode(b2.P, r.ev, r.size, {});
    if (x.err || y.err || x.size != y.size) c.fail("swap", strf("encoding: %s / %s %s", errName(x.err), errName(y.err), y.mismatch.c_str()));
    size_t n = (size_t)sizeOf(f.t), at = SIZE_MAX, diff = 0; for (size_t i = 0; i < x.buf.size(); i++) if (x.buf[i] != y.buf[i]) { if (at == SIZE_MAX) at = i; diff = i; }
    c.count("byte_order_swaps");
    if (at == SIZE_MAX) return;
    bool ok = false; for (size_t s = diff + 1 >= n ? diff + 1 - n : 0; s <= at && !ok; s++) { if (s + n > x.buf.size()) break; bool m = true; for (size_t i = 0; i < n; i++) if (x.buf[s + i] != y.buf[s + n - 1 - i]) m = false; ok = m; }
    if (!ok) c.fail("swap-bytes", "messages " + hexs(x.buf) + " and " + hexs(y.buf) + " differ in more than the reversed bytes of " + f.name);
}
static Reg r29({"C29", "Schemas rich in byte-order decorators at packet and field level, bit fields, padding and unaligned structs are encoded and decoded against the reference; additionally one field's byte order is switched and the two encodings may differ only by that field's bytes being reversed. Non-trivial: an encoded message of at least 3 bytes; distinct by schema text and bytes.", c29, 70000, 400000});

// ---------------------------------------------------------------- C31
static void c31(Case& c) {
    Feat F = withBig(featFor(c.s), 1 | 8 | 32 | 64); F.fillers = false; Built b; build(c, b, F); RefOpts o = opts(c); RefResult r = refEncode(b.S, c.s, o); absorb(c, r);
    if (r.undef || r.err || r.ev.empty()) { c.count("skipped_error_or_undefined"); return; }
    say(c, "values: " + evList(r.ev) + " => " + hexs(r.bytes, 100)); c.mix(r.bytes);
    RefResult d = refDecode(b.S, r.bytes, o);
    for (int dir = 0; dir < 2; dir++) {
        const RefResult& R = dir ? d : r; if (R.undef || R.err) continue; size_t n = R.ev.size(), step = n > 60 ? 1 + n / 40 : 1;
        for (size_t k = 0; k < n; k += step) {
            if (R.ev[k].op == OP_RAW_BYTES) { c.count("decline_not_failure"); continue; } // refusing the bulk form is not a failure
            size_t keep = c.desc.size(); say(c, strf("host fails at event %zu of %s (%s)", k, dir ? "decode" : "encode", evStr(R.ev[k]).c_str()));
            RunResult x = dir ? runDecode(b.P, R.ev, r.bytes, (long)k) : runEncode(b.P, R.ev, r.size, {}, (long)k);
            c.count(strf("host_failures_op_%02x", R.ev[k].op));
            if (!x.mismatch.empty()) c.fail("callback-after-failure", x.mismatch);
            if (x.err != CND_ERR_CALLBACK) c.fail("callback-status", strf("host error reported as %s", errName(x.err)));
            if (x.calls != k + 1) c.fail("callback-count", strf("%zu callbacks, expected %zu", x.calls, k + 1));
            c.desc.resize(keep); c.nontrivial = true;
        }
    }
    checkEncode(c, b.P, r, 0); if (!d.undef) checkDecode(c, b.P, r.bytes, d);
}
static Reg r31({"C31", "For a generated schema and value set, encode and decode are repeated with the host failing at each single event in turn (sampled above 60 events), then run undisturbed. Non-trivial: at least one injected failure reached; distinct by schema text and bytes.", c31, 50000, 300000});
