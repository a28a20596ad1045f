// Reference encoder/decoder working on the schema AST, and the glue that runs
// the real implementation against the event scripts the reference produces.
#include "cnd.h"
#include <cfloat>
#include <cmath>
#include <fcntl.h>
#include <unistd.h>

static double asD(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static uint64_t fromD(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static float asF(uint32_t u) { float d; memcpy(&d, &u, 4); return d; }
static uint32_t fromF(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }

static uint64_t sext(uint64_t v, int bits) { if (bits >= 64 || bits <= 0) return v; v &= (1ull << bits) - 1; return (v >> (bits - 1)) & 1 ? v | ~((1ull << bits) - 1) : v; }
static uint64_t zext(uint64_t v, int bits) { return bits >= 64 ? v : v & ((1ull << bits) - 1); }
static uint64_t norm(uint64_t v, int t) { return isSigned(t) ? sext(v, 8 * sizeOf(t)) : zext(v, 8 * sizeOf(t)); }

// CRC bit by bit over a message polynomial, straight from the Rocksoft parameter model
uint32_t refCrc(const uint8_t* p, size_t n, int w, uint32_t poly, uint32_t init, uint32_t xo, bool ri, bool ro) {
    uint64_t mask = w == 32 ? 0xFFFFFFFFull : 0xFFFFull, reg = init & mask;
    for (size_t i = 0; i < n; i++)
        for (int b = 0; b < 8; b++) {
            int bit = ri ? (p[i] >> b) & 1 : (p[i] >> (7 - b)) & 1;
            int top = (int)(reg >> (w - 1)) & 1;
            reg = (reg << 1) & mask;
            if (bit ^ top) reg ^= poly & mask;
        }
    if (ro) { uint64_t r = 0; for (int i = 0; i < w; i++) if (reg >> i & 1) r |= 1ull << (w - 1 - i); reg = r; }
    return (uint32_t)((reg ^ xo) & mask);
}

// ------------------------------------------------------------ expressions
struct ExprErr { int code; };
struct Eval {
    const std::function<uint64_t(const std::string&)>& get; bool& undef; int& sp; int& maxsp;
    void push() { if (sp >= CND_MAX_EXPR_STACK) throw ExprErr{CND_ERR_STACK_OVERFLOW}; sp++; if (sp > maxsp) maxsp = sp; }
    uint64_t ev(const Expr& e) {
        switch (e.k) {
            case Expr::INT: push(); return e.i;
            case Expr::FLT: push(); return fromD(e.d);
            case Expr::BOOLL: push(); return e.i;
            case Expr::REF: { uint64_t v = get(e.s); push(); return v; }
            case Expr::UN: { uint64_t a = ev(*e.a[0]); if (e.s == "!") return a == 0; if (e.s == "~") return ~a; return e.a[0]->flt ? fromD(-asD(a)) : 0 - a; }
            case Expr::BIN: {
                uint64_t a = ev(*e.a[0]), b = ev(*e.a[1]); sp--; const std::string& o = e.s;
                if (e.a[0]->flt || e.a[1]->flt) {
                    double x = e.a[0]->flt ? asD(a) : (double)(int64_t)a, y = e.a[1]->flt ? asD(b) : (double)(int64_t)b;
                    if (o == "+") return fromD(x + y); if (o == "-") return fromD(x - y); if (o == "*") return fromD(x * y);
                    if (o == "/") { if (y == 0) throw ExprErr{CND_ERR_ARITHMETIC}; return fromD(x / y); }
                    if (o == "==") return x == y; if (o == "!=") return x != y; if (o == "<") return x < y; if (o == "<=") return x <= y; if (o == ">") return x > y; return x >= y;
                }
                if (o == "+") return a + b; if (o == "-") return a - b; if (o == "*") return a * b;
                if (o == "/" || o == "%") { if (!b) throw ExprErr{CND_ERR_ARITHMETIC}; return o == "/" ? a / b : a % b; }
                if (o == "&") return a & b; if (o == "|") return a | b; if (o == "^") return a ^ b;
                if (o == "<<") return b >= 64 ? 0 : a << b; if (o == ">>") return b >= 64 ? 0 : a >> b;
                if (o == "==") return a == b; if (o == "!=") return a != b; if (o == "<") return a < b; if (o == "<=") return a <= b; if (o == ">") return a > b; if (o == ">=") return a >= b;
                if (o == "&&") return a && b; return a || b; }
            case Expr::CALL: {
                uint64_t a = ev(*e.a[0]);
                if (e.s == "int") { double x = asD(a); if (!(x > -9.2e18 && x < 9.2e18)) { undef = true; return 0; } return (uint64_t)(int64_t)x; }
                if (e.s == "float") return fromD((double)(int64_t)a);
                double x = e.a[0]->flt ? asD(a) : (double)(int64_t)a;
                if (e.s == "pow") {
                    uint64_t b = ev(*e.a[1]); sp--; double y = e.a[1]->flt ? asD(b) : (double)(int64_t)b;
                    if (x < 0 && std::floor(y) != y) throw ExprErr{CND_ERR_ARITHMETIC}; if (x == 0 && y <= 0) throw ExprErr{CND_ERR_ARITHMETIC};
                    return fromD(std::pow(x, y)); }
                if (e.s == "sin") return fromD(std::sin(x)); if (e.s == "cos") return fromD(std::cos(x)); if (e.s == "tan") return fromD(std::tan(x));
                if (e.s == "sqrt") { if (x < 0) throw ExprErr{CND_ERR_ARITHMETIC}; return fromD(std::sqrt(x)); }
                if (e.s == "log") { if (x <= 0) throw ExprErr{CND_ERR_ARITHMETIC}; return fromD(std::log(x)); }
                return fromD(std::fabs(x)); }
        }
        return 0;
    }
};
uint64_t evalExprRef(const Expr& e, const std::function<uint64_t(const std::string&)>& get, int& err, bool& undef, int& sp, int& maxsp) {
    Eval v{get, undef, sp, maxsp}; err = 0;
    try { uint64_t r = v.ev(e); sp--; return r; } catch (ExprErr& x) { err = x.code; return 0; }
}

// ------------------------------------------------------------ transforms
static double fwdF(const Trans& t, double x, bool& undef) {
    if (t.k == Trans::SCALE) return x * t.f + t.o;
    if (t.k == Trans::POLY) { double y = 0; for (size_t i = t.pts.size(); i-- > 0;) y = y * x + t.pts[i]; return y; }
    size_t n = t.pts.size() / 2; if (n < 2) { undef = true; return 0; }
    if (!(x >= t.pts[0] && x <= t.pts[2 * n - 2])) { undef = true; return 0; }
    for (size_t i = 0; i + 1 < n; i++) { double x0 = t.pts[2 * i], y0 = t.pts[2 * i + 1], x1 = t.pts[2 * i + 2], y1 = t.pts[2 * i + 3]; if (x >= x0 && x <= x1) return y0 + (x - x0) * (y1 - y0) / (x1 - x0); }
    undef = true; return 0;
}
static double invF(const Trans& t, double y, bool& undef) {
    if (t.k == Trans::SCALE) return (y - t.o) / t.f;
    if (t.k == Trans::POLY) { if (t.pts.size() != 2) { undef = true; return 0; } return (y - t.pts[0]) / t.pts[1]; }
    size_t n = t.pts.size() / 2;
    for (size_t i = 0; i + 1 < n; i++) { double x0 = t.pts[2 * i], y0 = t.pts[2 * i + 1], x1 = t.pts[2 * i + 2], y1 = t.pts[2 * i + 3]; if ((y >= y0 && y <= y1) || (y <= y0 && y >= y1)) return y1 == y0 ? x0 : x0 + (y - y0) * (x1 - x0) / (y1 - y0); }
    undef = true; return 0;
}
static uint64_t fwdI(const Trans& t, uint64_t r) {
    uint64_t v = (uint64_t)t.iv;
    switch (t.k) { case Trans::ADD: return r + v; case Trans::SUB: return r - v; case Trans::MUL: return r * v;
        default: return t.iv == 0 ? r : t.iv == -1 ? 0 - r : (uint64_t)((int64_t)r / t.iv); }
}
static uint64_t invI(const Trans& t, uint64_t e) {
    uint64_t v = (uint64_t)t.iv;
    switch (t.k) { case Trans::ADD: return e - v; case Trans::SUB: return e + v; case Trans::DIV: return e * v;
        default: return t.iv == 0 ? e : t.iv == -1 ? 0 - e : (uint64_t)((int64_t)e / t.iv); }
}

// ------------------------------------------------------------ walker
static uint64_t typeMax(int t) { return sizeOf(t) == 8 ? UINT64_MAX : (1ull << (8 * sizeOf(t))) - 1; }
struct Walk {
    const Schema& S; bool enc; Src* s; RefOpts o; RefResult& R;
    const std::vector<uint8_t>* in = nullptr;
    size_t cur = 0; int bit = 0; bool be = false; size_t depth = 0;
    std::map<std::string, uint64_t> ctx;
    struct Stop { int code; };
    void err(int c) { throw Stop{c}; }
    size_t len() { return in->size(); }
    void align() { if (bit) { cur++; bit = 0; } }
    void need(size_t n) { if (enc) { if (R.bytes.size() < cur + n) R.bytes.resize(cur + n, 0); } else if (cur > len() || n > len() - cur) err(CND_ERR_OOB); }
    void putBits(uint64_t v, int b) {
        for (int i = 0; i < b; i++) {
            if (cur >= R.bytes.size()) R.bytes.push_back(0);
            bool x = be ? (b - 1 - i < 64 && (v >> (b - 1 - i) & 1)) : (i < 64 && (v >> i & 1));
            if (x) R.bytes[cur] |= (uint8_t)(be ? 0x80 >> bit : 1 << bit);
            if (++bit == 8) { bit = 0; cur++; }
        }
    }
    uint64_t getBits(int b) {
        if (cur * 8 + (size_t)bit + (size_t)b > len() * 8) err(CND_ERR_OOB);
        uint64_t v = 0;
        for (int i = 0; i < b; i++) {
            int x = be ? ((*in)[cur] >> (7 - bit)) & 1 : ((*in)[cur] >> bit) & 1;
            if (be) v = v << 1 | (uint64_t)x; else if (i < 64) v |= (uint64_t)x << i;
            if (++bit == 8) { bit = 0; cur++; }
        }
        return v;
    }
    void put(uint64_t v, int n) { need((size_t)n); for (int i = 0; i < n; i++) R.bytes[cur + i] = (uint8_t)(v >> 8 * (be ? n - 1 - i : i)); cur += (size_t)n; }
    uint64_t get(int n) { need((size_t)n); uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)(*in)[cur + i] << 8 * (be ? n - 1 - i : i); cur += (size_t)n; return v; }
    Ev& emit(uint8_t op, const std::string& key, uint64_t u = 0) { R.ev.emplace_back(); Ev& e = R.ev.back(); e.op = op; e.key = key; e.u = u; e.keyZero = op == OP_EXIT_STRUCT || op == OP_ARR_END; return e; }
    bool bad() { return o.invalidPct && s->chance(o.invalidPct, 100); }

    uint64_t pickInt(const Field& f) {
        int t = f.t, w = f.bits ? f.bits : 8 * sizeOf(t); bool sg = isSigned(t);
        uint64_t lo = sg ? (uint64_t)0 - (1ull << (w - 1)) : 0, hi = sg ? (1ull << (w - 1)) - 1 : w == 64 ? UINT64_MAX : (1ull << w) - 1;
        if (f.hasRange) {
            lo = f.lo; hi = f.hi;
            if (bad()) {
                uint64_t v = s->chance(1, 2) ? hi + 1 : lo - 1; if (s->chance(1, 4)) v = s->u64();
                v = norm(v, t);
                if (sg ? (int64_t)v < (int64_t)lo || (int64_t)v > (int64_t)hi : v < lo || v > hi) { R.invalidChosen = true; return v; }
            }
        }
        if (!f.hints.empty() && s->chance(1, 2)) { uint64_t v = f.hints[s->draw(f.hints.size() - 1)]; if (!f.bits) v = norm(v, t); return v; }
        uint64_t span = hi - lo, v;
        switch (s->weighted({3, 1, 1, 4})) {
            case 0: v = lo + s->draw(span < 9 ? span : 9); if (sg && !f.hasRange) v = s->draw(span < 19 ? span / 2 : 9); break;
            case 1: v = hi - s->draw(span < 2 ? span : 2); break;
            case 2: v = lo + span / 2 + s->draw(span ? 1 : 0); break;
            default: v = lo + s->draw(span);
        }
        if (f.maxv != UINT64_MAX) { if (sg && (int64_t)v < 0) v = 0 - v; v %= f.maxv + 1; if (f.bits) v &= (1ull << (w - (sg ? 1 : 0))) - 1; else if (v > (sg ? hi : typeMax(t))) v = 0; }
        return v;
    }
    double pickFloat(const Field& f) {
        if (f.hasRange) {
            if (bad()) { double v = s->chance(1, 2) ? f.fhi + 0.125 * (double)(1 + s->draw(50)) : f.flo - 0.125 * (double)(1 + s->draw(50)); if (s->chance(1, 6)) v = NAN; R.invalidChosen = true; return v; }
            double span = f.fhi - f.flo; return s->chance(1, 4) ? f.fhi : f.flo + std::floor(span * 8 * (double)s->draw(1000) / 1000.0) / 8;
        }
        if (f.tr.k != Trans::NONE) { if (f.tr.k == Trans::SPLINE) return (double)s->draw(f.maxv); return (double)s->range(-4000, 4000) / (f.tr.k >= Trans::ADD && f.tr.k <= Trans::DIV ? 1.0 : 8.0); }
        switch (s->weighted({4, 3, 3, 1})) {
            case 0: return (double)s->range(-100, 100);
            case 1: return (double)s->range(-800000, 800000) / 64.0;
            case 2: { uint64_t u = s->u64(); if (f.t == F32) return (double)asF((uint32_t)u); return asD(u); }
            default: { static const double sp[] = {0.0, -0.0, INFINITY, -INFINITY, FLT_MAX, FLT_MIN, 1e-45, NAN}; return sp[s->draw(7)]; }
        }
    }

    std::string pickStr(const Field& f) {
        size_t n = 0, cap = f.sk == Field::S_NULL ? (size_t)f.smax : 255; std::string r;
        if (f.big) { n = (f.sk == Field::S_NULL ? (size_t)f.smax : 65535) - 4 + s->draw(8); for (size_t i = 0; i < n; i++) r += (char)('a' + i % 26); R.feats["big"]++; return r; }
        switch (s->weighted({6, 2, 1, 1})) {
            case 0: n = s->draw(8); break;
            case 1: n = cap < 12 ? cap : s->draw(12); break;
            case 2: n = cap; break;
            default: n = cap + 1 + s->draw(3);
        }
        if (n > 300) n = 300;
        if (o.utf8) { while (r.size() < n) { uint8_t b = (uint8_t)(n > 40 || !s->chance(1, 6) ? 'a' + s->draw(25) : 1 + s->draw(254)); if (b < 0x80) r += (char)b; else if (r.size() + 2 <= n) { r += (char)(0xC3 + (b & 1)); r += (char)(0x80 | (b & 0x3F)); } else r += '~'; } return r; }
        for (size_t i = 0; i < n; i++) { if (n > 40) { r += (char)('a' + i % 26); continue; } r += s->chance(1, 6) ? (char)(1 + s->draw(254)) : (char)('a' + s->draw(25)); }
        return r;
    }

    uint64_t exprVal(const Expr& e, const std::string& pre) {
        int er = 0, sp = 0, mx = 0; bool un = false;
        std::function<uint64_t(const std::string&)> g = [&](const std::string& n) { std::string k = pre + n; uint64_t v = ctx.count(k) ? ctx[k] : 0; emit(OP_LOAD_CTX, k, v); return v; };
        uint64_t v = evalExprRef(e, g, er, un, sp, mx);
        R.feats["expr"]++; if (er) R.feats["expr_error"]++;
        if (un) R.undef = true;
        if (er) err(er);
        return v;
    }

    // one element of a field; key is its full name
    void element(const Field& f, const std::string& key, const std::string& pre) {
        bool missing = false; auto zeroEv = [&]() { if (!R.undef && bit == 0 && cur < len()) R.undef = true; missing = true; R.feats["optional_missing"]++; };
        auto short_ = [&](size_t n) { return !enc && (cur > len() || n > len() - cur); };
        if (f.t == STRUCT) {
            const StructDef& d = S.structs[f.ref];
            emit(OP_ENTER_STRUCT, key);
            bool saved = be; if (d.unaligned) be = true;
            block(d.b, key + ".");
            be = saved; emit(OP_EXIT_STRUCT, ""); R.feats["struct"]++;
            return;
        }
        if (f.t == STR) {
            align(); R.feats["string"]++;
            if (f.sk == Field::S_NULL) {
                if (enc) {
                    std::string v = pickStr(f); Ev& e = emit(OP_STR_NULL, key); e.data = v;
                    if (f.opt && o.declineOpt && s->chance(1, 2)) { e.decline = true; return; }
                    size_t n = v.size() > (size_t)f.smax ? (size_t)f.smax : v.size(); if (v.size() > n) R.feats["string_cut"]++;
                    need(n + 1); memcpy(R.bytes.data() + cur, v.data(), n); R.bytes[cur + n] = 0; cur += n + 1;
                } else {
                    if (f.opt && short_(1)) { zeroEv(); emit(OP_STR_NULL, key); return; }
                    size_t i = 0; for (;; i++) { if (cur + i >= len()) { if (f.opt) R.undef = true; err(CND_ERR_OOB); } if ((*in)[cur + i] == 0) break; if (i == (size_t)f.smax) err(CND_ERR_VALIDATION); }
                    Ev& e = emit(OP_STR_NULL, key); e.data.assign((const char*)in->data() + cur, i); cur += i + 1;
                }
                return;
            }
            int n = f.sk == Field::S_P8 ? 1 : f.sk == Field::S_P16 ? 2 : 4; uint8_t op = (uint8_t)(OP_STR_NULL + f.sk);
            if (enc) {
                std::string v = pickStr(f); Ev& e = emit(op, key); e.data = v;
                if (f.opt && o.declineOpt && s->chance(1, 2)) { e.decline = true; return; }
                size_t m = v.size(); if (n == 1 && m > 255) { m = 255; R.feats["string_cut"]++; } else if (n == 2 && m > 65535) { m = 65535; R.feats["string_cut"]++; }
                put(m, n); need(m); memcpy(R.bytes.data() + cur, v.data(), m); cur += m;
            } else {
                if (f.opt && short_((size_t)n)) { zeroEv(); emit(op, key); return; }
                uint64_t m = get(n); if (m > len() - cur) { if (f.opt) R.undef = true; err(CND_ERR_OOB); }
                Ev& e = emit(op, key); e.data.assign((const char*)in->data() + cur, m); cur += m;
            }
            return;
        }
        if (f.bits) {
            R.feats["bits"]++;
            uint8_t op = f.t == BOOL ? OP_IO_BIT_BOOL : isSigned(f.t) ? OP_IO_BIT_I : OP_IO_BIT_U; int w = f.t == BOOL ? 1 : f.bits; uint64_t v;
            if (enc) {
                if (f.t == BOOL) { v = s->draw(1); if (bad()) { v = 2 + s->draw(253); R.invalidChosen = true; } } else v = pickInt(f);
                emit(op, key, v).w = w; if (f.t == BOOL && v > 1) err(CND_ERR_VALIDATION); putBits(v, w);
            } else if (f.opt && cur * 8 + (size_t)bit + (size_t)w > len() * 8) { zeroEv(); emit(op, key, v = 0); }
            else { v = getBits(w); if (f.t != BOOL && isSigned(f.t)) v = sext(v, w); emit(op, key, v).w = w; }
            ctx[key] = v; return;
        }
        if (f.crc.width) {
            align(); const Crc& c = f.crc; bool w32 = c.width == 32; int n = w32 ? 4 : 2; R.feats["crc"]++;
            uint32_t poly = c.hasPoly ? c.poly : w32 ? 0x04C11DB7 : 0x1021, init = c.hasInit ? c.init : w32 ? 0xFFFFFFFF : 0xFFFF, xo = c.hasXor ? c.xo : w32 ? 0xFFFFFFFF : 0;
            const uint8_t* d = enc ? R.bytes.data() : in->data();
            if (enc) { if (R.bytes.size() < cur) R.bytes.resize(cur, 0); d = R.bytes.data(); }
            else need((size_t)n);
            uint32_t v = refCrc(d, cur, c.width, poly, init, xo, c.refin || w32, c.refout || w32);
            if (enc) put(v, n); else if (get(n) != v) { R.feats["crc_mismatch"]++; err(CND_ERR_CRC_MISMATCH); } else R.feats["crc_ok"]++;
            return;
        }
        if (f.expr) {
            uint64_t v = exprVal(*f.expr, pre); Ev& e = emit(OP_STORE_CTX, key, v); e.flt = f.expr->flt; e.t = f.t; ctx[key] = v;
            align(); int n = sizeOf(f.t); uint64_t w = f.t == F32 ? fromF((float)asD(v)) : zext(v, 8 * n);
            if (isFloat(f.t)) R.floats.push_back({cur, n});
            bool nan = isFloat(f.t) && std::isnan(asD(v)); if (nan) R.feats["expr_nan"]++;
            if (enc) { put(w, n); if (nan) R.undef = true; } // the sign of a NaN is not defined
            else {
                uint64_t g = get(n);
                if (isFloat(f.t)) {
                    double a = f.t == F32 ? asF((uint32_t)w) : asD(w), b = f.t == F32 ? asF((uint32_t)g) : asD(g), tol = f.t == F32 ? 1e-5 : 1e-7;
                    if (g != w) { double d = std::fabs(a - b); if (std::isnan(a) || std::isnan(b)) { if (std::isnan(a) != std::isnan(b)) { R.feats["nan_mismatch"]++; err(CND_ERR_VALIDATION); } } else if (d > tol * 0.9 && d < tol * 1.1) R.undef = true; else if (d >= tol) err(CND_ERR_VALIDATION); }
                } else if (g != w) { R.feats["expr_mismatch"]++; err(CND_ERR_VALIDATION); }
            }
            return;
        }
        int t = f.t == ENUM ? S.enums[f.ref].under : f.t; int n = sizeOf(t);
        align();
        if (f.hasConst) {
            R.feats["const"]++; uint64_t w = zext(f.cval, 8 * n);
            if (enc) put(w, n);
            else { if (f.opt && short_((size_t)n)) { zeroEv(); emit(IOOP[t], key, 0); ctx[key] = 0; return; } uint64_t g = get(n); if (g != w) { R.feats["const_mismatch"]++; err(CND_ERR_VALIDATION); } emit(IOOP[t], key, norm(g, t)); }
            ctx[key] = norm(w, t); return;
        }
        if (f.opt && short_((size_t)n)) {
            zeroEv(); bool fe = f.tr.k == Trans::SCALE || f.tr.k == Trans::POLY || f.tr.k == Trans::SPLINE;
            emit(f.tr.k == Trans::NONE ? IOOP[t] : fe ? OP_IO_F64 : OP_IO_I64, key, 0); ctx[key] = 0; return;
        }
        if (t == BOOL) {
            uint64_t v;
            if (enc) { v = s->draw(1); if (bad()) { v = 2 + s->draw(253); R.invalidChosen = true; } emit(OP_IO_BOOL, key, v); if (v > 1) err(CND_ERR_VALIDATION); put(v, 1); }
            else { v = get(1); if (v > 1) err(CND_ERR_VALIDATION); emit(OP_IO_BOOL, key, v); }
            ctx[key] = v; return;
        }
        if (f.tr.k != Trans::NONE) {
            R.feats["transform"]++;
            bool fe = f.tr.k == Trans::SCALE || f.tr.k == Trans::POLY || f.tr.k == Trans::SPLINE, un = false;
            if (isFloat(t)) {
                if (enc) {
                    double raw = pickFloat(f); if (f.t == F32) raw = (float)raw;
                    if (fe && raw == 0) raw = 1; // which zero comes back is not defined
                    if (fe) { double e = fwdF(f.tr, raw, un); emit(OP_IO_F64, key, fromD(e)).flt = true; double b = invF(f.tr, e, un); if (un) R.undef = true; if (f.t == F32) put(fromF((float)b), 4); else put(fromD(b), 8); }
                    else { uint64_t e = fwdI(f.tr, (uint64_t)(int64_t)raw); emit(OP_IO_I64, key, e); int64_t b = (int64_t)invI(f.tr, e); if (f.t == F32) put(fromF((float)b), 4); else put(fromD((double)b), 8); }
                } else {
                    uint64_t g = get(n); double raw = f.t == F32 ? (double)asF((uint32_t)g) : asD(g);
                    if (fe) { double e = fwdF(f.tr, raw, un); emit(OP_IO_F64, key, fromD(e)).flt = true; if (un || !std::isfinite(e)) R.undef = true; }
                    else { if (!(raw > -9.2e18 && raw < 9.2e18)) { R.undef = true; raw = 0; } emit(OP_IO_I64, key, fwdI(f.tr, (uint64_t)(int64_t)raw)); }
                }
                return;
            }
            auto toD = [&](uint64_t r) { return isSigned(t) ? (double)(int64_t)r : (double)r; };
            if (enc) {
                uint64_t raw = pickInt(f);
                if (f.tr.k == Trans::SPLINE) raw = s->draw(f.maxv);
                if (fe) {
                    double e = fwdF(f.tr, toD(raw), un); emit(OP_IO_F64, key, fromD(e)).flt = true; double b = toD(raw); // the value given is that of this raw value
                    if (un) R.undef = true;
                    double lo = isSigned(t) ? -std::ldexp(1, 8 * n - 1) : 0, hi = std::ldexp(1, 8 * n - (isSigned(t) ? 1 : 0));
                    if (!(b >= lo && b < hi)) { R.undef = true; b = 0; }
                    put(isSigned(t) ? (uint64_t)(int64_t)b : (uint64_t)b, n);
                } else { uint64_t e = fwdI(f.tr, raw), back = invI(f.tr, e); emit(OP_IO_I64, key, e); put(back, n); if (fwdI(f.tr, norm(back, t)) != e) R.feats["transform_lossy"]++; }
            } else {
                uint64_t raw = norm(get(n), t);
                if (fe) { emit(OP_IO_F64, key, fromD(fwdF(f.tr, toD(raw), un))).flt = true; if (un) R.undef = true; } else emit(OP_IO_I64, key, fwdI(f.tr, raw));
            }
            return;
        }
        if (isFloat(t)) {
            double v; uint64_t u;
            if (enc) { v = pickFloat(f); u = t == F32 ? fromF((float)v) : fromD(v); emit(IOOP[t], key, u); put(u, n); }
            else { u = get(n); emit(IOOP[t], key, u); }
            v = t == F32 ? asF((uint32_t)u) : asD(u);
            if (f.hasRange) { R.feats["range"]++; if (!(v >= f.flo && v <= f.fhi)) { R.feats["range_out"]++; err(CND_ERR_VALIDATION); } }
            return;
        }
        uint64_t v;
        if (enc) {
            if (f.t == ENUM) {
                auto& vals = S.enums[f.ref].vals; v = (uint64_t)vals[s->draw(vals.size() - 1)].second;
                if (!f.hints.empty() && s->chance(1, 2)) v = f.hints[s->draw(f.hints.size() - 1)];
                if (bad()) { uint64_t q = norm(s->chance(1, 2) ? v + 1 : s->u64(), t); bool in_ = false; for (auto& x : vals) if (norm((uint64_t)x.second, t) == q) in_ = true; if (!in_) { v = q; R.invalidChosen = true; } }
            } else v = pickInt(f);
            emit(IOOP[t], key, v); put(v, n);
        } else { v = norm(get(n), t); emit(IOOP[t], key, v); }
        ctx[key] = v;
        if (f.t == ENUM) { R.feats["enum"]++; bool ok = false; for (auto& x : S.enums[f.ref].vals) if (norm((uint64_t)x.second, t) == norm(v, t)) ok = true; if (!ok) { R.feats["enum_out"]++; err(CND_ERR_VALIDATION); } }
        if (f.hasRange) { R.feats["range"]++; uint64_t q = norm(v, t); if (isSigned(t) ? (int64_t)q < (int64_t)f.lo || (int64_t)q > (int64_t)f.hi : q < f.lo || q > f.hi) { R.feats["range_out"]++; err(CND_ERR_VALIDATION); } }
        (void)missing;
    }

    void field(const Field& f, const std::string& pre) {
        std::string key = pre + f.name;
        R.evStart = R.ev.size(); R.nfields++;
        bool saved = be; if (f.endian) be = f.endian == 1;
        if (f.ak == Field::A_NONE) { element(f, key, pre); be = saved; return; }
        align(); R.narr++; R.feats["array"]++;
        uint32_t cnt = 0; bool eof = false, gone = f.opt && !enc && cur >= len(); if (gone) R.feats["optional_missing"]++;
        switch (f.ak) {
            case Field::A_FIXED: cnt = gone ? 0 : f.acount; emit(OP_ARR_FIXED, key, cnt); break;
            case Field::A_PRE8: case Field::A_PRE16: case Field::A_PRE32: {
                int n = f.ak == Field::A_PRE8 ? 1 : f.ak == Field::A_PRE16 ? 2 : 4; uint8_t op = (uint8_t)(OP_ARR_PRE_U8 + (f.ak - Field::A_PRE8));
                if (enc) { cnt = f.big ? f.maxcount : (uint32_t)s->draw(n == 1 && f.maxcount > 255 ? 255 : f.maxcount); emit(op, key, cnt); put(cnt, n); } else { if (f.opt && !gone && (size_t)n > len() - cur) R.undef = true; cnt = gone ? 0 : (uint32_t)get(n); emit(op, key, cnt); }
                break; }
            case Field::A_DYN: {
                std::string rk = pre + f.aref; uint64_t v = ctx.count(rk) ? ctx[rk] : 0; emit(OP_CTX_QUERY, rk, v);
                if (v > 0xFFFFFFFFull) err(CND_ERR_ARITHMETIC); cnt = gone ? 0 : (uint32_t)v; emit(OP_ARR_DYNAMIC, key, cnt); break; }
            default: eof = true;
        }
        if (cnt == 0 && !eof) { R.feats["array_empty"]++; be = saved; return; }
        if (eof && enc) cnt = f.big ? f.maxcount : (uint32_t)s->draw(f.maxcount);
        if (eof && (enc ? cnt == 0 : cur >= len())) { if (depth >= CND_MAX_LOOP_DEPTH) R.undef = true; /* may be refused although empty */ R.feats["array_empty"]++; be = saved; return; }
        if (cnt > 1000) R.feats["big"]++;
        Src aux, *keep = s; if (enc && cnt > 1000) { aux.seed(s->u64()); s = &aux; } // one choice stands for all the elements
        bool raw = !eof && (f.t == U8 || f.t == I8) && !f.bits && !f.hasConst && !f.hasRange && f.tr.k == Trans::NONE;
        if (raw && !enc && (cur > len() || cnt > len() - cur)) raw = false;
        if (raw) {
            Ev& e = emit(OP_RAW_BYTES, key); R.feats["raw_offer"]++;
            if (o.acceptRaw) {
                if (enc) { need(cnt); for (uint32_t i = 0; i < cnt; i++) R.bytes[cur + i] = (uint8_t)(s->draw(255)); e.data.assign((char*)R.bytes.data() + cur, cnt); }
                else e.data.assign((const char*)in->data() + cur, cnt);
                cur += cnt; be = saved; s = keep; return;
            }
            e.decline = true; e.u = cnt;
        }
        if (++depth > CND_MAX_LOOP_DEPTH) err(eof ? CND_ERR_STACK_OVERFLOW : CND_ERR_OOB);
        Field el; if (f.opt) { el = f; el.opt = false; } // only the array itself is optional
        for (uint32_t i = 0; eof && !enc ? cur < len() : i < cnt; i++) { R.evStart = R.ev.size(); element(f.opt ? el : f, key, pre); align(); R.feats["array_elem"]++; }
        depth--; emit(OP_ARR_END, ""); be = saved; s = keep;
    }
    void block(const Block& b, const std::string& pre) {
        for (auto& st : b) {
            R.evStart = R.ev.size();
            switch (st.k) {
                case Stmt::FIELD: field(st.f, pre); break;
                case Stmt::PAD: R.feats["pad"]++; if (enc) putBits(0, st.n); else { if (cur * 8 + (size_t)bit + (size_t)st.n > len() * 8) err(CND_ERR_OOB); size_t t = (size_t)bit + (size_t)st.n; cur += t / 8; bit = (int)(t % 8); } break;
                case Stmt::FILL: if (bit) { R.feats["fill"]++; if (enc) putBits(st.n ? ~0ull : 0, 8 - bit); else { bit = 0; cur++; } } break;
                case Stmt::SWITCH: {
                    std::string k = pre + st.sref; uint64_t v = ctx.count(k) ? ctx[k] : 0; emit(OP_CTX_QUERY, k, v); R.feats["switch"]++;
                    bool hit = false; for (size_t i = 0; i < st.cases.size() && !hit; i++) if (st.cases[i] == v) { hit = true; R.feats["switch_case"]++; block(st.bodies[i], pre); }
                    if (!hit) { R.feats["switch_default"]++; block(st.defBody, pre); }
                    break; }
                case Stmt::IF: {
                    bool done = false; R.feats["if"]++;
                    for (size_t i = 0; i < st.conds.size() && !done; i++) if (exprVal(*st.conds[i], pre)) { done = true; R.feats["if_taken"]++; block(st.bodies[i], pre); }
                    if (!done && st.hasElse) { R.feats["else"]++; block(st.defBody, pre); }
                    break; }
            }
        }
    }
    void run() {
        be = S.topEndian == 1;
        try {
            if (S.alias >= 0) { if (S.structs[S.alias].unaligned) be = true; block(S.structs[S.alias].b, ""); }
            else block(S.packet, "");
        } catch (Stop& x) { R.err = x.code; }
        R.size = cur + (bit ? 1 : 0); R.bitsEnd = (size_t)bit;
        if (enc && !R.err && R.bytes.size() < R.size) R.bytes.resize(R.size, 0);
    }
};
RefResult refEncode(const Schema& S, Src& s, RefOpts o) { RefResult R; Walk w{S, true, &s, o, R}; w.run(); return R; }
RefResult refDecode(const Schema& S, const std::vector<uint8_t>& in, RefOpts o) { RefResult R; Src none; Walk w{S, false, &none, o, R}; w.in = &in; w.run(); return R; }

// ------------------------------------------------------------ running the implementation
const char* errName(int e) { static const char* n[] = {"OK", "OOB", "INVALID_OP", "VALIDATION", "CALLBACK", "STACK_OVERFLOW", "STACK_UNDERFLOW", "CRC_MISMATCH", "ARITHMETIC"}; return e >= 0 && e <= 8 ? n[e] : "?"; }
bool loadProgram(Program& p) { return cnd_program_load_il(&p.p, p.il.data(), p.il.size()) == CND_ERR_OK; }
int compilePath(const std::string& in, const std::string& outp, Program& out, std::string* log, bool json) {
    static int keep = -1; if (keep < 0) keep = dup(1);
    std::string lp = outp + ".log"; int fd = open(log ? lp.c_str() : "/dev/null", O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    fflush(stdout); dup2(fd, 1); close(fd);
    unlink(outp.c_str());
    int rc = cnd_compile_file(in.c_str(), outp.c_str(), json ? 1 : 0, 0);
    fflush(stdout); dup2(keep, 1);
    if (log) { *log = read_file(lp); unlink(lp.c_str()); }
    out.il.clear();
    if (rc == 0) { std::string s = read_file(outp); out.il.assign(s.begin(), s.end()); loadProgram(out); }
    return rc;
}
int compileText(const std::string& dir, const std::string& text, Program& out, std::string* log) {
    write_file(dir + "/t.cnd", text); return compilePath(dir + "/t.cnd", dir + "/t.il", out, log);
}
static bool isStrOp(int op) { return op >= OP_STR_NULL && op <= OP_STR_PRE_U32; }
std::string evStr(const Ev& e) {
    static const std::map<int, const char*> n = {{OP_IO_U8, "u8"}, {OP_IO_U16, "u16"}, {OP_IO_U32, "u32"}, {OP_IO_U64, "u64"}, {OP_IO_I8, "i8"}, {OP_IO_I16, "i16"}, {OP_IO_I32, "i32"}, {OP_IO_I64, "i64"}, {OP_IO_F32, "f32"}, {OP_IO_F64, "f64"}, {OP_IO_BOOL, "bool"}, {OP_IO_BIT_U, "bits"}, {OP_IO_BIT_I, "sbits"}, {OP_IO_BIT_BOOL, "bitbool"}, {OP_STR_NULL, "str"}, {OP_STR_PRE_U8, "str8"}, {OP_STR_PRE_U16, "str16"}, {OP_STR_PRE_U32, "str32"}, {OP_ARR_FIXED, "arr"}, {OP_ARR_PRE_U8, "arr8"}, {OP_ARR_PRE_U16, "arr16"}, {OP_ARR_PRE_U32, "arr32"}, {OP_ARR_DYNAMIC, "arrdyn"}, {OP_ARR_END, "end"}, {OP_RAW_BYTES, "raw"}, {OP_ENTER_STRUCT, "enter"}, {OP_EXIT_STRUCT, "exit"}, {OP_CTX_QUERY, "query"}, {OP_LOAD_CTX, "load"}, {OP_STORE_CTX, "store"}};
    auto it = n.find(e.op); std::string r = it == n.end() ? strf("op%02x", e.op) : it->second;
    if (!e.key.empty()) r += " " + e.key;
    if (isStrOp(e.op)) { r += "=\""; for (unsigned char c : e.data) r += c >= 32 && c < 127 && c != '"' ? std::string(1, (char)c) : strf("\\x%02x", c); r += "\""; }
    else if (e.op == OP_RAW_BYTES) r += e.decline ? " declined" : "=" + hexs((const uint8_t*)e.data.data(), e.data.size(), 40);
    else if (e.op == OP_IO_F32) r += strf("=%g(%08x)", (double)asF((uint32_t)e.u), (uint32_t)e.u);
    else if (e.op == OP_IO_F64 || e.flt) r += strf("=%.17g", asD(e.u));
    else if (e.op != OP_ENTER_STRUCT && e.op != OP_EXIT_STRUCT && e.op != OP_ARR_END) r += strf("=%lld", (long long)e.u);
    return r;
}
std::string evList(const std::vector<Ev>& v, size_t max) { std::string r; for (size_t i = 0; i < v.size() && i < max; i++) r += (i ? "; " : "") + evStr(v[i]); if (v.size() > max) r += strf("; ... (%zu)", v.size()); return r; }

static bool closeD(double a, double b) { if (a == b || (std::isnan(a) && std::isnan(b))) return true; return std::fabs(a - b) <= 1e-9 * std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b))); }
static int valSize(uint8_t op) {
    switch (op) {
        case OP_IO_U8: case OP_IO_I8: case OP_IO_BOOL: case OP_IO_BIT_BOOL: case OP_ARR_PRE_U8: return 1;
        case OP_IO_U16: case OP_IO_I16: case OP_ARR_PRE_U16: return 2;
        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: case OP_ARR_PRE_U32: case OP_ARR_FIXED: case OP_ARR_DYNAMIC: return 4;
        default: return 8;
    }
}
cnd_error_t hostCb(struct cnd_vm_ctx_t* c, uint16_t key, uint8_t op, void* ptr) {
    HostRun* h = (HostRun*)c->user_ptr; size_t idx = h->calls++;
    const char* nm = cnd_get_key_name(c->program, key);
    auto bad = [&](const std::string& m) { if (h->mismatch.empty()) h->mismatch = m; h->failed = true; return CND_ERR_CALLBACK; };
    if (h->failed) return bad("host called again after it reported an error: op " + std::to_string(op));
    if (h->hook) h->hook();
    if (h->failAt >= 0 && (long)idx == h->failAt) {
        h->failed = true;
        if (c->mode == CND_MODE_ENCODE && h->pos < h->script->size() && ((idx + h->script->size()) & 1)) { // every other failing host has filled in the value first
            const Ev& f = (*h->script)[h->pos];
            if (f.op == op && !isStrOp(op) && op != OP_RAW_BYTES && op != OP_ENTER_STRUCT && op != OP_EXIT_STRUCT && op != OP_ARR_END && op != OP_STORE_CTX && op != OP_ARR_FIXED && op != OP_ARR_DYNAMIC) memcpy(ptr, &f.u, (size_t)valSize(op));
        }
        return h->failCode;
    }
    Ev got; got.op = op; got.key = nm ? nm : "";
    if (h->pos >= h->script->size()) return bad(strf("unexpected event #%zu %s (reference has none left)", idx, evStr(got).c_str()));
    // a buffer too short for an array of bytes is not offered in one piece, the elements are asked for one by one
    if (h->shortCap && (op == OP_IO_U8 || op == OP_IO_I8) && (*h->script)[h->pos].op == OP_RAW_BYTES) {
        const Ev& r = (*h->script)[h->pos];
        if (nm && r.key == nm && !r.decline && h->rawElem < r.data.size()) { *(uint8_t*)ptr = (uint8_t)r.data[h->rawElem++]; return CND_ERR_OK; }
        if (r.decline && h->pos + 1 < h->script->size()) h->pos++;
    }
    const Ev& e = (*h->script)[h->pos];
    if (op != e.op) return bad(strf("event #%zu is %s key %s, reference expects %s", idx, evStr(got).c_str(), got.key.c_str(), evStr(e).c_str()));
    if (e.keyZero ? key != 0 : (!nm || e.key != nm)) return bad(strf("event #%zu names key %u '%s', reference expects %s", idx, key, nm ? nm : "(none)", evStr(e).c_str()));
    h->pos++;
    if (e.decline) return CND_ERR_CALLBACK;
    bool enc = c->mode == CND_MODE_ENCODE;
    if (op == OP_ENTER_STRUCT || op == OP_EXIT_STRUCT || op == OP_ARR_END) return CND_ERR_OK;
    if (op == OP_CTX_QUERY || op == OP_LOAD_CTX) { memcpy(ptr, &e.u, 8); return CND_ERR_OK; }
    if (op == OP_RAW_BYTES) {
        if (enc) memcpy(ptr, e.data.data(), e.data.size());
        else if (memcmp(ptr, e.data.data(), e.data.size())) return bad(strf("event #%zu raw bytes differ from the reference", idx));
        return CND_ERR_OK;
    }
    if (isStrOp(op)) {
        if (enc) { *(const char**)ptr = e.data.c_str(); return CND_ERR_OK; }
        const char* p = (const char*)ptr; if (!p) return bad(strf("event #%zu: null string", idx));
        const uint8_t* b = c->data_buffer; bool inside = (const uint8_t*)p >= b && (const uint8_t*)p <= b + c->data_len;
        if (inside && (size_t)(b + c->data_len - (const uint8_t*)p) < e.data.size()) return bad(strf("event #%zu: string shorter than %s", idx, evStr(e).c_str()));
        if (!inside && strlen(p) != e.data.size()) return bad(strf("event #%zu: string outside the message", idx));
        if (memcmp(p, e.data.data(), e.data.size()) || (op == OP_STR_NULL && p[e.data.size()])) { got.data.assign(p, op == OP_STR_NULL ? strnlen(p, 64) : e.data.size()); return bad(strf("event #%zu: string %s, reference %s", idx, evStr(got).c_str(), evStr(e).c_str())); }
        return CND_ERR_OK;
    }
    int n = valSize(op); uint64_t v = 0; memcpy(&v, ptr, (size_t)n);
    bool inOnly = !enc || op == OP_STORE_CTX || op == OP_ARR_FIXED || op == OP_ARR_DYNAMIC;
    if (!inOnly) { memcpy(ptr, &e.u, (size_t)n); return CND_ERR_OK; }
    bool same = v == zext(e.u, 8 * n);
    if (!same && (e.flt || (op == OP_STORE_CTX && e.flt))) same = closeD(asD(v), asD(e.u));
    if (!same) { got.u = op >= OP_IO_I8 && op <= OP_IO_I64 ? sext(v, 8 * n) : v; got.flt = e.flt; return bad(strf("event #%zu: value %s, reference %s", idx, evStr(got).c_str(), evStr(e).c_str())); }
    return CND_ERR_OK;
}
static uint8_t* exact(size_t n) { uint8_t* p = (uint8_t*)malloc(n ? n : 1); return p; }
RunResult runEncode(const Program& P, const std::vector<Ev>& script, size_t cap, const std::vector<uint8_t>& prior, long failAt, bool shortCap) {
    uint8_t* m = exact(cap); uint8_t* b = cap ? m : m + 1;
    for (size_t i = 0; i < cap; i++) b[i] = i < prior.size() ? prior[i] : 0xA5;
    HostRun h; h.script = &script; h.failAt = failAt; h.shortCap = shortCap;
    cnd_vm_ctx c; memset(&c, 0xEE, sizeof c); cnd_init(&c, CND_MODE_ENCODE, &P.p, b, cap, hostCb, &h);
    int e = cnd_execute(&c);
    RunResult r{e, c.cursor + (c.bit_offset ? 1 : 0), std::vector<uint8_t>(b, b + cap), h.mismatch, h.calls};
    if (r.mismatch.empty() && e == 0 && h.pos < script.size()) r.mismatch = strf("finished after %zu of %zu events; next expected %s", h.pos, script.size(), evStr(script[h.pos]).c_str());
    free(m); return r;
}
RunResult runDecode(const Program& P, const std::vector<Ev>& script, const std::vector<uint8_t>& in, long failAt, bool) {
    size_t n = in.size(); uint8_t* m = exact(n); uint8_t* b = n ? m : m + 1; if (n) memcpy(b, in.data(), n);
    HostRun h; h.script = &script; h.failAt = failAt;
    cnd_vm_ctx c; memset(&c, 0xEE, sizeof c); cnd_init(&c, CND_MODE_DECODE, &P.p, b, n, hostCb, &h);
    int e = cnd_execute(&c);
    RunResult r{e, c.cursor + (c.bit_offset ? 1 : 0), std::vector<uint8_t>(b, b + n), h.mismatch, h.calls};
    if (r.mismatch.empty() && e == 0 && h.pos < script.size()) r.mismatch = strf("finished after %zu of %zu events; next expected %s", h.pos, script.size(), evStr(script[h.pos]).c_str());
    free(m); return r;
}
static void common(Case& c, const char* what, const RunResult& x, const RefResult& r) {
    if (!x.mismatch.empty()) c.fail(std::string(what) + "-event", strf("%s: %s [result %s, reference %s]", what, x.mismatch.c_str(), errName(x.err), errName(r.err)));
    if (x.err != r.err) c.fail(std::string(what) + "-status", strf("%s returned %s, reference says %s after %zu events", what, errName(x.err), errName(r.err), r.ev.size()));
    if (r.err && x.calls < r.evStart) c.fail(std::string(what) + "-events", strf("%s reported %zu events before failing, reference has %zu before the failing field", what, x.calls, r.evStart));
}
void checkEncode(Case& c, const Program& P, const RefResult& r, size_t extra) {
    std::vector<uint8_t> prior(r.size + extra); for (size_t i = 0; i < prior.size(); i++) prior[i] = (uint8_t)(0xFF - i * 37 * (i & 1));
    size_t cap = r.err ? r.bytes.size() + 16 + extra : r.size + extra;
    RunResult x = runEncode(P, r.ev, cap, prior);
    common(c, "encode", x, r);
    if (r.err) return;
    if (x.size != r.size) c.fail("encode-size", strf("encoded %zu bytes, reference %zu", x.size, r.size));
    std::vector<uint8_t> got(x.buf.begin(), x.buf.begin() + (long)r.size);
    if (got != r.bytes) c.fail("encode-bytes", "encoded " + hexs(got) + "\nreference " + hexs(r.bytes));
    for (size_t i = r.size; i < cap; i++) if (x.buf[i] != prior[i]) c.fail("encode-tail", strf("byte %zu past the message (size %zu) was modified", i, r.size));
}
void checkDecode(Case& c, const Program& P, const std::vector<uint8_t>& in, const RefResult& r) {
    RunResult x = runDecode(P, r.ev, in);
    common(c, "decode", x, r);
    if (x.buf != in) c.fail("decode-wrote", "decoding modified the message: " + hexs(x.buf));
    if (!r.err && x.size != r.size) c.fail("decode-size", strf("decode consumed %zu bytes, reference %zu", x.size, r.size));
}
std::vector<uint8_t> mutate(Src& s, std::vector<uint8_t> v) {
    size_t n = 1 + s.draw(2);
    for (size_t i = 0; i < n; i++) switch (s.weighted({6, 3, 2, 2, 2, 1})) {
        case 0: if (!v.empty()) v[s.draw(v.size() - 1)] ^= (uint8_t)(1u << s.draw(7)); break;
        case 1: if (!v.empty()) v[s.draw(v.size() - 1)] = (uint8_t)s.draw(255); break;
        case 2: v.resize(s.draw(v.size())); break;
        case 3: { size_t k = 1 + s.draw(4); for (size_t j = 0; j < k; j++) v.push_back((uint8_t)s.draw(255)); break; }
        case 4: if (!v.empty()) v[s.draw(v.size() - 1)] = s.chance(1, 2) ? 0xFF : 0; break;
        default: if (!v.empty()) v.erase(v.begin() + (long)s.draw(v.size() - 1));
    }
    return v;
}
