#include "cnd.h"
#include <algorithm>
#include <cmath>

const uint8_t IOOP[11] = {OP_IO_U8, OP_IO_U16, OP_IO_U32, OP_IO_U64, OP_IO_I8, OP_IO_I16, OP_IO_I32, OP_IO_I64, OP_IO_F32, OP_IO_F64, OP_IO_BOOL};
static const char* TN[] = {"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float", "double", "bool", "string"};
static const char* TS[] = {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "bool", "string"};

bool blockHas(const Schema& S, const Block& b, const std::function<bool(const Field&)>& p, bool into) {
    for (auto& st : b) {
        if (st.k == Stmt::PAD || st.k == Stmt::FILL) { Field bits; bits.bits = 1; if (p(bits)) return true; }
        else if (st.k == Stmt::FIELD) { if (p(st.f)) return true; if (into && st.f.t == STRUCT && blockHas(S, S.structs[st.f.ref].b, p, into)) return true; }
        else if (st.k == Stmt::SWITCH || st.k == Stmt::IF) { for (auto& x : st.bodies) if (blockHas(S, x, p, into)) return true; if (blockHas(S, st.defBody, p, into)) return true; }
    }
    return false;
}
static size_t fieldMin(const Schema& S, const Field& f) {
    if (f.opt) return 0;
    size_t e = 8;
    if (f.bits) e = f.t == BOOL ? 1 : f.bits;
    else if (f.t <= BOOL) e = 8 * sizeOf(f.t);
    else if (f.t == ENUM) e = 8 * sizeOf(S.enums[f.ref].under);
    else if (f.t == STR) e = f.sk == Field::S_NULL ? 8 : f.sk == Field::S_P8 ? 8 : f.sk == Field::S_P16 ? 16 : 32;
    else if (f.t == STRUCT) e = minBits(S, S.structs[f.ref].b);
    switch (f.ak) {
        case Field::A_NONE: return e;
        case Field::A_FIXED: return e * f.acount;
        case Field::A_PRE8: return 8; case Field::A_PRE16: return 16; case Field::A_PRE32: return 32;
        default: return 0;
    }
}
size_t minBits(const Schema& S, const Block& b) { size_t n = 0; for (auto& st : b) if (st.k == Stmt::FIELD) n += fieldMin(S, st.f); return n; }
static size_t fieldMaxBits(const Schema& S, const Field& f);
static size_t blockMaxBits(const Schema& S, const Block& b) {
    size_t n = 0;
    for (auto& st : b) {
        if (st.k == Stmt::FIELD) n += fieldMaxBits(S, st.f);
        else if (st.k == Stmt::PAD) n += st.n; else if (st.k == Stmt::FILL) n += 7;
        else { size_t m = blockMaxBits(S, st.defBody); for (auto& x : st.bodies) m = std::max(m, blockMaxBits(S, x)); n += m; }
    }
    return n;
}
static size_t fieldMaxBits(const Schema& S, const Field& f) {
    size_t e = 8;
    if (f.bits) e = f.bits + 7; else if (f.t <= BOOL) e = 8 * sizeOf(f.t) + 7; else if (f.t == ENUM) e = 8 * sizeOf(S.enums[f.ref].under) + 7;
    else if (f.t == STR) e = 8 * 24; else if (f.t == STRUCT) e = blockMaxBits(S, S.structs[f.ref].b);
    if (f.ak == Field::A_NONE) return e;
    return 32 + e * (f.ak == Field::A_FIXED ? f.acount : f.maxcount);
}

static const char* POOL[] = {"a", "b", "c", "d", "x", "y", "id", "A", "B", "n", "len", "count", "_t", "val", "type_", "max", "prefix", "until", "flag", "r2", "speed", "crc16", "be", "optional", "zz9", "name", "data", "kind", "q_", "version"};
std::string Gen::fresh(Scope& sc) {
    for (int tries = 0; tries < 6; tries++) {
        std::string n = POOL[s.draw(sizeof POOL / sizeof *POOL - 1)];
        if (sc.used.insert(n).second) return n;
    }
    for (int i = (int)sc.used.size();; i++) { std::string n = strf("f%d", i); if (sc.used.insert(n).second) return n; }
}

static uint64_t tmax(int t) { return sizeOf(t) == 8 ? UINT64_MAX : (1ull << (8 * sizeOf(t))) - 1; }
static int64_t smin(int t) { return sizeOf(t) == 8 ? INT64_MIN : -(1ll << (8 * sizeOf(t) - 1)); }
static int64_t smaxv(int t) { return sizeOf(t) == 8 ? INT64_MAX : (1ll << (8 * sizeOf(t) - 1)) - 1; }

// A value of integer type t, as sign-extended 64 bits; boundaries are favoured
static uint64_t anyInt(Src& s, int t) {
    if (isSigned(t)) {
        int64_t lo = smin(t), hi = smaxv(t);
        switch (s.weighted({4, 2, 2, 2, 6})) {
            case 0: return (uint64_t)(int64_t)s.range(0, 9);
            case 1: return (uint64_t)(lo + (int64_t)s.draw(2));
            case 2: return (uint64_t)(hi - (int64_t)s.draw(2));
            case 3: return (uint64_t)(-(int64_t)s.draw(9) - 1);
            default: return (uint64_t)(lo + (int64_t)s.draw(tmax(t))) ;
        }
    }
    switch (s.weighted({4, 2, 2, 6})) {
        case 0: return s.draw(9);
        case 1: return tmax(t) - s.draw(2);
        case 2: return (tmax(t) >> 1) + s.draw(1);
        default: return s.draw(tmax(t));
    }
}

void Gen::trans(Field& f) {
    bool fl = isFloat(f.t), dy = F.dyadic || fl;
    Trans& t = f.tr;
    size_t k = s.weighted({3, 2, 2, 2, 2, 2, 2});
    if (k == 0) {
        t.k = Trans::SCALE;
        static const double fs[] = {2, 0.5, 0.25, 4, 8, -2, 0.125, 1};
        t.hasF = s.chance(4, 5) ; if (t.hasF) t.f = fs[s.draw(7)];
        t.hasO = !t.hasF || s.chance(1, 2); if (t.hasO) t.o = (double)s.range(-200, 200) * 0.5;
        if (!dy && t.hasF) t.f = (double)(1 + s.draw(4000)) / 1000.0 * (s.chance(1, 4) ? -1 : 1);
        if (!dy && t.hasO) t.o = (double)s.range(-50000, 50000) / 100.0;
        if (f.t == U64 || f.t == I64) f.maxv = 1ull << 40;
    } else if (k <= 4) {
        t.k = k == 1 ? Trans::ADD : k == 2 ? Trans::SUB : k == 3 ? Trans::MUL : Trans::DIV;
        t.iv = s.chance(1, 8) ? s.range(-100000000000ll, 100000000000ll) : s.range(1, 200) * (s.chance(1, 4) ? -1 : 1);
        if (fl) t.iv = s.range(1, 50);
        if (f.t == U64 || f.t == I64) f.maxv = 1ull << 20;
    } else if (k == 5) {
        t.k = Trans::POLY;
        t.pts.push_back((double)s.range(-100, 100) * 0.5);
        static const double fs[] = {1, 2, 0.5, 4, -1, -2, 8, 0.25};
        t.pts.push_back(fs[s.draw(7)]);
        if (f.t == U64 || f.t == I64) f.maxv = 1ull << 30;
        if (!dy) { // increasing over the raw values, so that there is one inverse
            t.pts[1] = (double)s.draw(3000) / 1000.0; int n = (int)s.draw(4);
            for (int i = 0; i < n; i++) t.pts.push_back(isSigned(f.t) && i % 2 == 0 ? 0 : (double)s.draw(100) / 1000.0);
            bool flat = true; for (size_t i = 1; i < t.pts.size(); i++) if (t.pts[i] != 0) flat = false;
            if (flat || (isSigned(f.t) && t.pts[1] == 0)) t.pts[1] = 0.125;
            if (n && f.maxv > 70000) f.maxv = 70000;
        }
    } else {
        t.k = Trans::SPLINE;
        int n = 2 + (int)s.draw(dy ? 3 : 14);
        double x = 0; int64_t y = s.range(-50, 50) * 100; bool inc = s.chance(3, 4);
        uint64_t top = isSigned(f.t) ? (uint64_t)smaxv(f.t == F32 || f.t == F64 ? I16 : f.t) : tmax(fl ? U16 : f.t);
        if (top > 100000) top = 100000;
        for (int i = 0; i < n; i++) {
            t.pts.push_back(x); t.pts.push_back((double)y / 100.0);
            double dx = (double)(1 << (1 + s.draw(3)));
            if (x + dx > (double)top) break;
            x += dx; y += (inc ? 1 : -1) * (int64_t)(1 + s.draw(12)) * (dy ? 100 : 37);
        }
        f.maxv = (uint64_t)t.pts[t.pts.size() - 2];
    }
}

void Gen::constraint(Field& f) {
    if (isInt(f.t)) {
        f.hasRange = true;
        uint64_t a = anyInt(s, f.t), b = anyInt(s, f.t);
        if (s.chance(1, 10)) b = a;
        if (isSigned(f.t) ? (int64_t)a > (int64_t)b : a > b) std::swap(a, b);
        f.lo = a; f.hi = b;
        f.hints = {a, b, a + 1, b - 1};
        f.hints.erase(std::remove_if(f.hints.begin(), f.hints.end(), [&](uint64_t v) { return isSigned(f.t) ? (int64_t)v < (int64_t)a || (int64_t)v > (int64_t)b : v < a || v > b; }), f.hints.end());
    } else if (isFloat(f.t)) {
        f.hasRange = true;
        double a = (double)s.range(-8000, 8000) / 8.0, b = (double)s.range(-8000, 8000) / 8.0; if (a > b) std::swap(a, b);
        f.flo = a; f.fhi = b;
    }
}

Field Gen::field(Scope& sc) {
    Field f; f.name = fresh(sc);
    int fo = F.focus;
    unsigned wInt = 10, wFl = F.floats ? 3 : 0, wBool = 2, wStr = F.strings ? 3 : 0, wEn = F.enums && !S.enums.empty() ? 3 : 0, wSt = F.structs && !S.structs.empty() && sc.depth < F.depth ? 3 : 0,
        wBit = F.bits ? 4 : 0, wCrc = F.crc ? 1 : 0, wEx = F.expr ? 2 : 0;
    if (fo == FO_CRC) wCrc = 5;
    if (fo == FO_EXPR) wEx = 8;
    if (fo == FO_STR) wStr = 12;
    if (fo == FO_STRUCT) wSt *= 4;
    if (fo == FO_BITS) wBit = 16;
    if (fo == FO_RANGE) { wEn *= 2; wFl *= 2; }
    size_t k = s.weighted({wInt, wFl, wBool, wStr, wEn, wSt, wBit, wCrc, wEx});
    auto maybeEndian = [&]() { if (F.endian && s.chance(fo == FO_ENDIAN ? 1 : 1, fo == FO_ENDIAN ? 2 : 6)) f.endian = 1 + (int)s.draw(1); };
    switch (k) {
        case 0: {
            f.t = (int)s.draw(7);
            size_t m = s.weighted({6, F.consts ? 2u : 0u, F.ranges ? (fo == FO_RANGE ? 8u : 2u) : 0u, F.trans ? (fo == FO_TRANS ? 12u : 2u) : 0u});
            if (m == 1) { f.hasConst = true; f.isMatch = s.chance(1, 3); f.cval = anyInt(s, f.t); if (!isSigned(f.t) && sizeOf(f.t) < 8) f.cval &= tmax(f.t); }
            else if (m == 2) constraint(f);
            else if (m == 3) trans(f);
            maybeEndian(); break; }
        case 1: f.t = F32 + (int)s.draw(1); { size_t m = s.weighted({5, F.ranges ? 2u : 0u, F.trans ? (fo == FO_TRANS ? 6u : 1u) : 0u}); if (m == 1) constraint(f); else if (m == 2) trans(f); } maybeEndian(); break;
        case 2: f.t = BOOL; break;
        case 3: {
            f.t = STR; f.sk = (Field::SK)s.draw(3);
            if (f.sk == Field::S_NULL) { f.hasUntil = s.chance(2, 3); f.hasMax = s.chance(2, 3); if (f.hasMax) f.smax = s.chance(1, 10) ? (int)s.range(250, 300) : (int)s.draw(12); }
            else maybeEndian();
            break; }
        case 4: f.t = ENUM; f.ref = (int)s.draw(S.enums.size() - 1); maybeEndian(); break;
        case 5: {
            f.t = STRUCT; f.ref = (int)s.draw(S.structs.size() - 1);
            bool plain = !S.structs[f.ref].unaligned && !blockHas(S, S.structs[f.ref].b, [&](const Field& x) { return x.endian != 0 || x.bits != 0 || (x.t == STRUCT && S.structs[x.ref].unaligned); });
            if (plain) maybeEndian();
            break; }
        case 6:
            f.t = (int)s.weighted({3, 2, 2, 2, 2, 2, 2, 2, 0, 0, 2});
            f.bits = f.t == BOOL ? 1 : 1 + (int)s.draw(8 * sizeOf(f.t) - 1);
            break;
        case 7: {
            bool w32 = s.chance(1, 2); f.t = w32 ? U32 : U16; Crc& c = f.crc; c.width = w32 ? 32 : 16;
            uint64_t m = w32 ? 0xFFFFFFFF : 0xFFFF;
            c.hasPoly = s.chance(1, 3); c.hasInit = s.chance(1, 3); c.hasXor = s.chance(1, 3); c.refin = s.chance(1, 3); c.refout = s.chance(1, 3);
            c.poly = (uint32_t)(s.draw(m) | 1); c.init = (uint32_t)s.draw(m); c.xo = (uint32_t)s.draw(m); c.crcLast = s.chance(1, 3);
            maybeEndian(); return f; }
        case 8: {
            bool fl = F.floats && s.chance(1, 4);
            if (fl) { f.t = F32 + (int)s.draw(1); f.expr = fltExpr(sc, 1 + (int)s.draw(3)); if (f.expr->k == Expr::REF) { auto e = std::make_shared<Expr>(); e->k = Expr::CALL; e->s = "abs"; e->flt = true; e->a = {f.expr}; f.expr = e; } }
            else { f.t = (int)s.draw(7); if (s.chance(1, 12)) f.t = BOOL; f.expr = intExpr(sc, 1 + (int)s.draw(3)); }
            maybeEndian(); return f; }
    }
    // arrays
    if (F.arrays && s.chance(fo == FO_ARRAY ? 3 : 1, fo == FO_ARRAY ? 4 : 5)) {
        bool ok = true; size_t em = fieldMin(S, f), ex = fieldMaxBits(S, f);
        if (em == 0 || ex > 1200) ok = false;
        if (f.t == STRUCT && blockHas(S, S.structs[f.ref].b, [&](const Field& x) { return x.opt; })) ok = false;
        if (ok) {
            bool canPre = f.t != STR; // a prefix keyword on a variable string array means the array
            size_t m = s.weighted({4, canPre ? 3u : 0u, canPre ? 2u : 0u, canPre ? 2u : 0u});
            if (f.t == STR && f.sk == Field::S_NULL) f.hasUntil = true;
            if (m == 0) { f.ak = Field::A_FIXED; f.acount = (uint32_t)s.draw(ex < 100 ? 6 : 3); if (s.chance(1, 10) && ex <= 16) f.acount = 250 + (uint32_t)s.draw(20); f.countDeco = s.chance(1, 4); }
            else { f.ak = m == 1 ? Field::A_PRE8 : m == 2 ? Field::A_PRE16 : Field::A_PRE32; f.maxcount = ex < 100 ? 6 : 3; if (s.chance(1, 10) && ex <= 16) f.maxcount = 270; }
            if (f.bits && f.endian == 0) { }
        }
    }
    return f;
}

static ExprP mk(Expr::K k) { auto e = std::make_shared<Expr>(); e->k = k; return e; }
ExprP Gen::intExpr(Scope& sc, int d) {
    std::vector<const Ref*> r; for (auto& x : sc.refs) if (x.t != F64) r.push_back(&x);
    size_t k = d <= 0 ? s.weighted({3, r.empty() ? 0u : 5u, 1, 0, 0, 0, 0}) : s.weighted({2, r.empty() ? 0u : 3u, 1, 3, 12, F.floats ? 2u : 0u, F.floats ? 2u : 0u});
    ExprP e;
    switch (k) {
        case 0: e = mk(Expr::INT); e->i = s.weighted({6, 2, 1, 1}) == 0 ? s.draw(20) : s.chance(1, 2) ? s.draw(70000) : s.chance(1, 2) ? s.u64() : (uint64_t)(-(int64_t)s.draw(1000)); break;
        case 1: e = mk(Expr::REF); e->s = r[s.draw(r.size() - 1)]->name; break;
        case 2: e = mk(Expr::BOOLL); e->i = s.draw(1); break;
        case 3: { e = mk(Expr::UN); static const char* u[] = {"-", "!", "~"}; e->s = u[s.draw(2)]; e->a = {intExpr(sc, d - 1)}; break; }
        case 4: {
            e = mk(Expr::BIN); static const char* b[] = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "&&", "||"};
            e->s = b[s.draw(17)]; ExprP l = intExpr(sc, d - 1), rr;
            if (e->s == "<<" || e->s == ">>") { rr = mk(Expr::INT); rr->i = s.draw(63); if (s.chance(1, 5)) rr = intExpr(sc, d - 1); }
            else rr = intExpr(sc, d - 1);
            e->a = {l, rr}; break; }
        case 5: {
            e = mk(Expr::BIN); static const char* b[] = {"==", "!=", "<", "<=", ">", ">="}; e->s = b[s.draw(5)];
            ExprP l = fltExpr(sc, d - 1), r2 = fltExpr(sc, d - 1);
            if (l->k == Expr::REF) { auto c = mk(Expr::CALL); c->s = "abs"; c->flt = true; c->a = {l}; l = c; }
            e->a = {l, r2}; break; }
        default: e = mk(Expr::CALL); e->s = "int"; e->a = {fltExpr(sc, d - 1)}; break;
    }
    e->parens = s.chance(1, 12);
    return e;
}
ExprP Gen::fltExpr(Scope& sc, int d) {
    std::vector<const Ref*> r; for (auto& x : sc.refs) if (x.t == F64) r.push_back(&x);
    size_t k = d <= 0 ? s.weighted({4, r.empty() ? 0u : 3u, 0, 0, 0, 2}) : s.weighted({3, r.empty() ? 0u : 2u, 2, 8, 4, 3});
    ExprP e;
    switch (k) {
        case 0: e = mk(Expr::FLT); e->d = (double)s.draw(4000) / 8.0; if (s.chance(1, 6)) e->d = -e->d; break;
        case 1: e = mk(Expr::REF); e->s = r[s.draw(r.size() - 1)]->name; break;
        case 2: { e = mk(Expr::UN); e->s = "-"; ExprP x = fltExpr(sc, d - 1); if (x->k == Expr::REF) { auto c = mk(Expr::CALL); c->s = "abs"; c->flt = true; c->a = {x}; x = c; } e->a = {x}; break; }
        case 3: {
            e = mk(Expr::BIN); static const char* b[] = {"+", "-", "*", "/"}; e->s = b[s.draw(3)];
            ExprP l = fltExpr(sc, d - 1), r2 = fltExpr(sc, d - 1);
            if (l->k == Expr::REF) { auto c = mk(Expr::CALL); c->s = "abs"; c->flt = true; c->a = {l}; l = c; }
            if (s.chance(1, 4)) { // mixed operands: the integer one is converted
                ExprP i = mk(Expr::INT); i->i = s.draw(50); if (s.chance(1, 3)) { auto q = mk(Expr::BIN); q->s = "+"; auto j = mk(Expr::INT); j->i = s.draw(9); q->a = {i, j}; q->parens = true; i = q; }
                if (s.chance(1, 2)) { l = i; if (r2->k == Expr::REF) { auto c = mk(Expr::CALL); c->s = "abs"; c->flt = true; c->a = {r2}; r2 = c; } } else r2 = i;
            }
            e->a = {l, r2}; break; }
        case 4: { e = mk(Expr::CALL); static const char* f[] = {"abs", "sqrt", "sin", "cos", "tan", "log", "pow"}; size_t i = s.draw(6); e->s = f[i]; e->a = {fltExpr(sc, d - 1)}; if (i == 6) e->a.push_back(fltExpr(sc, d - 1));
            for (auto& x : e->a) if (s.chance(1, 8)) { x = mk(Expr::INT); x->i = s.draw(30); }
            break; }
        default: e = mk(Expr::CALL); e->s = "float"; e->a = {intExpr(sc, d - 1)}; break;
    }
    e->flt = true;
    e->parens = s.chance(1, 14) && e->k != Expr::REF;
    return e;
}

Stmt Gen::switchStmt(Scope& sc, int depth) {
    // the caller has just appended the discriminator field; it is the last reference in scope
    Stmt st; st.k = Stmt::SWITCH; const Ref& r = sc.refs.back(); st.sref = r.name; st.sEnum = r.en;
    size_t n = s.weighted({1, 6, 1}) == 0 ? s.draw(1) : s.chance(1, 10) ? 10 + s.draw(30) : 1 + s.draw(7);
    int t = r.t; uint64_t base = 0; size_t style = s.draw(3);
    if (r.en >= 0) {
        auto& e = S.enums[r.en]; std::vector<int> idx; for (size_t i = 0; i < e.vals.size(); i++) idx.push_back((int)i);
        for (size_t i = 0; i < n && !idx.empty(); i++) { size_t j = s.draw(idx.size() - 1); st.cases.push_back((uint64_t)e.vals[idx[j]].second); st.caseNames.push_back(e.name + "." + e.vals[idx[j]].first); idx.erase(idx.begin() + j); }
    } else {
        base = style == 0 ? s.draw(4) : anyInt(s, t);
        for (size_t i = 0; i < n; i++) {
            uint64_t v = style <= 1 ? base + i : style == 2 ? base + s.draw(270) : anyInt(s, t);
            if (std::find(st.cases.begin(), st.cases.end(), v) == st.cases.end()) { st.cases.push_back(v); st.caseNames.push_back(""); }
        }
        if (s.chance(1, 3)) for (size_t i = st.cases.size(); i > 1; i--) { size_t j = s.draw(i - 1); std::swap(st.cases[i - 1], st.cases[j]); }
    }
    size_t nref = sc.refs.size();
    bool mb = sc.mayBits;
    for (size_t i = 0; i < st.cases.size(); i++) { st.bodies.push_back(st.cases.size() > 10 ? block(sc, 1, 0) : block(sc, (int)s.draw(2), depth - 1)); sc.refs.resize(nref); }
    if (s.chance(1, 2) || st.cases.empty()) { st.defPos = (int)s.draw(st.cases.size()); st.defBody = block(sc, (int)s.draw(2), depth - 1); sc.refs.resize(nref); }
    sc.mayBits = mb;
    return st;
}
Stmt Gen::ifStmt(Scope& sc, int depth) {
    Stmt st; st.k = Stmt::IF; size_t nref = sc.refs.size();
    size_t n = 1 + s.weighted({5, 2, 1});
    for (size_t i = 0; i < n; i++) { st.conds.push_back(intExpr(sc, 1 + (int)s.draw(2))); st.bodies.push_back(block(sc, (int)s.draw(2), depth - 1)); sc.refs.resize(nref); }
    st.hasElse = s.chance(1, 2); if (st.hasElse) { st.defBody = block(sc, (int)s.draw(2), depth - 1); sc.refs.resize(nref); }
    return st;
}

Block Gen::block(Scope& sc, int maxStmts, int depth) {
    Block b; bool open = true; // true: a partial byte may be pending here
    if (sc.packet && depth == F.depth) open = false;
    size_t n = (size_t)maxStmts;
    auto close = [&]() { if (open) { Stmt x; x.k = Stmt::FILL; x.n = (int)s.draw(1); b.push_back(x); open = false; } };
    auto addRef = [&](Field& f) {
        if (f.ak != Field::A_NONE || f.opt || f.tr.k != Trans::NONE || f.crc.width) return;
        if (f.expr) { sc.refs.push_back({f.name, f.expr->flt ? F64 : U64, nullptr, -1}); return; }
        if (isInt(f.t) || f.t == BOOL) sc.refs.push_back({f.name, f.t, nullptr, -1});
        else if (f.t == ENUM) sc.refs.push_back({f.name, S.enums[f.ref].under, nullptr, f.ref});
        else if (f.t == STRUCT && F.dotted) for (auto& st : S.structs[f.ref].b) if (st.k == Stmt::FIELD && st.f.ak == Field::A_NONE && !st.f.opt && st.f.tr.k == Trans::NONE && !st.f.crc.width && !st.f.expr && (isInt(st.f.t) || st.f.t == BOOL)) sc.refs.push_back({f.name + "." + st.f.name, st.f.t, nullptr, -1});
    };
    for (size_t i = 0; i < n; i++) {
        int fo = F.focus;
        unsigned wIf = F.ifs && depth > 0 && sc.refs.size() ? (fo == FO_CTRL ? 4 : 1) : 0, wSw = F.switches && depth > 0 ? (fo == FO_CTRL ? 6 : 1) : 0, wDyn = F.arrays ? (fo == FO_ARRAY ? 3 : 1) : 0, wPad = F.pads && F.bits ? 1 : 0;
        size_t k = s.weighted({12, wIf, wSw, wDyn, wPad});
        if (k == 0) {
            Field f = field(sc);
            bool un = f.t == STRUCT && S.structs[f.ref].unaligned;
            bool deepUn = f.t == STRUCT && blockHas(S, S.structs[f.ref].b, [&](const Field& x) { return x.t == STRUCT && S.structs[x.ref].unaligned; });
            if (f.ak == Field::A_NONE && (un || deepUn)) close();
            if (F.endian && f.bits && f.bits % 8 == 0 && f.ak == Field::A_NONE && s.chance(1, 6)) { close(); f.endian = 1 + (int)s.draw(1); }
            bool leaves = f.bits != 0 || (f.t == STRUCT && blockHas(S, S.structs[f.ref].b, [](const Field& x) { return x.bits != 0; })) || (f.t == STRUCT);
            if (f.ak != Field::A_NONE) open = false; else if (leaves) open = true; else open = false;
            if (f.t == STRUCT && f.ak == Field::A_NONE && un) open = false;
            addRef(f);
            Stmt st; st.f = f; b.push_back(st);
        } else if (k == 1) { b.push_back(ifStmt(sc, depth)); open = true; }
        else if (k == 2) {
            Field f; f.name = fresh(sc);
            if (F.enums && !S.enums.empty() && s.chance(1, 3)) { f.t = ENUM; f.ref = (int)s.draw(S.enums.size() - 1); open = false; }
            else { f.t = (int)s.draw(7); if (F.bits && s.chance(1, 6)) { f.bits = 2 + (int)s.draw(6); f.t = U8; } open = f.bits != 0; if (!f.bits && F.endian && s.chance(1, 6)) f.endian = 1 + (int)s.draw(1); }
            size_t at = b.size(); Stmt fs; fs.f = f; b.push_back(fs); addRef(f);
            Stmt sw = switchStmt(sc, depth);
            if (f.bits) { for (auto& c : sw.cases) c &= (1u << f.bits) - 1; std::vector<uint64_t> u; std::vector<Block> bb; std::vector<std::string> nn;
                for (size_t q = 0; q < sw.cases.size(); q++) if (std::find(u.begin(), u.end(), sw.cases[q]) == u.end()) { u.push_back(sw.cases[q]); bb.push_back(sw.bodies[q]); nn.push_back(sw.caseNames[q]); }
                sw.cases = u; sw.bodies = bb; sw.caseNames = nn; if (sw.defPos > (int)u.size()) sw.defPos = (int)u.size(); }
            for (auto c : sw.cases) { // only values the discriminator's type can carry
                bool fits = f.bits ? true : f.t == ENUM ? true : isSigned(f.t) ? ((int64_t)c >= smin(f.t) && (int64_t)c <= smaxv(f.t)) : c <= tmax(f.t);
                if (fits) b[at].f.hints.push_back(c);
            }
            if (b[at].f.hints.size() > 64) b[at].f.hints.resize(64);
            b.push_back(sw); open = true;
        } else if (k == 3) {
            Field c; c.name = fresh(sc); c.t = (int)s.draw(7); c.maxv = 5; if (F.endian && s.chance(1, 6)) c.endian = 1 + (int)s.draw(1);
            if (F.bits && s.chance(1, 6)) { c.bits = 3 + (int)s.draw(3); c.t = U8; c.endian = 0; }
            Stmt cs; cs.f = c; b.push_back(cs); addRef(c);
            open = c.bits != 0;
            bool fa = F.arrays; F.arrays = false; int fo2 = F.focus; unsigned hb = F.bits; (void)hb; Field f = field(sc); F.arrays = fa; F.focus = fo2;
            if (f.crc.width || f.expr || fieldMin(S, f) == 0 || fieldMaxBits(S, f) > 1500 || (f.t == STRUCT && blockHas(S, S.structs[f.ref].b, [&](const Field& x) { return x.opt; }))) { std::string nm = f.name; f = Field(); f.name = nm; f.t = (int)s.draw(7); }
            if (f.t == STR && f.sk == Field::S_NULL) f.hasUntil = true;
            f.ak = Field::A_DYN; f.aref = c.name; f.maxcount = 5; open = false;
            Stmt st; st.f = f; b.push_back(st);
        } else { Stmt st; if (s.chance(1, 3)) { st.k = Stmt::FILL; st.n = (int)s.draw(1); open = false; } else { st.k = Stmt::PAD; st.n = 1 + (int)s.draw(s.chance(1, 4) ? 24 : 9); open = true; } b.push_back(st); }
    }
    return b;
}

void Gen::unalignedStruct(StructDef& d) {
    d.unaligned = true; Scope sc; int cnt = 0;
    size_t n = 1 + s.draw(5);
    for (size_t i = 0; i < n; i++) {
        Stmt st; size_t k = s.weighted({8, 1, 1});
        if (k == 0) {
            Field& f = st.f; f.name = fresh(sc); f.t = (int)s.weighted({4, 2, 2, 1, 2, 2, 1, 1, 0, 0, 2});
            f.implicitBits = s.chance(1, f.t == BOOL ? 2 : 6); if (f.t == BOOL) f.bits = 1; else if (f.implicitBits) f.bits = 8 * sizeOf(f.t); else f.bits = 1 + (int)s.draw(8 * sizeOf(f.t) - 1);
            int w = f.bits;
            if (F.endian && cnt % 8 == 0 && w % 8 == 0 && s.chance(1, 5)) f.endian = 1 + (int)s.draw(1);
            cnt += w;
        } else if (k == 1) { st.k = Stmt::PAD; st.n = 1 + (int)s.draw(8); cnt += st.n; }
        else { st.k = Stmt::FILL; st.n = (int)s.draw(1); cnt = 0; }
        d.b.push_back(st);
    }
    if (cnt % 8) {
        Stmt st; int need = 8 - cnt % 8;
        switch (s.draw(2)) { case 0: st.k = Stmt::FILL; st.n = (int)s.draw(1); break; case 1: st.k = Stmt::PAD; st.n = need; break; default: st.f.name = fresh(sc); st.f.t = U8; st.f.bits = need; }
        d.b.push_back(st);
    }
    if (minBits(S, d.b) == 0) { Stmt st; st.f.name = fresh(sc); st.f.t = U8; st.f.bits = 8; d.b.push_back(st); }
}

// Adds one thing of a size near a limit that ordinary schemas stay far from
void Gen::bigThing() {
    std::vector<int> ks; for (int i = 0; i < 7; i++) if (F.big >> i & 1) ks.push_back(i);
    int k = ks[s.draw(ks.size() - 1)]; Block add;
    auto u8 = [](std::string n) { Stmt st; st.f.name = n; return st; };
    if (k == 0) { size_t n = 240 + s.draw(80); for (size_t i = 0; i < n; i++) add.push_back(u8(strf("w%zu", i))); }
    else if (k == 1) {
        Stmt st; Field& f = st.f; f.name = "w0"; f.big = true; f.t = (int)s.weighted({4, 3, 1, 1, 2, 1, 1, 1, 0, 0, 1});
        if (s.chance(1, 3)) { f.hasRange = isInt(f.t); f.lo = isSigned(f.t) ? (uint64_t)smin(f.t) : 0; f.hi = isSigned(f.t) ? (uint64_t)smaxv(f.t) : tmax(f.t); }
        else if (F.bits && isInt(f.t) && s.chance(1, 3)) f.bits = 1 + (int)s.draw(6);
        size_t m = s.weighted({3, 2, 1, 1, F.eof && !S.hasEof ? 1u : 0u}); f.maxcount = 65530 + (uint32_t)s.draw(12);
        if (m == 0) { f.ak = Field::A_PRE16; f.maxcount = 65535 - (uint32_t)s.draw(3); }
        else if (m == 1) f.ak = Field::A_PRE32;
        else if (m == 2) { f.ak = Field::A_FIXED; f.acount = f.maxcount; }
        else if (m == 3) { Stmt c = u8("w1"); c.f.t = s.chance(1, 2) ? U32 : U64; if (s.chance(1, 3)) { c.f.t = U16; f.maxcount = 65535; } c.f.hints = {f.maxcount}; c.f.maxv = f.maxcount; f.ak = Field::A_DYN; f.aref = "w1"; add.push_back(c); }
        else { f.ak = Field::A_EOF; S.hasEof = true; S.packet.push_back(st); return; }
        add.push_back(st);
    } else if (k == 2) {
        Stmt st; Field& f = st.f; f.name = "w0"; f.big = true; f.t = STR; f.sk = (Field::SK)s.weighted({2, 0, 2, 1});
        if (f.sk == Field::S_NULL) { f.hasMax = true; f.smax = 65535 - (int)s.draw(s.chance(1, 3) ? 33000 : 3); f.hasUntil = s.chance(1, 2); }
        add.push_back(st);
    } else if (k == 3) {
        // `huge`: the values (64-bit enum) or the branch table take more than 64 KiB
        Stmt d = u8("w"); bool huge = s.chance(1, 5); size_t n = 250 + s.draw(50); d.f.t = s.chance(1, 2) ? U16 : I32; Stmt sw; sw.k = Stmt::SWITCH; sw.sref = "w"; bool en = F.enums && s.chance(1, 2); size_t style = s.draw(2);
        if (huge) n = (en ? 8193 : 5461) + s.draw(60);
        if (en) { EnumDef e; e.name = "WE"; e.show = true; e.under = huge ? s.chance(1, 2) ? U64 : I64 : s.chance(1, 2) ? U16 : I32; for (size_t i = 0; i < n; i++) e.vals.push_back({strf("W%zu", i), (int64_t)(style == 1 ? i * 7 : i)}); S.order.push_back(-1 - (int)S.enums.size()); d.f.t = ENUM; d.f.ref = (int)S.enums.size(); S.enums.push_back(e); sw.sEnum = d.f.ref; }
        add.push_back(d);
        if (!en || (!huge && s.chance(2, 3))) {
            size_t at = s.draw(n - 1);
            for (size_t i = 0; i < n; i++) { uint64_t v = style == 1 ? i * 7 : i; sw.cases.push_back(v); sw.caseNames.push_back(en ? strf("WE.W%zu", i) : ""); Block b; if (i % 3 == 0 || i == at) b.push_back(u8(strf("w%zu", i))); sw.bodies.push_back(b); }
            add[0].f.hints = {n ? sw.cases[at] : 0, sw.cases[n - 1], sw.cases[n / 2], 0};
            if (s.chance(1, 2)) { sw.defPos = (int)s.draw(n); sw.defBody.push_back(u8("wd")); }
            add.push_back(sw);
        }
    } else if (k == 5) {
        auto cond = [&](const char* op, uint64_t v) { auto ref = std::make_shared<Expr>(); ref->k = Expr::REF; ref->s = "w"; auto one = std::make_shared<Expr>(); one->i = (int64_t)v; auto e = std::make_shared<Expr>(); e->k = Expr::BIN; e->s = op; e->a = {ref, one}; return e; };
        size_t D = 4 + s.draw(36); bool types = F.structs && s.chance(2, 3); bool plain = types && s.chance(1, 2); size_t loops = 0, prod = 1, lens = s.draw(3);
        Block in; in.push_back(u8("w")); in[0].f.hints = {0, 1, D, D / 2};
        for (size_t i = 0; i < D; i++) {
            Block out; out.push_back(u8("w")); out[0].f.hints = {0, 1, D, D / 2}; Stmt st; std::string nm = std::string(lens == 3 ? 1 + s.draw(59) : 1, 'n') + strf("%zu", i);
            if (types) { // a structure in a structure
                StructDef d; d.name = strf("WS%zu", i); d.b = in; S.order.push_back((int)S.structs.size()); st.f.name = nm; st.f.t = STRUCT; st.f.ref = (int)S.structs.size(); S.structs.push_back(d);
                if (loops < 7 && prod < 40 && F.arrays && s.chance(1, 3)) { loops++; if (s.chance(1, 2)) { st.f.ak = Field::A_FIXED; st.f.acount = 1 + (uint32_t)s.draw(1); prod *= st.f.acount; } else { st.f.ak = Field::A_PRE8; st.f.maxcount = 2; prod *= 2; } }
            }
            Block nest; if (types) nest.push_back(st); else { nest = in; nest.erase(nest.begin()); Stmt x = u8(nm); nest.insert(nest.begin() + (long)s.draw(nest.size()), x); }
            size_t how = plain ? 0 : types ? s.weighted({5, F.ifs ? 1u : 0u, F.switches ? 1u : 0u}) : F.ifs && (!F.switches || s.chance(1, 2)) ? 1 : F.switches ? 2 : 0;
            if (how == 0) out.insert(out.end(), nest.begin(), nest.end());
            else if (how == 1) { Stmt br; br.k = Stmt::IF; br.conds.push_back(cond(s.chance(1, 2) ? ">=" : "!=", s.draw(D))); br.hasElse = s.chance(1, 2); bool sw = br.hasElse && s.chance(1, 4); Block oth; if (br.hasElse) oth.push_back(u8(nm + "e")); br.bodies.push_back(sw ? oth : nest); if (br.hasElse) br.defBody = sw ? nest : oth; out.push_back(br); }
            else { Stmt br; br.k = Stmt::SWITCH; br.sref = "w"; size_t m = 1 + s.draw(5), at = s.draw(m); for (size_t q = 0; q < m; q++) { br.cases.push_back(q * (1 + D % 3)); br.caseNames.push_back(""); Block b; if (q == at) b = nest; br.bodies.push_back(b); } if (at == m || s.chance(1, 3)) { br.defPos = (int)s.draw(m); if (at == m) br.defBody = nest; } out.push_back(br); }
            if (s.chance(1, 4)) out.push_back(u8(nm + "z"));
            in = out;
        }
        add = in;
    } else if (k == 6) {
        size_t n = 20 + s.draw(130);
        for (size_t i = 0; i < n; i++) {
            Stmt st = u8(strf("w%zu", i));
            if (F.enums && s.chance(1, 2)) { EnumDef e; e.name = strf("WE%zu", i); e.show = s.chance(1, 2); e.under = e.show ? (int)s.draw(7) : U32; size_t m = 1 + s.draw(3); for (size_t q = 0; q < m; q++) e.vals.push_back({strf("W%zu", q), (int64_t)(q * (i % 5 + 1))}); st.f.t = ENUM; st.f.ref = (int)S.enums.size(); S.order.push_back(-1 - st.f.ref); S.enums.push_back(e); }
            else if (F.structs) { StructDef d; d.name = strf("WS%zu", i); size_t m = 1 + s.draw(2); for (size_t q = 0; q < m; q++) { Stmt x = u8(strf("w%zu", q)); x.f.t = (int)s.draw(7); d.b.push_back(x); } st.f.t = STRUCT; st.f.ref = (int)S.structs.size(); S.order.push_back(st.f.ref); S.structs.push_back(d); }
            if (!s.chance(1, 3) || i + 1 == n) add.push_back(st);
        }
    } else {
        Stmt d = u8("w"); d.f.hints = {0, 1, 2}; add.push_back(d); size_t n = 235 + s.draw(40); Block body;
        for (size_t i = 0; i < n; i++) { Stmt st = u8(strf("w%zu", i)); st.f.tr.k = Trans::SPLINE; for (int q = 0; q < 16; q++) { st.f.tr.pts.push_back(q * 4); st.f.tr.pts.push_back(q * (double)(i % 7 + 1)); } st.f.maxv = 60; body.push_back(st); }
        Stmt br; Block other; other.push_back(u8("we"));
        if (s.chance(1, 2)) {
            br.k = Stmt::IF; auto ref = std::make_shared<Expr>(); ref->k = Expr::REF; ref->s = "w"; auto one = std::make_shared<Expr>(); one->i = 1; auto e = std::make_shared<Expr>(); e->k = Expr::BIN; e->s = "=="; e->a = {ref, one};
            br.conds.push_back(e); bool sw = s.chance(1, 2); br.bodies.push_back(sw ? other : body); br.hasElse = true; br.defBody = sw ? body : other;
        } else {
            br.k = Stmt::SWITCH; br.sref = "w"; size_t m = 2 + s.draw(2), at = s.draw(m - 1);
            for (size_t i = 0; i < m; i++) { br.cases.push_back(i); br.caseNames.push_back(""); Block b; b.push_back(u8(strf("v%zu", i))); br.bodies.push_back(i == at ? body : b); }
            br.defPos = (int)s.draw(m); br.defBody = other;
        }
        add.push_back(br);
    }
    size_t n = S.packet.size() - (S.hasEof ? 1 : 0), at = s.draw(n);
    S.packet.insert(S.packet.begin() + (long)at, add.begin(), add.end());
}

// Names of types: often one is the beginning of another or differs from it in one character only
std::string Gen::typeName(char letter, size_t i) {
    std::vector<std::string> have{"P"}; for (auto& e : S.enums) have.push_back(e.name); for (auto& d : S.structs) have.push_back(d.name);
    std::string n = strf("%c%zu", letter, i);
    if (s.chance(1, 2)) {
        std::string o = have[s.draw(have.size() - 1)];
        switch (s.draw(4)) {
            case 0: n = o + (char)('0' + s.draw(9)); break;
            case 1: n = o + "_" + (s.chance(1, 4) ? std::string(1 + s.draw(80), 'n') : "t"); break;
            case 2: n = o.substr(0, o.size() - 1); break;
            case 3: n = o; n.back() = (char)('A' + s.draw(25)); break;
            default: n = o; n[0] = n[0] >= 'a' ? (char)(n[0] - 32) : n[0] == '_' ? 'U' : (char)(n[0] + 32);
        }
    }
    while (n.empty() || std::find(have.begin(), have.end(), n) != have.end() || n == "if") n += letter;
    return n;
}

Schema Gen::schema() {
    if (F.enums) { size_t n = s.weighted({3, 3, 1}); for (size_t i = 0; i < n; i++) {
        EnumDef e; e.name = typeName('E', i); e.show = s.chance(3, 4); e.under = e.show ? (int)s.draw(7) : U32;
        size_t m = 1 + s.draw(s.chance(1, 12) ? 40 : 5); uint64_t next = 0;
        for (size_t j = 0; j < m; j++) {
            uint64_t v = s.chance(2, 3) ? next : anyInt(s, e.under);
            bool dup = isSigned(e.under) ? ((int64_t)v < smin(e.under) || (int64_t)v > smaxv(e.under)) : v > tmax(e.under);
            for (auto& x : e.vals) if ((uint64_t)x.second == v) dup = true;
            if (dup) continue;
            e.vals.push_back({strf(s.chance(1, 5) ? "v_%zu" : "V%zu", j), (int64_t)v}); next = v + 1;
        }
        if (e.vals.empty()) e.vals.push_back({"Z", 0});
        S.enums.push_back(e); } }
    if (F.structs) { size_t n = s.weighted({4, 3, 3, 1}); for (size_t i = 0; i < n; i++) {
        StructDef d; d.name = typeName('S', i);
        if (F.unaligned && F.bits && s.chance(1, 5)) unalignedStruct(d);
        else {
            Scope sc; sc.inStruct = true; sc.depth = 1 + (int)(S.structs.empty() ? 0 : 0);
            int fo = F.focus; d.b = block(sc, 1 + (int)s.draw(3), std::min(F.depth - 1, 1)); F.focus = fo;
            if (blockMaxBits(S, d.b) > 6000) d.b.resize(1);
        }
        S.structs.push_back(d); } }
    for (size_t i = 0; i < S.enums.size(); i++) S.order.push_back(-1 - (int)i);
    for (size_t i = 0; i < S.structs.size(); i++) S.order.push_back((int)i);
    if (F.endian) S.topEndian = (int)s.weighted({5, 3, 1});
    if (s.chance(1, 5)) S.version = (int)s.draw(255);
    if (F.alias && !S.structs.empty() && s.chance(1, 12)) { S.alias = (int)s.draw(S.structs.size() - 1); return S; }
    Scope sc; sc.packet = true;
    if (F.fillers && s.chance(1, 14)) {
        size_t n = 30 + s.draw(60); bool bytes = s.chance(1, 4);
        for (size_t i = 0; i < n; i++) { Stmt st; st.f.name = strf("z%zu", i); sc.used.insert(st.f.name); st.f.t = U8; if (!bytes) st.f.bits = 1; S.packet.push_back(st); }
        Stmt st; st.k = Stmt::FILL; S.packet.push_back(st);
    }
    Block b = block(sc, 1 + (int)s.draw(F.maxFields - 1), F.depth);
    S.packet.insert(S.packet.end(), b.begin(), b.end());
    if (F.eof && F.arrays && s.chance(F.focus == FO_ARRAY ? 3 : 1, 8)) {
        F.arrays = false; Field f = field(sc); F.arrays = true;
        if (f.crc.width || f.expr || fieldMin(S, f) == 0 || fieldMaxBits(S, f) > 2000) { std::string nm = f.name; f = Field(); f.name = nm; f.t = (int)s.draw(7); }
        if (f.t == STR) { f.sk = Field::S_NULL; f.hasUntil = true; }
        f.ak = Field::A_EOF; f.maxcount = 4;
        Stmt st; st.f = f; S.packet.push_back(st); S.hasEof = true;
    }
    if (F.big && (F.sure || s.chance(1, 80))) bigThing();
    return S;
}

Feat featFor(Src& s) { Feat f; f.focus = (int)s.weighted({6, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2}); f.dyadic = !s.chance(1, 3); return f; }

// ------------------------------------------------------------ rendering
static std::string num(uint64_t v, bool sgn, const Style& st) {
    if (st.numbers && st.noise && st.noise->chance(1, 2)) {
        bool neg = sgn && (int64_t)v < 0; uint64_t m = neg ? 0 - v : v;
        std::string h = strf(st.noise->chance(1, 2) ? "%llx" : "%llX", (unsigned long long)m);
        if (st.noise->chance(1, 4)) h = "0" + h;
        return std::string(neg ? "-" : "") + (st.noise->chance(1, 4) ? "0X" : "0x") + h;
    }
    if (sgn) return strf("%lld", (long long)v);
    return strf("%llu", (unsigned long long)v);
}
static std::string dnum(double d) { std::string r = strf("%.12f", d); while (r.size() > 2 && r.back() == '0' && r[r.size() - 2] != '.') r.pop_back(); return r; }
static std::string dnumInt(double d) { if (d == std::floor(d) && std::fabs(d) < 1e9) return strf("%lld", (long long)d); return dnum(d); }
static int prec(const Expr& e) {
    if (e.k == Expr::UN) return 11;
    if (e.k != Expr::BIN) return 12;
    static const std::map<std::string, int> m = {{"||", 1}, {"&&", 2}, {"|", 3}, {"^", 4}, {"&", 5}, {"==", 6}, {"!=", 6}, {"<", 7}, {"<=", 7}, {">", 7}, {">=", 7}, {"<<", 8}, {">>", 8}, {"+", 9}, {"-", 9}, {"*", 10}, {"/", 10}, {"%", 10}};
    return m.at(e.s);
}
typedef std::vector<std::string> V;
static void dotted(V& o, const std::string& n) { size_t p = 0; for (;;) { size_t q = n.find('.', p); o.push_back(n.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; o.push_back("."); p = q + 1; } }
static void ex(V& o, const Expr& e, const Style& st, bool force = false) {
    bool p = e.parens || force; if (p) o.push_back("(");
    switch (e.k) {
        case Expr::INT: { Style q = st; o.push_back(num(e.i, (int64_t)e.i < 0 && (int64_t)e.i > -100000, q)); break; }
        case Expr::FLT: o.push_back(dnum(e.d)); break;
        case Expr::BOOLL: o.push_back(e.i ? "true" : "false"); break;
        case Expr::REF: dotted(o, e.s); break;
        case Expr::UN: o.push_back(e.s); ex(o, *e.a[0], st, prec(*e.a[0]) < 11); break;
        case Expr::BIN: ex(o, *e.a[0], st, prec(*e.a[0]) < prec(e)); o.push_back(e.s); ex(o, *e.a[1], st, prec(*e.a[1]) <= prec(e)); break;
        case Expr::CALL: o.push_back(e.s); o.push_back("("); for (size_t i = 0; i < e.a.size(); i++) { if (i) o.push_back(","); ex(o, *e.a[i], st); } o.push_back(")"); break;
    }
    if (p) o.push_back(")");
}
static void blk(V& o, const Schema& S, const Block& b, const Style& st);
static std::string tname(const Schema& S, const Field& f, const Style& st) {
    if (f.t == ENUM) return S.enums[f.ref].name;
    if (f.t == STRUCT) return S.structs[f.ref].name;
    if (st.synonyms && st.noise) { if (f.t == U8 && st.noise->chance(1, 3)) return "byte"; if (st.noise->chance(1, 2)) return TS[f.t]; }
    return TN[f.t];
}
std::string fieldTypeName(const Schema& S, const Field& f) { return tname(S, f, Style()); }
static void deco(V& o, const char* n, const V& args) { o.push_back("@"); o.push_back(n); o.push_back("("); for (size_t i = 0; i < args.size(); i++) { if (i) o.push_back(","); o.push_back(args[i]); } o.push_back(")"); }
static void fld(V& o, const Schema& S, const Field& f, const Style& st) {
    bool syn = st.synonyms && st.noise;
    auto alt = [&](const char* a, const char* b) { return syn && st.noise->chance(1, 2) ? b : a; };
    if (f.endian) { o.push_back("@"); o.push_back(f.endian == 1 ? alt("big_endian", "be") : alt("little_endian", "le")); }
    if (f.opt) { o.push_back("@"); o.push_back("optional"); }
    if (f.hasConst) deco(o, alt(f.isMatch ? "match" : "const", f.isMatch ? "const" : "match"), {num(f.cval, isSigned(f.t), st)});
    if (f.hasRange) { if (isFloat(f.t)) deco(o, "range", {dnumInt(f.flo), dnumInt(f.fhi)}); else deco(o, "range", {num(f.lo, isSigned(f.t), st), num(f.hi, isSigned(f.t), st)}); }
    const Trans& t = f.tr;
    switch (t.k) {
        case Trans::NONE: break;
        case Trans::SCALE: if (t.hasF) deco(o, "scale", {dnumInt(t.f)}); if (t.hasO) deco(o, "offset", {dnumInt(t.o)}); break;
        case Trans::ADD: deco(o, "add", {num((uint64_t)t.iv, true, st)}); break;
        case Trans::SUB: deco(o, "sub", {num((uint64_t)t.iv, true, st)}); break;
        case Trans::MUL: deco(o, "mul", {num((uint64_t)t.iv, true, st)}); break;
        case Trans::DIV: deco(o, "div", {num((uint64_t)t.iv, true, st)}); break;
        case Trans::POLY: case Trans::SPLINE: { V a; for (double d : t.pts) a.push_back(dnumInt(d)); deco(o, t.k == Trans::POLY ? "poly" : "spline", a); break; }
    }
    if (f.crc.width) {
        const Crc& c = f.crc; if (!c.crcLast) deco(o, "crc", {num(c.width, false, st)});
        if (c.hasPoly) deco(o, "crc_poly", {num(c.poly, false, st)});
        if (c.refin) { o.push_back("@"); o.push_back("crc_refin"); }
        if (c.hasInit) deco(o, "crc_init", {num(c.init, false, st)});
        if (c.hasXor) deco(o, "crc_xor", {num(c.xo, false, st)});
        if (c.refout) { o.push_back("@"); o.push_back("crc_refout"); }
        if (c.crcLast) deco(o, "crc", {num(c.width, false, st)});
    }
    if (f.expr) { o.push_back("@"); o.push_back("expr"); o.push_back("("); ex(o, *f.expr, st); o.push_back(")"); }
    if (f.ak == Field::A_DYN) deco(o, alt("count", "len"), {f.aref});
    if (f.ak == Field::A_FIXED && f.countDeco) deco(o, alt("count", "len"), {num(f.acount, false, st)});
    if (f.ak == Field::A_EOF) { o.push_back("@"); o.push_back("eof"); }
    o.push_back(tname(S, f, st)); o.push_back(f.name);
    if (f.bits && !f.implicitBits) { o.push_back(":"); o.push_back(num(f.bits, false, st)); }
    if (f.ak != Field::A_NONE) { o.push_back("["); if (f.ak == Field::A_FIXED && !f.countDeco) o.push_back(num(f.acount, false, st)); o.push_back("]"); }
    auto pre = [&](int w) { o.push_back("prefix"); o.push_back(w == 0 ? alt("uint8", "u8") : w == 1 ? alt("uint16", "u16") : alt("uint32", "u32")); };
    if (f.ak >= Field::A_PRE8 && f.ak <= Field::A_PRE32) pre(f.ak - Field::A_PRE8);
    else if (f.t == STR) { if (f.sk) pre(f.sk - Field::S_P8); else { if (f.hasUntil) { o.push_back("until"); o.push_back(num(0, false, st)); } if (f.hasMax) { o.push_back("max"); o.push_back(num(f.smax, false, st)); } } }
    o.push_back(";");
}
static void stm(V& o, const Schema& S, const Stmt& x, const Style& st) {
    switch (x.k) {
        case Stmt::FIELD: fld(o, S, x.f, st); break;
        case Stmt::RAW: o.push_back(x.raw); break;
        case Stmt::PAD: deco(o, "pad", {num(x.n, false, st)}); o.push_back(";"); break;
        case Stmt::FILL: if (x.n || (st.synonyms && st.noise && st.noise->chance(1, 2))) deco(o, "fill", {num(x.n, false, st)}); else { o.push_back("@"); o.push_back("fill"); } o.push_back(";"); break;
        case Stmt::SWITCH:
            o.push_back("switch"); o.push_back("("); o.push_back(x.sref); o.push_back(")"); o.push_back("{");
            for (size_t i = 0; i <= x.cases.size(); i++) {
                if (x.defPos == (int)i) { o.push_back("default"); o.push_back(":"); blk(o, S, x.defBody, st); }
                if (i == x.cases.size()) break;
                o.push_back("case"); if (!x.caseNames[i].empty()) dotted(o, x.caseNames[i]); else o.push_back(num(x.cases[i], (int64_t)x.cases[i] < 0 && (int64_t)x.cases[i] > -3000000000ll, st));
                o.push_back(":");
                if (x.bodies[i].size() == 1 && x.bodies[i][0].k != Stmt::RAW && (x.cases[i] & 1) == 0) stm(o, S, x.bodies[i][0], st); else blk(o, S, x.bodies[i], st);
            }
            o.push_back("}"); break;
        case Stmt::IF:
            for (size_t i = 0; i < x.conds.size(); i++) { if (i) o.push_back("else"); o.push_back("if"); o.push_back("("); ex(o, *x.conds[i], st); o.push_back(")"); blk(o, S, x.bodies[i], st); }
            if (x.hasElse) { o.push_back("else"); blk(o, S, x.defBody, st); }
            break;
    }
}
static void blk(V& o, const Schema& S, const Block& b, const Style& st) { o.push_back("{"); for (auto& x : b) stm(o, S, x, st); o.push_back("}"); }
V defTokens(const Schema& S, int w, Style st) {
    V o;
    if (w < 0) {
        const EnumDef& e = S.enums[-1 - w]; o.push_back("enum"); o.push_back(e.name);
        if (e.show) { o.push_back(":"); o.push_back(st.synonyms && st.noise && st.noise->chance(1, 2) ? TS[e.under] : TN[e.under]); }
        o.push_back("{"); uint64_t next = 0;
        for (size_t i = 0; i < e.vals.size(); i++) {
            o.push_back(e.vals[i].first); uint64_t v = (uint64_t)e.vals[i].second;
            bool afterMax = i && (uint64_t)e.vals[i - 1].second == (isSigned(e.under) ? (uint64_t)smaxv(e.under) : tmax(e.under));
            if (v != next || afterMax || (st.synonyms && st.noise && st.noise->chance(1, 3))) { o.push_back("="); o.push_back(num(v, isSigned(e.under), st)); }
            next = v + 1; if (i + 1 < e.vals.size() || (st.synonyms && st.noise && st.noise->chance(1, 2))) o.push_back(",");
        }
        o.push_back("}");
    } else { const StructDef& d = S.structs[w]; if (d.unaligned) { o.push_back("@"); o.push_back("unaligned_bytes"); } o.push_back("struct"); o.push_back(d.name); blk(o, S, d.b, st); }
    return o;
}
V packetTokens(const Schema& S, Style st) {
    V o; o.push_back("packet"); o.push_back(S.pname);
    if (S.alias >= 0) { o.push_back("="); o.push_back(S.structs[S.alias].name); o.push_back(";"); } else blk(o, S, S.packet, st);
    return o;
}
V tokens(const Schema& S, Style st) {
    V o;
    if (S.version >= 0) deco(o, "version", {num(S.version, false, st)});
    if (S.topEndian) { o.push_back("@"); o.push_back(S.topEndian == 1 ? "big_endian" : st.synonyms && st.noise && st.noise->chance(1, 2) ? "le" : "little_endian"); }
    for (int w : S.order) { V d = defTokens(S, w, st); o.insert(o.end(), d.begin(), d.end()); if (st.ws && st.noise && st.noise->chance(1, 4)) o.push_back(";"); }
    V p = packetTokens(S, st); o.insert(o.end(), p.begin(), p.end());
    return o;
}
static bool wordy(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.'; }
std::string join(const V& t, Style st) {
    std::string o; int ind = 0; bool bol = true; int par = 0;
    if (!(st.ws && st.noise)) {
        for (size_t i = 0; i < t.size(); i++) {
            const std::string& k = t[i];
            if (k == "}") ind--;
            if (bol) { o += std::string(std::max(0, ind) * 2, ' '); bol = false; }
            else if (i && k != ";" && k != "," && k != ")" && k != "." && t[i - 1] != "(" && t[i - 1] != "@" && t[i - 1] != "." && k != "[" && k != "]" && t[i - 1] != "[" && !(k == "(" )) o += ' ';
            else if (k == "(" && i && (t[i - 1] == "if" || t[i - 1] == "switch" || !isalpha((unsigned char)t[i - 1][0]))) o += t[i - 1] == "(" || t[i - 1] == "!" || t[i - 1] == "~" ? "" : " ";
            o += k;
            if (k == "(") par++; if (k == ")") par--;
            if (k == "{") ind++;
            if ((k == ";" || k == "{" || k == "}") && par == 0) { o += '\n'; bol = true; }
            if (k == "," && par == 0) { o += '\n'; bol = true; }
        }
        if (!bol) o += '\n';
        return o;
    }
    Src& s = *st.noise;
    auto gap = [&](bool need) {
        std::string g; size_t n = s.weighted({need ? 0u : 4u, 8, 2, 1});
        for (size_t i = 0; i < n; i++) switch (s.weighted({8, 4, 2, 1, st.comments ? 2u : 0u, st.comments ? 1u : 0u})) {
            case 0: g += ' '; break; case 1: g += '\n'; break; case 2: g += '\t'; break; case 3: g += "\r\n"; break;
            case 4: { static const char* c[] = {"/* c */", "/**/", "/* packet X { uint8 a; } */", "/* \n multi \n line */", "/* \"q */", "/* // */", "/***/"}; g += c[s.draw(6)]; break; }
            default: { static const char* c[] = {"// note\n", "//\n", "// struct } { ;\n", "// \"quote\n", "// /* open\n"}; g += c[s.draw(4)]; }
        }
        if (need && g.empty()) g = " ";
        return g;
    };
    for (size_t i = 0; i < t.size(); i++) {
        bool need = false;
        if (i) {
            char a = t[i - 1].back(), b = t[i][0];
            if (wordy(a) && wordy(b)) need = true;
            static const std::string ops = "=!<>&|+-/*";
            if (ops.find(a) != std::string::npos && ops.find(b) != std::string::npos) need = true;
            if (a == '-' && isdigit((unsigned char)b)) need = true;
            if (t[i] == "-" ) need = true;
            if (t[i - 1] == "-") need = true;
            if (b == '.' || a == '.') need = false;
            if (wordy(a) && a != '.' && b != '.' && wordy(b)) need = true;
        }
        std::string g = gap(need);
        if (i && (t[i] == "." || t[i - 1] == ".")) g = need ? " " : "";
        if (i && t[i - 1] == "/" && !g.empty() && (g[0] == '/')) g = " " + g;
        if (need && !g.empty() && g[0] == '/' && i && (t[i - 1].back() == '/' )) g = " " + g;
        // documentation comments are allowed before definitions and fields
        if (st.comments && i && (t[i - 1] == ";" || t[i - 1] == "{" || t[i - 1] == "}") && t[i] != "}" && t[i] != ";" && t[i] != "case" && t[i] != "default" && t[i] != "else" && s.chance(1, 10)) g += "/// doc \"text\" { ;\n";
        o += g + t[i];
    }
    if (s.chance(1, 2)) o += "\n";
    if (st.comments && s.chance(1, 4)) o += "// end";
    return o;
}
std::string render(const Schema& S, Style st) { return join(tokens(S, st), st); }
