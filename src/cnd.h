// Reference model of the Concordia language: schema AST, generator, renderer,
// and an independent encoder/decoder that works on the AST (never on bytecode).
#pragma once
#include "engine.h"
#include <memory>
extern "C" {
#include "concordia.h"
#include "compiler.h"
}

enum T { U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, BOOL, STR, ENUM, STRUCT };
extern const uint8_t IOOP[11];
inline bool isInt(int t) { return t >= U8 && t <= I64; }
inline bool isSigned(int t) { return t >= I8 && t <= I64; }
inline bool isFloat(int t) { return t == F32 || t == F64; }
inline int sizeOf(int t) { static const int z[] = {1, 2, 4, 8, 1, 2, 4, 8, 4, 8, 1}; return z[t]; }

struct EnumDef { std::string name; int under = U32; bool show = true; std::vector<std::pair<std::string, int64_t>> vals; };

struct Expr; typedef std::shared_ptr<Expr> ExprP;
struct Expr {
    enum K { INT, FLT, BOOLL, REF, UN, BIN, CALL } k = INT;
    uint64_t i = 0; double d = 0; std::string s; // s: reference name, operator or function
    std::vector<ExprP> a; bool flt = false;      // value is a double
    bool parens = false;                         // redundant parentheses when rendered
};
struct Trans { enum K { NONE, SCALE, ADD, SUB, MUL, DIV, POLY, SPLINE } k = NONE; double f = 1, o = 0; bool hasF = false, hasO = false; int64_t iv = 0; std::vector<double> pts; };
struct Crc { int width = 0; bool hasPoly = false, hasInit = false, hasXor = false, refin = false, refout = false; uint32_t poly = 0, init = 0, xo = 0; bool crcLast = false; };
struct Field {
    std::string name; int t = U8; int ref = -1; int bits = 0; bool implicitBits = false;
    enum AK { A_NONE, A_FIXED, A_PRE8, A_PRE16, A_PRE32, A_DYN, A_EOF } ak = A_NONE;
    uint32_t acount = 0; std::string aref; bool countDeco = false; // @count(n) x[] instead of x[n]
    enum SK { S_NULL, S_P8, S_P16, S_P32 } sk = S_NULL; int smax = 255; bool hasMax = false, hasUntil = false;
    int endian = 0; // 0 inherit, 1 big, 2 little
    bool opt = false, hasConst = false, isMatch = false, hasRange = false;
    uint64_t cval = 0; uint64_t lo = 0, hi = 0; double flo = 0, fhi = 0;
    Trans tr; Crc crc; ExprP expr;
    std::vector<uint64_t> hints; uint64_t maxv = UINT64_MAX; // preferred values, cap for values used as counts
    uint32_t maxcount = 4;
    bool big = false; // counts and lengths near a limit of their type
};
struct Stmt; typedef std::vector<Stmt> Block;
struct Stmt {
    enum K { FIELD, PAD, FILL, SWITCH, IF, RAW } k = FIELD;
    Field f; int n = 0; std::string raw; // RAW: text that only the renderer understands
    std::string sref; int sEnum = -1;
    std::vector<uint64_t> cases; std::vector<std::string> caseNames; std::vector<Block> bodies; int defPos = -1; // index in case order where default stands, -1 none
    Block defBody;
    std::vector<ExprP> conds; bool hasElse = false; // IF: bodies[i] under conds[i], defBody is else
};
struct StructDef { std::string name; bool unaligned = false; Block b; };
struct Schema {
    std::vector<EnumDef> enums; std::vector<StructDef> structs; std::string pname = "P"; Block packet; int alias = -1;
    int topEndian = 0; // 0 none, 1 @big_endian, 2 @little_endian
    int version = -1; bool hasEof = false;
    std::vector<int> order; // definition order: i>=0 struct i, -1-i enum i
};

struct Feat { // which language features the generator may use
    bool arrays = true, strings = true, structs = true, enums = true, bits = true, unaligned = true, consts = true, ranges = true, trans = true,
         crc = true, expr = true, ifs = true, switches = true, optional = false, eof = true, endian = true, pads = true, floats = true, alias = true, fillers = true, u64full = true, dotted = true;
    int maxFields = 7, depth = 3;
    int focus = 0; // see generator: raises the probability of one feature
    bool sure = false;  // big in any case
    unsigned big = 0;   // rarely also one of: 1 hundreds of names, 2 tens of thousands of elements, 4 strings of 64 KiB, 8 hundreds of cases and enum values, 16 branches of 64 KiB code, 32 deep nesting, 64 scores of types
    bool dyadic = true; // exactly invertible transforms only
};
enum Focus { FO_NONE, FO_RANGE, FO_CRC, FO_TRANS, FO_EXPR, FO_CTRL, FO_ARRAY, FO_STR, FO_STRUCT, FO_BITS, FO_ENDIAN };

struct Gen {
    Src& s; Feat F; Schema S;
    Gen(Src& s_, Feat f) : s(s_), F(f) {}
    Schema schema();
    struct Ref { std::string name; int t; Field* f; int en; };
    struct Scope { std::set<std::string> used; std::vector<Ref> refs; bool inStruct = false, unaligned = false; int bitcount = 0; int depth = 0; bool packet = false; bool mayBits = true; };
    std::string fresh(Scope& sc);
    std::string typeName(char letter, size_t i);
    Block block(Scope& sc, int maxStmts, int depth);
    Field field(Scope& sc);
    ExprP intExpr(Scope& sc, int d); ExprP fltExpr(Scope& sc, int d);
    void trans(Field& f); void constraint(Field& f);
    Stmt switchStmt(Scope& sc, int depth); Stmt ifStmt(Scope& sc, int depth);
    void unalignedStruct(StructDef& d); void bigThing();
};
size_t minBits(const Schema& S, const Block& b);
bool blockHas(const Schema& S, const Block& b, const std::function<bool(const Field&)>& p, bool intoStructs = true);

struct Tok { std::string t; int nl = 0; }; // nl: preferred line break after
struct Style { Src* noise = nullptr; bool ws = false, comments = false, synonyms = false, numbers = false; };
std::vector<std::string> tokens(const Schema& S, Style st = Style());
std::vector<std::string> defTokens(const Schema& S, int which, Style st); // one struct/enum definition
std::vector<std::string> packetTokens(const Schema& S, Style st);
std::string join(const std::vector<std::string>& toks, Style st = Style());
std::string render(const Schema& S, Style st = Style());
std::string fieldTypeName(const Schema& S, const Field& f);

// ---- reference semantics
struct Ev {
    uint8_t op = 0; std::string key; uint64_t u = 0; std::string data; bool decline = false; size_t at = 0; // at: index of the field in walk order
    bool keyZero = false; // key id 0, no name
    bool flt = false;     // u holds a double, compared with a tolerance
    int t = -1, w = 0;    // type of a computed field, width of a bit field
};
struct RefResult {
    int err = 0; std::vector<Ev> ev; size_t evStart = 0; std::vector<uint8_t> bytes; size_t size = 0; bool undef = false; // undef: meaning not defined by the language
    size_t nfields = 0, narr = 0; bool invalidChosen = false; size_t bitsEnd = 0; std::vector<std::pair<size_t, int>> floats; // where the computed floats lie, and their size
    std::map<std::string, int> feats;
};
struct RefOpts { bool acceptRaw = false; unsigned invalidPct = 0; bool declineOpt = false; bool boundary = true; bool utf8 = false; };
RefResult refEncode(const Schema& S, Src& s, RefOpts o);
RefResult refDecode(const Schema& S, const std::vector<uint8_t>& in, RefOpts o);
uint64_t evalExprRef(const Expr& e, const std::function<uint64_t(const std::string&)>& get, int& err, bool& undef, int& sp, int& maxsp);
uint32_t refCrc(const uint8_t* p, size_t n, int width, uint32_t poly, uint32_t init, uint32_t xo, bool refin, bool refout);

// ---- running the real implementation
struct Program { std::vector<uint8_t> il; cnd_program p; };
// Compiles source text; returns the compiler's return code. out is filled on success.
int compileText(const std::string& dir, const std::string& text, Program& out, std::string* log = nullptr);
int compilePath(const std::string& in, const std::string& outp, Program& out, std::string* log = nullptr, bool json = false);
bool loadProgram(Program& p);

struct HostRun {
    const std::vector<Ev>* script = nullptr; size_t pos = 0; bool strict = true;
    std::string mismatch; long failAt = -1; size_t calls = 0; bool failed = false;
    bool looseF = false; // compare doubles with tolerance
    bool shortCap = false; size_t rawElem = 0; // encoding into a buffer that is too short
    cnd_error_t failCode = CND_ERR_CALLBACK;
    uint32_t lastCount = 0;
    std::vector<std::string>* trace = nullptr;
    std::vector<std::pair<const void*, void*>> nested;
    std::function<void()> hook;
};
cnd_error_t hostCb(struct cnd_vm_ctx_t* ctx, uint16_t key, uint8_t type, void* ptr);
struct RunResult { int err; size_t size; std::vector<uint8_t> buf; std::string mismatch; size_t calls; };
// Encode with a buffer of exactly cap bytes (heap allocated so the sanitizer guards its ends); prior contents = fill
RunResult runEncode(const Program& P, const std::vector<Ev>& script, size_t cap, const std::vector<uint8_t>& prior, long failAt = -1, bool shortCap = false);
RunResult runDecode(const Program& P, const std::vector<Ev>& script, const std::vector<uint8_t>& in, long failAt = -1, bool guard = true);
std::string evStr(const Ev& e);
std::string evList(const std::vector<Ev>& v, size_t max = 60);
const char* errName(int e);
// Standard oracle comparisons (throw Fail).
void checkEncode(Case& c, const Program& P, const RefResult& r, size_t extra);
void checkDecode(Case& c, const Program& P, const std::vector<uint8_t>& in, const RefResult& r);
Feat featFor(Src& s);
inline Feat withBig(Feat f, unsigned b) { f.big = b; return f; }
std::vector<uint8_t> mutate(Src& s, std::vector<uint8_t> v);
