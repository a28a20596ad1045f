// Choice-sequence property-based testing engine.
// Every random decision of a case is one bounded draw; the sequence of draws is
// the case.  Shrinking edits that sequence and re-runs the case in a forked
// child, so crashes, sanitizer reports and hangs shrink like ordinary failures.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

struct Fail { std::string kind, msg; };

struct Src {
    bool replay = false;
    std::vector<uint64_t> in;      // replayed choices
    size_t pos = 0;
    uint64_t s[2] = {1, 2};        // xorshift128+ state
    uint64_t* rec = nullptr;       // recorded choices (shared memory)
    uint32_t* nrec = nullptr;
    uint32_t cap = 0;
    void seed(uint64_t a);
    uint64_t next();
    // uniform in [0,max]; 0 is the simplest choice
    uint64_t draw(uint64_t max);
    uint64_t u64();
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo)); }
    // true with probability num/den; false is simplest
    bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
    // weighted index; index 0 is simplest
    size_t weighted(std::initializer_list<unsigned> w);
};

struct Case {
    Src& s;
    std::string desc;              // human readable rendering of the generated case
    bool nontrivial = false;
    uint64_t fp = 1469598103934665603ull; // fingerprint of the case for distinctness
    std::map<std::string, uint64_t> counts;
    std::string scratch;           // private scratch directory of this worker
    bool thorough = false;
    explicit Case(Src& s_) : s(s_) {}
    void mix(const void* p, size_t n) { const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) { fp ^= b[i]; fp *= 1099511628211ull; } }
    void mix(const std::string& t) { mix(t.data(), t.size()); }
    void mix(const std::vector<uint8_t>& t) { mix(t.data(), t.size()); }
    void mixu(uint64_t v) { mix(&v, 8); }
    void count(const std::string& k, uint64_t n = 1) { counts[k] += n; }
    [[noreturn]] void fail(const std::string& kind, const std::string& msg) { throw Fail{kind, msg}; }
};

struct Check {
    const char* id;
    const char* rule;
    void (*run)(Case&);
    uint64_t quick, thorough;      // number of cases
    unsigned case_timeout_s = 20;
    void (*worker_init)() = nullptr;
};

std::vector<Check>& registry();
struct Reg { Reg(Check c) { registry().push_back(c); } };
int engine_main(int argc, char** argv);

std::string hexs(const uint8_t* p, size_t n, size_t max = 400);
inline std::string hexs(const std::vector<uint8_t>& v, size_t max = 400) { return hexs(v.data(), v.size(), max); }
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string read_file(const std::string& p);
void write_file(const std::string& p, const std::string& s);
inline void write_file(const std::string& p, const std::vector<uint8_t>& s) { write_file(p, std::string(s.begin(), s.end())); }
std::string json_escape(const std::string& s);
// Runs a program with stdin text; fills out/err; returns exit status, 128+sig on signal, 124 on timeout.
int run_proc(const std::vector<std::string>& argv, const std::string& in, std::string& out, std::string& err, int timeout_s = 20, const std::string& cwd = "");
extern uint64_t g_case_index;
extern int heapFill; // byte put into freshly allocated memory of the code under test (-1: none)
void note_desc_impl(const std::string& d); // makes the description survive a crash of this case
