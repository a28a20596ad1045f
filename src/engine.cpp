#include "engine.h"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <malloc.h>
#include <cstdarg>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

uint64_t g_case_index = 0;
std::vector<Check>& registry() { static std::vector<Check> r; return r; }

static uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
void Src::seed(uint64_t a) { s[0] = splitmix(a); s[1] = splitmix(a); if (!s[0] && !s[1]) s[0] = 1; }
uint64_t Src::next() { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s[1] + b; }
uint64_t Src::draw(uint64_t max) {
    uint64_t v;
    if (max == 0) return 0;
    if (replay) { v = pos < in.size() ? in[pos] : 0; if (v > max) v = (max == UINT64_MAX) ? v : v % (max + 1); }
    else if (max == UINT64_MAX) v = next();
    else v = next() % (max + 1);
    pos++;
    if (nrec && *nrec < cap) { rec[*nrec] = v; ++*nrec; }
    return v;
}
uint64_t Src::u64() { return draw(UINT64_MAX); }
size_t Src::weighted(std::initializer_list<unsigned> w) {
    unsigned t = 0; for (unsigned x : w) t += x;
    uint64_t d = draw(t - 1); size_t i = 0;
    for (unsigned x : w) { if (d < x) return i; d -= x; i++; }
    return 0;
}

std::string strf(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); char b[4096]; int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n < 0) return ""; return std::string(b, std::min((size_t)n, sizeof b - 1));
}
std::string hexs(const uint8_t* p, size_t n, size_t max) {
    std::string r; char b[4];
    for (size_t i = 0; i < n && i < max; i++) { snprintf(b, 4, "%02x", p[i]); r += b; }
    if (n > max) r += strf("..(%zu bytes)", n);
    return r;
}
std::string read_file(const std::string& p) {
    FILE* f = fopen(p.c_str(), "rb"); if (!f) return ""; std::string s; char b[65536]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s;
}
void write_file(const std::string& p, const std::string& s) {
    FILE* f = fopen(p.c_str(), "wb"); if (!f) { fprintf(stderr, "cannot write %s: %s\n", p.c_str(), strerror(errno)); _exit(3); }
    if (!s.empty()) fwrite(s.data(), 1, s.size(), f);
    fclose(f);
}
std::string json_escape(const std::string& s) {
    std::string r; 
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t";
        else if (c < 0x20 || c >= 0x7f) r += strf("\\u%04x", c);
        else r += (char)c;
    }
    return r;
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int run_proc(const std::vector<std::string>& argv, const std::string& in, std::string& out, std::string& err, int timeout_s, const std::string& cwd) {
    int pi[2], po[2], pe[2];
    if (pipe(pi) || pipe(po) || pipe(pe)) _exit(3);
    std::vector<char*> av; for (auto& a : argv) av.push_back((char*)a.c_str()); av.push_back(nullptr);
    pid_t pid = vfork();
    if (pid < 0) _exit(3);
    if (pid == 0) {
        dup2(pi[0], 0); dup2(po[1], 1); dup2(pe[1], 2);
        for (int fd : {pi[0], pi[1], po[0], po[1], pe[0], pe[1]}) if (fd > 2) close(fd);
        if (!cwd.empty() && chdir(cwd.c_str())) _exit(126);
        execv(av[0], av.data()); _exit(127);
    }
    close(pi[0]); close(po[1]); close(pe[1]);
    fcntl(pi[1], F_SETFL, O_NONBLOCK);
    size_t w = 0; bool oo = true, eo = true; double end = now() + timeout_s; bool timedout = false;
    signal(SIGPIPE, SIG_IGN);
    bool iopen = true;
    if (in.empty()) { close(pi[1]); iopen = false; }
    while (oo || eo) {
        struct pollfd f[3]; int n = 0; int io = -1, ie = -1, ii = -1;
        if (oo) { io = n; f[n++] = {po[0], POLLIN, 0}; }
        if (eo) { ie = n; f[n++] = {pe[0], POLLIN, 0}; }
        if (iopen) { ii = n; f[n++] = {pi[1], POLLOUT, 0}; }
        int left = (int)((end - now()) * 1000); if (left <= 0) { timedout = true; break; }
        int r = poll(f, n, left); if (r < 0 && errno == EINTR) continue;
        if (r == 0) { timedout = true; break; }
        char b[65536];
        if (io >= 0 && f[io].revents) { ssize_t k = read(po[0], b, sizeof b); if (k <= 0) oo = false; else if (out.size() < (64u << 20)) out.append(b, k); }
        if (ie >= 0 && f[ie].revents) { ssize_t k = read(pe[0], b, sizeof b); if (k <= 0) eo = false; else if (err.size() < (8u << 20)) err.append(b, k); }
        if (ii >= 0 && f[ii].revents) {
            ssize_t k = write(pi[1], in.data() + w, in.size() - w);
            if (k > 0) w += k; 
            if ((k < 0 && errno != EAGAIN) || w == in.size()) { close(pi[1]); iopen = false; }
        }
    }
    if (iopen) close(pi[1]);
    close(po[0]); close(pe[0]);
    if (timedout) kill(pid, SIGKILL);
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (timedout) return 124;
    if (WIFSIGNALED(st)) return 128 + WTERMSIG(st);
    return WEXITSTATUS(st);
}

// ---------------------------------------------------------------- runner
static const uint32_t CAP = 1u << 16;
struct Slot {
    volatile uint64_t index; volatile uint32_t state; // 0 idle, 1 running
    uint32_t n; char kind[64]; char msg[16384]; char desc[65536]; uint64_t c[CAP];
    volatile uint64_t evals;
};
static void* shalloc(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; }

struct Opts { std::string id, out, replay_dir, replay, scratch, seedsfile; uint64_t seed = 1, cases = 0; int jobs = 8; double tmax = 0; bool thorough = false; };
static Opts O;
static const Check* C;

static void set_timer(unsigned s) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s; setitimer(ITIMER_REAL, &it, nullptr); }

// Runs one case in this process. Returns true when it passed.
static bool run_one(Src& src, Slot* sl, Case& cs) {
    src.rec = sl->c; src.nrec = &sl->n; src.cap = CAP; sl->n = 0; sl->kind[0] = 0; sl->msg[0] = 0; sl->desc[0] = 0;
    try { C->run(cs); return true; }
    catch (Fail& f) { snprintf(sl->kind, sizeof sl->kind, "%s", f.kind.c_str()); snprintf(sl->msg, sizeof sl->msg, "%s", f.msg.c_str()); snprintf(sl->desc, sizeof sl->desc, "%s", cs.desc.c_str()); return false; }
}
static uint64_t case_seed(uint64_t i) { uint64_t x = O.seed * 0x100000001b3ull + 0x51ed27; for (const char* p = C->id; *p; p++) x = x * 131 + (uint8_t)*p; uint64_t a = splitmix(x); x ^= i * 0x9e3779b97f4a7c15ull; return a ^ splitmix(x); }

static void redirect(const std::string& errf) {
    int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); close(fd);
    fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); close(fd);
}

struct Res { bool failed = false; std::string kind, msg, desc; std::vector<uint64_t> ch; };

static Res classify(int st, Slot* sl, const std::string& errf) {
    Res r; r.ch.assign(sl->c, sl->c + sl->n); r.desc = sl->desc;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return r;
    r.failed = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { r.kind = sl->kind; r.msg = sl->msg; return r; }
    std::string e = read_file(errf);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { r.kind = "hang"; r.msg = strf("case did not finish within %u s", C->case_timeout_s); }
    else {
        r.kind = "crash"; r.msg = WIFSIGNALED(st) ? strf("process killed by signal %d", WTERMSIG(st)) : strf("process exited with status %d", WEXITSTATUS(st));
        size_t p = e.find("ERROR: "); if (p == std::string::npos) p = e.find("runtime error"); 
        if (p == std::string::npos) p = e.find("WARNING: ThreadSanitizer");
        if (p != std::string::npos) { size_t b = e.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; r.msg += "\n" + e.substr(b, 1800); }
        else r.msg += "\n" + e.substr(0, 800);
    }
    return r;
}
// Note: the description of a crashing case is written before the risky call via note_desc().
static Slot* g_slot;
void note_desc_impl(const std::string& d) { if (g_slot) snprintf(g_slot->desc, sizeof g_slot->desc, "%s", d.c_str()); }

static Res try_choices(const std::vector<uint64_t>& ch, Slot* sl, const std::string& scratch) {
    std::string errf = scratch + "/stderr.txt";
    sl->n = 0; sl->kind[0] = sl->msg[0] = sl->desc[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
        setpgid(0, 0);
        redirect(errf);
        g_slot = sl;
        if (C->worker_init) C->worker_init();
        Src src; src.replay = true; src.in = ch; Case cs(src); cs.scratch = scratch; cs.thorough = O.thorough; heapFill = -1;
        set_timer(C->case_timeout_s);
        bool ok = run_one(src, sl, cs);
        if (ok) snprintf(sl->desc, sizeof sl->desc, "%s", cs.desc.c_str());
        fflush(nullptr); _exit(ok ? 0 : 77);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    kill(-pid, SIGKILL);
    return classify(st, sl, errf);
}

static Res shrink(Res best, Slot* sl, const std::string& scratch) {
    double end = now() + (O.thorough ? 180 : 90); int budget = 3000;
    auto ok = [&](const std::vector<uint64_t>& c) -> bool {
        if (budget-- <= 0 || now() > end) return false;
        Res r = try_choices(c, sl, scratch);
        if (!r.failed || r.kind != best.kind) return false;
        if (r.ch.size() > c.size()) r.ch.resize(c.size());
        if (r.ch.size() > best.ch.size() || (r.ch.size() == best.ch.size() && !std::lexicographical_compare(r.ch.begin(), r.ch.end(), best.ch.begin(), best.ch.end()))) return false;
        best = r; return true;
    };
    if (best.kind == "hang") { budget = 12; }
    bool prog = true;
    while (prog && budget > 0 && now() < end) {
        prog = false;
        for (size_t k : {128, 64, 32, 16, 8, 4, 3, 2, 1}) {
            for (size_t i = best.ch.size(); i-- > 0 && budget > 0 && now() < end;) {
                if (i + k > best.ch.size()) continue;
                auto c = best.ch; c.erase(c.begin() + i, c.begin() + i + k);
                if (ok(c)) { prog = true; }
                else if (i > 0 && c.size() > 0 && k <= 8) { // also lower a preceding counter
                    auto d = c; if (d[i - 1] > 0) { d[i - 1]--; if (ok(d)) prog = true; }
                }
            }
        }
        for (size_t k : {16, 4, 1}) for (size_t i = 0; i + k <= best.ch.size() && budget > 0 && now() < end; i += k) {
            auto c = best.ch; bool any = false; for (size_t j = i; j < i + k; j++) { any |= c[j] != 0; c[j] = 0; }
            if (any && ok(c)) prog = true;
        }
        for (size_t i = 0; i < best.ch.size() && budget > 0 && now() < end; i++) {
            uint64_t lo = 0, hi = best.ch[i];
            while (hi > lo + 0 && budget > 0 && now() < end) {
                uint64_t mid = lo + (hi - lo) / 2; auto c = best.ch; if (i >= c.size() || c[i] == mid) break; c[i] = mid;
                if (ok(c)) { prog = true; if (i >= best.ch.size()) break; hi = best.ch[i]; if (hi < lo) break; } else { if (lo == mid) break; lo = mid; }
                if (hi - lo <= 1) break;
            }
        }
    }
    return best;
}

static void save_replay(const std::string& path, const Res& r) {
    std::string s = "# property " + std::string(C->id) + "\n# kind: " + r.kind + "\n";
    auto comment = [&](const std::string& t) { std::string o; std::istringstream is(t); std::string l; while (std::getline(is, l)) o += "#   " + l + "\n"; return o; };
    s += "# what failed:\n" + comment(r.msg) + "# generated case:\n" + comment(r.desc) + "choices";
    for (uint64_t v : r.ch) s += strf(" %llu", (unsigned long long)v);
    s += "\n"; write_file(path, s);
}
static std::vector<uint64_t> load_replay(const std::string& path) {
    std::istringstream is(read_file(path)); std::string l; std::vector<uint64_t> v;
    while (std::getline(is, l)) if (l.compare(0, 7, "choices") == 0) { std::istringstream q(l.substr(7)); uint64_t x; while (q >> x) v.push_back(x); }
    return v;
}

int engine_main(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto v = [&]() { return std::string(argv[++i]); };
        if (a == "--id") O.id = v(); else if (a == "--seed") O.seed = strtoull(v().c_str(), 0, 10);
        else if (a == "--cases") O.cases = strtoull(v().c_str(), 0, 10); else if (a == "--jobs") O.jobs = atoi(v().c_str());
        else if (a == "--time") O.tmax = atof(v().c_str()); else if (a == "--out") O.out = v();
        else if (a == "--replay-dir") O.replay_dir = v(); else if (a == "--replay") O.replay = v();
        else if (a == "--scratch") O.scratch = v(); else if (a == "--thorough") O.thorough = true;
        else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
    }
    for (auto& c : registry()) if (O.id == c.id) C = &c;
    if (!C) { fprintf(stderr, "no check %s in this binary\n", O.id.c_str()); return 2; }
    Slot* sl0 = (Slot*)shalloc(sizeof(Slot));
    std::string s0 = O.scratch + "/w-main"; mkdir(s0.c_str(), 0700);
    if (!O.replay.empty()) {
        Res r = try_choices(load_replay(O.replay), sl0, s0);
        printf("%s\n%s\n", r.desc.c_str(), r.failed ? ("FAIL [" + r.kind + "] " + r.msg).c_str() : "PASS");
        return r.failed ? 1 : 0;
    }
    uint64_t total = O.cases ? O.cases : (O.thorough ? C->thorough : C->quick);
    double t0 = now(), end = O.tmax > 0 ? t0 + O.tmax : t0 + 1e9;
    int J = O.jobs; std::vector<Slot*> sl(J); std::vector<pid_t> pids(J, 0);
    struct Shared { volatile int stop; }; Shared* sh = (Shared*)shalloc(sizeof(Shared));
    for (int w = 0; w < J; w++) {
        sl[w] = (Slot*)shalloc(sizeof(Slot));
        std::string sd = O.scratch + strf("/w%d", w); mkdir(sd.c_str(), 0700);
        pid_t pid = fork();
        if (pid == 0) {
            setpgid(0, 0);
            redirect(sd + "/stderr.txt"); g_slot = sl[w];
            if (C->worker_init) C->worker_init();
            std::set<uint64_t> fps; std::map<std::string, uint64_t> counts; std::vector<std::string> samples; uint64_t ev = 0;
            bool bad = false;
            for (uint64_t i = w; i < total; i += J) {
                if (sh->stop || now() > end) break;
                g_case_index = i; sl[w]->index = i;
                Src src; src.seed(case_seed(i)); Case cs(src); cs.scratch = sd; cs.thorough = O.thorough; heapFill = -1;
                set_timer(C->case_timeout_s);
                bool ok = run_one(src, sl[w], cs);
                set_timer(0);
                if (!ok) { bad = true; break; }
                ev++; sl[w]->evals = ev;
                for (auto& k : cs.counts) counts[k.first] += k.second;
                if (cs.nontrivial) { bool fresh = fps.insert(cs.fp).second; if (fresh && (samples.size() < 1 || (samples.size() < 3 && i > total / 3)) && cs.desc.size() < 6000) samples.push_back(cs.desc); }
            }
            std::string o = strf("E %llu\n", (unsigned long long)ev);
            for (auto& k : counts) o += strf("C %llu %s\n", (unsigned long long)k.second, k.first.c_str());
            for (auto f : fps) o += strf("F %llx\n", (unsigned long long)f);
            for (auto& s : samples) o += "S " + json_escape(s) + "\n";
            write_file(sd + "/result.txt", o);
            fflush(nullptr); _exit(bad ? 77 : 0);
        }
        pids[w] = pid;
    }
    Res bad; int badw = -1; std::vector<Res> others; int live = J; int flakes = 0;
    while (live > 0) {
        int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) { if (errno == EINTR) continue; break; }
        int w = -1; for (int i = 0; i < J; i++) if (pids[i] == p) w = i;
        if (w < 0) continue;
        kill(-p, SIGKILL);
        live--;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && badw >= 0) continue;
        Res r = classify(st, sl[w], O.scratch + strf("/w%d/stderr.txt", w));
        if (badw < 0 || (bad.kind == "hang" && r.kind != "hang")) { bad = r; badw = w; }
        sh->stop = 1;
        if (badw >= 0) end = now(); 
    }
    uint64_t evals = 0; std::set<std::string> fps; std::map<std::string, uint64_t> counts; std::vector<std::string> samples;
    for (int w = 0; w < J; w++) {
        std::istringstream is(read_file(O.scratch + strf("/w%d/result.txt", w))); std::string l;
        while (std::getline(is, l)) {
            if (l[0] == 'E') evals += strtoull(l.c_str() + 2, 0, 10);
            else if (l[0] == 'F') fps.insert(l.substr(2));
            else if (l[0] == 'S') { if (samples.size() < 6) samples.push_back(l.substr(2)); }
            else if (l[0] == 'C') { char* e; uint64_t n = strtoull(l.c_str() + 2, &e, 10); counts[std::string(e + 1)] += n; }
        }
    }
    std::string rp; bool violated = false;
    if (badw >= 0) {
        // confirm, shrink, confirm
        Res c; bool conf = false; for (int i = 0; i < 3 && !conf; i++) { c = try_choices(bad.ch, sl0, s0); conf = c.failed; }
        if (conf) { if (c.kind != bad.kind) bad = c; else bad.msg = c.msg; if (!getenv("PBT_NOSHRINK")) bad = shrink(bad, sl0, s0); Res f = try_choices(bad.ch, sl0, s0); if (f.failed) { bad.msg = f.msg; bad.kind = f.kind; if (!f.desc.empty()) bad.desc = f.desc; } violated = true; }
        else if (bad.kind == "hang") { flakes++; }
        else violated = true;
        if (violated) {
            mkdir(O.replay_dir.c_str(), 0755);
            rp = O.replay_dir + "/" + C->id + strf("-%llu.txt", (unsigned long long)O.seed);
            if (!conf) bad.msg += "\n(not reproduced in 3 replays of the recorded choices)";
            save_replay(rp, bad);
            printf("FAILED property %s [%s]\n%s\n--- minimal case ---\n%s\n", C->id, bad.kind.c_str(), bad.msg.c_str(), bad.desc.c_str());
        }
    }
    std::string o = "{\n \"evaluations\": " + strf("%llu", (unsigned long long)evals) + ",\n \"distinct_nontrivial\": " + strf("%zu", fps.size());
    o += ",\n \"rule\": \"" + json_escape(C->rule) + "\",\n \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) o += std::string(i ? "," : "") + "\n  \"" + samples[i] + "\"";
    o += "],\n \"classes\": {"; bool first = true;
    for (auto& k : counts) { o += std::string(first ? "" : ",") + "\n  \"" + json_escape(k.first) + "\": " + strf("%llu", (unsigned long long)k.second); first = false; }
    o += "},\n \"planned_cases\": " + strf("%llu", (unsigned long long)total) + ",\n \"unreproduced_timeouts\": " + strf("%d", flakes);
    o += ",\n \"violated\": " + std::string(violated ? "true" : "false") + ",\n \"replay\": \"" + json_escape(rp) + "\",\n \"wall_s\": " + strf("%.3f", now() - t0) + "\n}\n";
    write_file(O.out, o);
    return violated ? 1 : 0;
}

// What freshly allocated memory holds: -1 leaves it to the allocator.
int heapFill = -1;
extern "C" {
void* __real_malloc(size_t); void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p && heapFill >= 0 && n < (16u << 20)) memset(p, heapFill, n); return p; }
void* __wrap_realloc(void* o, size_t n) { size_t old = o ? malloc_usable_size(o) : 0; void* p = __real_realloc(o, n); if (p && heapFill >= 0 && n > old && n < (16u << 20)) memset((char*)p + old, heapFill, n - old); return p; }
}
