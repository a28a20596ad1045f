// Many contexts on one loaded program: nested, interleaved at callbacks and on free-running threads (thread sanitizer build).
#include "cli.h"
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>

namespace {
struct Task { const Program* P; bool enc; std::vector<Ev> script; std::vector<uint8_t> data; long failAt = -1; };
struct Out { int err = 0; size_t size = 0, calls = 0, pos = 0; std::vector<uint8_t> buf; std::string mismatch;
    bool operator==(const Out& o) const { return err == o.err && size == o.size && calls == o.calls && pos == o.pos && buf == o.buf && mismatch == o.mismatch; }
    std::string str() const { return strf("%s, %zu bytes used, %zu callbacks (%zu as expected), %s %s", errName(err), size, calls, pos, hexs(buf, 80).c_str(), mismatch.c_str()); } };
// Runs a task; hook(n) is called in callback n before the host answers.
Out run(const Task& t, const std::function<void(size_t)>& hook) {
    size_t n = t.data.size(); uint8_t* m = (uint8_t*)malloc(n ? n : 1); if (n) memcpy(m, t.data.data(), n);
    HostRun h; h.script = &t.script; h.failAt = t.failAt; size_t k = 0; if (hook) h.hook = [&]() { hook(k++); };
    cnd_vm_ctx c; memset(&c, 0xEE, sizeof c); cnd_init(&c, t.enc ? CND_MODE_ENCODE : CND_MODE_DECODE, &t.P->p, m, n, hostCb, &h);
    Out o; o.err = cnd_execute(&c); o.size = c.cursor + (c.bit_offset ? 1 : 0); o.calls = h.calls; o.pos = h.pos; o.buf.assign(m, m + n); o.mismatch = h.mismatch; free(m); return o;
}
uint64_t lookups(const Program& P) { // read-only use of the program
    uint64_t r = 0; for (uint32_t i = 0; i < P.p.string_count; i++) { const char* n = cnd_get_key_name(&P.p, (uint16_t)i); if (n) r = r * 31 + cnd_get_key_id(&P.p, n) + strlen(n); } r = r * 31 + cnd_get_key_id(&P.p, "not there"); r = r * 31 + (uint64_t)cnd_verify_program(&P.p); for (int e = 0; e <= 9; e++) r = r * 31 + strlen(cnd_error_string((cnd_error_t)e)); return r;
}
// Lets one of the participating threads run at a time; which one goes on at each callback is given.
struct Sched {
    std::mutex m; std::condition_variable cv; std::vector<uint8_t> order; size_t pos = 0; std::vector<bool> live; int cur = 0; size_t switches = 0;
    void pick() { int n = (int)live.size(); int w = order.empty() ? 0 : order[pos++ % order.size()] % n; for (int i = 0; i < n; i++) { int x = (w + i) % n; if (live[(size_t)x]) { if (x != cur) switches++; cur = x; return; } } cur = -1; }
    void enter(int me) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return cur == me; }); }
    void point(int me) { std::unique_lock<std::mutex> l(m); pick(); if (cur != me) { cv.notify_all(); cv.wait(l, [&] { return cur == me; }); } }
    void leave(int me) { std::unique_lock<std::mutex> l(m); live[(size_t)me] = false; pick(); cv.notify_all(); }
};
} // namespace
static void c28(Case& c) {
    Src& s = c.s; size_t np = 1 + s.draw(1); std::vector<std::unique_ptr<Program>> progs; std::vector<Task> tasks;
    for (size_t i = 0; i < np; i++) {
        Gen g(s, withBig(featFor(s), 1 | 8 | 16 | 32 | 64)); Schema S = g.schema(); std::string text = render(S), log; c.mix(text); say(c, text); progs.emplace_back(new Program); Program& P = *progs.back();
        if (compileText(c.scratch, text, P, &log)) c.fail("compile-rejected", "valid schema rejected: " + log);
        size_t nt = 1 + s.draw(3);
        for (size_t k = 0; k < nt; k++) {
            RefOpts o; o.acceptRaw = s.chance(1, 2); o.invalidPct = s.chance(1, 5) ? 10 : 0; RefResult r = refEncode(S, s, o); for (auto& k : r.feats) c.count("task_" + k.first); if (r.undef) continue; Task t; t.P = &P; t.enc = s.chance(1, 2); t.failAt = s.chance(1, 8) ? (long)s.draw(8) : -1;
            if (t.enc) { t.script = r.ev; t.data.assign(r.err ? r.bytes.size() + 16 : r.size + (S.hasEof ? 0 : s.draw(4)), 0xA5); }
            else { std::vector<uint8_t> in = r.bytes; if (r.err || s.chance(1, 4)) in = mutate(s, in); RefResult d = refDecode(S, in, o); if (d.undef) continue; t.script = d.ev; t.data = in; }
            c.mix(t.data); say(c, strf("task %zu: %s, program %zu: ", tasks.size(), t.enc ? "encode" : "decode", i) + evList(t.script) + (t.enc ? "" : " of " + hexs(t.data, 80))); tasks.push_back(t);
        }
    }
    if (tasks.empty()) { c.count("undefined_skipped"); return; }
    std::vector<Out> alone; size_t most = 0; for (auto& t : tasks) { alone.push_back(run(t, nullptr)); most = std::max(most, alone.back().calls); c.count(std::string(t.enc ? "encode_" : "decode_") + errName(alone.back().err)); }
    std::vector<std::vector<uint8_t>> images; for (auto& p : progs) images.push_back(p->il);
    auto same = [&](const char* how, size_t i, const Out& o) { if (!(o == alone[i])) c.fail(how, strf("task %zu %s gives: ", i, how) + o.str() + "\nalone: " + alone[i].str()); };
    auto any = [&]() { return (size_t)s.draw(tasks.size() - 1); };
    for (int rep = 0; rep < 2; rep++) { // nested: in callback n another task, in whose callback a third one
        size_t a = any(), b = any(), d = any(), n = s.draw(alone[a].calls ? alone[a].calls - 1 : 0), n2 = s.draw(alone[b].calls ? alone[b].calls - 1 : 0); bool all = s.chance(1, 3); size_t keep = c.desc.size(); say(c, strf("task %zu in callback %zu%s of task %zu, task %zu in callback %zu of that", b, n, all ? " and all others" : "", a, d, n2));
        Out ob, od; bool hb = false, hd = false; std::string bad;
        Out oa = run(tasks[a], [&](size_t k) { if (k != n && !all) return; ob = run(tasks[b], [&](size_t k2) { if (k2 == n2) { od = run(tasks[d], nullptr); hd = true; } }); hb = true; if (!(ob == alone[b])) bad = "x"; });
        same("around a nested one", a, oa); if (hb) { same("nested", b, ob); if (!bad.empty()) c.fail("nested", strf("task %zu nested differs", b)); c.count("nested"); } if (hd) { same("nested twice", d, od); c.count("nested_twice"); } c.desc.resize(keep);
    }
    { // interleaved at callbacks in a given order
        size_t T = 2 + s.draw(2); Sched sc; sc.live.assign(T, true); size_t n = s.draw(40); for (size_t i = 0; i < n; i++) sc.order.push_back((uint8_t)s.draw(3)); std::vector<std::vector<size_t>> list(T); std::vector<std::vector<Out>> res(T); std::string d; for (size_t i = 0; i < T; i++) { size_t k = 1 + s.draw(1); for (size_t q = 0; q < k; q++) { list[i].push_back(any()); d += strf("%s%zu", q ? "," : i ? " | " : "", list[i].back()); } }
        size_t keep = c.desc.size(); std::string o; for (auto x : sc.order) o += strf("%u", x); say(c, "threads " + d + " scheduled " + o); sc.pick(); std::vector<std::thread> th;
        for (size_t i = 0; i < T; i++) th.emplace_back([&, i]() { sc.enter((int)i); for (size_t t : list[i]) res[i].push_back(run(tasks[t], [&](size_t) { sc.point((int)i); })); sc.leave((int)i); });
        for (auto& t : th) t.join();
        for (size_t i = 0; i < T; i++) for (size_t q = 0; q < list[i].size(); q++) same("interleaved", list[i][q], res[i][q]);
        c.count("interleaved"); c.count("switches", sc.switches); if (sc.switches >= 3) c.nontrivial = true; c.desc.resize(keep);
    }
    { // free-running threads
        size_t T = 2 + s.draw(2); std::vector<std::vector<size_t>> list(T); std::vector<std::vector<Out>> res(T); std::vector<uint64_t> look(T * np); std::vector<uint64_t> want; for (auto& p : progs) want.push_back(lookups(*p)); for (size_t i = 0; i < T; i++) { size_t k = 1 + s.draw(3); for (size_t q = 0; q < k; q++) list[i].push_back(any()); }
        std::atomic<int> ready(0); std::vector<std::thread> th; say(c, strf("%zu free-running threads", T));
        for (size_t i = 0; i < T; i++) th.emplace_back([&, i]() { ready++; while (ready.load() < (int)T) std::this_thread::yield(); for (size_t t : list[i]) res[i].push_back(run(tasks[t], nullptr)); for (size_t k = 0; k < np; k++) look[i * np + k] = lookups(*progs[k]); });
        for (auto& t : th) t.join();
        for (size_t i = 0; i < T; i++) { for (size_t q = 0; q < list[i].size(); q++) same("on parallel threads", list[i][q], res[i][q]); for (size_t k = 0; k < np; k++) if (look[i * np + k] != want[k]) c.fail("lookups", "key lookups on parallel threads differ"); }
        c.count("threads", T);
    }
    for (size_t i = 0; i < np; i++) if (progs[i]->il != images[i]) c.fail("image", "execution changed the shared program");
    if (most < 3) c.nontrivial = false;
}
static Reg r28({"C28", "One or two generated schemas are compiled and loaded once; generated encode and decode tasks (valid, invalid, damaged data, refusing hosts) are first executed alone and then again on the shared programs: nested in host callbacks up to three deep, on 2-4 threads that take turns at every callback in a generated order, and on 2-4 free-running threads together with key lookups, verification and error texts, all in a thread sanitizer build. Every execution must give exactly the result it gave alone (callbacks, values, status, size, bytes), programs stay unmodified, and no data race is reported. Non-trivial: at least three switches between contexts in a schedule and a task with three callbacks; distinct by schema texts and data.", c28, 12000, 300000});
