#pragma once
#include <setjmp.h>
#include <signal.h>
#include <sys/time.h>
#include <algorithm>
// Runs f; returns false if it used more than the given processor time.
inline sigjmp_buf& limitedJb() { static sigjmp_buf jb; return jb; }
inline void limitedAlarm(int) { siglongjmp(limitedJb(), 1); }
template <class Fn> static bool limited(int ms, Fn f) {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = limitedAlarm; sigaction(SIGVTALRM, &sa, nullptr);
    struct itimerval on = {{0, 0}, {ms / 1000, (ms % 1000) * 1000}}, off = {{0, 0}, {0, 0}};
    if (sigsetjmp(limitedJb(), 1)) { setitimer(ITIMER_VIRTUAL, &off, nullptr); return false; }
    setitimer(ITIMER_VIRTUAL, &on, nullptr); f(); setitimer(ITIMER_VIRTUAL, &off, nullptr); return true;
}
int runCompile(const std::string& in, const std::string& outp, bool json, bool verbose, std::string& log, const std::string& dir);
bool exists(const std::string& p);
std::string lower(std::string s);
std::string showText(const std::string& s, size_t n = 1500);
std::string soup(Src& s, size_t n);
std::vector<std::string> mutTokens(Src& s, std::vector<std::string> t);
