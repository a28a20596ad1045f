#pragma once
#include "cnd.h"
struct Ran { int rc; std::string out, err; };
std::string env(const char* n);
void note(Case& c);
void say(Case& c, const std::string& t);
// Runs the command line tool; crashes, sanitizer reports and hangs fail the case.
Ran cli(Case& c, std::vector<std::string> args, const std::string& in = "", int timeout = 20);
