// Strict JSON (RFC 8259) reader used as an oracle.
#pragma once
#include <map>
#include <string>
#include <utility>
#include <vector>
struct J {
    enum K { NUL, BOOL, NUM, STR, ARR, OBJ } k = NUL; bool b = false; std::string s; // s: string value, or the text of a number
    std::vector<J> a; std::vector<std::pair<std::string, J>> o;
    const J* get(const std::string& n) const { for (auto& p : o) if (p.first == n) return &p.second; return nullptr; }
    bool is(K x) const { return k == x; }
};
// Parses the whole text; returns an empty string or what is wrong.
std::string jsonParse(const std::string& t, J& out);
std::string jsonStr(const std::string& s); // quoted
bool utf8Valid(const std::string& s);
