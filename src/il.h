#pragma once
// Independent knowledge of the instruction set, shared by the checks of programs.
#include <cstdint>
#include <utility>
#include <vector>
struct Src;
struct Layout { std::vector<size_t> starts, lens; std::vector<std::pair<size_t, size_t>> jumps; std::vector<std::pair<size_t, size_t>> tables; }; // jumps: operand position, base
int argLen(const std::vector<uint8_t>& b, size_t ip); // bytes of arguments; -1 unknown, -2 cut
bool walk(const std::vector<uint8_t>& b, Layout& L);
void genInstr(Src& s, std::vector<uint8_t>& o);
uint32_t g32(const std::vector<uint8_t>& b, size_t i);
uint64_t g64(const std::vector<uint8_t>& b, size_t i);
