// Harness interface. Under the engine the functions are intercepted; in a native replay they are
// provided by native_rt.cpp, which reads the inputs of one path from a file.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>

extern "C" {
void symex_bytes(char const* name, void* p, size_t n);  // make n bytes at p symbolic
uint64_t symex_choose(char const* name, uint64_t n);  // symbolic value in [0, n), n <= 256, then split
uint64_t symex_split(uint64_t v);  // explore each feasible value of v separately
void symex_assume(bool c);
void symex_assert(bool c, char const* label);
void symex_fail(char const* label);
void symex_cover(char const* label);
void symex_observe(uint64_t v);
void symex_observe_mem(void const* p, size_t n);
int symex_param(char const* name, int dflt);  // bound chosen by the driver
void symex_alloc_mode(int mode);  // 0: heap grows upwards, 1: downwards
void symex_note(char const* s);
}

namespace sym {
inline std::string bytes(char const* name, size_t n) {
    char buf[256];
    symex_bytes(name, buf, n);
    return std::string(buf, n);
}
inline void observe(std::string_view s) {
    symex_observe(s.size());
    symex_observe_mem(s.data(), s.size());
}
}  // namespace sym
#define SYM_ASSERT(c, label) symex_assert((c), (label))
