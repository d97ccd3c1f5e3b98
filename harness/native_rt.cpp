// Native side of the harness interface: replays the inputs of one path.
//   replay INPUT [name=value ...]
// exit 0: every assertion held; 1: an assertion failed (FAIL <label>); 2: the input does not fit
#include "sym.hpp"
#include <cstdio>
#include <dlfcn.h>
#include <sys/mman.h>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <vector>

static std::vector<std::pair<std::string, std::string>> in;
static size_t pos = 0;
static std::map<std::string, int> params;
static bool printObs = false;

static std::string next(char const* label, size_t n) {
    std::string name = label;
    for (char& c : name)
        if (c == ' ') c = '_';
    if (pos >= in.size() || in[pos].first != name || in[pos].second.size() != n) {
        // the recorded path ended before this input: any value will do
        pos++;
        return std::string(n, '\0');
    }
    return in[pos++].second;
}
extern "C" {
void symex_bytes(char const* name, void* p, size_t n) { memcpy(p, next(name, n).data(), n); }
uint64_t symex_choose(char const* name, uint64_t n) { uint64_t v = (unsigned char)next(name, 1)[0]; return v < n ? v : 0; }
uint64_t symex_split(uint64_t v) { return v; }
void symex_assume(bool c) {
    if (!c) {
        printf("ASSUME\n");
        fflush(stdout);
        _Exit(0);
    }
}
void symex_fail(char const* l) {
    printf("FAIL %s\n", l);
    fflush(stdout);
    _Exit(1);
}
void symex_assert(bool c, char const* l) {
    if (!c) symex_fail(l);
}
void symex_cover(char const*) {}
void symex_observe(uint64_t v) {
    if (printObs) printf("obs %llx\n", (unsigned long long)v);
}
void symex_observe_mem(void const* p, size_t n) {
    if (printObs)
        for (size_t i = 0; i < n; i++) printf("obs %x\n", ((unsigned char const*)p)[i]);
}
int symex_param(char const* name, int d) {
    auto it = params.find(name);
    return it == params.end() ? d : it->second;
}
void symex_note(char const*) {}
}
#ifdef SYM_CUSTOM_HEAP
// heap whose growth direction the harness chooses, as in the engine
static size_t const arenaSize = 1ull << 36;
static char *lo, *hi;  // set on the first allocation, which static initialisers may make
static int mode = 0;
extern "C" void symex_alloc_mode(int m) { mode = m; }
static void* get(size_t n) {
    n = (n + 31) & ~size_t(15);
    if (!lo) {
        lo = (char*)mmap(nullptr, arenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (lo == MAP_FAILED) _Exit(97);
        hi = lo + arenaSize;
    }
    if (mode == 0) { char* p = lo; lo += n; return p; }
    hi -= n;
    return hi;
}
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void*) noexcept {}
void operator delete(void*, size_t) noexcept {}
void operator delete[](void*) noexcept {}
void operator delete[](void*, size_t) noexcept {}
#else
extern "C" void symex_alloc_mode(int) {}
#endif

static void (*entry)() = (void (*)())dlsym(RTLD_DEFAULT, "harness");
int main(int argc, char** argv) {
    std::ifstream f(argv[1]);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream s(line);
        std::string k, n, h;
        s >> k >> n >> h;
        if (k != "in") continue;
        std::string b;
        for (size_t i = 0; i + 1 < h.size(); i += 2) b += (char)strtol(h.substr(i, 2).c_str(), 0, 16);
        in.push_back({n, b});
    }
    for (int i = 2; i < argc; i++) {
        std::string s = argv[i];
        if (s == "-o") { printObs = true; continue; }
        if (s.rfind("--entry=", 0) == 0) { entry = (void (*)())dlsym(RTLD_DEFAULT, s.c_str() + 8); continue; }
        auto e = s.find('=');
        params[s.substr(0, e)] = atoi(s.c_str() + e + 1);
    }
    try {
        if (!entry) { printf("no entry\n"); return 3; }
        entry();
    } catch (std::exception const& e) {
        printf("FAIL uncaught exception: %s\n", e.what());
        return 1;
    }
    printf("OK\n");
    return 0;
}
