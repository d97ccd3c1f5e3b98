// Symbolic executor for LLVM IR. See DESIGN.md.
//   symex prep in.bc out.bc            make every symbol external so that addresses can be looked up
//   symex run prep.bc lib.so outdir [options] [name=value ...]
#include <cmath>
#include "expr.hpp"

#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <cxxabi.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <malloc.h>
#include <unistd.h>

#include <atomic>
#include <algorithm>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <typeinfo>
#include <unordered_map>
#include <vector>

using namespace llvm;
typedef uint64_t u64;

// ------------------------------------------------------------------------------------------------
// shared state between all processes of one run
constexpr int MAXCOVER = 256;
constexpr int MAXFN = 65536;
struct Shared {
    std::atomic<int> running;
    std::atomic<int> stop;  // deadline reached
    std::atomic<u64> paths, pruned, forks, queries, sat, unsat, unknown, solver_ns, instrs, asserts,
            symAsserts, violations, incomplete, engineErr, samples, natConc, enumMax, symBranches, groups;
    std::atomic<int> lock;
    int ncover;
    struct { char name[96]; std::atomic<u64> n; } cover[MAXCOVER];
    std::atomic<u64> violLabels[64];
    uint8_t fnSeen[MAXFN];
    char err[4096];
    int nerr;
};
static Shared* S;
static void lockS() { int z = 0; while (!S->lock.compare_exchange_weak(z, 1)) { z = 0; } }
static void unlockS() { S->lock.store(0); }

// ------------------------------------------------------------------------------------------------
// options
static std::string outDir;
static std::map<std::string, int> params;
static int maxProcs = 8;
static double deadlineS = 600;
static u64 pathInstrLimit = 400000000ULL;
static u64 sampleStride = 997;
static u64 maxViolations = 8;
static int maxEnum = 70000;
static bool verbose = false;
static double t0;
static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static ExprCtx X;

// ------------------------------------------------------------------------------------------------
// memory: heap arena and interpreter stack at fixed addresses, with shadow
constexpr u64 HEAP = 0x200000000000ULL, HEAPSZ = 16ULL << 30;
constexpr u64 STK = HEAP + HEAPSZ, STKSZ = 256ULL << 20;
constexpr u64 REG = HEAP, REGSZ = HEAPSZ + STKSZ;
static uint8_t* symFlag;  // per 8 bytes: any symbolic byte
static uint8_t* addrSh;  // heap only; per 8 bytes: 0 inaccessible, 1..8 accessible prefix, 0xFD freed
static u64 heapLo, heapHi;  // bump pointers
static int allocMode = 0;
static u64 stkTop = STK;
struct Line { Ex b[8]; };
static std::unordered_map<u64, Line> symLines;  // by addr>>3
static u64 symOutside = 0;  // number of flagged lines outside the region

static std::string backtrace();
[[noreturn]] static void pathExit(int code);
[[noreturn]] static void violation(char const* kind, std::string const& label);
[[noreturn]] static void engineError(std::string const& msg);

static inline bool inReg(u64 a) { return a - REG < REGSZ; }
static inline bool inHeap(u64 a) { return a - HEAP < HEAPSZ; }

static inline bool lineFlag(u64 line) {
    u64 a = line << 3;
    if (inReg(a)) return symFlag[(a - REG) >> 3];
    return symOutside && symLines.count(line);
}
static inline bool anySym(u64 a, u64 n) {
    if (n == 0) return false;
    u64 l0 = a >> 3, l1 = (a + n - 1) >> 3;
    for (u64 l = l0; l <= l1; l++)
        if (lineFlag(l)) return true;
    return false;
}
static Ex symByte(u64 a) {
    u64 l = a >> 3;
    if (!lineFlag(l)) return nullptr;
    auto it = symLines.find(l);
    return it == symLines.end() ? nullptr : it->second.b[a & 7];
}
static void setSymByte(u64 a, Ex e) {
    u64 l = a >> 3;
    bool f = lineFlag(l);
    if (!e) {
        if (!f) return;
        auto& L = symLines[l];
        L.b[a & 7] = nullptr;
        for (int i = 0; i < 8; i++)
            if (L.b[i]) return;
        if (inReg(a)) symFlag[(a - REG) >> 3] = 0;
        else { symLines.erase(l); symOutside--; }
        return;
    }
    auto& L = symLines[l];
    if (!f) {
        memset(&L, 0, sizeof L);
        if (inReg(a)) symFlag[(a - REG) >> 3] = 1;
        else symOutside++;
    }
    L.b[a & 7] = e;
}
static void clearSym(u64 a, u64 n) {
    if (!anySym(a, n)) return;
    for (u64 i = 0; i < n; i++) setSymByte(a + i, nullptr);
}

static void badAccess(u64 a, u64 n, bool write) {
    char buf[128];
    char const* what = "heap-out-of-bounds";
    if (inHeap(a)) {
        for (u64 i = 0; i < n; i++)
            if (addrSh[(a + i - HEAP) >> 3] == 0xFD) what = "heap-use-after-free";
    }
    snprintf(buf, sizeof buf, "%s %s of %llu bytes", what, write ? "write" : "read", (unsigned long long)n);
    violation("memory", buf);
}
static inline void checkAcc(u64 a, u64 n, bool write) {
    if (inHeap(a)) {
        u64 o = a - HEAP;
        if (n <= 8 && (o & 7) + n <= 8) {
            uint8_t s = addrSh[o >> 3];
            if (__builtin_expect(s == 8, 1)) return;
            if (s == 0xFD || (o & 7) + n > s) badAccess(a, n, write);
            return;
        }
        u64 e = o + n;
        while (o < e) {
            uint8_t s = addrSh[o >> 3];
            u64 k = std::min<u64>(e - o, 8 - (o & 7));
            if (s == 0xFD || (o & 7) + k > s) badAccess(a, n, write);
            o += k;
        }
        return;
    }
    if (__builtin_expect(a < 65536, 0)) violation("memory", "null pointer access");
}

extern "C" void* symex_malloc(size_t n) {
    u64 need = ((n + 15) & ~15ULL);
    u64 p;
    u64 gap = 32;
    if (need + gap > heapHi - heapLo) engineError("heap exhausted");
    if (allocMode == 0) {
        p = heapLo + 16;
        heapLo = p + need + 16;
    } else {
        p = heapHi - need - 16;
        heapHi = p - 16;
    }
    *(u64*)(p - 16) = n;
    *(u64*)(p - 8) = 0x5AFEB10C;
    memset((void*)p, 0xCA, std::min<u64>(n, 4096));
    u64 o = (p - HEAP) >> 3;
    memset(addrSh + o, 8, n >> 3);
    if (n & 7) addrSh[o + (n >> 3)] = n & 7;
    return (void*)p;
}
static bool nativeMode = false;
extern "C" void symex_free(void* q) {
    if (!q) return;
    u64 p = (u64)q;
    if (!inHeap(p)) { if (!inReg(p)) free(q); return; }
    u64 o = (p - HEAP) >> 3;
    u64 n = *(u64*)(p - 16);
    if (*(u64*)(p - 8) != 0x5AFEB10C || (p & 15) ) violation("memory", "invalid free");
    if (n && addrSh[o] == 0xFD) violation("memory", "double free");
    clearSym(p, n);
    memset(addrSh + o, 0xFD, (n + 7) >> 3);
    u64 pg0 = (p + 4095) & ~4095ULL, pg1 = (p + n) & ~4095ULL;
    if (pg1 > pg0 + 8192) madvise((void*)pg0, pg1 - pg0, MADV_DONTNEED);
}
extern "C" void* symex_znwm(size_t n) { return symex_malloc(n); }
extern "C" void* symex_znwm_al(size_t n, size_t) { return symex_malloc(n); }
extern "C" void symex_zdlpv(void* p) { symex_free(p); }
extern "C" void symex_zdlpv_m(void* p, size_t) { symex_free(p); }
extern "C" void symex_zdlpv_m_al(void* p, size_t, size_t) { symex_free(p); }
extern "C" void* symex_calloc(size_t a, size_t b) { void* p = symex_malloc(a * b); memset(p, 0, a * b); return p; }
// operator delete of this process: objects made by the code under test can be freed by libstdc++
void operator delete(void* p) noexcept { symex_free(p); }
void operator delete(void* p, size_t) noexcept { symex_free(p); }
void operator delete[](void* p) noexcept { symex_free(p); }
void operator delete[](void* p, size_t) noexcept { symex_free(p); }

// ------------------------------------------------------------------------------------------------
// path condition and solver
static Z3_solver solver;
static std::vector<Ex> pc;
struct SymVar { std::string name; unsigned input; unsigned off; };
static std::vector<SymVar> vars;
struct Input { std::string name; unsigned first, n; };
static std::vector<Input> inputs;
static u64 dom[128][4];
static bool coupled[128];
static std::vector<std::pair<Ex, u64>> observed;  // expression or constant

static inline bool inDom(int v, int x) { return dom[v][x >> 6] >> (x & 63) & 1; }

static int zcheck(Z3_ast extra) {
    S->queries++;
    timespec a, b;
    clock_gettime(CLOCK_MONOTONIC, &a);
    Z3_lbool r;
    if (extra) {
        Z3_solver_push(X.z, solver);
        Z3_solver_assert(X.z, solver, extra);
        r = Z3_solver_check(X.z, solver);
        Z3_solver_pop(X.z, solver, 1);
    } else r = Z3_solver_check(X.z, solver);
    clock_gettime(CLOCK_MONOTONIC, &b);
    S->solver_ns += (b.tv_sec - a.tv_sec) * 1000000000LL + (b.tv_nsec - a.tv_nsec);
    if (r == Z3_L_TRUE) { S->sat++; return 1; }
    if (r == Z3_L_FALSE) { S->unsat++; return 0; }
    S->unknown++;
    engineError("solver answered unknown");
}
// model of pc (+extra) into bytes
static bool getModel(Ex extra, std::vector<uint8_t>& out) {
    S->queries++;
    Z3_solver_push(X.z, solver);
    if (extra) Z3_solver_assert(X.z, solver, X.zbool(extra));
    timespec a, b;
    clock_gettime(CLOCK_MONOTONIC, &a);
    Z3_lbool r = Z3_solver_check(X.z, solver);
    clock_gettime(CLOCK_MONOTONIC, &b);
    S->solver_ns += (b.tv_sec - a.tv_sec) * 1000000000LL + (b.tv_nsec - a.tv_nsec);
    if (r != Z3_L_TRUE) {
        if (r == Z3_L_FALSE) S->unsat++;
        else S->unknown++;
        Z3_solver_pop(X.z, solver, 1);
        return false;
    }
    S->sat++;
    Z3_model m = Z3_solver_get_model(X.z, solver);
    Z3_model_inc_ref(X.z, m);
    out.assign(vars.size() ? vars.size() : 1, 0);
    for (unsigned i = 0; i < vars.size(); i++) {
        Z3_ast v = nullptr;
        if (Z3_model_eval(X.z, m, X.zvar(i), true, &v)) {
            unsigned u = 0;
            Z3_inc_ref(X.z, v);
            Z3_get_numeral_uint(X.z, v, &u);
            Z3_dec_ref(X.z, v);
            out[i] = u;
        }
    }
    Z3_model_dec_ref(X.z, m);
    Z3_solver_pop(X.z, solver, 1);
    return true;
}
static void addConstraint(Ex c) {
    if (c->op == E_CONST) { if (!c->val) engineError("false constraint"); return; }
    pc.push_back(c);
    int v = ExprCtx::unary(c);
    if (v >= 0) {
        auto t = X.utab(c);
        for (int i = 0; i < 256; i++)
            if (!t[i]) dom[v][i >> 6] &= ~(1ULL << (i & 63));
    } else {
        for (int i = 0; i < 64; i++) {
            if (c->m0 >> i & 1) coupled[i] = true;
            if (c->m1 >> i & 1) coupled[64 + i] = true;
        }
    }
    Z3_solver_assert(X.z, solver, X.zbool(c));
}
static bool feasible(Ex c) {
    if (c->op == E_CONST) return c->val;
    int v = ExprCtx::unary(c);
    if (v >= 0) {
        auto t = X.utab(c);
        bool any = false;
        for (int i = 0; i < 256 && !any; i++) any = t[i] && inDom(v, i);
        if (!any) return false;  // excluded by the constraints on this byte alone
        if (!coupled[v]) {
            bool all = true;
            for (int i = 0; i < 256 && all; i++) all = t[i] || !inDom(v, i);
            if (all) return true;  // implied by the constraints on this byte alone
        }
    }
    return zcheck(X.zbool(c));
}

// ------------------------------------------------------------------------------------------------
// process tree
static bool ownToken = true;  // release on exit
static u64 nInstr = 0, nInstrFlushed = 0, pathStartInstr = 0;
static void flushInstr() {
    S->instrs += nInstr - nInstrFlushed;
    nInstrFlushed = nInstr;
}
static void pathExit(int code) {
    flushInstr();
    if (ownToken) S->running--;
    _exit(code);
}
static void engineError(std::string const& msg) {
    lockS();
    if (S->nerr < 8) {
        size_t l = strlen(S->err);
        snprintf(S->err + l, sizeof(S->err) - l, "%s; ", msg.c_str());
        S->nerr++;
    }
    unlockS();
    S->engineErr++;
    if (verbose) fprintf(stderr, "engine error: %s\n", msg.c_str());
    pathExit(3);
}
static void checkDeadline() {
    if (S->stop.load(std::memory_order_relaxed) || now() - t0 > deadlineS) {
        S->stop = 1;
        S->incomplete++;
        pathExit(4);
    }
}
// returns in each of n processes with a different index
static int forkN(int n) {
    for (int i = 1; i < n; i++) {
        checkDeadline();
        S->forks++;
        bool tok = false;
        int r = S->running.load();
        while (r < maxProcs)
            if (S->running.compare_exchange_weak(r, r + 1)) { tok = true; break; }
        flushInstr();
        pid_t p = fork();
        if (p < 0) {
            if (tok) S->running--;
            engineError("fork failed");
        }
        if (p == 0) {
            ownToken = tok;
            nInstrFlushed = nInstr;
            return i;
        }
        if (!tok) {
            int st;
            while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
            if (WIFSIGNALED(st)) { S->engineErr++; lockS(); if (S->nerr < 8) { strcat(S->err, "a path process died; "); S->nerr++; } unlockS(); }
        }
    }
    checkDeadline();
    return 0;
}

struct Val { u64 c; Ex e; };
static inline Ex toE(Val const& v, unsigned w) { return v.e ? v.e : X.con(w, v.c); }
static inline Val fromE(Ex e) { return e->op == E_CONST ? Val{e->val, nullptr} : Val{0, e}; }

// explore every feasible value of e; returns the one this process continues with
static u64 concretizeE(Ex e) {
    if (e->op == E_CONST) return e->val;
    int v = ExprCtx::unary(e);
    std::vector<u64> vals;
    std::vector<Ex> cons;
    if (v >= 0) {
        auto t = X.utab(e);
        std::unordered_map<u64, int> seen;
        for (int i = 0; i < 256; i++)
            if (inDom(v, i) && seen.emplace(t[i], (int)vals.size()).second) vals.push_back(t[i]);
        if (vals.size() == 1) return vals[0];
        std::vector<u64> nv;
        for (auto x : vals) {
            u64 tt[256];
            for (int i = 0; i < 256; i++) tt[i] = t[i] == x;
            Ex c = X.table(1, v, tt);
            if (zcheck(X.zbool(c))) { nv.push_back(x); cons.push_back(c); }
        }
        vals.swap(nv);
    } else {
        Z3_solver_push(X.z, solver);
        std::vector<uint8_t> m;
        while (getModel(nullptr, m)) {
            u64 x = X.eval(e, m.data());
            vals.push_back(x);
            Ex c = X.bin(E_EQ, e, X.con(e->w, x));
            cons.push_back(c);
            Z3_solver_assert(X.z, solver, X.zbool(X.bnot(c)));
            if ((int)vals.size() > maxEnum) engineError("too many values for a symbolic address or size");
            if ((vals.size() & 255) == 0) checkDeadline();
        }
        Z3_solver_pop(X.z, solver, 1);
    }
    if (vals.empty()) engineError("no feasible value");
    u64 em = S->enumMax.load();
    while (vals.size() > em && !S->enumMax.compare_exchange_weak(em, vals.size())) {}
    if (vals.size() > 1) S->groups += vals.size();
    if (verbose && vals.size() > 12) fprintf(stderr, "large split: %zu values\n%s", vals.size(), backtrace().c_str());
    int i = forkN(vals.size());
    if (vals.size() > 1) addConstraint(cons[i]);
    return vals[i];
}
static inline u64 concretize(Val const& v) {
    if (__builtin_expect(v.e == nullptr, 1)) return v.c;
    return concretizeE(v.e);
}
// any one feasible value, path condition unchanged: only for values nothing depends on
static u64 anyValue(Val const& v) {
    if (!v.e) return v.c;
    std::vector<uint8_t> m;
    if (!getModel(nullptr, m)) engineError("infeasible path");
    return X.eval(v.e, m.data());
}
// decide a branch; both sides explored when both feasible
static bool decide(Ex c) {
    if (c->op == E_CONST) return c->val;
    S->symBranches++;
    bool t = feasible(c);
    if (!t) return false;
    Ex n = X.bnot(c);
    if (!feasible(n)) return true;
    int i = forkN(2);
    if (i == 0) { addConstraint(c); return true; }
    addConstraint(n);
    return false;
}

// ------------------------------------------------------------------------------------------------
// memory access with symbolic contents
static Val loadBytes(u64 a, unsigned n) {  // n <= 8, accessibility already checked
    u64 c = 0;
    memcpy(&c, (void*)a, n);
    if (__builtin_expect(!anySym(a, n), 1)) return {c, nullptr};
    Ex r = nullptr;
    for (unsigned i = 0; i < n; i++) {
        Ex b = symByte(a + i);
        if (!b) b = X.con(8, (c >> (8 * i)) & 255);
        r = r ? X.concat(b, r) : b;
    }
    return fromE(r);
}
static void storeBytes(u64 a, unsigned n, Val v) {
    if (__builtin_expect(!v.e, 1)) {
        if (__builtin_expect(anySym(a, n), 0))
            for (unsigned i = 0; i < n; i++) setSymByte(a + i, nullptr);
        memcpy((void*)a, &v.c, n);
        return;
    }
    for (unsigned i = 0; i < n; i++) {
        Ex b = n == 1 && v.e->w == 8 ? v.e : X.extract(v.e->w < n * 8 ? X.zext(v.e, n * 8) : v.e, 8 * i, 8);
        if (b->op == E_CONST) {
            setSymByte(a + i, nullptr);
            *(uint8_t*)(a + i) = b->val;
        } else setSymByte(a + i, b);
    }
}
static Val loadMem(Val av, unsigned w) {
    unsigned n = (w + 7) / 8;
    Val r;
    if (__builtin_expect(!av.e, 1)) {
        checkAcc(av.c, n, false);
        r = loadBytes(av.c, n);
    } else {
        int v = ExprCtx::unary(av.e);
        bool done = false;
        if (v >= 0) {
            auto t = X.utab(av.e);
            u64 tt[256];
            memset(tt, 0, sizeof tt);
            bool ok = true;
            u64 last = 0;
            bool have = false;
            for (int i = 0; i < 256 && ok; i++)
                if (inDom(v, i)) {
                    if (inHeap(t[i])) {
                        u64 o = t[i] - HEAP;
                        for (u64 k = 0; k < n && ok; k++) {
                            uint8_t s = addrSh[(o + k) >> 3];
                            if (s == 0xFD || ((o + k) & 7) >= s) ok = false;
                        }
                    } else if (t[i] < 65536) ok = false;
                    if (!ok || anySym(t[i], n)) { ok = false; break; }
                    u64 x = 0;
                    memcpy(&x, (void*)t[i], n);
                    tt[i] = x;
                    last = x;
                    have = true;
                }
            if (ok && have) {
                for (int i = 0; i < 256; i++)
                    if (!inDom(v, i)) tt[i] = last;
                r = fromE(X.table(n * 8, v, tt));
                done = true;
            }
        }
        if (!done) {
            u64 a = concretizeE(av.e);
            checkAcc(a, n, false);
            r = loadBytes(a, n);
        }
    }
    if (w != n * 8) {
        if (r.e) r = fromE(X.extract(r.e, 0, w));
        else r.c &= maskw(w);
    }
    return r;
}
static inline void storeMem(Val av, unsigned w, Val v) {
    unsigned n = (w + 7) / 8;
    u64 a = concretize(av);
    checkAcc(a, n, true);
    storeBytes(a, n, v);
}
static void copyMem(u64 d, u64 s, u64 n) {
    if (n == 0) return;
    checkAcc(s, n, false);
    checkAcc(d, n, true);
    bool ss = anySym(s, n), ds = anySym(d, n);
    if (!ss && !ds) { memmove((void*)d, (void*)s, n); return; }
    std::vector<Ex> b(n);
    for (u64 i = 0; i < n; i++) b[i] = symByte(s + i);
    memmove((void*)d, (void*)s, n);
    for (u64 i = 0; i < n; i++) setSymByte(d + i, b[i]);
}
static void setMem(u64 d, Val v, u64 n) {
    if (n == 0) return;
    checkAcc(d, n, true);
    if (!v.e) { clearSym(d, n); memset((void*)d, (int)v.c, n); return; }
    Ex b = X.extract(v.e, 0, 8);
    for (u64 i = 0; i < n; i++) storeBytes(d + i, 1, fromE(b));
}

// ------------------------------------------------------------------------------------------------
// decoded code
enum Op : uint16_t {
    OP_BIN, OP_ICMP, OP_ZEXT, OP_SEXT, OP_TRUNC, OP_SELECT, OP_LOAD, OP_STORE, OP_GEPC, OP_GEP1, OP_ALLOCA, OP_BR, OP_CBR,
    OP_SWITCH, OP_RET, OP_CALL, OP_MOV, OP_UNREACHABLE, OP_LPAD, OP_RESUME, OP_FBIN, OP_FCMP, OP_FCAST, OP_UNSUP, OP_FNEG,
    OP_ADD, OP_SUB, OP_EQ, OP_NE, OP_ULT
};
struct Inst { uint16_t op; uint8_t w; uint8_t w2; int32_t dst, a, b, c; u64 imm; };
struct Edge { int pc; std::vector<std::pair<int, int>> copies; };
struct FuncInfo;
struct CallInfo {
    FuncInfo* callee = nullptr;
    int calleeRef = 0;
    std::vector<int> args;
    std::vector<uint8_t> argW;
    std::vector<std::pair<int, u64>> byval;
    int dst = -1, nret = 0;
    uint8_t retW = 0;
    std::vector<uint8_t> retWs;
    int normal = -1, unwind = -1;
    Intrinsic::ID intr = Intrinsic::not_intrinsic;
    bool retFP = false, anyFP = false;
};
struct SwitchInfo { std::vector<std::pair<u64, int>> cases; int def; };
struct LpadInfo { bool cleanup; std::vector<std::pair<int, int>> clauses; /*kind 0 catch 1 filter, typeinfo const addr idx*/ std::vector<u64> ti; };
struct Interp;
typedef bool (*Model)(CallInfo const&, std::vector<Val>&, Val* ret);  // false: exception in flight
struct FuncInfo {
    Function* F;
    bool decl = true;
    std::string name;
    int idx;
    bool decoded = false;
    u64 addr = 0;
    Model model = nullptr;
    std::vector<Inst> code;
    std::vector<Val> consts;
    std::vector<Edge> edges;
    std::vector<CallInfo> calls;
    std::vector<SwitchInfo> switches;
    std::vector<LpadInfo> lpads;
    std::vector<std::vector<int>> rets;
    std::vector<std::string> strs;
    int nslots = 0;
    std::vector<int> argSlots;
    int nargs = 0;
};
static Module* M;
static DataLayout const* DL;
static void* lib;
static std::unordered_map<Function*, FuncInfo*> finfo;
static std::unordered_map<u64, FuncInfo*> byAddr;
static std::vector<FuncInfo*> allF;
static std::unordered_map<std::string, Model> models;

static u64 symAddr(std::string const& n) {
    void* p = dlsym(lib, n.c_str());
    if (!p) p = dlsym(RTLD_DEFAULT, n.c_str());
    return (u64)p;
}
static std::unordered_map<GlobalValue const*, u64> gaddr;
static u64 globalAddr(GlobalValue const* g) {
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    u64 a = symAddr(g->getName().str());
    if (!a) {
        if (verbose) fprintf(stderr, "no address for %s\n", g->getName().str().c_str());
    }
    gaddr[g] = a;
    return a;
}

// flatten a type to scalar leaves with offsets
struct Leaf { Type* t; u64 off; unsigned w; };
static void leaves(Type* t, u64 off, std::vector<Leaf>& out) {
    if (t->isVoidTy()) return;
    if (auto s = dyn_cast<StructType>(t)) {
        auto L = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) leaves(s->getElementType(i), off + L->getElementOffset(i), out);
    } else if (auto a = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(a->getElementType());
        for (u64 i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), off + i * es, out);
    } else if (auto v = dyn_cast<FixedVectorType>(t)) {
        u64 es = DL->getTypeAllocSize(v->getElementType());
        for (u64 i = 0; i < v->getNumElements(); i++) leaves(v->getElementType(), off + i * es, out);
    } else {
        unsigned w;
        if (t->isPointerTy()) w = 64;
        else if (t->isIntegerTy()) w = t->getIntegerBitWidth();
        else if (t->isFloatTy()) w = 32;
        else if (t->isDoubleTy()) w = 64;
        else w = 255;
        out.push_back({t, off, w > 64 ? 255 : w});
    }
}
static unsigned nLeaves(Type* t) {
    if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) return 0;
    if (t->isPointerTy() || t->isIntegerTy()) return 1;
    std::vector<Leaf> l;
    leaves(t, 0, l);
    return l.size();
}

static u64 constVal(Constant const* c);
static void constLeaves(Constant const* c, std::vector<Val>& out) {
    Type* t = c->getType();
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++) {
            Constant* e = c->getAggregateElement(i);
            if (!e) { out.push_back({0, nullptr}); continue; }
            constLeaves(e, out);
        }
        return;
    }
    out.push_back({constVal(c), nullptr});
}
static u64 constVal(Constant const* c) {
    if (auto i = dyn_cast<ConstantInt>(c)) return i->getBitWidth() > 64 ? i->getValue().trunc(64).getZExtValue() : i->getZExtValue();
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
    if (auto f = dyn_cast<ConstantFP>(c)) return f->getValueAPF().bitcastToAPInt().trunc(f->getType()->isFloatTy() ? 32 : std::min(64u, f->getValueAPF().bitcastToAPInt().getBitWidth())).getZExtValue();
    if (auto g = dyn_cast<GlobalValue>(c)) return globalAddr(g);
    if (auto e = dyn_cast<ConstantExpr>(c)) {
        switch (e->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                auto g = cast<GEPOperator>(e);
                if (!g->accumulateConstantOffset(*DL, off)) abort();
                return constVal(cast<Constant>(g->getPointerOperand())) + off.getSExtValue();
            }
            case Instruction::PtrToInt:
            case Instruction::IntToPtr:
            case Instruction::BitCast:
            case Instruction::AddrSpaceCast: return constVal(e->getOperand(0));
            case Instruction::Sub: return constVal(e->getOperand(0)) - constVal(e->getOperand(1));
            case Instruction::Add: return constVal(e->getOperand(0)) + constVal(e->getOperand(1));
            case Instruction::Trunc: return constVal(e->getOperand(0)) & maskw(e->getType()->getIntegerBitWidth());
            case Instruction::ICmp: {
                u64 a = constVal(e->getOperand(0)), b = constVal(e->getOperand(1));
                return e->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b;
            }
            default: break;
        }
    }
    std::string s;
    raw_string_ostream os(s);
    c->print(os);
    fprintf(stderr, "unsupported constant: %s\n", s.c_str());
    return 0;
}

struct Decoder {
    FuncInfo* fi;
    std::unordered_map<Value const*, int> slot;
    std::unordered_map<Value const*, int> cref;
    std::unordered_map<BasicBlock const*, int> bbpc;
    struct Fix { int edge; BasicBlock const* from; BasicBlock const* to; };
    std::vector<Fix> fixes;

    int newSlots(int n) {
        int s = fi->nslots;
        fi->nslots += n;
        return s;
    }
    int ref(Value const* v, unsigned leaf = 0) {
        if (auto c = dyn_cast<Constant>(v)) {
            auto it = cref.find(v);
            int base;
            if (it == cref.end()) {
                base = fi->consts.size();
                std::vector<Val> l;
                constLeaves(c, l);
                for (auto& x : l) fi->consts.push_back(x);
                cref[v] = base;
            } else base = it->second;
            return ~(base + (int)leaf);
        }
        auto it = slot.find(v);
        if (it == slot.end()) return ~immRef(0);  // metadata and the like
        return it->second + leaf;
    }
    int immRef(u64 x) {
        fi->consts.push_back({x, nullptr});
        return fi->consts.size() - 1;
    }
    Inst& emit(Op op, unsigned w = 0, int dst = -1, int a = 0, int b = 0, int c = 0, u64 imm = 0) {
        fi->code.push_back({(uint16_t)op, (uint8_t)w, 0, dst, a, b, c, imm});
        return fi->code.back();
    }
    void unsup(Value const* v, char const* why = "") {
        std::string s;
        raw_string_ostream os(s);
        v->print(os);
        fi->strs.push_back(std::string(why) + s);
        emit(OP_UNSUP, 0, -1, 0, 0, 0, fi->strs.size() - 1);
    }
    int edge(BasicBlock const* from, BasicBlock const* to) {
        int e = fi->edges.size();
        fi->edges.push_back({-1, {}});
        fixes.push_back({e, from, to});
        return e;
    }
    static unsigned width(Type* t) {
        if (t->isPointerTy()) return 64;
        if (t->isIntegerTy()) return t->getIntegerBitWidth() > 64 ? 255 : t->getIntegerBitWidth();
        if (t->isFloatTy()) return 32;
        if (t->isDoubleTy()) return 64;
        return 255;
    }
    void run() {
        Function* F = fi->F;
        for (auto& a : F->args()) {
            int n = nLeaves(a.getType());
            slot[&a] = newSlots(n);
            for (int i = 0; i < n; i++) fi->argSlots.push_back(slot[&a] + i);
        }
        for (auto& bb : *F)
            for (auto& in : bb) {
                int n = nLeaves(in.getType());
                if (n) slot[&in] = newSlots(n);
            }
        for (auto& bb : *F) {
            bbpc[&bb] = fi->code.size();
            for (auto& in : bb) inst(&in);
        }
        for (auto& f : fixes) {
            auto& e = fi->edges[f.edge];
            e.pc = bbpc[f.to];
            for (auto& phi : f.to->phis()) {
                Value* v = phi.getIncomingValueForBlock(f.from);
                int n = nLeaves(phi.getType());
                if (isa<UndefValue>(v)) continue;
                for (int i = 0; i < n; i++) e.copies.push_back({ref(v, i), slot[&phi] + i});
            }
        }
        fi->decoded = true;
    }
    void gep(GEPOperator const* g, int dst) {
        if (g->getType()->isVectorTy()) { unsup(g, "vector gep"); return; }
        int base = ref(g->getPointerOperand());
        u64 off = 0;
        std::vector<std::pair<int, u64>> vidx;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            Value* idx = it.getOperand();
            if (StructType* st = it.getStructTypeOrNull()) {
                off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            } else {
                u64 sz = DL->getTypeAllocSize(it.getIndexedType());
                if (auto ci = dyn_cast<ConstantInt>(idx)) off += (u64)ci->getSExtValue() * sz;
                else {
                    int r = ref(idx);
                    unsigned w = width(idx->getType());
                    if (w < 64) {
                        int t = newSlots(1);
                        auto& i = emit(OP_SEXT, 64, t, r);
                        i.w2 = w;
                        r = t;
                    }
                    vidx.push_back({r, sz});
                }
            }
        }
        if (vidx.empty()) { emit(OP_GEPC, 64, dst, base, 0, 0, off); return; }
        for (size_t i = 0; i < vidx.size(); i++) {
            int t = i + 1 == vidx.size() ? dst : newSlots(1);
            emit(OP_GEP1, 64, t, base, vidx[i].first, (int)vidx[i].second, i == 0 ? off : 0);
            if (vidx[i].second > 0x7fffffff) unsup(g, "gep scale");
            base = t;
        }
    }
    void call(CallBase* cb) {
        if (cb->isInlineAsm()) {
            auto ia = cast<InlineAsm>(cb->getCalledOperand());
            if (ia->getAsmString().empty() && cb->getType()->isVoidTy()) {
                return;  // compiler barrier
            }
            unsup(cb, "inline asm");
            return;
        }
        Value* cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        CallInfo ci;
        if (auto f = dyn_cast<Function>(cv)) {
            ci.intr = f->getIntrinsicID();
            switch (ci.intr) {
                case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start:
                case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
                case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch:
                case Intrinsic::donothing: case Intrinsic::stackrestore: return;
                default: break;
            }
            ci.callee = finfo[f];
            if (ci.intr != Intrinsic::not_intrinsic && cb->getType()->isVectorTy()) { unsup(cb, "vector intrinsic"); return; }
        } else ci.calleeRef = ref(cv);
        for (unsigned i = 0; i < cb->arg_size(); i++) {
            Value* a = cb->getArgOperand(i);
            if (a->getType()->isMetadataTy()) continue;
            std::vector<Leaf> l;
            leaves(a->getType(), 0, l);
            if (cb->isByValArgument(i)) ci.byval.push_back({(int)ci.args.size(), (u64)DL->getTypeAllocSize(cb->getParamByValType(i))});
            for (unsigned k = 0; k < l.size(); k++) {
                ci.args.push_back(ref(a, k));
                ci.argW.push_back(l[k].w);
                if (l[k].t->isFloatingPointTy()) ci.anyFP = true;
            }
        }
        std::vector<Leaf> l;
        leaves(cb->getType(), 0, l);
        ci.nret = l.size();
        if (ci.nret) {
            ci.dst = slot[cb];
            ci.retW = l[0].w;
            for (auto& x : l) {
                ci.retWs.push_back(x.w);
                if (x.t->isFloatingPointTy()) ci.retFP = true;
            }
        }
        if (auto iv = dyn_cast<InvokeInst>(cb)) {
            ci.normal = edge(cb->getParent(), iv->getNormalDest());
            ci.unwind = edge(cb->getParent(), iv->getUnwindDest());
        }
        fi->calls.push_back(ci);
        emit(OP_CALL, 0, ci.dst, 0, 0, 0, fi->calls.size() - 1);
    }
    void inst(Instruction* in) {
        int dst = slot.count(in) ? slot[in] : -1;
        unsigned op = in->getOpcode();
        Type* ty = in->getType();
        switch (op) {
            case Instruction::PHI: return;
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
            case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
            case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
                unsigned w = width(ty->getScalarType());
                if (w == 255) { unsup(in, "wide "); return; }
                EOp e;
                switch (op) {
                    case Instruction::Add: e = E_ADD; break;
                    case Instruction::Sub: e = E_SUB; break;
                    case Instruction::Mul: e = E_MUL; break;
                    case Instruction::UDiv: e = E_UDIV; break;
                    case Instruction::SDiv: e = E_SDIV; break;
                    case Instruction::URem: e = E_UREM; break;
                    case Instruction::SRem: e = E_SREM; break;
                    case Instruction::And: e = E_AND; break;
                    case Instruction::Or: e = E_OR; break;
                    case Instruction::Xor: e = E_XOR; break;
                    case Instruction::Shl: e = E_SHL; break;
                    case Instruction::LShr: e = E_LSHR; break;
                    default: e = E_ASHR;
                }
                int n = nLeaves(ty);
                for (int i = 0; i < n; i++)
                    emit(e == E_ADD ? OP_ADD : e == E_SUB ? OP_SUB : OP_BIN, w, dst + i, ref(in->getOperand(0), i), ref(in->getOperand(1), i), e);
                return;
            }
            case Instruction::ICmp: {
                auto ic = cast<ICmpInst>(in);
                unsigned w = width(in->getOperand(0)->getType()->getScalarType());
                if (w == 255) { unsup(in, "wide "); return; }
                int n = nLeaves(ty);
                for (int i = 0; i < n; i++) {
                    Op o = OP_ICMP;
                    if (ic->getPredicate() == CmpInst::ICMP_EQ) o = OP_EQ;
                    else if (ic->getPredicate() == CmpInst::ICMP_NE) o = OP_NE;
                    else if (ic->getPredicate() == CmpInst::ICMP_ULT) o = OP_ULT;
                    emit(o, w, dst + i, ref(in->getOperand(0), i), ref(in->getOperand(1), i), ic->getPredicate());
                }
                return;
            }
            case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
                unsigned w = width(ty->getScalarType()), w2 = width(in->getOperand(0)->getType()->getScalarType());
                if (w == 255 || w2 == 255) { unsup(in, "wide "); return; }
                int n = nLeaves(ty);
                for (int i = 0; i < n; i++) {
                    auto& x = emit(op == Instruction::ZExt ? OP_ZEXT : op == Instruction::SExt ? OP_SEXT : OP_TRUNC, w, dst + i, ref(in->getOperand(0), i));
                    x.w2 = w2;
                }
                return;
            }
            case Instruction::PtrToInt: case Instruction::IntToPtr: {
                unsigned w = width(ty), w2 = width(in->getOperand(0)->getType());
                if (w == 255 || w2 == 255) { unsup(in, "wide "); return; }
                auto& x = emit(w == w2 ? OP_MOV : w < w2 ? OP_TRUNC : OP_ZEXT, w, dst, ref(in->getOperand(0)));
                x.w2 = w2;
                return;
            }
            case Instruction::BitCast: case Instruction::Freeze: {
                int n = nLeaves(ty), m = nLeaves(in->getOperand(0)->getType());
                if (n != m) { unsup(in, "bitcast "); return; }
                for (int i = 0; i < n; i++) emit(OP_MOV, 0, dst + i, ref(in->getOperand(0), i));
                return;
            }
            case Instruction::Select: {
                auto s = cast<SelectInst>(in);
                std::vector<Leaf> l;
                leaves(ty, 0, l);
                bool vc = s->getCondition()->getType()->isVectorTy();
                for (unsigned i = 0; i < l.size(); i++)
                    emit(OP_SELECT, l[i].w, dst + i, ref(s->getCondition(), vc ? i : 0), ref(s->getTrueValue(), i), ref(s->getFalseValue(), i)).w2 = ty->isPointerTy();
                return;
            }
            case Instruction::Load: {
                std::vector<Leaf> l;
                leaves(ty, 0, l);
                for (unsigned i = 0; i < l.size(); i++) {
                    if (l[i].w == 255) { unsup(in, "wide "); return; }
                    emit(OP_LOAD, l[i].w, dst + i, ref(in->getOperand(0)), 0, 0, l[i].off);
                }
                return;
            }
            case Instruction::Store: {
                std::vector<Leaf> l;
                leaves(in->getOperand(0)->getType(), 0, l);
                for (unsigned i = 0; i < l.size(); i++) {
                    if (l[i].w == 255) { unsup(in, "wide "); return; }
                    emit(OP_STORE, l[i].w, -1, ref(in->getOperand(1)), ref(in->getOperand(0), i), 0, l[i].off);
                }
                return;
            }
            case Instruction::GetElementPtr: gep(cast<GEPOperator>(in), dst); return;
            case Instruction::Alloca: {
                auto a = cast<AllocaInst>(in);
                u64 sz = DL->getTypeAllocSize(a->getAllocatedType());
                emit(OP_ALLOCA, 64, dst, ref(a->getArraySize()), (int)a->getAlign().value(), 0, sz);
                return;
            }
            case Instruction::Br: {
                auto b = cast<BranchInst>(in);
                if (b->isUnconditional()) {
                    int e = edge(in->getParent(), b->getSuccessor(0));
                    emit(OP_BR, 0, -1, e);
                } else {
                    int e0 = edge(in->getParent(), b->getSuccessor(0)), e1 = edge(in->getParent(), b->getSuccessor(1));
                    emit(OP_CBR, 1, -1, ref(b->getCondition()), e0, e1);
                }
                return;
            }
            case Instruction::Switch: {
                auto s = cast<SwitchInst>(in);
                SwitchInfo si;
                unsigned w = width(s->getCondition()->getType());
                for (auto& c : s->cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(), edge(in->getParent(), c.getCaseSuccessor())});
                si.def = edge(in->getParent(), s->getDefaultDest());
                fi->switches.push_back(si);
                emit(OP_SWITCH, w, -1, ref(s->getCondition()), 0, 0, fi->switches.size() - 1);
                return;
            }
            case Instruction::Ret: {
                std::vector<int> r;
                if (in->getNumOperands())
                    for (unsigned i = 0; i < nLeaves(in->getOperand(0)->getType()); i++) r.push_back(ref(in->getOperand(0), i));
                fi->rets.push_back(r);
                emit(OP_RET, 0, -1, 0, 0, 0, fi->rets.size() - 1);
                return;
            }
            case Instruction::Unreachable: emit(OP_UNREACHABLE); return;
            case Instruction::Call: case Instruction::Invoke: {
                size_t before = fi->code.size();
                call(cast<CallBase>(in));
                if (op == Instruction::Invoke && fi->code.size() == before) {
                    int e = edge(in->getParent(), cast<InvokeInst>(in)->getNormalDest());
                    emit(OP_BR, 0, -1, e);
                }
                return;
            }
            case Instruction::LandingPad: {
                auto lp = cast<LandingPadInst>(in);
                LpadInfo li;
                li.cleanup = lp->isCleanup();
                for (unsigned i = 0; i < lp->getNumClauses(); i++) {
                    if (lp->isCatch(i)) {
                        li.clauses.push_back({0, 0});
                        li.ti.push_back(constVal(lp->getClause(i)));
                    } else {
                        li.clauses.push_back({1, 0});
                        li.ti.push_back(0);
                    }
                }
                fi->lpads.push_back(li);
                emit(OP_LPAD, 0, dst, 0, 0, 0, fi->lpads.size() - 1);
                return;
            }
            case Instruction::Resume: emit(OP_RESUME, 0, -1, ref(in->getOperand(0), 0)); return;
            case Instruction::ExtractValue: {
                auto ev = cast<ExtractValueInst>(in);
                unsigned off = 0;
                Type* t = ev->getAggregateOperand()->getType();
                for (unsigned idx : ev->indices()) {
                    for (unsigned i = 0; i < idx; i++) off += nLeaves(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType());
                    t = t->isStructTy() ? t->getStructElementType(idx) : t->getArrayElementType();
                }
                for (unsigned i = 0; i < nLeaves(ty); i++) emit(OP_MOV, 0, dst + i, ref(ev->getAggregateOperand(), off + i));
                return;
            }
            case Instruction::InsertValue: {
                auto iv = cast<InsertValueInst>(in);
                unsigned off = 0;
                Type* t = ty;
                for (unsigned idx : iv->indices()) {
                    for (unsigned i = 0; i < idx; i++) off += nLeaves(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType());
                    t = t->isStructTy() ? t->getStructElementType(idx) : t->getArrayElementType();
                }
                unsigned n = nLeaves(iv->getInsertedValueOperand()->getType());
                for (unsigned i = 0; i < nLeaves(ty); i++) {
                    if (i >= off && i < off + n) emit(OP_MOV, 0, dst + i, ref(iv->getInsertedValueOperand(), i - off));
                    else emit(OP_MOV, 0, dst + i, ref(iv->getAggregateOperand(), i));
                }
                return;
            }
            case Instruction::ExtractElement: {
                auto c = dyn_cast<ConstantInt>(in->getOperand(1));
                if (!c) { unsup(in); return; }
                emit(OP_MOV, 0, dst, ref(in->getOperand(0), c->getZExtValue()));
                return;
            }
            case Instruction::InsertElement: {
                auto c = dyn_cast<ConstantInt>(in->getOperand(2));
                if (!c) { unsup(in); return; }
                for (unsigned i = 0; i < nLeaves(ty); i++) emit(OP_MOV, 0, dst + i, i == c->getZExtValue() ? ref(in->getOperand(1)) : ref(in->getOperand(0), i));
                return;
            }
            case Instruction::ShuffleVector: {
                auto sv = cast<ShuffleVectorInst>(in);
                int n0 = nLeaves(sv->getOperand(0)->getType());
                auto mk = sv->getShuffleMask();
                for (unsigned i = 0; i < mk.size(); i++) {
                    int k = mk[i];
                    if (k < 0) k = 0;
                    emit(OP_MOV, 0, dst + i, k < n0 ? ref(sv->getOperand(0), k) : ref(sv->getOperand(1), k - n0));
                }
                return;
            }
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
                unsigned w = width(ty->getScalarType());
                if (w == 255) { unsup(in); return; }
                for (unsigned i = 0; i < nLeaves(ty); i++) emit(OP_FBIN, w, dst + i, ref(in->getOperand(0), i), ref(in->getOperand(1), i), op);
                return;
            }
            case Instruction::FNeg: {
                unsigned w = width(ty);
                if (w == 255) { unsup(in); return; }
                emit(OP_FNEG, w, dst, ref(in->getOperand(0)));
                return;
            }
            case Instruction::FCmp: {
                unsigned w = width(in->getOperand(0)->getType());
                if (w == 255) { unsup(in); return; }
                emit(OP_FCMP, w, dst, ref(in->getOperand(0)), ref(in->getOperand(1)), cast<FCmpInst>(in)->getPredicate());
                return;
            }
            case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: {
                unsigned w = width(ty), w2 = width(in->getOperand(0)->getType());
                if (w == 255 || w2 == 255) { unsup(in); return; }
                auto& x = emit(OP_FCAST, w, dst, ref(in->getOperand(0)), 0, op);
                x.w2 = w2;
                return;
            }
            case Instruction::Fence: return;
            case Instruction::AtomicRMW: {
                auto rmw = cast<AtomicRMWInst>(in);
                unsigned w = width(ty);
                if (w == 255) { unsup(in); return; }
                int p = ref(rmw->getPointerOperand()), v = ref(rmw->getValOperand());
                emit(OP_LOAD, w, dst, p);
                int t = newSlots(1);
                switch (rmw->getOperation()) {
                    case AtomicRMWInst::Add: emit(OP_BIN, w, t, dst, v, E_ADD); break;
                    case AtomicRMWInst::Sub: emit(OP_BIN, w, t, dst, v, E_SUB); break;
                    case AtomicRMWInst::And: emit(OP_BIN, w, t, dst, v, E_AND); break;
                    case AtomicRMWInst::Or: emit(OP_BIN, w, t, dst, v, E_OR); break;
                    case AtomicRMWInst::Xchg: emit(OP_MOV, w, t, v); break;
                    default: unsup(in); return;
                }
                emit(OP_STORE, w, -1, p, t);
                return;
            }
            default: unsup(in); return;
        }
    }
};

// ------------------------------------------------------------------------------------------------
// interpreter
struct Frame {
    FuncInfo* f;
    int pc;
    int base;
    u64 sp;
    CallInfo const* ci;  // in the caller
};
static std::vector<Frame> frames;
static std::vector<Val> regs;
static int regTop = 0;
static FuncInfo* curF;

struct Exc { u64 obj; std::type_info* ti; u64 adjusted; bool dummy; };
static std::unordered_map<u64, Exc> excs;
static std::vector<u64> caught;
static u64 inflight = 0;
static std::vector<u64> typeIds;
static int typeId(u64 ti) {
    for (size_t i = 0; i < typeIds.size(); i++)
        if (typeIds[i] == ti) return i + 1;
    typeIds.push_back(ti);
    return typeIds.size();
}

static std::string demangled(std::string const& n) { return llvm::demangle(n); }
static std::string backtrace() {
    std::string s;
    for (int i = (int)frames.size() - 1, k = 0; i >= 0 && k < 14; i--, k++) {
        std::string d = demangled(frames[i].f->name);
        if (d.size() > 160) d = d.substr(0, 160) + "...";
        s += d + "\n";
    }
    return s;
}
static std::string jesc(std::string const& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static void writeInputs(FILE* f, std::vector<uint8_t> const& m) {
    for (auto& in : inputs) {
        std::string name = in.name;
        for (char& c : name)
            if (c == ' ') c = '_';
        fprintf(f, "in %s ", name.c_str());
        for (unsigned i = 0; i < in.n; i++) fprintf(f, "%02x", in.first + i < m.size() ? m[in.first + i] : 0);
        fprintf(f, "\n");
    }
}
static void recordViolation(char const* kind, std::string const& label, Ex extra) {
    std::string full = std::string(kind) + ": " + label;
    u64 h = std::hash<std::string>()(full) | 1;
    // record at most 3 per label
    int cnt = 0;
    lockS();
    for (int i = 0; i < 64; i++) {
        if (S->violLabels[i] == h) cnt++;
        if (S->violLabels[i] == 0) { if (cnt < 3) S->violLabels[i] = h; break; }
    }
    unlockS();
    if (cnt >= 3) return;
    std::vector<uint8_t> m;
    if (!getModel(extra, m)) engineError("no model for violation " + full);
    u64 n = S->violations++;
    char fn[512];
    snprintf(fn, sizeof fn, "%s/violation_%llu.txt", outDir.c_str(), (unsigned long long)n);
    FILE* f = fopen(fn, "w");
    if (f) {
        fprintf(f, "kind %s\nlabel %s\n", kind, jesc(label).c_str());
        writeInputs(f, m);
        fprintf(f, "where %s\n", jesc(backtrace()).c_str());
        fclose(f);
    }
    if (verbose) fprintf(stderr, "VIOL %s\n%s", full.c_str(), backtrace().c_str());
    if (n + 1 >= maxViolations) S->stop = 2;
}
static void violation(char const* kind, std::string const& label) {
    if (nativeMode) { fprintf(stderr, "violation in native code: %s %s\n", kind, label.c_str()); }
    recordViolation(kind, label, nullptr);
    pathExit(1);
}
static void pathDone() {
    u64 n = S->paths++;
    if (verbose && getenv("SYMEX_DUMP")) fprintf(stderr, "=== path %llu\n%s\n", (unsigned long long)n, Z3_solver_to_string(X.z, solver));
    if (n < 24 || n % sampleStride == 0) {
        u64 k = S->samples++;
        if (k < 256) {
            std::vector<uint8_t> m;
            if (!getModel(nullptr, m)) engineError("path condition infeasible at the end of a path");
            char fn[512];
            snprintf(fn, sizeof fn, "%s/sample_%llu.txt", outDir.c_str(), (unsigned long long)k);
            FILE* f = fopen(fn, "w");
            if (f) {
                writeInputs(f, m);
                for (auto& o : observed) fprintf(f, "obs %llx\n", (unsigned long long)(o.first ? X.eval(o.first, m.data()) : o.second));
                fclose(f);
            }
        }
    } else if (!zcheck(nullptr)) engineError("path condition infeasible at the end of a path");
    pathExit(0);
}

static inline Val& R(int base, int r) { return r >= 0 ? regs[base + r] : curF->consts[~r]; }

static Val binop(EOp op, unsigned w, Val a, Val b) {
    if (!a.e && !b.e) {
        if ((op == E_UDIV || op == E_SDIV || op == E_UREM || op == E_SREM) && b.c == 0) violation("arith", "division by zero");
        return {evalBin(op, w, a.c, b.c), nullptr};
    }
    if (op == E_UDIV || op == E_SDIV || op == E_UREM || op == E_SREM) {
        Ex z = X.bin(E_EQ, toE(b, w), X.con(w, 0));
        if (decide(z)) violation("arith", "division by zero");
    }
    return fromE(X.bin(op, toE(a, w), toE(b, w)));
}
static Val icmp(unsigned pred, unsigned w, Val a, Val b) {
    EOp op;
    bool neg = false, swap = false;
    switch (pred) {
        case CmpInst::ICMP_EQ: op = E_EQ; break;
        case CmpInst::ICMP_NE: op = E_EQ; neg = true; break;
        case CmpInst::ICMP_ULT: op = E_ULT; break;
        case CmpInst::ICMP_ULE: op = E_ULT; neg = true; swap = true; break;
        case CmpInst::ICMP_UGT: op = E_ULT; swap = true; break;
        case CmpInst::ICMP_UGE: op = E_ULT; neg = true; break;
        case CmpInst::ICMP_SLT: op = E_SLT; break;
        case CmpInst::ICMP_SLE: op = E_SLT; neg = true; swap = true; break;
        case CmpInst::ICMP_SGT: op = E_SLT; swap = true; break;
        default: op = E_SLT; neg = true; break;
    }
    if (swap) std::swap(a, b);
    if (!a.e && !b.e) return {evalBin(op, w, a.c, b.c) ^ (u64)neg, nullptr};
    Ex r = X.bin(op, toE(a, w), toE(b, w));
    if (neg) r = X.bnot(r);
    return fromE(r);
}

static void takeEdge(Frame& fr, int e) {
    Edge const& E = fr.f->edges[e];
    size_t n = E.copies.size();
    if (n == 1) regs[fr.base + E.copies[0].second] = R(fr.base, E.copies[0].first);
    else if (n) {
        Val tmp[64];
        std::vector<Val> big;
        Val* t = tmp;
        if (n > 64) { big.resize(n); t = big.data(); }
        for (size_t i = 0; i < n; i++) t[i] = R(fr.base, E.copies[i].first);
        for (size_t i = 0; i < n; i++) regs[fr.base + E.copies[i].second] = t[i];
    }
    fr.pc = E.pc;
}
static void popFrame() {
    Frame& fr = frames.back();
    if (stkTop > fr.sp) {
        // forget symbolic contents of the dead stack area
        u64 a = (fr.sp - REG) >> 3, b = (stkTop - REG + 7) >> 3;
        memset(symFlag + a, 0, b - a);
    }
    stkTop = fr.sp;
    regTop = fr.base;
    frames.pop_back();
    curF = frames.empty() ? nullptr : frames.back().f;
}
static void pushFrame(FuncInfo* f, CallInfo const* ci, std::vector<Val> const& args) {
    if (!f->decoded) { Decoder d; d.fi = f; d.run(); }
    if (frames.size() > 20000) violation("memory", "stack overflow (call depth)");
    S->fnSeen[f->idx] = 1;
    int base = regTop;
    regTop += f->nslots;
    if ((size_t)regTop > regs.size()) regs.resize(regTop * 2);
    if (args.size() < f->argSlots.size()) engineError("argument mismatch calling " + f->name);
    frames.push_back({f, 0, base, stkTop, ci});
    for (size_t i = 0; i < f->argSlots.size(); i++) regs[base + f->argSlots[i]] = args[i];
    curF = f;
}

// unwinding; returns true if a landing pad was entered
static void unwind(u64 obj) {
    // search phase
    auto& ex = excs[obj];
    bool found = false;
    // frames.back() is the frame whose current instruction (pc-1) threw
    auto matches = [&](LpadInfo const& li, u64* tiOut) -> bool {
        for (size_t i = 0; i < li.clauses.size(); i++) {
            if (li.clauses[i].first != 0) continue;
            if (li.ti[i] == 0) { *tiOut = 0; return true; }
            auto ct = (std::type_info const*)li.ti[i];
            void* adj = (void*)ex.obj;
            if (ex.ti->__is_pointer_p()) adj = *(void**)adj;
            if (ct->__do_catch(ex.ti, &adj, 1)) { *tiOut = li.ti[i]; return true; }
        }
        return false;
    };
    auto lpadOf = [&](Frame& fr) -> LpadInfo* {
        Inst& in = fr.f->code[fr.pc - 1];
        if (in.op != OP_CALL) return nullptr;
        CallInfo& ci = fr.f->calls[in.imm];
        if (ci.unwind < 0) return nullptr;
        int pc = fr.f->edges[ci.unwind].pc;
        for (;; pc++)
            if (fr.f->code[pc].op == OP_LPAD) return &fr.f->lpads[fr.f->code[pc].imm];
    };
    u64 dummy;
    for (int i = frames.size() - 1; i >= 0 && !found; i--) {
        auto l = lpadOf(frames[i]);
        if (l && matches(*l, &dummy)) found = true;
    }
    if (!found) {
        int st = 0;
        char* d = abi::__cxa_demangle(ex.ti->name(), 0, 0, &st);
        violation("exception", std::string("uncaught ") + (d ? d : ex.ti->name()));
    }
    for (;;) {
        Frame& fr = frames.back();
        auto l = lpadOf(fr);
        if (l) {
            u64 ti = 0;
            bool m = matches(*l, &ti);
            if (m || l->cleanup) {
                Inst& in = fr.f->code[fr.pc - 1];
                inflight = obj;
                takeEdge(fr, fr.f->calls[in.imm].unwind);
                return;
            }
        }
        popFrame();
        if (frames.empty()) engineError("unwound everything");
    }
}

// concretize symbolic bytes visible to a native call
static void concretizeRange(u64 a, u64 n, std::string const& why) {
    if (!anySym(a, n)) return;
    S->natConc++;
    if (verbose) fprintf(stderr, "concretizing for native call %s\n", why.c_str());
    for (u64 i = 0; i < n; i++) {
        Ex b = symByte(a + i);
        if (b) {
            u64 v = concretizeE(b);
            setSymByte(a + i, nullptr);
            *(uint8_t*)(a + i) = v;
        }
    }
}
static void visibleToNative(u64 p, std::string const& why) {
    if (!inReg(p)) return;
    if (inHeap(p)) {
        // from p to the end of the block
        u64 o = p - HEAP;
        u64 e = o;
        while (e < HEAPSZ) {
            uint8_t s = addrSh[e >> 3];
            if (s == 0 || s == 0xFD) break;
            e += 8;
            if (s != 8) break;
        }
        if (e > o) concretizeRange(p, e - o, why);
    } else {
        u64 e = std::min<u64>(p + 512, stkTop);
        if (e > p) concretizeRange(p, e - p, why);
    }
}
struct R2 { u64 a, b; };
typedef R2 (*NF)(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64);
typedef double (*NFD)(double, double);

static bool isPureName(std::string const& n) {
    static char const* pre[] = {"_ZSt18_Rb_tree", "_ZSt29_Rb_tree", "_ZSt28_Rb_tree", "_ZSt20_Rb_tree", "_ZNSt8__detail15_List_node_base", "_ZNKSt8__detail20_Prime_rehash", "_ZNSt9exception",
        "_ZNSt12out_of_range", "_ZNSt11logic_error", "_ZNSt13runtime_error", "_ZNSt16invalid_argument", "__cxa_guard", "_ZNSt12length_error", "_ZNSt11range_error", "_ZNSt12domain_error"};
    for (auto p : pre)
        if (n.rfind(p, 0) == 0) return true;
    return false;
}
static bool nativeCall(u64 addr, std::string const& name, CallInfo const& ci, std::vector<Val>& args, Val* ret) {
    bool throwFn = name.rfind("_ZSt", 0) == 0 && name.find("__throw_") != std::string::npos;
    u64 a[10] = {0};
    if (args.size() > 10) engineError("too many arguments for native call " + name);
    for (size_t i = 0; i < args.size(); i++) a[i] = throwFn ? anyValue(args[i]) : concretize(args[i]);
    if (!throwFn) {
        // exception constructors take strings: their text stays the backing bytes, as nothing reads it symbolically,
        // unless a harness asks for the text of messages
        if (!isPureName(name))
            for (size_t i = 0; i < args.size(); i++) visibleToNative(a[i], name);
    }
    if (ci.anyFP || ci.retFP) engineError("floating point native call " + name);
    if (addr == 0) engineError("call to unknown function " + name);
    try {
        nativeMode = true;
        std::vector<Ex> text;
        bool const message = params.count("messages") && args.size() == 2 && name.rfind("_ZNSt13runtime_errorC", 0) == 0 && name.find("basic_string") != std::string::npos && inReg(a[1]);
        if (message)
            for (u64 i = 0, n = *(u64*)(a[1] + 8); i < n; i++) text.push_back(symByte(*(u64*)a[1] + i));
        R2 r = ((NF)addr)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
        nativeMode = false;
        if (message) {
            u64 const w = (u64)((std::runtime_error*)a[0])->what();
            for (u64 i = 0; i < text.size(); i++) setSymByte(w + i, text[i]);
            setSymByte(w + text.size(), nullptr);
        }
        if (ci.nret > 2) engineError("native call returning an aggregate " + name);
        if (ci.nret >= 1) ret[0] = {r.a & maskw(ci.retWs[0]), nullptr};
        if (ci.nret == 2) {
            // {i8,i64}-like pairs use two registers; two small fields share the first
            ret[1] = {r.b & maskw(ci.retWs[1]), nullptr};
            if (ci.retWs[0] + ci.retWs[1] <= 64) engineError("native small pair return " + name);
        }
        return true;
    } catch (...) {
        nativeMode = false;
        std::type_info* ti = abi::__cxa_current_exception_type();
        std::exception_ptr p = std::current_exception();
        u64 obj = *(u64*)&p;
        new std::exception_ptr(p);  // keep the object alive
        excs[obj] = {obj, ti, obj, true};
        inflight = obj;
        return false;
    }
}

// models of external functions
static Val cmpMem(u64 a, u64 b, u64 n, bool eqOnly) {
    checkAcc(a, n ? n : 1, false);
    if (n == 0) return {0, nullptr};
    checkAcc(b, n, false);
    if (!anySym(a, n) && !anySym(b, n)) {
        int r = memcmp((void*)a, (void*)b, n);
        return {(u64)(uint32_t)(r < 0 ? -1 : r > 0), nullptr};
    }
    Ex r = X.con(32, 0);
    if (eqOnly) {
        Ex eq = X.con(1, 1);
        for (u64 i = 0; i < n; i++) {
            Val x = loadBytes(a + i, 1), y = loadBytes(b + i, 1);
            eq = X.bin(E_AND, eq, X.bin(E_EQ, toE(x, 8), toE(y, 8)));
            if (eq->op == E_CONST && !eq->val) break;
        }
        return fromE(X.zext(X.bnot(eq), 32));
    }
    for (u64 i = n; i-- > 0;) {
        Val x = loadBytes(a + i, 1), y = loadBytes(b + i, 1);
        Ex ex = toE(x, 8), ey = toE(y, 8);
        r = X.ite(X.bin(E_EQ, ex, ey), r, X.ite(X.bin(E_ULT, ex, ey), X.con(32, -1ULL), X.con(32, 1)));
    }
    return fromE(r);
}
static std::string cstr(u64 p) {
    std::string s;
    while (p && *(char*)p) s += *(char*)p++;
    return s;
}
static void setMulti(Val* ret, Val v) { ret[0] = v; }
#define MODEL(nm) static bool nm(CallInfo const& ci, std::vector<Val>& a, Val* ret)
MODEL(m_malloc) { (void)ci; ret[0] = {(u64)symex_malloc(concretize(a[0])), nullptr}; return true; }
MODEL(m_new) {
    (void)ci;
    u64 n = concretize(a[0]);
    if (n > (1ULL << 33)) violation("memory", "allocation of an absurd size");
    ret[0] = {(u64)symex_malloc(n), nullptr};
    return true;
}
MODEL(m_calloc) { (void)ci; ret[0] = {(u64)symex_calloc(concretize(a[0]), concretize(a[1])), nullptr}; return true; }
MODEL(m_free) { (void)ci; (void)ret; symex_free((void*)concretize(a[0])); return true; }
MODEL(m_memcpy) { (void)ci; u64 d = concretize(a[0]), s = concretize(a[1]); copyMem(d, s, concretize(a[2])); setMulti(ret, a[0]); return true; }
MODEL(m_memset) { (void)ci; u64 d = concretize(a[0]); setMem(d, a[1], concretize(a[2])); setMulti(ret, a[0]); return true; }
MODEL(m_memcmp) { (void)ci; u64 n = concretize(a[2]); ret[0] = n ? cmpMem(concretize(a[0]), concretize(a[1]), n, false) : Val{0, nullptr}; return true; }
MODEL(m_bcmp) { (void)ci; u64 n = concretize(a[2]); ret[0] = n ? cmpMem(concretize(a[0]), concretize(a[1]), n, true) : Val{0, nullptr}; return true; }
MODEL(m_strlen) {
    (void)ci;
    u64 p = concretize(a[0]), i = 0;
    for (;; i++) {
        checkAcc(p + i, 1, false);
        Val b = loadBytes(p + i, 1);
        if (!b.e) { if (!b.c) break; continue; }
        if (decide(X.bin(E_EQ, b.e, X.con(8, 0)))) break;
    }
    ret[0] = {i, nullptr};
    return true;
}
MODEL(m_memchr) {
    (void)ci;
    u64 p = concretize(a[0]), n = concretize(a[2]);
    Ex c = X.extract(toE(a[1], 32), 0, 8);
    for (u64 i = 0; i < n; i++) {
        checkAcc(p + i, 1, false);
        Val b = loadBytes(p + i, 1);
        if (decide(X.bin(E_EQ, toE(b, 8), c))) { ret[0] = {p + i, nullptr}; return true; }
    }
    ret[0] = {0, nullptr};
    return true;
}
MODEL(m_strcmp) {
    (void)ci;
    u64 p = concretize(a[0]), q = concretize(a[1]);
    for (u64 i = 0;; i++) {
        checkAcc(p + i, 1, false);
        checkAcc(q + i, 1, false);
        Val x = loadBytes(p + i, 1), y = loadBytes(q + i, 1);
        Ex ex = toE(x, 8), ey = toE(y, 8);
        if (!decide(X.bin(E_EQ, ex, ey))) { ret[0] = fromE(X.ite(X.bin(E_ULT, ex, ey), X.con(32, -1ULL), X.con(32, 1))); return true; }
        if (decide(X.bin(E_EQ, ex, X.con(8, 0)))) { ret[0] = {0, nullptr}; return true; }
    }
}
MODEL(m_hashbytes) {  // std::_Hash_bytes(ptr, len, seed): hash buckets need concrete keys
    u64 p = concretize(a[0]), n = concretize(a[1]);
    checkAcc(p, n, false);
    for (u64 i = 0; i < n; i++) {
        Ex b = symByte(p + i);
        if (b) concretizeE(b);
    }
    // after concretization the path condition fixes the bytes: substitute them
    std::string key;
    for (u64 i = 0; i < n; i++) {
        Ex b = symByte(p + i);
        key += b ? (char)concretizeE(b) : *(char*)(p + i);
    }
    static u64 fn = symAddr("_ZSt11_Hash_bytesPKvmm");
    (void)ci;
    ret[0] = {((u64(*)(void const*, u64, u64))fn)(key.data(), n, concretize(a[2])), nullptr};
    return true;
}
MODEL(m_assertfail) {
    (void)ci; (void)ret;
    violation("assert", cstr(a[0].c) + " at " + cstr(a[1].c).substr(cstr(a[1].c).rfind('/') + 1));
}
MODEL(m_abort) { (void)ci; (void)a; (void)ret; violation("abort", "abort/terminate called"); }
MODEL(m_exit) { (void)ci; (void)a; (void)ret; violation("abort", "exit called"); }
MODEL(m_pow) {
    (void)ci;
    if (a[0].e || a[1].e) engineError("symbolic floating point");
    double x, y, r;
    memcpy(&x, &a[0].c, 8);
    memcpy(&y, &a[1].c, 8);
    r = pow(x, y);
    u64 c;
    memcpy(&c, &r, 8);
    ret[0] = {c, nullptr};
    return true;
}
MODEL(m_pure) { (void)ci; (void)a; (void)ret; violation("abort", "pure virtual call"); }
MODEL(m_nop) { (void)ci; (void)a; if (ci.nret) ret[0] = {0, nullptr}; return true; }
MODEL(m_allocexc) {
    (void)ci;
    u64 n = concretize(a[0]);
    char* p = (char*)calloc(1, n + 256) + 128;
    ret[0] = {(u64)p, nullptr};
    return true;
}
MODEL(m_throw) {
    (void)ci; (void)ret;
    u64 o = concretize(a[0]);
    excs[o] = {o, (std::type_info*)concretize(a[1]), o, false};
    inflight = o;
    return false;
}
MODEL(m_begincatch) {
    (void)ci;
    u64 o = concretize(a[0]);
    caught.push_back(o);
    auto& e = excs[o];
    ret[0] = {e.ti && e.ti->__is_pointer_p() ? *(u64*)e.adjusted : e.adjusted, nullptr};
    return true;
}
MODEL(m_endcatch) { (void)ci; (void)a; (void)ret; if (!caught.empty()) caught.pop_back(); return true; }
MODEL(m_rethrow) {
    (void)ci; (void)a; (void)ret;
    if (caught.empty()) violation("abort", "rethrow without exception");
    inflight = caught.back();
    return false;
}
MODEL(m_getexc) { (void)ci; ret[0] = {excs[concretize(a[0])].adjusted, nullptr}; return true; }

// ---- harness interface ----
static void trimHeap() {
    // give back pages that hold only freed blocks
    auto trim = [&](u64 lo, u64 hi) {
        lo = (lo + 4095) & ~4095ULL;
        hi &= ~4095ULL;
        u64 run = 0;
        for (u64 p = lo; p < hi; p += 4096) {
            uint8_t* s = addrSh + ((p - HEAP) >> 3);
            bool live = false;
            for (int i = 0; i < 512 && !live; i++) live = s[i] != 0 && s[i] != 0xFD;
            // the header of a live block that starts right after this page lies in this page
            if (!live && s[512] != 0 && s[512] != 0xFD) live = true;
            if (!live && s[513] != 0 && s[513] != 0xFD) live = true;
            if (live) { if (run) madvise((void*)(p - run), run, MADV_DONTNEED); run = 0; }
            else run += 4096;
        }
        if (run) madvise((void*)(hi - run), run, MADV_DONTNEED);
    };
    trim(HEAP + 4096, heapLo);
    trim(heapHi, HEAP + HEAPSZ - 8192);
    malloc_trim(0);
}
static unsigned newInput(char const* name, unsigned n) {
    if (inputs.empty()) trimHeap();
    unsigned first = vars.size();
    for (unsigned i = 0; i < n; i++) {
        unsigned v = vars.size();
        if (v >= 128) engineError("more than 128 symbolic bytes");
        vars.push_back({name, (unsigned)inputs.size(), i});
        for (int k = 0; k < 4; k++) dom[v][k] = ~0ULL;
        coupled[v] = false;
    }
    inputs.push_back({name, first, n});
    return first;
}
MODEL(h_bytes) {
    (void)ci; (void)ret;
    u64 p = concretize(a[1]), n = concretize(a[2]);
    if (n) checkAcc(p, n, true);
    unsigned f = newInput(cstr(a[0].c).c_str(), n);
    for (u64 i = 0; i < n; i++) setSymByte(p + i, X.var(f + i));
    return true;
}
MODEL(h_choose) {
    (void)ci;
    u64 n = concretize(a[1]);
    unsigned f = newInput(cstr(a[0].c).c_str(), 1);
    Ex v = X.var(f);
    if (n < 256) addConstraint(X.bin(E_ULT, v, X.con(8, n)));
    ret[0] = {concretizeE(v), nullptr};
    return true;
}
MODEL(h_split) { (void)ci; ret[0] = {concretize(a[0]), nullptr}; return true; }
MODEL(h_assume) {
    (void)ci; (void)ret;
    if (!a[0].e) {
        if (!a[0].c) { S->pruned++; pathExit(0); }
        return true;
    }
    Ex c = a[0].e;
    if (!feasible(c)) { S->pruned++; pathExit(0); }
    addConstraint(c);
    return true;
}
MODEL(h_assert) {
    (void)ci; (void)ret;
    S->asserts++;
    std::string label = cstr(concretize(a[1]));
    if (!a[0].e) {
        if (!a[0].c) violation("property", label);
        return true;
    }
    S->symAsserts++;
    Ex c = a[0].e;
    Ex n = X.bnot(c);
    if (zcheck(X.zbool(n))) {
        recordViolation("property", label, n);
        if (!feasible(c)) pathExit(1);
        addConstraint(c);
    }
    return true;
}
MODEL(h_fail) { (void)ci; (void)ret; S->asserts++; violation("property", cstr(concretize(a[0]))); }
MODEL(h_cover) {
    (void)ci; (void)ret;
    std::string s = cstr(concretize(a[0]));
    if (s.size() > 95) s.resize(95);
    for (int i = 0; i < S->ncover; i++)
        if (s == S->cover[i].name) { S->cover[i].n++; return true; }
    lockS();
    int i;
    for (i = 0; i < S->ncover; i++)
        if (s == S->cover[i].name) break;
    if (i == S->ncover && i < MAXCOVER) {
        strcpy(S->cover[i].name, s.c_str());
        S->ncover++;
    }
    if (i < MAXCOVER) S->cover[i].n++;
    unlockS();
    return true;
}
MODEL(h_observe) { (void)ci; (void)ret; observed.push_back({a[0].e, a[0].c}); return true; }
MODEL(h_observe_mem) {
    (void)ci; (void)ret;
    u64 p = concretize(a[0]), n = concretize(a[1]);
    if (n) checkAcc(p, n, false);
    for (u64 i = 0; i < n; i++) {
        Val b = loadBytes(p + i, 1);
        observed.push_back({b.e, b.c});
    }
    return true;
}
MODEL(h_param) {
    (void)ci;
    auto it = params.find(cstr(a[0].c));
    ret[0] = it == params.end() ? a[1] : Val{(u64)(uint32_t)it->second, nullptr};
    return true;
}
MODEL(h_allocmode) { (void)ci; (void)ret; allocMode = concretize(a[0]); return true; }
MODEL(h_note) { (void)ci; (void)ret; if (verbose) fprintf(stderr, "[%.2fs %llu instr] %s\n", now() - t0, (unsigned long long)nInstr, cstr(a[0].c).c_str()); return true; }
// stubs so that lib.so links
extern "C" {
void symex_bytes() { abort(); } void symex_choose() { abort(); } void symex_split() { abort(); } void symex_assume() { abort(); } void symex_assert() { abort(); }
void symex_fail() { abort(); } void symex_cover() { abort(); } void symex_observe() { abort(); } void symex_observe_mem() { abort(); }
void symex_param() { abort(); } void symex_alloc_mode() { abort(); } void symex_note() { abort(); }
}

static void initModels() {
    models = {
        {"symex_znwm", m_new}, {"symex_znwm_al", m_new}, {"symex_zdlpv", m_free}, {"symex_zdlpv_m", m_free}, {"symex_zdlpv_m_al", m_free},
        {"symex_malloc", m_malloc}, {"symex_free", m_free}, {"symex_calloc", m_calloc},
        {"memcpy", m_memcpy}, {"memmove", m_memcpy}, {"memset", m_memset}, {"memcmp", m_memcmp}, {"bcmp", m_bcmp}, {"strlen", m_strlen}, {"memchr", m_memchr}, {"strcmp", m_strcmp},
        {"_ZSt11_Hash_bytesPKvmm", m_hashbytes}, {"__assert_fail", m_assertfail}, {"abort", m_abort}, {"_ZSt9terminatev", m_abort}, {"exit", m_exit}, {"_Exit", m_exit}, {"__cxa_pure_virtual", m_pure}, {"pow", m_pow},
        {"_ZSt21__glibcxx_assert_failPKciS0_S0_", m_abort}, {"__cxa_call_unexpected", m_abort}, {"__cxa_call_terminate", m_abort},
        {"__cxa_atexit", m_nop}, {"__cxa_allocate_exception", m_allocexc}, {"__cxa_free_exception", m_nop}, {"__cxa_throw", m_throw}, {"__cxa_begin_catch", m_begincatch}, {"__cxa_end_catch", m_endcatch},
        {"__cxa_rethrow", m_rethrow}, {"__cxa_get_exception_ptr", m_getexc},
        {"symex_bytes", h_bytes}, {"symex_choose", h_choose}, {"symex_split", h_split}, {"symex_assume", h_assume}, {"symex_assert", h_assert}, {"symex_fail", h_fail}, {"symex_cover", h_cover},
        {"symex_observe", h_observe}, {"symex_observe_mem", h_observe_mem}, {"symex_param", h_param}, {"symex_alloc_mode", h_allocmode}, {"symex_note", h_note},
    };
}

static void intrinsic(CallInfo const& ci, std::vector<Val>& a, Val* ret) {
    unsigned w = ci.retW;
    auto sym = [&](unsigned n) { for (unsigned i = 0; i < n; i++) if (a[i].e) return true; return false; };
    switch (ci.intr) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
            u64 d = concretize(a[0]), s = concretize(a[1]);
            copyMem(d, s, concretize(a[2]));
            return;
        }
        case Intrinsic::memset: case Intrinsic::memset_inline: { u64 d = concretize(a[0]); setMem(d, a[1], concretize(a[2])); return; }
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy:
            ret[0] = a[0]; return;
        case Intrinsic::threadlocal_address: ret[0] = a[0]; return;
        case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
            bool sg = ci.intr == Intrinsic::smax || ci.intr == Intrinsic::smin, mx = ci.intr == Intrinsic::umax || ci.intr == Intrinsic::smax;
            Val c = icmp(sg ? CmpInst::ICMP_SLT : CmpInst::ICMP_ULT, w, a[0], a[1]);
            if (mx) std::swap(a[0], a[1]);
            if (!c.e) ret[0] = c.c ? a[0] : a[1];
            else ret[0] = fromE(X.ite(c.e, toE(a[0], w), toE(a[1], w)));
            return;
        }
        case Intrinsic::abs: {
            Val z{0, nullptr};
            Val neg = binop(E_SUB, w, z, a[0]);
            Val c = icmp(CmpInst::ICMP_SLT, w, a[0], z);
            if (!c.e) ret[0] = c.c ? neg : a[0];
            else ret[0] = fromE(X.ite(c.e, toE(neg, w), toE(a[0], w)));
            return;
        }
        case Intrinsic::ctpop: ret[0] = {(u64)__builtin_popcountll(concretize(a[0])), nullptr}; return;
        case Intrinsic::ctlz: { u64 x = concretize(a[0]); ret[0] = {x ? (u64)__builtin_clzll(x) - (64 - w) : w, nullptr}; return; }
        case Intrinsic::cttz: { u64 x = concretize(a[0]); ret[0] = {x ? (u64)__builtin_ctzll(x) : w, nullptr}; return; }
        case Intrinsic::bswap: {
            if (!a[0].e) { ret[0] = {__builtin_bswap64(a[0].c) >> (64 - w), nullptr}; return; }
            Ex r = nullptr;
            for (unsigned i = 0; i < w / 8; i++) { Ex b = X.extract(a[0].e, 8 * i, 8); r = r ? X.concat(r, b) : b; }
            ret[0] = fromE(r);
            return;
        }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            u64 s = concretize(a[2]) % w;
            bool l = ci.intr == Intrinsic::fshl;
            if (s == 0) { ret[0] = l ? a[0] : a[1]; return; }
            u64 ls = l ? s : w - s;
            Val hi = binop(E_SHL, w, a[0], {ls, nullptr}), lo = binop(E_LSHR, w, a[1], {w - ls, nullptr});
            ret[0] = binop(E_OR, w, hi, lo);
            return;
        }
        case Intrinsic::uadd_with_overflow: { ret[0] = binop(E_ADD, w, a[0], a[1]); ret[1] = icmp(CmpInst::ICMP_ULT, w, ret[0], a[0]); return; }
        case Intrinsic::usub_with_overflow: { ret[0] = binop(E_SUB, w, a[0], a[1]); ret[1] = icmp(CmpInst::ICMP_ULT, w, a[0], a[1]); return; }
        case Intrinsic::umul_with_overflow: {
            if (!sym(2)) {
                unsigned __int128 p = (unsigned __int128)a[0].c * a[1].c;
                ret[0] = {(u64)p & maskw(w), nullptr};
                ret[1] = {(u64)((p >> w) != 0), nullptr};
                return;
            }
            ret[0] = binop(E_MUL, w, a[0], a[1]);
            if (a[0].e && !a[1].e) std::swap(a[0], a[1]);
            if (a[0].e) { a[0].c = concretize(a[0]); a[0].e = nullptr; ret[0] = binop(E_MUL, w, a[0], a[1]); }
            if (a[0].c == 0) { ret[1] = {0, nullptr}; return; }
            ret[1] = icmp(CmpInst::ICMP_UGT, w, a[1], {maskw(w) / a[0].c, nullptr});
            return;
        }
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            u64 x = concretize(a[0]), y = concretize(a[1]);
            __int128 p = ci.intr == Intrinsic::sadd_with_overflow ? (__int128)sxt(x, w) + sxt(y, w) : ci.intr == Intrinsic::ssub_with_overflow ? (__int128)sxt(x, w) - sxt(y, w) : (__int128)sxt(x, w) * sxt(y, w);
            u64 r = (u64)p & maskw(w);
            ret[0] = {r, nullptr};
            ret[1] = {(u64)((__int128)sxt(r, w) != p), nullptr};
            return;
        }
        case Intrinsic::usub_sat: {
            Val c = icmp(CmpInst::ICMP_ULT, w, a[0], a[1]);
            Val d = binop(E_SUB, w, a[0], a[1]);
            if (!c.e) ret[0] = c.c ? Val{0, nullptr} : d;
            else ret[0] = fromE(X.ite(c.e, X.con(w, 0), toE(d, w)));
            return;
        }
        case Intrinsic::uadd_sat: {
            Val s = binop(E_ADD, w, a[0], a[1]);
            Val c = icmp(CmpInst::ICMP_ULT, w, s, a[0]);
            if (!c.e) ret[0] = c.c ? Val{maskw(w), nullptr} : s;
            else ret[0] = fromE(X.ite(c.e, X.con(w, maskw(w)), toE(s, w)));
            return;
        }
        case Intrinsic::objectsize: ret[0] = {a[1].c ? 0 : maskw(w), nullptr}; return;
        case Intrinsic::is_constant: ret[0] = {0, nullptr}; return;
        case Intrinsic::stacksave: ret[0] = {stkTop, nullptr}; return;
        case Intrinsic::eh_typeid_for: ret[0] = {(u64)typeId(a[0].c), nullptr}; return;
        case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::fabs: {
            if (w != 64) engineError("unsupported float intrinsic");
            u64 x = concretize(a[0]);
            double d;
            memcpy(&d, &x, 8);
            d = ci.intr == Intrinsic::ceil ? __builtin_ceil(d) : ci.intr == Intrinsic::floor ? __builtin_floor(d) : __builtin_fabs(d);
            memcpy(&x, &d, 8);
            ret[0] = {x, nullptr};
            return;
        }
        case Intrinsic::load_relative: {
            u64 const base = concretize(a[0]);
            Val const v = loadMem({base + concretize(a[1]), nullptr}, 32);
            ret[0] = {base + (u64)(int64_t)(int32_t)concretize(v), nullptr};
            return;
        }
        case Intrinsic::trap: case Intrinsic::ubsantrap: violation("abort", "trap");
        default: engineError("unsupported intrinsic " + ci.callee->name);
    }
}

static FuncInfo* tracePrev = nullptr;
static void exec() {
    for (;;) {
        Frame& fr = frames.back();
        FuncInfo* f = fr.f;
        int base = fr.base;
        Val* RG = regs.data() + base;
        Val const* CS = f->consts.data();
#define A(r) ((r) >= 0 ? RG[r] : CS[~(r)])
        Inst const* code = f->code.data();
        int pcx = fr.pc;
        for (;;) {
            Inst const& in = code[pcx++];
            nInstr++;
            switch (in.op) {
                case OP_MOV: RG[in.dst] = A(in.a); break;
                case OP_ADD: {
                    Val const &x = A(in.a), &y = A(in.b);
                    if (!x.e && !y.e) RG[in.dst] = {(x.c + y.c) & maskw(in.w), nullptr};
                    else RG[in.dst] = fromE(X.bin(E_ADD, toE(x, in.w), toE(y, in.w)));
                    break;
                }
                case OP_SUB: {
                    Val const &x = A(in.a), &y = A(in.b);
                    if (!x.e && !y.e) RG[in.dst] = {(x.c - y.c) & maskw(in.w), nullptr};
                    else RG[in.dst] = fromE(X.bin(E_SUB, toE(x, in.w), toE(y, in.w)));
                    break;
                }
                case OP_EQ: {
                    Val const &x = A(in.a), &y = A(in.b);
                    if (!x.e && !y.e) RG[in.dst] = {x.c == y.c, nullptr};
                    else RG[in.dst] = fromE(X.bin(E_EQ, toE(x, in.w), toE(y, in.w)));
                    break;
                }
                case OP_NE: {
                    Val const &x = A(in.a), &y = A(in.b);
                    if (!x.e && !y.e) RG[in.dst] = {x.c != y.c, nullptr};
                    else RG[in.dst] = fromE(X.bnot(X.bin(E_EQ, toE(x, in.w), toE(y, in.w))));
                    break;
                }
                case OP_ULT: {
                    Val const &x = A(in.a), &y = A(in.b);
                    if (!x.e && !y.e) RG[in.dst] = {x.c < y.c, nullptr};
                    else RG[in.dst] = fromE(X.bin(E_ULT, toE(x, in.w), toE(y, in.w)));
                    break;
                }
                case OP_BIN: {
                    fr.pc = pcx;
                    RG[in.dst] = binop((EOp)in.c, in.w, A(in.a), A(in.b));
                    break;
                }
                case OP_ICMP: RG[in.dst] = icmp(in.c, in.w, A(in.a), A(in.b)); break;
                case OP_ZEXT: {
                    Val const& x = A(in.a);
                    RG[in.dst] = x.e ? fromE(X.zext(x.e, in.w)) : x;
                    break;
                }
                case OP_SEXT: {
                    Val const& x = A(in.a);
                    RG[in.dst] = x.e ? fromE(X.sext(x.e, in.w)) : Val{(u64)sxt(x.c, in.w2) & maskw(in.w), nullptr};
                    break;
                }
                case OP_TRUNC: {
                    Val const& x = A(in.a);
                    RG[in.dst] = x.e ? fromE(X.extract(x.e, 0, in.w)) : Val{x.c & maskw(in.w), nullptr};
                    break;
                }
                case OP_SELECT: {
                    Val const& c = A(in.a);
                    if (!c.e) RG[in.dst] = c.c ? A(in.b) : A(in.c);
                    else {
                        Val const &x = A(in.b), &y = A(in.c);
                        // a choice between two addresses is a branch
                        if (in.w2 && !x.e && !y.e && x.c != y.c) {
                            fr.pc = pcx;
                            RG[in.dst] = decide(c.e) ? x : y;
                        } else RG[in.dst] = fromE(X.ite(c.e, toE(x, in.w), toE(y, in.w)));
                    }
                    break;
                }
                case OP_LOAD: {
                    fr.pc = pcx;
                    Val p = A(in.a);
                    if (in.imm) p = p.e ? fromE(X.bin(E_ADD, p.e, X.con(64, in.imm))) : Val{p.c + in.imm, nullptr};
                    RG[in.dst] = loadMem(p, in.w);
                    break;
                }
                case OP_STORE: {
                    fr.pc = pcx;
                    Val p = A(in.a);
                    if (in.imm) p = p.e ? fromE(X.bin(E_ADD, p.e, X.con(64, in.imm))) : Val{p.c + in.imm, nullptr};
                    storeMem(p, in.w, A(in.b));
                    break;
                }
                case OP_GEPC: {
                    Val const& p = A(in.a);
                    RG[in.dst] = p.e ? fromE(X.bin(E_ADD, p.e, X.con(64, in.imm))) : Val{p.c + in.imm, nullptr};
                    break;
                }
                case OP_GEP1: {
                    Val p = A(in.a), i = A(in.b);
                    if (p.e && i.e && (p.e->m0 != i.e->m0 || p.e->m1 != i.e->m1)) {
                        // a symbolic object indexed by another symbolic value: split on the object first
                        fr.pc = pcx;
                        p = {concretizeE(p.e), nullptr};
                    }
                    if (!p.e && !i.e) RG[in.dst] = {p.c + in.imm + i.c * (u64)in.c, nullptr};
                    else {
                        Ex o = X.bin(E_MUL, toE(i, 64), X.con(64, (u64)in.c));
                        RG[in.dst] = fromE(X.bin(E_ADD, X.bin(E_ADD, toE(p, 64), o), X.con(64, in.imm)));
                    }
                    break;
                }
                case OP_ALLOCA: {
                    u64 n = concretize(A(in.a)) * in.imm;
                    u64 al = std::max(16, in.b);
                    u64 p = (stkTop + al - 1) & ~(al - 1);
                    stkTop = p + ((n + 15) & ~15ULL) + 16;
                    if (stkTop > STK + STKSZ) violation("memory", "stack overflow");
                    RG[in.dst] = {p, nullptr};
                    break;
                }
                case OP_BR: takeEdge(fr, in.a); pcx = fr.pc; break;
                case OP_CBR: {
                    Val const& c = A(in.a);
                    bool t;
                    if (__builtin_expect(!c.e, 1)) t = c.c;
                    else { fr.pc = pcx; t = decide(c.e); }
                    takeEdge(fr, t ? in.b : in.c);
                    pcx = fr.pc;
                    if (__builtin_expect((nInstr & 0xffff) < 8, 0)) {
                        if (nInstr - pathStartInstr > pathInstrLimit) violation("progress", "step limit exceeded (possible non-termination)");
                        checkDeadline();
                    }
                    break;
                }
                case OP_SWITCH: {
                    Val const& c = A(in.a);
                    SwitchInfo const& si = f->switches[in.imm];
                    int e = si.def;
                    if (!c.e) {
                        for (auto& k : si.cases)
                            if (k.first == c.c) { e = k.second; break; }
                    } else {
                        fr.pc = pcx;
                        // group the cases by destination
                        Ex ce = c.e;
                        std::map<int, Ex> conds;  // by target pc and copies: use edge identity except same pc without phis
                        Ex none = X.con(1, 1);
                        std::vector<std::pair<int, Ex>> alts;
                        for (auto& k : si.cases) {
                            Ex q = X.bin(E_EQ, ce, X.con(in.w, k.first));
                            none = X.bin(E_AND, none, X.bnot(q));
                            bool merged = false;
                            for (auto& al : alts)
                                if (f->edges[al.first].pc == f->edges[k.second].pc && f->edges[al.first].copies == f->edges[k.second].copies) { al.second = X.bin(E_OR, al.second, q); merged = true; break; }
                            if (!merged) alts.push_back({k.second, q});
                        }
                        alts.push_back({si.def, none});
                        std::vector<std::pair<int, Ex>> fe;
                        for (auto& al : alts)
                            if (feasible(al.second)) fe.push_back(al);
                        if (fe.empty()) engineError("switch without feasible case");
                        S->symBranches++;
                        int i = forkN(fe.size());
                        if (fe.size() > 1) addConstraint(fe[i].second);
                        e = fe[i].first;
                    }
                    takeEdge(fr, e);
                    pcx = fr.pc;
                    break;
                }
                case OP_RET: {
                    auto const& rr = f->rets[in.imm];
                    Val tmp[16];
                    if (rr.size() > 16) engineError("return of a large aggregate");
                    for (size_t i = 0; i < rr.size(); i++) tmp[i] = A(rr[i]);
                    CallInfo const* ci = fr.ci;
                    popFrame();
                    if (frames.empty()) return;
                    Frame& c = frames.back();
                    if (ci) {
                        for (size_t i = 0; i < rr.size() && (int)i < ci->nret; i++) regs[c.base + ci->dst + i] = tmp[i];
                        if (ci->normal >= 0) takeEdge(c, ci->normal);
                    }
                    goto nextFrame;
                }
                case OP_CALL: {
                    fr.pc = pcx;
                    if ((nInstr & 0xffff) < 64) {
                        if (nInstr - pathStartInstr > pathInstrLimit) violation("progress", "step limit exceeded (possible non-termination)");
                        checkDeadline();
                    }
                    CallInfo const& ci = f->calls[in.imm];
                    FuncInfo* g = ci.callee;
                    u64 addr = 0;
                    if (!g) {
                        addr = concretize(A(ci.calleeRef));
                        auto it = byAddr.find(addr);
                        if (it != byAddr.end()) g = it->second;
                        else if (addr < 65536 || inReg(addr)) violation("memory", "call through an invalid function pointer");
                    }
                    std::vector<Val> args;
                    args.reserve(ci.args.size());
                    for (int r : ci.args) args.push_back(A(r));
                    Val ret[16];
                    bool ok = true;
                    if (ci.intr != Intrinsic::not_intrinsic) intrinsic(ci, args, ret);
                    else if (g && g->model) ok = g->model(ci, args, ret);
                    else if (g && !g->decl) {
                        for (auto& bv : ci.byval) {
                            u64 p = (stkTop + 15) & ~15ULL;
                            stkTop = p + ((bv.second + 15) & ~15ULL) + 16;
                            copyMem(p, concretize(args[bv.first]), bv.second);
                            args[bv.first] = {p, nullptr};
                        }
                        pushFrame(g, &ci, args);
                        goto nextFrame;
                    } else ok = nativeCall(g ? g->addr : addr, g ? g->name : "indirect", ci, args, ret);
                    if (!ok) {
                        unwind(inflight);
                        goto nextFrame;
                    }
                    for (int i = 0; i < ci.nret; i++) RG[ci.dst + i] = ret[i];
                    if (ci.normal >= 0) { takeEdge(fr, ci.normal); pcx = fr.pc; }
                    break;
                }
                case OP_LPAD: {
                    LpadInfo const& li = f->lpads[in.imm];
                    auto& ex = excs[inflight];
                    u64 sel = 0;
                    for (size_t i = 0; i < li.clauses.size(); i++) {
                        if (li.clauses[i].first) continue;
                        if (li.ti[i] == 0) { sel = typeId(0); ex.adjusted = ex.obj; break; }
                        auto ct = (std::type_info const*)li.ti[i];
                        void* adj = (void*)ex.obj;
                        if (ex.ti->__is_pointer_p()) adj = *(void**)adj;
                        if (ct->__do_catch(ex.ti, &adj, 1)) { sel = typeId(li.ti[i]); if (!ex.ti->__is_pointer_p()) ex.adjusted = (u64)adj; break; }
                    }
                    RG[in.dst] = {inflight, nullptr};
                    RG[in.dst + 1] = {sel, nullptr};
                    break;
                }
                case OP_RESUME: {
                    fr.pc = pcx;
                    u64 obj = A(in.a).c;
                    popFrame();
                    if (frames.empty()) engineError("resume out of main");
                    unwind(obj);
                    goto nextFrame;
                }
                case OP_UNREACHABLE: fr.pc = pcx; violation("abort", "unreachable code reached (undefined behaviour)");
                case OP_FBIN: {
                    Val x = A(in.a), y = A(in.b);
                    if (x.e || y.e) engineError("symbolic floating point");
                    if (in.w == 64) {
                        double p, q, r;
                        memcpy(&p, &x.c, 8); memcpy(&q, &y.c, 8);
                        r = in.c == Instruction::FAdd ? p + q : in.c == Instruction::FSub ? p - q : in.c == Instruction::FMul ? p * q : p / q;
                        u64 o; memcpy(&o, &r, 8);
                        RG[in.dst] = {o, nullptr};
                    } else {
                        float p, q, r;
                        memcpy(&p, &x.c, 4); memcpy(&q, &y.c, 4);
                        r = in.c == Instruction::FAdd ? p + q : in.c == Instruction::FSub ? p - q : in.c == Instruction::FMul ? p * q : p / q;
                        u64 o = 0; memcpy(&o, &r, 4);
                        RG[in.dst] = {o, nullptr};
                    }
                    break;
                }
                case OP_FNEG: { Val x = A(in.a); if (x.e) engineError("symbolic floating point"); RG[in.dst] = {x.c ^ (1ULL << (in.w - 1)), nullptr}; break; }
                case OP_FCMP: {
                    Val x = A(in.a), y = A(in.b);
                    if (x.e || y.e) engineError("symbolic floating point");
                    double p, q;
                    if (in.w == 64) { memcpy(&p, &x.c, 8); memcpy(&q, &y.c, 8); }
                    else { float u, v; memcpy(&u, &x.c, 4); memcpy(&v, &y.c, 4); p = u; q = v; }
                    bool un = p != p || q != q, r = false;
                    switch (in.c) {
                        case CmpInst::FCMP_OEQ: r = !un && p == q; break;
                        case CmpInst::FCMP_OGT: r = !un && p > q; break;
                        case CmpInst::FCMP_OGE: r = !un && p >= q; break;
                        case CmpInst::FCMP_OLT: r = !un && p < q; break;
                        case CmpInst::FCMP_OLE: r = !un && p <= q; break;
                        case CmpInst::FCMP_ONE: r = !un && p != q; break;
                        case CmpInst::FCMP_ORD: r = !un; break;
                        case CmpInst::FCMP_UNO: r = un; break;
                        case CmpInst::FCMP_UEQ: r = un || p == q; break;
                        case CmpInst::FCMP_UGT: r = un || p > q; break;
                        case CmpInst::FCMP_UGE: r = un || p >= q; break;
                        case CmpInst::FCMP_ULT: r = un || p < q; break;
                        case CmpInst::FCMP_ULE: r = un || p <= q; break;
                        case CmpInst::FCMP_UNE: r = un || p != q; break;
                        default: break;
                    }
                    RG[in.dst] = {(u64)r, nullptr};
                    break;
                }
                case OP_FCAST: {
                    Val x = A(in.a);
                    if (x.e) engineError("symbolic floating point");
                    double d = 0;
                    float fl;
                    u64 o = 0;
                    switch (in.c) {
                        default: break;
                    }
                    switch (in.b) {
                        default: break;
                    }
                    switch (in.c) {
                        case Instruction::UIToFP: d = (double)x.c; break;
                        case Instruction::SIToFP: d = (double)sxt(x.c, in.w2); break;
                        default:
                            if (in.w2 == 64) memcpy(&d, &x.c, 8);
                            else { memcpy(&fl, &x.c, 4); d = fl; }
                    }
                    if (in.c == Instruction::FPToUI) o = (u64)d & maskw(in.w);
                    else if (in.c == Instruction::FPToSI) o = (u64)(int64_t)d & maskw(in.w);
                    else if (in.w == 64) memcpy(&o, &d, 8);
                    else { fl = d; memcpy(&o, &fl, 4); }
                    RG[in.dst] = {o, nullptr};
                    break;
                }
                case OP_UNSUP: fr.pc = pcx; engineError("unsupported instruction in " + demangled(f->name) + ": " + f->strs[in.imm]);
                default: engineError("bad op");
            }
        }
    nextFrame:;
    }
}

static void segv(int, siginfo_t* si, void*) {
    char b[96];
    snprintf(b, sizeof b, "invalid memory access (segmentation fault)%s", nativeMode ? " in native library code" : "");
    (void)si;
    violation("memory", b);
}

static int prep(char const* in, char const* out) {
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(in, err, ctx);
    if (!m) { err.print("symex", errs()); return 3; }
    static std::map<std::string, std::string> ren = {
        {"_Znwm", "symex_znwm"}, {"_Znam", "symex_znwm"}, {"_ZnwmSt11align_val_t", "symex_znwm_al"}, {"_ZnamSt11align_val_t", "symex_znwm_al"},
        {"_ZnwmRKSt9nothrow_t", "symex_znwm_al"}, {"_ZnamRKSt9nothrow_t", "symex_znwm_al"},
        {"_ZdlPv", "symex_zdlpv"}, {"_ZdaPv", "symex_zdlpv"}, {"_ZdlPvm", "symex_zdlpv_m"}, {"_ZdaPvm", "symex_zdlpv_m"}, {"_ZdlPvRKSt9nothrow_t", "symex_zdlpv_m"},
        {"_ZdlPvSt11align_val_t", "symex_zdlpv_m"}, {"_ZdlPvmSt11align_val_t", "symex_zdlpv_m_al"}, {"malloc", "symex_malloc"}, {"free", "symex_free"}, {"calloc", "symex_calloc"}};
    for (auto& r : ren)
        if (Function* f = m->getFunction(r.first); f && f->isDeclaration()) {
            if (Function* g = m->getFunction(r.second)) { f->replaceAllUsesWith(g); f->eraseFromParent(); }
            else f->setName(r.second);
        }
    int k = 0;
    auto fix = [&](GlobalValue& g) {
        if (g.getName().starts_with("llvm.")) return;
        if (g.isDeclaration()) return;
        if (!g.hasName()) g.setName("anon." + std::to_string(k++));
        if (g.hasLocalLinkage()) {
            std::string n = "lcl$" + std::to_string(k++) + "$" + g.getName().str();
            std::replace_if(n.begin(), n.end(), [](char c) { return c == '"' || c == '@'; }, '_');
            g.setName(n);
        }
        g.setVisibility(GlobalValue::DefaultVisibility);
        g.setLinkage(GlobalValue::ExternalLinkage);
        g.setUnnamedAddr(GlobalValue::UnnamedAddr::None);
        g.setDSOLocal(false);
        if (auto o = dyn_cast<GlobalObject>(&g)) o->setComdat(nullptr);
    };
    for (auto& f : *m) fix(f);
    for (auto& g : m->globals()) fix(g);
    for (auto& a : m->aliases()) fix(a);
    // 16-byte copies as two words
    for (auto& f : *m)
        for (auto& b : f)
            for (auto it = b.begin(); it != b.end();) {
                auto* l = dyn_cast<LoadInst>(&*it++);
                if (!l || !l->getType()->isIntegerTy(128) || l->isAtomic() || l->use_empty()) continue;
                bool copy = true;
                for (User* u : l->users()) {
                    auto* st = dyn_cast<StoreInst>(u);
                    copy &= st && st->getValueOperand() == l && st->getPointerOperand() != l;
                }
                if (!copy) continue;
                auto* i64 = Type::getInt64Ty(ctx);
                auto* n = new LoadInst(StructType::get(i64, i64), l->getPointerOperand(), "", l->isVolatile(), l->getAlign(), l);
                std::vector<User*> us(l->users().begin(), l->users().end());
                for (User* u : us) {
                    auto* st = cast<StoreInst>(u);
                    new StoreInst(n, st->getPointerOperand(), st->isVolatile(), st->getAlign(), st);
                    if (it != b.end() && &*it == st) ++it;
                    st->eraseFromParent();
                }
                l->eraseFromParent();
            }
    std::error_code ec;
    raw_fd_ostream os(out, ec, sys::fs::OF_None);
    WriteBitcodeToFile(*m, os);
    return 0;
}

int main(int argc, char** argv) {
    if (argc >= 4 && !strcmp(argv[1], "prep")) return prep(argv[2], argv[3]);
    if (argc < 5 || strcmp(argv[1], "run")) {
        fprintf(stderr, "usage\n");
        return 2;
    }
    outDir = argv[4];
    std::string entry = "harness";
    for (int i = 5; i < argc; i++) {
        std::string s = argv[i];
        auto eq = s.find('=');
        if (s == "-v") verbose = true;
        else if (s.rfind("--procs=", 0) == 0) maxProcs = atoi(s.c_str() + 8);
        else if (s.rfind("--deadline=", 0) == 0) deadlineS = atof(s.c_str() + 11);
        else if (s.rfind("--stride=", 0) == 0) sampleStride = atoll(s.c_str() + 9);
        else if (s.rfind("--steps=", 0) == 0) pathInstrLimit = atoll(s.c_str() + 8);
        else if (s.rfind("--maxviol=", 0) == 0) maxViolations = atoll(s.c_str() + 10);
        else if (s.rfind("--entry=", 0) == 0) entry = s.substr(8);
        else if (eq != std::string::npos) params[s.substr(0, eq)] = atoi(s.c_str() + eq + 1);
    }
    t0 = now();
    S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto mm = [&](u64 at, u64 sz) {
        void* p = mmap((void*)at, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); exit(3); }
        return p;
    };
    mm(REG, REGSZ);
    symFlag = (uint8_t*)mm(0, REGSZ / 8);
    addrSh = (uint8_t*)mm(0, HEAPSZ / 8);
    heapLo = HEAP + 4096;
    heapHi = HEAP + HEAPSZ - 4096;

    auto ctx = std::make_unique<LLVMContext>();
    SMDiagnostic err;
    auto mod = parseIRFile(argv[2], err, *ctx);
    if (!mod) { err.print("symex", errs()); return 3; }
    M = mod.get();
    DL = &M->getDataLayout();
    lib = dlopen(argv[3], RTLD_NOW | RTLD_LOCAL);
    if (!lib) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    initModels();
    for (auto& f : *M) {
        auto fi = new FuncInfo;
        fi->F = &f;
        fi->decl = f.isDeclaration();
        fi->name = f.getName().str();
        fi->idx = std::min<int>(allF.size(), MAXFN - 1);
        auto it = models.find(fi->name);
        if (it != models.end()) fi->model = it->second;
        if (!f.isIntrinsic()) {
            fi->addr = globalAddr(&f);
            if (fi->addr && (!f.isDeclaration() || fi->model)) byAddr[fi->addr] = fi;
        }
        finfo[&f] = fi;
        allF.push_back(fi);
    }
    Function* main = M->getFunction(entry);
    if (!main) { fprintf(stderr, "no function %s\n", entry.c_str()); return 3; }
    typeIds.push_back(0);  // catch-all has id 1
    FuncInfo* mainInfo = finfo[main];
    for (auto f : allF)
        if (!f->decl && !f->model) { Decoder d; d.fi = f; d.run(); f->code.shrink_to_fit(); f->consts.shrink_to_fit(); f->edges.shrink_to_fit(); }
    // the module is no longer needed: a small process forks faster
    finfo.clear();
    gaddr.clear();
    mod.reset();
    ctx.reset();
    malloc_trim(0);

    Z3_config cfg = Z3_mk_config();
    X.z = Z3_mk_context_rc(cfg);
    Z3_set_error_handler(X.z, [](Z3_context c, Z3_error_code e) { engineError(std::string("z3: ") + Z3_get_error_msg(c, e)); });
    solver = Z3_mk_simple_solver(X.z);
    Z3_solver_inc_ref(X.z, solver);

    if (prctl(PR_SET_CHILD_SUBREAPER, 1)) perror("prctl");
    S->running = 1;
    fflush(0);
    pid_t p = fork();
    if (p == 0) {
        stack_t ss;
        ss.ss_sp = malloc(1 << 18);
        ss.ss_size = 1 << 18;
        ss.ss_flags = 0;
        sigaltstack(&ss, 0);
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_sigaction = segv;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
        sigaction(SIGSEGV, &sa, 0);
        sigaction(SIGBUS, &sa, 0);
        regs.resize(1 << 16);
        pushFrame(mainInfo, nullptr, {});
        exec();
        pathDone();
    }
    int st;
    for (;;) {
        pid_t q = wait(&st);
        if (q < 0) {
            if (errno == EINTR) continue;
            break;
        }
        if (WIFSIGNALED(st)) {
            S->engineErr++;
            if (S->nerr < 8) { char b[64]; snprintf(b, 64, "a path process died (signal %d); ", WTERMSIG(st)); strcat(S->err, b); S->nerr++; }
        }
    }
    // result
    std::string rf = outDir + "/result.json";
    FILE* o = fopen(rf.c_str(), "w");
    fprintf(o, "{\"paths\": %llu, \"pruned\": %llu, \"forks\": %llu, \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"solver_s\": %.3f, \"instructions\": %llu, \"asserts\": %llu, \"symbolic_asserts\": %llu, \"symbolic_branches\": %llu, \"value_groups\": %llu, \"violations\": %llu, \"incomplete\": %llu, \"stopped\": %d, \"engine_errors\": %llu, \"samples\": %llu, \"native_concretizations\": %llu, \"max_enumeration\": %llu, \"wall_s\": %.2f, \"errors\": \"%s\",\n\"cover\": {",
        (unsigned long long)S->paths, (unsigned long long)S->pruned, (unsigned long long)S->forks, (unsigned long long)S->queries, (unsigned long long)S->sat, (unsigned long long)S->unsat, (unsigned long long)S->unknown, S->solver_ns * 1e-9, (unsigned long long)S->instrs, (unsigned long long)S->asserts, (unsigned long long)S->symAsserts, (unsigned long long)S->symBranches, (unsigned long long)S->groups, (unsigned long long)S->violations, (unsigned long long)S->incomplete, (int)S->stop, (unsigned long long)S->engineErr, (unsigned long long)std::min<u64>(S->samples, 256), (unsigned long long)S->natConc, (unsigned long long)S->enumMax, now() - t0, jesc(S->err).c_str());
    for (int i = 0; i < S->ncover; i++) fprintf(o, "%s\"%s\": %llu", i ? ", " : "", jesc(S->cover[i].name).c_str(), (unsigned long long)S->cover[i].n);
    fprintf(o, "},\n\"functions\": [");
    bool first = true;
    for (auto f : allF)
        if (S->fnSeen[f->idx] && f->name.find("log_surgeon") != std::string::npos) {
            std::string d = demangled(f->name);
            if (d.size() > 200) d = d.substr(0, 200) + "...";
            fprintf(o, "%s\"%s\"", first ? "" : ",\n", jesc(d).c_str());
            first = false;
        }
    fprintf(o, "]}\n");
    fclose(o);
    return S->engineErr ? 3 : S->violations ? 1 : S->stop ? 4 : 0;
}
