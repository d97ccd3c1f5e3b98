// Hash-consed bit-vector terms over symbolic bytes, and their translation to z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unordered_map>
#include <vector>
#include <z3.h>

enum EOp : uint8_t {
    E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
    E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT,
    E_CONCAT, E_TABLE
};

struct Expr {
    EOp op;
    uint8_t w;
    uint32_t id;
    Expr const* k[3];
    uint64_t val;  // const value / var index / extract low bit / table var index
    uint64_t const* tab;  // E_TABLE
    uint64_t m0, m1;  // support: variables 0..127
    Expr const* hnext;
    uint32_t hash;
    mutable uint64_t const* utab;
    mutable Z3_ast z;
    mutable uint32_t gen;
    mutable uint64_t ev;
};
typedef Expr const* Ex;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sxt(uint64_t v, unsigned w) {
    if (w >= 64) return (int64_t)v;
    uint64_t s = 1ULL << (w - 1);
    v &= maskw(w);
    return (int64_t)((v ^ s) - s);
}

static inline uint64_t evalBin(EOp op, unsigned w, uint64_t a, uint64_t b) {
    // w: operand width
    uint64_t m = maskw(w);
    switch (op) {
        case E_ADD: return (a + b) & m;
        case E_SUB: return (a - b) & m;
        case E_MUL: return (a * b) & m;
        case E_UDIV: return b ? (a / b) & m : m;
        case E_UREM: return b ? (a % b) & m : a;
        case E_SDIV: {
            int64_t x = sxt(a, w), y = sxt(b, w);
            if (y == 0) return (x < 0 ? 1 : m) & m;
            if (y == -1) return (uint64_t)(0 - (uint64_t)x) & m;
            return (uint64_t)(x / y) & m;
        }
        case E_SREM: {
            int64_t x = sxt(a, w), y = sxt(b, w);
            if (y == 0) return a;
            if (y == -1) return 0;
            return (uint64_t)(x % y) & m;
        }
        case E_AND: return a & b;
        case E_OR: return a | b;
        case E_XOR: return a ^ b;
        case E_SHL: return b >= w ? 0 : (a << b) & m;
        case E_LSHR: return b >= w ? 0 : (a >> b) & m;
        case E_ASHR: return (uint64_t)(sxt(a, w) >> (b >= w ? w - 1 : b)) & m;
        case E_EQ: return a == b;
        case E_ULT: return a < b;
        case E_ULE: return a <= b;
        case E_SLT: return sxt(a, w) < sxt(b, w);
        case E_SLE: return sxt(a, w) <= sxt(b, w);
        default: abort();
    }
}

struct ExprCtx {
    std::vector<Expr const*> buckets = std::vector<Expr const*>(1 << 16, nullptr);
    uint32_t count = 0;
    std::vector<uint64_t const*> tabs;
    std::unordered_map<uint64_t, std::vector<uint64_t const*>> tabIntern;
    Z3_context z = nullptr;
    std::vector<Z3_ast> zvars;
    uint32_t evalgen = 0;
    char* pool = nullptr;
    size_t poolLeft = 0;

    void* alloc(size_t n) {
        n = (n + 15) & ~size_t(15);
        if (poolLeft < n) {
            poolLeft = 1 << 18;
            if (n > poolLeft) poolLeft = n;
            pool = (char*)malloc(poolLeft);
        }
        void* p = pool;
        pool += n;
        poolLeft -= n;
        return p;
    }

    Ex intern(EOp op, unsigned w, Ex a, Ex b, Ex c, uint64_t val, uint64_t const* tab) {
        uint64_t h = op * 0x9E3779B97F4A7C15ULL + w;
        auto mix = [&](uint64_t x) {
            h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
            h *= 0xff51afd7ed558ccdULL;
        };
        mix(a ? a->id + 1 : 0);
        mix(b ? b->id + 1 : 0);
        mix(c ? c->id + 1 : 0);
        mix(val);
        mix((uint64_t)tab);
        uint32_t hh = (uint32_t)(h ^ (h >> 32));
        if (count > buckets.size() * 2) {
            std::vector<Expr const*> nb(buckets.size() * 4, nullptr);
            for (auto e : buckets)
                while (e) {
                    auto n = e->hnext;
                    auto& slot = nb[e->hash & (nb.size() - 1)];
                    ((Expr*)e)->hnext = slot;
                    slot = e;
                    e = n;
                }
            buckets.swap(nb);
        }
        auto& slot = buckets[hh & (buckets.size() - 1)];
        for (auto e = slot; e; e = e->hnext)
            if (e->hash == hh && e->op == op && e->w == w && e->k[0] == a && e->k[1] == b
                && e->k[2] == c && e->val == val && e->tab == tab)
                return e;
        Expr* e = (Expr*)alloc(sizeof(Expr));
        e->op = op;
        e->w = w;
        e->id = count++;
        e->k[0] = a;
        e->k[1] = b;
        e->k[2] = c;
        e->val = val;
        e->tab = tab;
        e->m0 = e->m1 = 0;
        for (int i = 0; i < 3; i++)
            if (e->k[i]) {
                e->m0 |= e->k[i]->m0;
                e->m1 |= e->k[i]->m1;
            }
        if (op == E_VAR || op == E_TABLE) {
            if (val < 64) e->m0 |= 1ULL << val;
            else e->m1 |= 1ULL << (val - 64);
        }
        e->hash = hh;
        e->hnext = slot;
        e->utab = nullptr;
        e->z = nullptr;
        e->gen = 0;
        slot = e;
        return e;
    }

    Ex con(unsigned w, uint64_t v) { return intern(E_CONST, w, 0, 0, 0, v & maskw(w), 0); }
    Ex var(unsigned i) { return intern(E_VAR, 8, 0, 0, 0, i, 0); }

    uint64_t const* internTab(uint64_t const* t) {
        uint64_t h = 1469598103934665603ULL;
        for (int i = 0; i < 256; i++) h = (h ^ t[i]) * 1099511628211ULL + (h >> 29);
        auto& v = tabIntern[h];
        for (auto x : v)
            if (memcmp(x, t, 256 * 8) == 0) return x;
        uint64_t* n = (uint64_t*)alloc(256 * 8);
        memcpy(n, t, 256 * 8);
        v.push_back(n);
        return n;
    }
    Ex table(unsigned w, unsigned varIdx, uint64_t const* t) {
        bool same = true;
        for (int i = 1; i < 256; i++)
            if (t[i] != t[0]) { same = false; break; }
        if (same) return con(w, t[0]);
        return intern(E_TABLE, w, 0, 0, 0, varIdx, internTab(t));
    }

    Ex bnot(Ex a) { return bin(E_XOR, a, con(1, 1)); }

    Ex bin(EOp op, Ex a, Ex b) {
        unsigned w = a->w;
        unsigned rw = (op >= E_EQ && op <= E_SLE) ? 1 : w;
        if (a->op == E_CONST && b->op == E_CONST) return con(rw, evalBin(op, w, a->val, b->val));
        bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ;
        if (comm && a->op == E_CONST) std::swap(a, b);
        if (comm && b->op != E_CONST && a->id > b->id) std::swap(a, b);
        bool bc = b->op == E_CONST;
        uint64_t bv = b->val, m = maskw(w);
        switch (op) {
            case E_ADD:
                if (bc && bv == 0) return a;
                if (bc && a->op == E_ADD && a->k[1]->op == E_CONST)
                    return bin(E_ADD, a->k[0], con(w, a->k[1]->val + bv));
                break;
            case E_SUB:
                if (a == b) return con(w, 0);
                if (bc) return bin(E_ADD, a, con(w, 0 - bv));
                break;
            case E_MUL:
                if (bc && bv == 0) return b;
                if (bc && bv == 1) return a;
                if (bc && (bv & (bv - 1)) == 0) return bin(E_SHL, a, con(w, __builtin_ctzll(bv)));
                break;
            case E_UDIV:
                if (bc && bv == 1) return a;
                if (bc && bv && (bv & (bv - 1)) == 0) return bin(E_LSHR, a, con(w, __builtin_ctzll(bv)));
                break;
            case E_UREM:
                if (bc && bv && (bv & (bv - 1)) == 0) return bin(E_AND, a, con(w, bv - 1));
                break;
            case E_AND:
                if (a == b) return a;
                if (bc && bv == 0) return b;
                if (bc && bv == m) return a;
                if (bc && a->op == E_ZEXT) {
                    uint64_t im = maskw(a->k[0]->w);
                    if ((bv & im) == im) return a;
                    return zext(bin(E_AND, a->k[0], con(a->k[0]->w, bv)), w);
                }
                if (bc && a->op == E_AND && a->k[1]->op == E_CONST)
                    return bin(E_AND, a->k[0], con(w, a->k[1]->val & bv));
                break;
            case E_OR:
                if (a == b) return a;
                if (bc && bv == 0) return a;
                if (bc && bv == m) return b;
                break;
            case E_XOR:
                if (a == b) return con(w, 0);
                if (bc && bv == 0) return a;
                if (bc && a->op == E_XOR && a->k[1]->op == E_CONST)
                    return bin(E_XOR, a->k[0], con(w, a->k[1]->val ^ bv));
                break;
            case E_SHL:
            case E_LSHR:
            case E_ASHR:
                if (bc && bv == 0) return a;
                if (bc && bv >= w && op != E_ASHR) return con(w, 0);
                if (bc && op == E_LSHR) {
                    // (x >> c) == zext(extract(x, c..))
                    return zext(extract(a, bv, w - bv), w);
                }
                if (bc && op == E_SHL) return concat(extract(a, 0, w - bv), con(bv, 0));
                break;
            case E_EQ:
                if (a == b) return con(1, 1);
                if (w == 1 && bc) return bv ? a : bnot(a);
                if (bc) {
                    if (a->op == E_ZEXT) {
                        uint64_t im = maskw(a->k[0]->w);
                        if (bv > im) return con(1, 0);
                        return bin(E_EQ, a->k[0], con(a->k[0]->w, bv));
                    }
                    if (a->op == E_SEXT) {
                        unsigned iw = a->k[0]->w;
                        if ((uint64_t)(sxt(bv, iw) & m) != bv) return con(1, 0);
                        return bin(E_EQ, a->k[0], con(iw, bv));
                    }
                    if (a->op == E_ADD && a->k[1]->op == E_CONST)
                        return bin(E_EQ, a->k[0], con(w, bv - a->k[1]->val));
                    if (a->op == E_ITE && a->k[1]->op == E_CONST && a->k[2]->op == E_CONST) {
                        bool x = a->k[1]->val == bv, y = a->k[2]->val == bv;
                        if (x && y) return con(1, 1);
                        if (x) return a->k[0];
                        if (y) return bnot(a->k[0]);
                        return con(1, 0);
                    }
                    if (a->op == E_CONCAT) {
                        unsigned lw = a->k[1]->w;
                        Ex h = bin(E_EQ, a->k[0], con(a->k[0]->w, bv >> lw));
                        Ex l = bin(E_EQ, a->k[1], con(lw, bv));
                        return bin(E_AND, h, l);
                    }
                }
                break;
            case E_ULT:
                if (a == b) return con(1, 0);
                if (bc && bv == 0) return con(1, 0);
                if (bc && bv == 1) return bin(E_EQ, a, con(w, 0));
                if (a->op == E_CONST && a->val == m) return con(1, 0);
                if (a->op == E_ZEXT && bc) {
                    uint64_t im = maskw(a->k[0]->w);
                    if (bv > im) return con(1, 1);
                    return bin(E_ULT, a->k[0], con(a->k[0]->w, bv));
                }
                if (b->op == E_ZEXT && a->op == E_CONST) {
                    uint64_t im = maskw(b->k[0]->w);
                    if (a->val >= im) return con(1, 0);
                    return bin(E_ULT, con(b->k[0]->w, a->val), b->k[0]);
                }
                if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w)
                    return bin(E_ULT, a->k[0], b->k[0]);
                break;
            case E_ULE: return bnot(bin(E_ULT, b, a));
            case E_SLT:
                if (a == b) return con(1, 0);
                if (a->op == E_ZEXT && bc) {
                    if (sxt(bv, w) <= 0) return con(1, 0);
                    return bin(E_ULT, a, b);
                }
                if (b->op == E_ZEXT && a->op == E_CONST) {
                    if (sxt(a->val, w) < 0) return con(1, 1);
                    return bin(E_ULT, a, b);
                }
                if (a->op == E_ZEXT && b->op == E_ZEXT) return bin(E_ULT, a, b);
                if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w)
                    return bin(E_SLT, a->k[0], b->k[0]);
                break;
            case E_SLE: return bnot(bin(E_SLT, b, a));
            default: break;
        }
        return intern(op, rw, a, b, 0, 0, 0);
    }
    Ex ite(Ex c, Ex a, Ex b) {
        if (c->op == E_CONST) return c->val ? a : b;
        if (a == b) return a;
        if (a->w == 1) {
            if (a->op == E_CONST && b->op == E_CONST) return a->val ? c : bnot(c);
            if (a->op == E_CONST) return a->val ? bin(E_OR, c, b) : bin(E_AND, bnot(c), b);
            if (b->op == E_CONST) return b->val ? bin(E_OR, bnot(c), a) : bin(E_AND, c, a);
        }
        return intern(E_ITE, a->w, c, a, b, 0, 0);
    }
    Ex zext(Ex a, unsigned w) {
        if (a->w == w) return a;
        if (a->op == E_CONST) return con(w, a->val);
        if (a->op == E_ZEXT) return zext(a->k[0], w);
        return intern(E_ZEXT, w, a, 0, 0, 0, 0);
    }
    Ex sext(Ex a, unsigned w) {
        if (a->w == w) return a;
        if (a->op == E_CONST) return con(w, (uint64_t)sxt(a->val, a->w));
        if (a->op == E_ZEXT) return zext(a->k[0], w);
        if (a->op == E_SEXT) return sext(a->k[0], w);
        return intern(E_SEXT, w, a, 0, 0, 0, 0);
    }
    Ex extract(Ex a, unsigned lo, unsigned w) {
        if (lo == 0 && w == a->w) return a;
        switch (a->op) {
            case E_CONST: return con(w, a->val >> lo);
            case E_EXTRACT: return extract(a->k[0], lo + a->val, w);
            case E_ZEXT: {
                unsigned iw = a->k[0]->w;
                if (lo >= iw) return con(w, 0);
                if (lo + w <= iw) return extract(a->k[0], lo, w);
                return zext(extract(a->k[0], lo, iw - lo), w);
            }
            case E_SEXT:
                if (lo + w <= a->k[0]->w) return extract(a->k[0], lo, w);
                break;
            case E_CONCAT: {
                unsigned lw = a->k[1]->w;
                if (lo >= lw) return extract(a->k[0], lo - lw, w);
                if (lo + w <= lw) return extract(a->k[1], lo, w);
                return concat(extract(a->k[0], 0, lo + w - lw), extract(a->k[1], lo, lw - lo));
            }
            case E_ITE:
                if (a->k[1]->op == E_CONST && a->k[2]->op == E_CONST)
                    return ite(a->k[0], con(w, a->k[1]->val >> lo), con(w, a->k[2]->val >> lo));
                break;
            case E_AND:
            case E_OR:
            case E_XOR:
                return bin(a->op, extract(a->k[0], lo, w), extract(a->k[1], lo, w));
            case E_ADD:
            case E_SUB:
            case E_MUL:
                if (lo == 0) return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
                break;
            case E_TABLE: {
                uint64_t t[256];
                for (int i = 0; i < 256; i++) t[i] = (a->tab[i] >> lo) & maskw(w);
                return table(w, a->val, t);
            }
            default: break;
        }
        return intern(E_EXTRACT, w, a, 0, 0, lo, 0);
    }
    Ex concat(Ex hi, Ex lo) {
        unsigned w = hi->w + lo->w;
        if (hi->w == 0) return lo;
        if (lo->w == 0) return hi;
        if (hi->op == E_CONST && lo->op == E_CONST) return con(w, (hi->val << lo->w) | lo->val);
        if (hi->op == E_CONST && hi->val == 0) return zext(lo, w);
        // contiguous extracts
        Ex hs = hi, ls = lo;
        unsigned hl = 0, ll = 0;
        if (hi->op == E_EXTRACT) { hs = hi->k[0]; hl = hi->val; }
        if (lo->op == E_EXTRACT) { ls = lo->k[0]; ll = lo->val; }
        if (hs == ls && hl == ll + lo->w && (hi->op == E_EXTRACT)) return extract(hs, ll, w);
        if (lo->op == E_CONCAT && hi->op == E_EXTRACT && lo->k[0]->op == E_EXTRACT
            && lo->k[0]->k[0] == hi->k[0] && hi->val == lo->k[0]->val + lo->k[0]->w)
            return concat(extract(hi->k[0], lo->k[0]->val, hi->w + lo->k[0]->w), lo->k[1]);
        if (hi->op == E_TABLE && lo->op == E_TABLE && hi->val == lo->val) {
            uint64_t t[256];
            for (int i = 0; i < 256; i++) t[i] = (hi->tab[i] << lo->w) | lo->tab[i];
            return table(w, hi->val, t);
        }
        return intern(E_CONCAT, w, hi, lo, 0, 0, 0);
    }

    // single-variable support, or -1
    static int unary(Ex e) {
        if (e->m1 == 0) {
            if (e->m0 == 0 || (e->m0 & (e->m0 - 1))) return -1;
            return __builtin_ctzll(e->m0);
        }
        if (e->m0 || (e->m1 & (e->m1 - 1))) return -1;
        return 64 + __builtin_ctzll(e->m1);
    }
    // values of a unary expression for every value of its variable
    uint64_t const* utab(Ex e) {
        if (e->utab) return e->utab;
        if (e->op == E_TABLE) return e->utab = e->tab;
        uint64_t* t = (uint64_t*)alloc(256 * 8);
        switch (e->op) {
            case E_CONST:
                for (int i = 0; i < 256; i++) t[i] = e->val;
                break;
            case E_VAR:
                for (int i = 0; i < 256; i++) t[i] = i;
                break;
            case E_ITE: {
                auto c = utab(e->k[0]), a = utab(e->k[1]), b = utab(e->k[2]);
                for (int i = 0; i < 256; i++) t[i] = c[i] ? a[i] : b[i];
                break;
            }
            case E_ZEXT: return e->utab = utab(e->k[0]);
            case E_SEXT: {
                auto a = utab(e->k[0]);
                for (int i = 0; i < 256; i++) t[i] = (uint64_t)sxt(a[i], e->k[0]->w) & maskw(e->w);
                break;
            }
            case E_EXTRACT: {
                auto a = utab(e->k[0]);
                for (int i = 0; i < 256; i++) t[i] = (a[i] >> e->val) & maskw(e->w);
                break;
            }
            case E_CONCAT: {
                auto a = utab(e->k[0]), b = utab(e->k[1]);
                for (int i = 0; i < 256; i++) t[i] = (a[i] << e->k[1]->w) | b[i];
                break;
            }
            default: {
                auto a = utab(e->k[0]), b = utab(e->k[1]);
                unsigned w = e->k[0]->w;
                for (int i = 0; i < 256; i++) t[i] = evalBin(e->op, w, a[i], b[i]);
            }
        }
        return e->utab = t;
    }

    uint64_t eval(Ex e, uint8_t const* model) {
        evalgen++;
        return evalRec(e, model);
    }
    uint64_t evalRec(Ex e, uint8_t const* model) {
        if (e->op == E_CONST) return e->val;
        if (e->gen == evalgen) return e->ev;
        uint64_t r;
        switch (e->op) {
            case E_VAR: r = model[e->val]; break;
            case E_TABLE: r = e->tab[model[e->val]]; break;
            case E_ITE: r = evalRec(e->k[0], model) ? evalRec(e->k[1], model) : evalRec(e->k[2], model); break;
            case E_ZEXT: r = evalRec(e->k[0], model); break;
            case E_SEXT: r = (uint64_t)sxt(evalRec(e->k[0], model), e->k[0]->w) & maskw(e->w); break;
            case E_EXTRACT: r = (evalRec(e->k[0], model) >> e->val) & maskw(e->w); break;
            case E_CONCAT: r = (evalRec(e->k[0], model) << e->k[1]->w) | evalRec(e->k[1], model); break;
            default: r = evalBin(e->op, e->k[0]->w, evalRec(e->k[0], model), evalRec(e->k[1], model));
        }
        e->gen = evalgen;
        e->ev = r;
        return r;
    }

    // ---- z3 ----
    Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(z, w); }
    Z3_ast keep(Z3_ast a) {
        Z3_inc_ref(z, a);
        return a;
    }
    template <class F, class... A>
    Z3_ast K(F f, A... a) { return keep(f(z, a...)); }
    Z3_ast num(unsigned w, uint64_t v) { return K(Z3_mk_unsigned_int64, v, bv(w)); }
    Z3_ast zvar(unsigned i) {
        while (zvars.size() <= i) {
            char n[16];
            snprintf(n, sizeof n, "b%zu", zvars.size());
            zvars.push_back(keep(Z3_mk_const(z, Z3_mk_string_symbol(z, n), bv(8))));
        }
        return zvars[i];
    }
    Z3_ast rangeCond(Z3_ast v, unsigned lo, unsigned hi) {
        if (lo == hi) return K(Z3_mk_eq, v, num(8, lo));
        if (lo == 0) return K(Z3_mk_bvule, v, num(8, hi));
        if (hi == 255) return K(Z3_mk_bvuge, v, num(8, lo));
        Z3_ast a[2] = {K(Z3_mk_bvuge, v, num(8, lo)), K(Z3_mk_bvule, v, num(8, hi))};
        return K(Z3_mk_and, 2, a);
    }
    // condition: tab[v] == x
    Z3_ast tabCond(unsigned vi, uint64_t const* t, uint64_t x) {
        std::vector<Z3_ast> ors;
        Z3_ast v = zvar(vi);
        for (int i = 0; i < 256;) {
            if (t[i] != x) { i++; continue; }
            int j = i;
            while (j + 1 < 256 && t[j + 1] == x) j++;
            ors.push_back(rangeCond(v, i, j));
            i = j + 1;
        }
        if (ors.empty()) return K(Z3_mk_false);
        if (ors.size() == 1) return ors[0];
        return K(Z3_mk_or, ors.size(), ors.data());
    }
    Z3_ast zbool(Ex e) {
        switch (e->op) {
            case E_CONST: return e->val ? K(Z3_mk_true) : K(Z3_mk_false);
            case E_EQ: return K(Z3_mk_eq, zex(e->k[0]), zex(e->k[1]));
            case E_ULT: return K(Z3_mk_bvult, zex(e->k[0]), zex(e->k[1]));
            case E_ULE: return K(Z3_mk_bvule, zex(e->k[0]), zex(e->k[1]));
            case E_SLT: return K(Z3_mk_bvslt, zex(e->k[0]), zex(e->k[1]));
            case E_SLE: return K(Z3_mk_bvsle, zex(e->k[0]), zex(e->k[1]));
            case E_AND: { Z3_ast a[2] = {zbool(e->k[0]), zbool(e->k[1])}; return K(Z3_mk_and, 2, a); }
            case E_OR: { Z3_ast a[2] = {zbool(e->k[0]), zbool(e->k[1])}; return K(Z3_mk_or, 2, a); }
            case E_XOR:
                if (e->k[1]->op == E_CONST) return K(Z3_mk_not, zbool(e->k[0]));
                return K(Z3_mk_xor, zbool(e->k[0]), zbool(e->k[1]));
            case E_ITE: return K(Z3_mk_ite, zbool(e->k[0]), zbool(e->k[1]), zbool(e->k[2]));
            case E_TABLE: return tabCond(e->val, e->tab, 1);
            default: return K(Z3_mk_eq, zex(e), num(1, 1));
        }
    }
    Z3_ast zex(Ex e) {
        if (e->z) return e->z;
        Z3_ast r;
        if (e->w == 1 && (e->op == E_CONST || (e->op >= E_AND && e->op <= E_XOR) || (e->op >= E_EQ && e->op <= E_ITE) || e->op == E_TABLE)) {
            r = K(Z3_mk_ite, zbool(e), num(1, 1), num(1, 0));
        } else
            switch (e->op) {
                case E_CONST: r = num(e->w, e->val); break;
                case E_VAR: r = zvar(e->val); break;
                case E_ADD: r = K(Z3_mk_bvadd, zex(e->k[0]), zex(e->k[1])); break;
                case E_SUB: r = K(Z3_mk_bvsub, zex(e->k[0]), zex(e->k[1])); break;
                case E_MUL: r = K(Z3_mk_bvmul, zex(e->k[0]), zex(e->k[1])); break;
                case E_UDIV: r = K(Z3_mk_bvudiv, zex(e->k[0]), zex(e->k[1])); break;
                case E_SDIV: r = K(Z3_mk_bvsdiv, zex(e->k[0]), zex(e->k[1])); break;
                case E_UREM: r = K(Z3_mk_bvurem, zex(e->k[0]), zex(e->k[1])); break;
                case E_SREM: r = K(Z3_mk_bvsrem, zex(e->k[0]), zex(e->k[1])); break;
                case E_AND: r = K(Z3_mk_bvand, zex(e->k[0]), zex(e->k[1])); break;
                case E_OR: r = K(Z3_mk_bvor, zex(e->k[0]), zex(e->k[1])); break;
                case E_XOR: r = K(Z3_mk_bvxor, zex(e->k[0]), zex(e->k[1])); break;
                case E_SHL: r = K(Z3_mk_bvshl, zex(e->k[0]), zex(e->k[1])); break;
                case E_LSHR: r = K(Z3_mk_bvlshr, zex(e->k[0]), zex(e->k[1])); break;
                case E_ASHR: r = K(Z3_mk_bvashr, zex(e->k[0]), zex(e->k[1])); break;
                case E_ITE: r = K(Z3_mk_ite, zbool(e->k[0]), zex(e->k[1]), zex(e->k[2])); break;
                case E_ZEXT: r = K(Z3_mk_zero_ext, e->w - e->k[0]->w, zex(e->k[0])); break;
                case E_SEXT: r = K(Z3_mk_sign_ext, e->w - e->k[0]->w, zex(e->k[0])); break;
                case E_EXTRACT: r = K(Z3_mk_extract, e->val + e->w - 1, e->val, zex(e->k[0])); break;
                case E_CONCAT: r = K(Z3_mk_concat, zex(e->k[0]), zex(e->k[1])); break;
                case E_TABLE: {
                    std::vector<uint64_t> vals;
                    for (int i = 0; i < 256; i++) {
                        bool f = false;
                        for (auto v : vals) f |= v == e->tab[i];
                        if (!f) vals.push_back(e->tab[i]);
                    }
                    r = num(e->w, vals[0]);
                    for (size_t i = 1; i < vals.size(); i++)
                        r = K(Z3_mk_ite, tabCond(e->val, e->tab, vals[i]), num(e->w, vals[i]), r);
                    break;
                }
                default: abort();
            }
        return e->z = keep(r);
    }
};
