// P12: the prefix tree and the registers against lists of positions, under every sequence of
// operations with arbitrary ids and positions.
#include "common.hpp"
#include <log_surgeon/finite_automata/PrefixTree.hpp>
#include <log_surgeon/finite_automata/RegisterHandler.hpp>

using ls::finite_automata::PrefixTree;
using ls::finite_automata::RegisterHandler;
using Pos = PrefixTree::position_t;
template <class T>
static T number(char const* name) {
    T v{};
    symex_bytes(name, &v, sizeof v);
    return v;
}
template <class F>
static bool rejects(F f) {
    try {
        f();
    } catch (std::out_of_range const&) {
        return true;
    }
    return false;
}
struct Node {
    uint32_t parent;
    Pos pos;
};
static vector<Pos> path(vector<Node> const& n, uint32_t id) {
    vector<Pos> r;
    for (; id != 0; id = n[id].parent) r.push_back(n[id].pos);
    return r;
}
static void equal(vector<Pos> const& a, vector<Pos> const& b, char const* label) {
    symex_assert(a.size() == b.size(), label);
    for (size_t i = 0; i < a.size(); i++) {
        symex_assert(a[i] == b[i], label);
        symex_observe((uint32_t)a[i]);
    }
}

extern "C" void tree() {
    unsigned const steps = symex_param("steps", 4);
    PrefixTree t;
    vector<Node> n{{0, -1}};
    for (unsigned k = 0; k < steps; k++) {
        unsigned const op = symex_choose("op", 3);
        uint32_t const id = number<uint32_t>("id");
        bool const known = id < n.size();
        if (op == 0) {
            Pos const pos = number<Pos>("position");
            PrefixTree::id_t got = 0;
            symex_assert(rejects([&] { got = t.insert(id, pos); }) == !known, "an unknown predecessor is rejected");
            if (known) {
                symex_assert(got == n.size(), "a new node has a fresh id");
                n.push_back({id, pos});
                symex_cover("insert");
            } else {
                symex_cover("unknown predecessor");
            }
        } else if (op == 1) {
            Pos const pos = number<Pos>("position");
            symex_assert(rejects([&] { t.set(id, pos); }) == !known, "setting an unknown node is rejected");
            if (known) {
                n[id].pos = pos;
                symex_cover("set");
            } else {
                symex_cover("unknown node");
            }
        } else {
            vector<Pos> got;
            symex_assert(rejects([&] { got = t.get_reversed_positions(id); }) == !known, "reading an unknown node is rejected");
            if (!known) symex_cover("unknown node read");
        }
        symex_assert(t.size() == n.size(), "the tree has the nodes that were inserted");
        for (uint32_t i = 0; i < n.size(); i++) equal(t.get_reversed_positions(i), path(n, i), "a node's path is its positions up to the root");
    }
}

extern "C" void harness() {
    unsigned const steps = symex_param("steps", 4);
    RegisterHandler h;
    vector<Node> n{{0, -1}};
    vector<uint32_t> reg;
    auto id = [&](char const* name) { return number<size_t>(name); };
    for (unsigned k = 0; k < steps; k++) {
        unsigned const op = symex_choose("op", 5);
        if (op == 0) {
            uint32_t const parent = number<uint32_t>("parent");
            Pos const pos = number<Pos>("position");
            bool const known = parent < n.size();
            symex_assert(rejects([&] { h.add_register(parent, pos); }) == !known, "an unknown predecessor is rejected");
            if (known) {
                n.push_back({parent, pos});
                reg.push_back(n.size() - 1);
                symex_cover("register added");
            }
        } else if (op == 1) {
            size_t const r = id("register");
            Pos const pos = number<Pos>("position");
            bool const known = r < reg.size();
            symex_assert(rejects([&] { h.set_register(r, pos); }) == !known, "an unknown register is rejected");
            if (known) {
                n[reg[r]].pos = pos;
                symex_cover("register set");
            } else {
                symex_cover("unknown register");
            }
        } else if (op == 2) {
            size_t const a = id("register"), b = id("source");
            bool const known = a < reg.size() && b < reg.size();
            symex_assert(rejects([&] { h.copy_register(a, b); }) == !known, "an unknown register is rejected");
            if (known) {
                reg[a] = reg[b];
                symex_cover("register copied");
            }
        } else if (op == 3) {
            size_t const r = id("register");
            Pos const pos = number<Pos>("position");
            bool const known = r < reg.size();
            symex_assert(rejects([&] { h.append_position(r, pos); }) == !known, "an unknown register is rejected");
            if (known) {
                n.push_back({reg[r], pos});
                reg[r] = n.size() - 1;
                symex_cover("position appended");
            }
        } else {
            size_t const r = id("register");
            symex_assert(rejects([&] { (void)h.get_reversed_positions(r); }) == (r >= reg.size()), "an unknown register is rejected");
        }
        for (size_t i = 0; i < reg.size(); i++) equal(h.get_reversed_positions(i), path(n, reg[i]), "a register holds its positions");
        symex_assert(rejects([&] { (void)h.get_reversed_positions(reg.size()); }), "no register but the added ones");
    }
}
