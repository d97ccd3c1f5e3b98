// A nondeterministic automaton of a pattern, built apart from the library.
#pragma once
#include "regex.hpp"

// a nondeterministic automaton of r
struct Nfa {
    struct Edge {
        int to;
        int set;  // index, or -1 for none
    };
    vector<vector<Edge>> edges;
    vector<std::array<bool, 256>> sets;
    int first{0}, last{0};
    int state() {
        edges.emplace_back();
        return (int)edges.size() - 1;
    }
    int build(ref::Re const& r, int from) {
        switch (r.kind) {
            case ref::Re::Set:
            case ref::Re::Dot: {
                auto s = r.set;
                if (r.kind == ref::Re::Dot) s.fill(true);
                sets.push_back(s);
                int const to = state();
                edges[from].push_back({to, (int)sets.size() - 1});
                return to;
            }
            case ref::Re::Cat:
                for (auto& k : r.kids) from = build(k, from);
                return from;
            case ref::Re::Alt: {
                int const to = state();
                for (auto& k : r.kids) {
                    int const s = state();
                    edges[from].push_back({s, -1});
                    int const e = build(k, s);
                    edges[e].push_back({to, -1});
                }
                return to;
            }
            case ref::Re::Cap: return build(r.kids[0], from);
            case ref::Re::Rep: {
                for (int i = 0; i < r.lo; i++) from = build(r.kids[0], from);
                int const to = state();
                edges[from].push_back({to, -1});
                if (r.hi < 0) {
                    int const s = state();
                    edges[from].push_back({s, -1});
                    int const e = build(r.kids[0], s);
                    edges[e].push_back({s, -1});
                    edges[e].push_back({to, -1});
                } else {
                    for (int i = r.lo; i < r.hi; i++) {
                        from = build(r.kids[0], from);
                        edges[from].push_back({to, -1});
                    }
                }
                return to;
            }
        }
        return from;
    }
    explicit Nfa(ref::Re const& r) {
        first = state();
        last = build(r, first);
    }
};
