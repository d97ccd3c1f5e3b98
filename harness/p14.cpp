// P14: the intersection of a query with a schema reports exactly the variables that share a string
// with the query.
#include "automaton.hpp"

static bool share(Nfa const& a, Nfa const& b) {
    std::set<std::pair<int, int>> seen{{a.first, b.first}};
    vector<std::pair<int, int>> todo(seen.begin(), seen.end());
    auto add = [&](int i, int j) {
        if (seen.insert({i, j}).second) todo.push_back({i, j});
    };
    while (!todo.empty()) {
        auto const [i, j] = todo.back();
        todo.pop_back();
        if (i == a.last && j == b.last) return true;
        for (auto& e : a.edges[i])
            if (e.set < 0) add(e.to, j);
        for (auto& f : b.edges[j])
            if (f.set < 0) add(i, f.to);
        for (auto& e : a.edges[i])
            for (auto& f : b.edges[j])
                if (e.set >= 0 && f.set >= 0) {
                    bool common = false;
                    for (int c = 0; c < 256; c++) common |= a.sets[e.set][c] && b.sets[f.set][c];
                    if (common) add(e.to, f.to);
                }
    }
    return false;
}

extern "C" void harness() {
    symex_alloc_mode(symex_param("alloc", 0));
    re::Gen g;
    g.leaf = re::leaves(symex_param("leaves", 1));
    g.posts = symex_param("posts", 5);
    ref::Re q, v[2];
    auto s = re::parse([&] {
        q = g.gen(symex_param("query", 1), 0);
        v[0] = g.gen(symex_param("first", 1), 0);
        v[1] = g.gen(symex_param("second", 0), 0);
        string const t = "q:" + re::render(q) + "\nv:" + re::render(v[0]) + "\nw:" + re::render(v[1]);
        symex_note(t.c_str());
        return t;
    });
    re::Matcher query, vars;
    query.add(5, re::pattern(*s, 0));
    query.build();
    vars.add(8, re::pattern(*s, 1));
    unsigned const second = symex_param("same", 0) ? symex_choose("id", 2) ? 8 : 3 : 3;
    vars.add(second, re::pattern(*s, 2));
    vars.build();
    std::set<uint32_t> const got = vars.lexer.get_dfa()->get_intersect(query.lexer.get_dfa());
    std::set<uint32_t> want;
    Nfa const nq(q);
    if (share(nq, Nfa(v[0]))) want.insert(8);
    if (share(nq, Nfa(v[1]))) want.insert(second);
    symex_assert(got == want, "exactly the variables that share a string are reported");
    for (auto i : got) symex_observe(i);
    if (want.empty()) symex_cover("none");
    if (want.size() == 2) symex_cover("both");
    // and any shared string shows it
    unsigned const n = symex_param("n", 1);
    string const text = sym::bytes("text", n);
    for (char c : text) symex_assume((unsigned char)c >= 'a' && (unsigned char)c <= 'c');
    for (unsigned k = 0; k <= n; k++) {
        string const t = text.substr(0, k);
        if (!(ref::ends(q, t, 1, nullptr) >> k & 1)) continue;
        for (unsigned i = 0; i < 2; i++)
            if (ref::ends(v[i], t, 1, nullptr) >> k & 1) {
                symex_assert(got.count(i ? second : 8), "a variable that shares this string is reported");
                symex_cover("shared string");
            }
    }
}
