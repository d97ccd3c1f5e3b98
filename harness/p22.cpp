// P22: a search text that ends before a wildcard is a variable only if it stays one whatever the
// wildcard stands for; a text without wildcard is a variable if it matches.
#include "automaton.hpp"

namespace {
struct Rules {
    vector<ref::Re> re;
    vector<uint32_t> id;
    bool delim[256]{};
    vector<Nfa> nfa;

    using States = std::set<std::pair<unsigned, int>>;  // rule, state
    void close(States& s) const {
        vector<std::pair<unsigned, int>> todo(s.begin(), s.end());
        while (!todo.empty()) {
            auto [r, i] = todo.back();
            todo.pop_back();
            for (auto& e : nfa[r].edges[i])
                if (e.set < 0 && s.insert({r, e.to}).second) todo.push_back({r, e.to});
        }
    }
    States start() const {
        States s;
        for (unsigned r = 0; r < nfa.size(); r++) s.insert({r, nfa[r].first});
        close(s);
        return s;
    }
    States step(States const& from, unsigned char c) const {
        States to;
        for (auto [r, i] : from)
            for (auto& e : nfa[r].edges[i])
                if (e.set >= 0 && nfa[r].sets[e.set][c]) to.insert({r, e.to});
        close(to);
        return to;
    }
    vector<uint32_t> types(States const& s) const {
        vector<uint32_t> v;
        for (unsigned r = 0; r < nfa.size(); r++)
            if (s.count({r, nfa[r].last})) v.push_back(id[r]);
        return v;
    }
    // bytes that no rule and no set of delimiters tells apart, by one of them
    vector<unsigned char> classes() const {
        std::map<vector<bool>, unsigned char> m;
        for (int c = 0; c < 256; c++) {
            if (delim[c]) continue;
            vector<bool> key;
            for (auto& n : nfa)
                for (auto& s : n.sets) key.push_back(s[c]);
            m.emplace(key, (unsigned char)c);
        }
        vector<unsigned char> v;
        for (auto& [k, c] : m) v.push_back(c);
        return v;
    }
    // whether every continuation of at most `longest` characters ends in a match
    bool always(States const& from, unsigned longest, vector<unsigned char> const& bytes) const {
        std::set<States> seen{from}, last{from};
        for (unsigned k = 0; k < longest && !last.empty(); k++) {
            std::set<States> next;
            for (auto& s : last)
                for (auto c : bytes) {
                    States t = step(s, c);
                    if (types(t).empty()) return false;
                    if (seen.insert(t).second) next.insert(t);
                }
            last = next;
        }
        return true;
    }
};
}  // namespace

extern "C" void harness() {
    re::Gen g;
    g.leaf = re::leaves(symex_param("leaves", 3));
    g.posts = symex_param("posts", 4);
    Rules rules;
    string delims;
    auto s = re::parse([&] {
        delims = symex_choose("delimiters", 2) ? " \n" : "-\n:";
        rules.re = {g.gen(symex_param("first", 1), 0), g.gen(symex_param("second", 0), 0)};
        string const t = "q:" + re::render(rules.re[0]) + "\nv:" + re::render(rules.re[1]);
        symex_note(t.c_str());
        return t;
    });
    for (unsigned char c : delims) rules.delim[c] = true;
    bool const same = symex_choose("same", 2);
    rules.id = {7, same ? 7u : 4u};
    // a dot stands for anything but a delimiter, and no variable matches one
    std::function<void(ref::Re&)> fit = [&](ref::Re& r) {
        if (r.kind == ref::Re::Dot) {
            r = re::set(".", delims, true);
        } else if (r.kind == ref::Re::Set) {
            for (unsigned char c : delims) symex_assume(!r.set[c]);
        }
        for (auto& k : r.kids) fit(k);
    };
    ls::lexers::ByteLexer lexer;
    vector<uint32_t> d(delims.begin(), delims.end());
    lexer.add_delimiters(d);
    for (unsigned i = 0; i < 2; i++) {
        auto ast = re::pattern(*s, i);
        ast->remove_delimiters_from_wildcard(d);
        auto* const raw = ast.get();
        lexer.add_rule(rules.id[i], std::move(ast));
        symex_assert(lexer.get_rule(rules.id[i]) == (same && i ? lexer.get_rule(7) : raw), "the pattern of a rule is found by its id");
        fit(rules.re[i]);
        rules.nfa.emplace_back(rules.re[i]);
    }
    symex_assert(lexer.get_rule(99) == nullptr, "no pattern is found for an unknown id");
    lexer.generate();
    auto const begin = rules.start();
    for (unsigned c = 0; c < 256; c++) {
        symex_assert(lexer.is_delimiter(c) == (rules.delim[c] || c == 0xFD), "exactly the delimiters are delimiters");
        symex_assert(lexer.is_first_char(c) == !rules.step(begin, c).empty(), "exactly the characters that variables start with are first characters");
    }
    symex_assert(lexer.get_has_delimiters(), "there are delimiters");
    auto const bytes = rules.classes();

    unsigned const rounds = symex_param("rounds", 1);
    for (unsigned round = 0; round < rounds; round++) {
        unsigned const n = symex_choose("length", 1 + symex_param("n", 2));
        string text = sym::bytes("text", n);
        for (unsigned char c : text)
            symex_assume(c < 0xFD && c != '\n' && c != (unsigned char)delims[0] && c != (unsigned char)delims.back());
        unsigned const mode = symex_choose("wildcard", 3);
        auto states = begin;
        for (unsigned char c : text) states = rules.step(states, c);
        vector<uint32_t> want = rules.types(states);
        if (same && want.size() == 2) want.pop_back();
        if (mode == 1 && !rules.always(states, 1, bytes)) want.clear(), symex_cover("text not fixed by '?'");
        if (mode == 2 && !want.empty() && !rules.always(states, ~0u, bytes)) want.clear(), symex_cover("text not fixed by '*'");
        ls::ParserInputBuffer buf;
        buf.reset();
        buf.set_storage(text.data(), text.size(), 0, true);
        lexer.reset();
        ls::Token token;
        auto const rc = mode == 0 ? lexer.scan(buf, token) : lexer.scan_with_wildcard(buf, mode == 1 ? '?' : '*', token);
        symex_assert(rc == ls::ErrorCode::Success, "a complete text is scanned");
        symex_assert(token.m_type_ids_ptr != nullptr, "the token has a type");
        for (auto t : *token.m_type_ids_ptr) symex_observe(t);
        if (want.empty()) {
            bool const none = mode == 0 && n == 0;
            symex_assert(*token.m_type_ids_ptr == vector<uint32_t>{(uint32_t)(none ? ls::SymbolId::TokenEnd : ls::SymbolId::TokenUncaughtString)},
                         "a text that may not be a variable is static text");
            symex_cover("static text");
        } else {
            vector<uint32_t> got = *token.m_type_ids_ptr;
            if (same && got.size() == 2 && got[0] == got[1]) got.pop_back();
            symex_assert(got == want, "a text that stays a variable is reported with its types");
            symex_cover(mode == 0 ? "variable" : mode == 1 ? "variable before '?'" : "variable before '*'");
        }
        symex_assert(token.to_string() == text, "the token is the whole text");
    }
}
