// P26: the parser generator. Whatever grammar it accepts, the parser accepts exactly the grammar's
// sentences and calls the rules of a derivation.
#include "common.hpp"
#include "source.hpp"
#include <algorithm>
#include <array>
#include <set>

namespace {
using Parser = ls::LALR1Parser<ls::finite_automata::RegexNFAByteState, ls::finite_automata::RegexDFAByteState>;

// A grammar: terminals are lower case letters, nonterminals upper case
struct Rule {
    char head;
    string body;
};
struct Grammar {
    vector<Rule> rules;
    string nonterminals;  // the first is the start
    string terminals;
};
bool upper(char c) { return c >= 'A' && c <= 'Z'; }

// How many derivations (0, 1 or "2 or more") has text[i..j) from body[k..]
struct Derivations {
    Grammar const& g;
    string const& text;
    size_t n;
    // of nonterminal x for a span, as the least fixed point
    vector<int> counts;
    int& at(char x, size_t i, size_t j) {
        return counts[(g.nonterminals.find(x) * (n + 1) + i) * (n + 1) + j];
    }
    int body(string const& b, size_t k, size_t i, size_t j) {
        if (k == b.size()) return i == j;
        if (!upper(b[k])) return i < j && text[i] == b[k] ? body(b, k + 1, i + 1, j) : 0;
        int sum = 0;
        for (size_t m = i; m <= j; m++) {
            int const first = at(b[k], i, m);
            if (first) sum += first * body(b, k + 1, m, j);
        }
        return std::min(sum, 2);
    }
    Derivations(Grammar const& gr, string const& t) : g(gr), text(t), n(t.size()) {
        counts.assign(g.nonterminals.size() * (n + 1) * (n + 1), 0);
        for (bool changed = true; changed;) {
            changed = false;
            for (size_t len = 0; len <= n; len++)
                for (size_t i = 0; i + len <= n; i++)
                    for (char x : g.nonterminals) {
                        int sum = 0;
                        for (auto const& r : g.rules)
                            if (r.head == x) sum += body(r.body, 0, i, i + len);
                        sum = std::min(sum, 2);
                        if (sum != at(x, i, i + len)) {
                            at(x, i, i + len) = sum;
                            changed = true;
                        }
                    }
        }
    }
};

// Is the grammar SLR(1)? (Such a grammar has no conflicts however lookaheads are computed.)
bool slr(Grammar const& g) {
    string const all = g.terminals + "$";
    std::set<char> nullable;
    std::array<std::set<char>, 128> first, follow;
    for (char c : g.terminals) first[(size_t)c].insert(c);
    follow[(size_t)g.nonterminals[0]].insert('$');
    for (bool changed = true; changed;) {
        changed = false;
        auto add = [&](std::set<char>& to, std::set<char> const& from) {
            for (char c : from)
                if (to.insert(c).second) changed = true;
        };
        for (auto const& r : g.rules) {
            bool empty = true;
            for (char c : r.body) {
                add(first[(size_t)r.head], first[(size_t)c]);
                if (!nullable.count(c)) {
                    empty = false;
                    break;
                }
            }
            if (empty && nullable.insert(r.head).second) changed = true;
            for (size_t i = 0; i < r.body.size(); i++) {
                if (!upper(r.body[i])) continue;
                size_t k = i + 1;
                for (; k < r.body.size(); k++) {
                    add(follow[(size_t)r.body[i]], first[(size_t)r.body[k]]);
                    if (!nullable.count(r.body[k])) break;
                }
                if (k == r.body.size()) add(follow[(size_t)r.body[i]], follow[(size_t)r.head]);
            }
        }
    }
    // items: rule and dot; rule g.rules.size() is the start
    using Items = std::set<std::pair<size_t, size_t>>;
    string const start(1, g.nonterminals[0]);
    auto body = [&](size_t r) -> string const& { return r == g.rules.size() ? start : g.rules[r].body; };
    auto close = [&](Items s) {
        for (bool changed = true; changed;) {
            changed = false;
            for (auto const& [r, d] : Items(s))
                if (d < body(r).size() && upper(body(r)[d]))
                    for (size_t q = 0; q < g.rules.size(); q++)
                        if (g.rules[q].head == body(r)[d] && s.insert({q, 0}).second) changed = true;
        }
        return s;
    };
    std::set<Items> known;
    vector<Items> todo{close({{g.rules.size(), 0}})};
    known.insert(todo[0]);
    while (!todo.empty()) {
        Items const s = todo.back();
        todo.pop_back();
        std::set<char> used, next;
        for (auto const& [r, d] : s)
            if (d < body(r).size()) {
                next.insert(body(r)[d]);
                if (!upper(body(r)[d])) used.insert(body(r)[d]);
            }
        for (auto const& [r, d] : s) {
            if (d < body(r).size()) continue;
            std::set<char> const on = r == g.rules.size() ? std::set<char>{'$'} : follow[(size_t)g.rules[r].head];
            for (char c : on)
                if (!used.insert(c).second) return false;
        }
        for (char c : next) {
            Items t;
            for (auto const& [r, d] : s)
                if (d < body(r).size() && body(r)[d] == c) t.insert({r, d + 1});
            t = close(t);
            if (known.insert(t).second) todo.push_back(t);
        }
    }
    return true;
}

// The children a rule is given are those of its body; its value is the text it derives
string yield_of(ls::NonTerminal* m, Rule const& r, Parser& p) {
    symex_assert(m->m_production && m->m_production->m_body.size() == r.body.size(), "a rule is called for its production");
    string text;
    for (size_t i = 0; i < r.body.size(); i++) {
        if (upper(r.body[i])) {
            ls::NonTerminal* c = m->non_terminal_cast(i);
            symex_assert(p.m_lexer.m_id_symbol[c->m_production->m_head] == string(1, r.body[i]), "the child has the kind of the body");
            text += c->get_parser_ast()->get<string>();
        } else {
            string const t = m->token_cast(i)->to_string();
            symex_assert(t == string(1, r.body[i]), "the child is the token of the body");
            text += t;
        }
    }
    return text;
}

void check(Grammar const& g, unsigned n, unsigned texts) {
    Parser p;
    for (char c : g.terminals) p.add_token(string(1, c), c);
    // a production that is added again only gets another rule
    bool const twice = symex_param("twice", 0) && symex_choose("twice", 2);
    unsigned calls = 0;
    for (unsigned pass = twice ? 0 : 1; pass < 2; pass++)
        for (auto const& r : g.rules) {
            vector<string> body;
            for (char c : r.body) body.emplace_back(1, c);
            if (pass == 0) {
                p.add_production(string(1, r.head), body, [](ls::NonTerminal*) -> std::unique_ptr<ls::ParserAST> {
                    symex_fail("a rule that was replaced is not called");
                    return nullptr;
                });
                continue;
            }
            p.add_production(string(1, r.head), body, [r, &p, &calls](ls::NonTerminal* m) -> std::unique_ptr<ls::ParserAST> {
                calls++;
                return std::make_unique<ls::ParserValue<string>>(yield_of(m, r, p));
            });
        }
    try {
        p.generate();
    } catch (std::runtime_error const&) {
        symex_cover("refused");
        symex_assert(!slr(g), "a simple grammar is accepted");
        return;
    }
    for (unsigned t = 0; t < texts; t++) {
        string const text = sym::bytes("text", symex_choose("size", n + 1));
        // texts of other control characters only differ in the message
        for (char c : text) {
            symex_assume((unsigned char)c >= ' ' || symex_param("controls", 0));
            if (symex_param("only", 0)) symex_assume(c == 'a' || c == 'b');
        }
        bool accepted = false;
        string derived;
        char head = 0;
        Source source{text};
        ls::Reader reader = source.reader();
        try {
            ls::NonTerminal m = p.parse(reader);
            accepted = true;
            head = p.m_lexer.m_id_symbol[m.m_production->m_head][0];
            derived = m.get_parser_ast()->get<string>();
        } catch (std::runtime_error const&) {}
        symex_observe(accepted);
        string seen;
        for (char c : text) seen += c == 'a' ? 'a' : c == 'b' ? 'b' : c == 'c' ? 'c' : '#';
        int const expected = Derivations(g, seen).at(g.nonterminals[0], 0, n ? seen.size() : 0);
        if (expected == 1) {
            symex_cover("sentence");
            if (t) symex_cover("sentence after another text");
        } else if (expected == 0) {
            symex_cover("not a sentence");
        }
        symex_assert(expected < 2, "a grammar with an ambiguous sentence is refused");
        symex_assert(accepted == (expected == 1), "exactly the sentences are accepted");
        if (accepted) {
            symex_assert(head == g.nonterminals[0], "the start symbol is derived");
            symex_assert(derived == seen, "the rules derive the text");
        }
    }
}
void pick(Grammar& g, char head, char const* const* bodies, unsigned of, unsigned most) {
    unsigned last = 0;
    for (unsigned k = 0; k < most; k++) {
        // one of the remaining ones, or no more
        unsigned const i = symex_choose("body", of - last + (k ? 1 : 0));
        if (i == of - last) return;
        g.rules.push_back({head, bodies[last + i]});
        last += i + 1;
    }
}
}  // namespace

extern "C" void harness() {
    static char const* const s[] = {"A", "aA", "Ab", "AA", "Sa", "aSb", "", "b", "SA", "AbA", "Ac"};
    static char const* const a[] = {"a", "b", "", "aA", "Ab", "S", "ab", "c"};
    Grammar g;
    g.nonterminals = "SA";
    g.terminals = "ab";
    if (symex_param("terminals", 2) > 2) g.terminals += "c";
    pick(g, 'S', s, symex_param("starts", 10), symex_param("bodies", 2));
    pick(g, 'A', a, symex_param("others", 7), symex_param("bodies", 2));
    check(g, symex_param("n", 3), symex_param("texts", 1));
}
// three nonterminals, one after another
extern "C" void deep() {
    static char const* const s[] = {"AB", "ABa", "aAb", "AS", "B", "ASB"};
    static char const* const a[] = {"", "a", "Ba", "aB", "B"};
    static char const* const b[] = {"", "b", "bA", "Ab", "S", "BA"};
    Grammar g;
    g.nonterminals = "SAB";
    g.terminals = "ab";
    pick(g, 'S', s, symex_param("starts", 6), symex_param("bodies", 1));
    pick(g, 'A', a, symex_param("others", 5), symex_param("bodies2", 2));
    pick(g, 'B', b, symex_param("third", 6), symex_param("bodies3", 1));
    check(g, symex_param("n", 3), symex_param("texts", 1));
}
