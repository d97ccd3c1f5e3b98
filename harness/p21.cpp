// P21: copies of patterns are equal and independent; every capture is recorded or marked absent.
#include "regex.hpp"

using ref::Re;
using State = ls::finite_automata::RegexNFAByteState;
using NFA = ls::finite_automata::RegexNFA<State>;
using Rule = ls::LexicalRule<State>;

// ---- reference: what may be known of each capture after a pattern matched text[from, to)
enum : unsigned char { Unknown, Recorded, Absent, Open };
using Known = vector<unsigned char>;  // by capture
struct Ref {
    string captures;
    string text;
    static void captures_of(Re const& r, string& out) {
        if (r.kind == Re::Rep && r.hi == 0) return;  // is not part of the pattern
        if (r.kind == Re::Cap) out += r.text;
        for (auto& k : r.kids) captures_of(k, out);
    }
    using Set = std::set<std::pair<size_t, Known>>;
    Set absent(Set s, Re const& r) const {
        string names;
        captures_of(r, names);
        Set out;
        for (auto [p, k] : s) {
            for (char c : names) k[captures.find(c)] = Absent;
            out.insert({p, k});
        }
        return out;
    }
    Set run(Re const& r, Set const& s) const {
        Set out;
        switch (r.kind) {
            case Re::Set:
            case Re::Dot:
                for (auto& [p, k] : s)
                    if (p < text.size() && (r.kind == Re::Dot || r.set[(unsigned char)text[p]])) out.insert({p + 1, k});
                return out;
            case Re::Cat:
                out = s;
                for (auto& k : r.kids) out = run(k, out);
                return out;
            case Re::Alt:
                for (size_t i = 0; i < r.kids.size(); i++) {
                    Set one = run(r.kids[i], s);
                    for (size_t j = 0; j < r.kids.size(); j++)
                        if (j != i) one = absent(one, r.kids[j]);
                    out.insert(one.begin(), one.end());
                }
                return out;
            case Re::Cap:
                for (auto [p, k] : run(r.kids[0], s)) {
                    k[captures.find(r.text)] = Recorded;
                    out.insert({p, k});
                }
                return out;
            case Re::Rep: {
                if (r.hi == 0) return s;
                if (r.lo == 0) out = absent(s, r);
                Set now = s;
                for (int i = 1; r.hi < 0 || i <= r.hi; i++) {
                    now = run(r.kids[0], now);
                    size_t const before = out.size();
                    if (i >= r.lo) out.insert(now.begin(), now.end());
                    if (now.empty() || (i > r.lo && out.size() == before && r.hi < 0)) break;
                }
                return out;
            }
        }
        return out;
    }
};

static char const* const name_end = "rd2Name";  // of every capture
static string with_names(string s) {
    for (size_t at = 0; (at = s.find("(?<", at)) != string::npos; at += 4) s.insert(at + 4, name_end);
    return s;
}

// ---- the library's automaton, walked with its tagged transitions
struct Walk {
    NFA& nfa;
    string captures;
    std::unordered_map<State const*, uint32_t> ids;
    struct Tagged {
        State const* to;
        string names;
    };
    explicit Walk(NFA& n, string c) : nfa(n), captures(std::move(c)) {
        for (auto const* s : nfa.get_bfs_traversal_order()) ids.emplace(s, ids.size());
    }
    // the captures named in the text of a transition; the first letter of a name tells which
    static string names(std::optional<string> const& text) {
        symex_assert(text.has_value(), "a transition leads to a state of the automaton");
        string r;
        size_t i = text->find('[') + 1;
        while (i < text->size() && (*text)[i] != ']') {
            string name;
            for (; i < text->size() && (*text)[i] != ',' && (*text)[i] != ']'; i++) name += (*text)[i];
            if (i < text->size() && (*text)[i] == ',') i++;
            symex_assert(name.size() > 1 && name.substr(1) == name_end, "a tag has the name of its capture");
            r += name[0];
        }
        return r;
    }
    using Set = std::set<std::pair<State const*, Known>>;
    Known mark(Known k, string const& n, unsigned char how) const {
        for (char c : n) {
            size_t const i = captures.find(c);
            symex_assert(i != string::npos, "a tag belongs to a capture of the pattern");
            if (how == Open) symex_assert(k[i] != Open, "a capture starts once before it ends");
            if (how == Recorded) symex_assert(k[i] == Open, "a capture ends after it started");
            if (how == Absent) symex_assert(k[i] != Open, "a capture that started is not marked absent");
            k[i] = how;
        }
        return k;
    }
    void close(Set& s) const {
        vector<std::pair<State const*, Known>> todo(s.begin(), s.end());
        while (!todo.empty()) {
            auto [st, k] = todo.back();
            todo.pop_back();
            auto add = [&](State const* to, Known n) {
                if (s.insert({to, n}).second) todo.push_back({to, std::move(n)});
            };
            for (auto const* to : st->get_epsilon_transitions()) add(to, k);
            for (auto const& t : st->get_positive_tagged_start_transitions()) add(t.get_dest_state(), mark(k, names(t.serialize(ids)), Open));
            if (auto const& t = st->get_positive_tagged_end_transition()) add(t->get_dest_state(), mark(k, names(t->serialize(ids)), Recorded));
            if (auto const& t = st->get_negative_tagged_transition()) add(t->get_dest_state(), mark(k, names(t->serialize(ids)), Absent));
        }
    }
    std::set<Known> run(string const& text) const {
        Set s{{nfa.get_root(), Known(captures.size(), Unknown)}};
        close(s);
        for (char c : text) {
            Set n;
            for (auto& [st, k] : s)
                for (auto const* to : st->get_byte_transitions((unsigned char)c)) n.insert({to, k});
            s = std::move(n);
            close(s);
        }
        std::set<Known> out;
        for (auto& [st, k] : s)
            if (st->is_accepting()) out.insert(k);
        return out;
    }
};
static vector<Rule> rules(re::AST ast) {
    vector<Rule> r;
    r.emplace_back(7, std::move(ast));
    return r;
}

static void rename(Re& r, char& next) {
    if (r.kind == Re::Cap && r.text == "?") r.text = string(1, next++);
    for (auto& k : r.kids) rename(k, next);
}

extern "C" void harness() {
    re::Gen g;
    Re r{Re::Set};
    auto s = re::parse([&] {
        g.leaf = re::leaves(symex_param("leaves", 0));
        if (symex_param("captures", 0)) g.leaf = {ref::ch('a'), ref::cap("?", ref::ch('a')), ref::cap("?", ref::ch('b'))};
        g.posts = symex_param("posts", 9);
        r = g.gen(symex_param("depth", 2), symex_param("side", 0));
        char next = 'A';
        rename(r, next);
        return "v:" + with_names(r.kind == Re::Alt ? re::bars(r) : re::render(r)) + "\n";
    });
    Ref ref;
    Ref::captures_of(r, ref.captures);
    if (ref.captures.size() > 1) symex_cover("several captures");
    unsigned const use = symex_choose("use", 3);  // the original, a copy, a copy of a copy
    re::AST ast = re::pattern(*s);
    s.reset();
    auto const printed = ast->serialize();
    re::AST copy(ast->clone());
    symex_assert(copy->serialize() == printed, "a copy is printed like the original");
    re::AST again(copy->clone());
    auto const original_nfa = std::make_unique<NFA>(rules(std::move(use == 0 ? ast : use == 1 ? copy : again)));
    string const before = original_nfa->serialize();
    // the others are gone, or one of them is used after the others are gone
    unsigned const gone = symex_choose("gone", 2);
    if (gone) {
        ast.reset();
        if (use != 1) copy.reset();
        if (use != 2) again.reset();
        symex_assert(original_nfa->serialize() == before, "an automaton is not changed when copies are gone");
    } else {
        re::AST& other = use == 2 ? copy : again;
        ast.reset();
        if (use != 2) copy.reset();
        symex_assert(other->serialize() == printed, "a copy is printed like the original that is gone");
        NFA other_nfa(rules(std::move(other)));
        symex_assert(other_nfa.serialize() == before, "a copy yields the automaton of the original");
    }
    // what a match says about the captures
    ref.text = sym::bytes("text", symex_choose("length", symex_param("n", 2) + 1));
    for (char c : ref.text) symex_assume((unsigned char)c < 0x80);
    Walk walk(*original_nfa, ref.captures);
    auto const got = walk.run(ref.text);
    std::set<Known> want;
    for (auto& [p, k] : ref.run(r, {{0, Known(ref.captures.size(), Unknown)}}))
        if (p == ref.text.size()) want.insert(k);
    symex_assert(got.empty() == want.empty(), "the automaton matches what the pattern matches");
    for (auto& k : got)
        for (unsigned char c : k) symex_assert(c == Recorded || c == Absent, "every capture is recorded or marked absent");
    symex_assert(got == want, "captures are recorded or marked absent as the match has it");
    if (!got.empty()) {
        symex_cover("match");
        for (auto& k : got)
            for (unsigned char c : k) symex_cover(c == Recorded ? "recorded" : "absent");
    } else {
        symex_cover("no match");
    }
}
