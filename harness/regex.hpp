// Patterns chosen from a grammar, their text, and the matcher the library builds for them.
#pragma once
#include "file_stub.hpp"
#include "model.hpp"

namespace re {
using ref::Re;
using AST = std::unique_ptr<ls::finite_automata::RegexAST<ls::finite_automata::RegexNFAByteState>>;
using DFA = ls::finite_automata::RegexDFA<ls::finite_automata::RegexDFAByteState>;

inline string render(Re const& r);
inline bool literal(Re const& r) { return r.kind == Re::Set && r.text[0] != '[' && r.text != "\\d" && r.text != "\\s"; }
inline bool group(Re const& r) { return r.kind == Re::Cap || r.kind == Re::Alt || r.kind == Re::Set || r.kind == Re::Dot; }
// an alternation needs a literal or a group on the right of each bar
inline string bars(Re const& r) {
    string s;
    for (size_t i = 0; i < r.kids.size(); i++) {
        Re const& k = r.kids[i];
        bool bare = k.kind == Re::Cap || k.kind == Re::Alt || literal(k) || (i == 0 && (group(k) || k.kind == Re::Rep));
        if (i) s += "|";
        s += bare ? render(k) : "(" + render(k) + ")";
    }
    return s;
}
inline string render(Re const& r) {
    switch (r.kind) {
        case Re::Set: return r.text;
        case Re::Dot: return ".";
        case Re::Cat: {
            string s;
            for (auto& k : r.kids) s += render(k);
            return s;
        }
        case Re::Alt: return "(" + bars(r) + ")";
        case Re::Cap: return "(?<" + r.text + ">" + (r.kids[0].kind == Re::Alt ? bars(r.kids[0]) : render(r.kids[0])) + ")";
        case Re::Rep: {
            string s = group(r.kids[0]) ? render(r.kids[0]) : "(" + render(r.kids[0]) + ")";
            if (r.lo == 0 && r.hi < 0) return s + "*";
            if (r.lo == 1 && r.hi < 0) return s + "+";
            if (r.lo == r.hi) return s + "{" + std::to_string(r.lo) + "}";
            return s + "{" + std::to_string(r.lo) + "," + std::to_string(r.hi) + "}";
        }
    }
    return "";
}
inline Re set(string text, string chars, bool neg = false) {
    Re r{Re::Set};
    r.text = text;
    for (char c : chars) r.set[(unsigned char)c] = true;
    if (neg)
        for (bool& b : r.set) b = !b;
    return r;
}
inline vector<Re> leaves(unsigned which) {
    string const ws = " \t\r\n\v\f", dg = "0123456789";
    switch (which) {
        case 0: return {ref::ch('a'), ref::ch('b')};
        case 1: return {ref::ch('a'), ref::cls("ab"), ref::dot()};
        case 2:
            return {ref::ch('a'), ref::dot(), set("\\d", dg), set("\\s", ws), set("[ab]", "ab"), set("[^a]", "a", true),
                    set("[a-c]", "abc"), set("[^a-c]", "abc", true), set("[c-c]", "c"), set("[\\s]", ws), set("[\\d]", dg),
                    set("[^\\s]", ws, true), set("[^\\da]", dg + "a", true), set("[a\\db-d]", dg + "abcd"), set("[x\\s\\d]", ws + dg + "x"),
                    set("[^\\-\\]\\^]", "-]^", true), set("[\\[\\\\]", "[\\"), set("[\\.\\(\\\\]", ".(\\"), set("[\\t-\\r]", "\t\n\v\f\r"),
                    set("[A-Ca-c_]", "ABCabc_"), set("[ \\t:]", " \t:"), set("[0-13]", "013")};
        case 4: return {ref::ch('a'), ref::dot()};
        default: return {ref::ch('a'), set("[^a]", "a", true), set("\\d", dg)};
    }
}
struct Gen {
    vector<Re> leaf;
    unsigned posts{9};  // how many of the operators below are used
    string captures;
    Re pick() { return leaf[leaf.size() == 1 ? 0 : symex_choose("leaf", leaf.size())]; }
    Re post(Re x, unsigned i) {
        switch (i) {
            case 0: return ref::star(x);
            case 1: return ref::plus(x);
            case 2: return ref::rep(x, 0, 1);
            case 3: return ref::rep(x, 2, 2);
            case 4: return ref::rep(x, 1, 2);
            case 5: {
                string const name(1, char('p' + captures.size()));
                captures += name;
                return ref::cap(name.c_str(), x);
            }
            case 6: return ref::rep(x, 0, 0);
            case 7: return ref::rep(x, 0, 2);
            default: return ref::rep(x, 1, 1);
        }
    }
    // at most `depth` operators deep; of two operands one is at most `side` deep
    Re gen(unsigned depth, unsigned side = 0) {
        unsigned const k = depth ? symex_choose("op", 3 + posts) : 0;
        if (k == 0) return pick();
        if (k <= 2) {
            unsigned const d = side < depth - 1 ? side : depth - 1;
            bool const left = d != depth - 1 && symex_choose("left", 2);
            Re a = gen(left ? d : depth - 1, side), b = gen(left ? depth - 1 : d, side);
            return k == 1 ? ref::cat({a, b}) : ref::alt({a, b});
        }
        return post(gen(depth - 1, side), k - 3);
    }
};
// the first variable of the schema that is read when the parser for schemas is ready
inline std::unique_ptr<ls::SchemaAST> parse(std::function<string()> text) {
    stub::serve(std::move(text));
    return ls::SchemaParser::try_schema_file("schema");
}
inline AST pattern(ls::SchemaAST& s, size_t i = 0) {
    return std::move(dynamic_cast<ls::SchemaVarAST*>(s.m_schema_vars[i].get())->m_regex_ptr);
}
struct Matcher {
    ls::lexers::ByteLexer lexer;
    void add(uint32_t id, AST ast) { lexer.add_rule(id, std::move(ast)); }
    void build() { lexer.generate(); }
    // ids of the rules that match the text
    vector<uint32_t> match(string_view s) const {
        auto const* st = lexer.get_dfa()->get_root();
        for (char c : s) {
            st = st->next((unsigned char)c);
            if (!st) return {};
        }
        return st->get_matching_variable_ids();
    }
};
}  // namespace re
