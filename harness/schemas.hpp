// The schemas the log harnesses are run with; a run picks them with the parameter mask "schemas".
#pragma once
#include "model.hpp"

namespace ref {
inline Schema schema_at(unsigned i) {
    switch (i) {
        // timestamp with a delimiter inside, integer, key=value
        case 0:
            return Schema(" \n:", {{"timestamp", cat({cls("0-9"), ch(':'), cls("0-9")})},
                                   {"int", plus(cls("0-9"))},
                                   {"kv", cat({ch('a'), ch('='), star(dot())})}});
        // no timestamp; overlapping variables, declared from special to general and back
        case 1:
            return Schema(" \n", {{"x", plus(ch('a'))},
                                  {"y", plus(cls("ab"))},
                                  {"z", rep(alt({ch('a'), ch('b')}), 2, 2)},
                                  {"x", str("bb")},
                                  {"w", cat({ch('b'), star(dot()), ch('c')})}});
        // one timestamp is a prefix of the other, the longer one contains a delimiter
        case 2:
            return Schema("\n ", {{"timestamp", ch('1')},
                                  {"timestamp", str("1 2")},
                                  {"n", plus(cls("0-9"))}});
        // the timestamp is not the first rule; any text is a variable
        case 3:
            return Schema("\n", {{"word", plus(dot())},
                                 {"timestamp", str("T")},
                                 {"tee", str("T")}});
        // capture group, counted repetition, negated class
        case 4:
            return Schema("\n,", {{"timestamp", rep(digit(), 2, 2)},
                                  {"cap", cat({ch('u'), cap("id", plus(digit()))})},
                                  {"f", cat({rep(ch('-'), 0, 1), plus(digit()), ch('.'), rep(digit(), 1, 2)})},
                                  {"neg", rep(cls("^\n,0-9u"), 2, 3)}});
        // timestamp that only partly matches before a delimiter; its text also fits a variable
        case 5:
            return Schema("\n:-", {{"timestamp", cat({ch('1'), ch(':'), ch('1'), ch('-')})},
                                   {"one", ch('1')},
                                   {"sec", cat({ch('1'), star(ch('x'))})}});
        // delimiters and nothing else
        case 6: return Schema("\n ", {});
        // newline is not a delimiter
        case 7: return Schema(" ", {{"v", plus(cls("ab"))}});
        // newline is not a delimiter, with a timestamp
        case 8: return Schema(",", {{"timestamp", str("12")}, {"v", plus(digit())}});
        // a variable that may be empty
        default: return Schema("\n ", {{"timestamp", ch('T')}, {"e", star(ch('a'))}, {"f", cat({ch('a'), ch('b')})}});
    }
}
// a few characters that a schema tells apart, for runs with long logs
inline string alphabet(unsigned i) {
    switch (i) {
        case 0: return "\n 1:";
        case 1: return "\n ab";
        case 2: return "\n 1x";
        case 3: return "\nTx";
        case 4: return "\n,2u";
        case 5: return "\n:1-";
        case 6: return "\n x";
        case 7: return "\n ax";
        case 8: return "\n,12";
        default: return "\n aTb";
    }
}
inline unsigned pick_index() {
    unsigned mask = symex_param("schemas", 1), k = 0, ids[16];
    for (unsigned i = 0; i < 16; i++)
        if (mask >> i & 1) ids[k++] = i;
    return ids[k == 1 ? 0 : symex_choose("schema", k)];
}
inline Schema pick_schema() { return schema_at(pick_index()); }
// n symbolic bytes out of a few
inline string picked_bytes(unsigned n, string const& alphabet, char const* name = "log") {
    string s = sym::bytes(name, n);
    for (char c : s) {
        bool in = false;
        for (char a : alphabet) in |= c == a;  // one expression, no fork
        symex_assume(in);
    }
    return s;
}
// n symbolic log bytes; 0xfd..0xff are the lexer's own marks
inline string log_bytes(unsigned n, char const* name = "log") {
    string s = sym::bytes(name, n);
    for (char c : s) symex_assume((unsigned char)c < 0xFD);
    return s;
}
// words of each schema
inline char const* const words[10][8] = {
{"\n1:1", " a=1", "\n", " 22", "x:", "11:", "a= ", ":\n"},
{" aab", "\nbb", " ", "b", "\n", "bac", "aa ", "bbc\n"},
{"\n1 2", "\n1", " 11", "\n", "x", " 1 ", "1 1\n", "2"},
{"\nT", "x", "\n", "TT", "\nTx", "T\n", "\n\n", "Tx\n"},
{"\n22", ",u2", ",-2.22", "xx", ",", "\n", "2u22", ",xxx"},
{"\n1:1-", ":1", "1:", "\n", "-1xx", "x", "\n1:", "1-1"},
{"xx", " x", "\n", " \n", "x ", "\n\n", "", "x"},
{" ab", "a", "\n", "x ", "\na", " b\n", "bb ", "  "},
{"\n12", ",12", "12", "\n", ",2,", "1", "x\n12", "2,"},
{" ", "\nT", "\n", "a", " ab", "b ", "T ", "aa\n"},
};
// a token of more than 255 characters with a few symbolic bytes before and after it
inline string long_log(unsigned n, unsigned si) {
    static char const fill[] = {'x', 'a', '1', 'x', '2', '1', 'x', 'a', '1', 'a'};
    unsigned const lengths[2][4] = {{254, 255, 256, 300}, {65534, 65535, 65536, 66000}};
    string const around = picked_bytes(n, alphabet(si));
    char const c = symex_choose("fill", 2) ? fill[si] : '_';
    string middle(lengths[symex_param("long", 1) - 1][symex_choose("length", 4)], c);
    middle[middle.size() / 2] = 'b';
    // a word after it, or none
    unsigned const after = symex_param("after", 0) ? symex_choose("after", 1 + symex_param("after", 0)) : 0;
    return around.substr(0, n - n / 2) + middle + around.substr(n - n / 2) + (after ? words[si][after - 1] : "");
}
// lines before and after a few symbolic bytes, so that those lie anywhere in a small ring buffer
inline string phased_log(unsigned n, unsigned si) {
    string const ts = si == 0 ? "1:1" : si == 2 ? "1 2" : si == 3 ? "T" : si == 5 ? "1:1-" : "";
    char const* const line = si == 3 ? "x\n" : si == 1 ? "b\n" : "x\n";
    unsigned const phase = symex_choose("phase", symex_param("phases", 16));
    bool const stamped = !ts.empty() && symex_choose("stamped", 2);
    string s;
    while (s.size() < phase) {
        if (stamped && s.size() + ts.size() + 2 <= phase) s += ts;
        s += line;
    }
    while (s.size() > phase) s.erase(0, 1);
    s += picked_bytes(n, alphabet(si));
    s += "\n" + ts + " " + line + ts + line + ts + line;
    return s;
}
// words of a schema, and symbolic bytes in the middle: longer logs with more tokens
inline string word_log(unsigned n, unsigned si) {
    unsigned const k = symex_param("words", 4), of = symex_param("of", 6);
    string s, middle = symex_param("full", 0) ? log_bytes(n) : picked_bytes(n, alphabet(si));
    for (unsigned i = 0; i < k; i++) {
        s += words[si][symex_choose("word", of)];
        if (i == k / 2) s += middle;
    }
    return s;
}
// the log of a run, by its parameters
inline string some_log(unsigned n, unsigned si, bool full) {
    if (symex_param("words", 0)) return word_log(n, si);
    if (symex_param("phases", 0)) return phased_log(n, si);
    if (symex_param("long", 0)) return long_log(n, si);
    return full ? log_bytes(n) : picked_bytes(n, alphabet(si));
}
}  // namespace ref
