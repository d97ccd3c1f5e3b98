// P08: the matcher built for a pattern accepts exactly the strings of the pattern's language.
#include "regex.hpp"

extern "C" void harness() {
    re::Gen g;
    g.leaf = re::leaves(symex_param("leaves", 0));
    g.posts = symex_param("posts", 9);
    ref::Re r;
    bool top = false;
    auto s = re::parse([&] {
        r = g.gen(symex_param("depth", 2), symex_param("side", 0));
        top = r.kind == ref::Re::Alt && symex_choose("top", 2);
        string const p = top ? re::bars(r) : re::render(r);
        symex_note(p.c_str());
        return "v:" + p;
    });
    symex_assert(s->m_schema_vars.size() == 1, "the schema has its variable");
    re::Matcher m;
    m.add(7, re::pattern(*s));
    m.build();
    unsigned const n = symex_choose("length", 1 + symex_param("n", 3));
    string const text = sym::bytes("text", n);
    for (char c : text) {
        if (symex_param("ascii", 0)) symex_assume((unsigned char)c >= 'a' && (unsigned char)c <= 'c');
        else symex_assume((unsigned char)c < 0xFD);
    }
    bool const want = ref::ends(r, text, 1, nullptr) >> n & 1;
    vector<uint32_t> const got = m.match(text);
    if (want) symex_cover("match");
    else symex_cover("no match");
    symex_assert(want == !got.empty(), "the matcher accepts exactly the strings of the pattern");
    symex_assert(got.empty() || (got.size() == 1 && got[0] == 7), "a match is reported for the variable");
    symex_observe(got.size());
}

// one character, escaped or not, in or out of brackets, alone or as the end of a range: any byte
extern "C" void characters() {
    unsigned form = 0;
    unsigned char x = 0, y = 0;
    std::unique_ptr<ls::SchemaAST> s;
    bool failed = false;
    try {
        s = re::parse([&] {
            form = symex_choose("form", 7);
            string b = sym::bytes("pattern", 2);
            x = b[0];
            y = b[1];
            symex_assume(x < 0xFD && y < 0xFD);
            string const X(1, b[0]), Y(1, b[1]);
            if (form < 5) symex_assume(y == 0);
            if (form == 5 && symex_param("near", 0)) symex_assume(y <= x + symex_param("near", 0) && y + 1 >= x);
            switch (form) {
                case 0: return "v:" + X;
                case 1: return "v:\\" + X;
                case 2: return "v:[" + X + "]";
                case 3: return "v:[^" + X + "]";
                case 4: return "v:[\\" + X + "]";
                case 5: return "v:[" + X + "-" + Y + "]";
                default: symex_assume(y == x); return "v:[^a" + X + "]{1}";
            }
        });
    } catch (std::runtime_error const&) {
        failed = true;
    }
    auto special = [](unsigned char c) { return c && strchr("()*+-.[]\\^{}|<>?", c); };
    auto plain = [&](unsigned char c) { return (c >= 0x20 && c < 0x7F) && !special(c); };
    auto letter = [](unsigned char c) { return c && strchr("tnvfrds", c); };
    bool const valid = form == 0   ? plain(x) || x == '.'
                       : form == 1 ? special(x) || letter(x)
                       : form == 4 ? special(x) || letter(x)
                       : form == 5 ? (plain(x) && plain(y) && x <= y) || (x == '\\' && plain(y))
                       : form == 2 ? plain(x) || x == '^'
                                   : plain(x);
    symex_assert(valid || failed, "what is no pattern is reported");
    symex_assert(!valid || !failed, "a pattern is accepted");
    if (failed) {
        symex_cover("reported");
        return;
    }
    re::Matcher m;
    m.add(1, re::pattern(*s));
    m.build();
    string const t = sym::bytes("text", 1);
    unsigned char const c = t[0];
    symex_assume(c < 0xFD);
    auto escaped = [&]() -> bool {
        switch (x) {
            case 't': return c == '\t';
            case 'n': return c == '\n';
            case 'v': return c == '\v';
            case 'f': return c == '\f';
            case 'r': return c == '\r';
            case 'd': return c >= '0' && c <= '9';
            case 's': return c == ' ' || (c >= 9 && c <= 13);
            default: return c == x;
        }
    };
    bool want;
    switch (form) {
        case 0: want = x == '.' || c == x; break;
        case 1:
        case 4: want = escaped(); break;
        case 2: want = c == x || x == '^'; break;  // a complement of nothing is any character
        case 3: want = c != x; break;
        case 5: want = x == '\\' ? c == '-' || c == y : c >= x && c <= y; break;  // a backslash escapes the dash
        default: want = c != x && c != 'a';
    }
    symex_assert(want == !m.match(t).empty(), "a character pattern matches exactly its characters");
    if (want) symex_cover("match");
    else symex_cover("no match");
}

// bracket expressions of several items: ranges that are apart, touch, overlap or contain each other, in any order
extern "C" void brackets() {
    static char const* const items[] = {"b", "d", "f", "a-c", "c-d", "b-e", "a-f", "e-g", "d-d", "\\d"};
    auto in = [](char const* item, unsigned char c) {
        if (item[0] == '\\') return c >= '0' && c <= '9';
        return item[1] ? c >= (unsigned char)item[0] && c <= (unsigned char)item[2] : c == (unsigned char)item[0];
    };
    vector<char const*> chosen;
    bool neg = false;
    auto s = re::parse([&] {
        neg = symex_choose("negated", 2);
        unsigned const count = symex_param("items", 3);
        string p = neg ? "v:[^" : "v:[";
        for (unsigned i = 0; i < count; i++) {
            chosen.push_back(items[symex_choose("item", symex_param("kinds", 10))]);
            p += chosen.back();
        }
        p += "]";
        symex_note(p.c_str());
        return p;
    });
    re::Matcher m;
    m.add(1, re::pattern(*s));
    m.build();
    string const t = sym::bytes("text", 1);
    unsigned char const c = t[0];
    symex_assume(c < 0xFD);
    bool any = false;
    for (auto* item : chosen) any |= in(item, c);
    symex_assert((any != neg) == !m.match(t).empty(), "a bracket expression matches exactly its characters");
    if (any) symex_cover("match");
    else symex_cover("no match");
}

// repetition counts of one and two digits; the repeated part of one or two characters, alone or with something around it
extern "C" void counts() {
    unsigned lo = 0, hi = 0, form = 0;
    auto s = re::parse([&] {
        form = symex_choose("form", 4);
        unsigned const k = symex_choose("counts", symex_param("counts", 14));
        static unsigned const C[][2] = {{3, 3}, {0, 3}, {1, 3}, {2, 3}, {2, 4}, {3, 5}, {1, 4}, {0, 4}, {10, 10}, {9, 11}, {0, 10}, {1, 12}, {12, 12}, {2, 10}};
        lo = C[k][0];
        hi = C[k][1];
        string const count = lo == hi && symex_choose("single", 2) ? "{" + std::to_string(lo) + "}" : "{" + std::to_string(lo) + "," + std::to_string(hi) + "}";
        string const p = form == 0 ? "a" + count : form == 1 ? "(ab)" + count : form == 2 ? "b" + string("a") + count + "b" : "(a" + count + "|b)";
        symex_note(p.c_str());
        return "v:" + p;
    });
    re::Matcher m;
    m.add(1, re::pattern(*s));
    m.build();
    // a number of repetitions, with one character anywhere that may be another
    unsigned const reps = symex_choose("repetitions", hi + 3);
    string text = form == 2 ? "b" : "";
    for (unsigned i = 0; i < reps; i++) text += form == 1 ? "ab" : "a";
    if (form == 2) text += "b";
    bool want = reps >= lo && reps <= hi;
    if (!text.empty()) {
        unsigned const at = symex_choose("place", text.size());
        string const x = sym::bytes("character", 1);
        symex_assume((unsigned char)x[0] < 0xFD);
        bool const same = x[0] == text[at];
        text[at] = x[0];
        bool const single = form == 3 && text.size() == 1 && x[0] == 'b';
        want = (want && same) || single;
    }
    symex_assert(want == !m.match(text).empty(), "a counted repetition matches exactly its numbers of repetitions");
    if (want) symex_cover("match");
    else symex_cover("no match");
}

// loops and options at the ends of the parts of alternatives, sequences and repetitions
extern "C" void tails() {
    using namespace ref;
    auto small = [](char const* name, unsigned kinds) {
        Re const a = ch('a'), b = ch('b');
        switch (symex_choose(name, kinds)) {
            case 0: return cat({a, star(b)});
            case 1: return cat({star(b), a});
            case 2: return ch('c');
            case 3: return star(cat({a, b}));
            case 4: return cat({a, rep(b, 0, 1)});
            case 5: return plus(cat({a, star(b)}));
            case 6: return cat({star(a), star(b)});
            default: return cat({a, plus(b)});
        }
    };
    Re r;
    auto s = re::parse([&] {
        unsigned const kinds = symex_param("kinds", 7);
        Re x = small("first", kinds), y = small("second", kinds);
        switch (symex_choose("middle", 5)) {
            case 0: r = alt({x, y}); break;
            case 1: r = cat({x, y}); break;
            case 2: r = alt({cat({ch('c'), x}), y}); break;
            case 3: r = alt({x, cat({ch('c'), y})}); break;
            default: r = cat({alt({x, ch('b')}), y});
        }
        switch (symex_choose("outer", 5)) {
            case 0: break;
            case 1: r = star(r); break;
            case 2: r = rep(r, 2, 2); break;
            case 3: r = rep(r, 0, 2); break;
            default: r = cat({rep(r, 0, 1), ch('a')});
        }
        string const p = re::render(r);
        symex_note(p.c_str());
        return "v:" + p;
    });
    re::Matcher m;
    m.add(1, re::pattern(*s));
    m.build();
    unsigned const n = symex_choose("length", 1 + symex_param("n", 4));
    string const text = sym::bytes("text", n);
    for (char c : text) symex_assume((unsigned char)c >= 'a' && (unsigned char)c <= 'c');
    bool const want = ref::ends(r, text, 1, nullptr) >> n & 1;
    symex_assert(want == !m.match(text).empty(), "the matcher accepts exactly the strings of the pattern");
    if (want) symex_cover("match");
    else symex_cover("no match");
}
