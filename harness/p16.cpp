// P16: every accessor of a token over every position in a small buffer, and of a copy of it.
#include "common.hpp"

static void same(ls::Token& t, string const& want) {
    // the accessors in every order, because one of them keeps a string
    unsigned const first = symex_choose("first", 3);
    if (first == 1) symex_assert(t.to_string() == want, "string");
    if (first == 2) symex_assert(t.to_string_view() == want, "string view");
    symex_assert(t.get_length() == want.size(), "length");
    for (size_t i = 0; i < want.size(); i++) symex_assert(t.get_char(i) == want[i], "character");
    if (!want.empty()) symex_assert(t.get_delimiter() == want.substr(0, 1), "delimiter");
    symex_assert(t.to_string() == want, "string");
    symex_assert(t.to_string_view() == want, "string view");
    symex_assert(t.to_string() == want, "string again");
    symex_assert(t.get_length() == want.size(), "length again");
}

extern "C" void harness() {
    unsigned const n = symex_param("n", 6);
    unsigned const size = 1 + symex_choose("size", n);
    unsigned const start = symex_choose("start", size), end = symex_choose("end", size + 1);
    string const buf = sym::bytes("buffer", size);
    string want;
    if (start <= end) {
        want = buf.substr(start, end - start);
        symex_cover("in one piece");
    } else {
        want = buf.substr(start) + buf.substr(0, end);
        symex_cover("wrapped");
    }
    sym::observe(want);
    vector<uint32_t> const types{1};
    ls::Token t{start, end, buf.data(), size, 0, &types};
    unsigned const what = symex_choose("copy", 4);
    if (what == 0) {
        same(t, want);
    } else if (what == 1) {
        ls::Token u = t;
        same(u, want);
        same(t, want);
    } else if (what == 2) {
        same(t, want);
        ls::Token u = t;
        same(u, want);
    } else {
        // a token that takes the place of another one
        string const other = "#!";
        ls::Token u{1, 1 + (unsigned)symex_choose("before", 2), other.data(), 2, 0, &types};
        if (symex_choose("wrapped_before", 2)) u = ls::Token{1, 0, other.data(), 2, 0, &types};
        (void)u.to_string_view();
        u = t;
        same(u, want);
    }
}

// tokens of up to 260 characters, for the width of the lengths and indices
extern "C" void large() {
    static char buf[260];
    for (unsigned i = 0; i < 260; i++) buf[i] = (char)(i * 7 + i / 3);
    unsigned const start = symex_choose("start", 256), end = (symex_choose("end", 4) * 83 + start + 5) % 261;
    unsigned const len = start <= end ? end - start : 260 - start + end;
    vector<uint32_t> const types{1};
    ls::Token t{start, end, buf, 260, 0, &types};
    symex_assert(t.get_length() == len, "length");
    string const s = t.to_string();
    symex_assert(s.size() == len && t.to_string_view() == s, "string");
    for (unsigned i = 0; i < len; i++) {
        if (i < 256) symex_assert(t.get_char(i) == buf[(start + i) % 260], "character");
        symex_assert(s[i] == buf[(start + i) % 260], "character of the string");
    }
}
