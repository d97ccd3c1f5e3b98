// P09: a variable pattern that can match a delimiter is reported with its line, every other one is
// accepted and its values hold no delimiter.
#include "regex.hpp"
#include "events.hpp"

// the characters of the strings of r, a dot aside
static void characters(ref::Re const& r, bool* in) {
    if (r.kind == ref::Re::Rep && r.hi == 0) return;
    if (r.kind == ref::Re::Set)
        for (int i = 0; i < 256; i++) in[i] |= r.set[i];
    for (auto& k : r.kids) characters(k, in);
}
static vector<ref::Re> leaves(unsigned which) {
    using namespace ref;
    string const ws = " \t\r\n\v\f", dg = "0123456789";
    if (which == 0) return {ch('a'), dot(), cls("1-3"), ch(':'), re::set("[^\\s:]", ws + ":", true), re::set("[^:]", ":", true), re::set("[^a-c1-3]", "abc123", true), re::set("\\d", dg), re::set("\\s", ws), ch('-'), re::set("[^\\n \\-:2b\\t]", "\n -:2b\t", true),
                             cls("1-2"), cls("a-b"), re::set("[0-:]", dg + ":"), re::set("[^1-2]", "12", true), re::set("[^0-9a-b:]", dg + "ab:", true), re::set("[^\\t-\\r:]", "\t\n\v\f\r:", true)};
    return {ch('a'), dot(), cls("b2")};
}
static char const* const delims[] = {" \n", "\n:<", "b\n", "2", "\n-\t ", "\t\n\v\f\r ", "\n.a", "z\n:b2", "ac\n", "\t\v\r"};

extern "C" void harness() {
    re::Gen g;
    g.leaf = leaves(symex_param("leaves", 0));
    g.posts = symex_param("posts", 9);
    ref::Re r;
    string delim;
    unsigned lineno = 0;
    auto s = re::parse([&] {
        unsigned const where = symex_param("places", 0) ? symex_choose("where", 5) : 1;
        delim = delims[symex_choose("delimiters", symex_param("delims", sizeof delims / sizeof *delims))];
        r = g.gen(symex_param("depth", 1), symex_param("side", 0));
        string d = "delimiters:", v = "v:" + re::render(r);
        for (char c : delim) d += ref::esc(c);
        symex_note((d + " " + v).c_str());
        string const decoy = "delimiters:q1:\\-,";
        switch (where) {
            case 0: lineno = 2; return d + "\n" + v;
            case 1: lineno = 1; return v + "\n" + d;
            case 2: lineno = 3; return decoy + "\nw:w\n" + v + "\n" + d + "\n";
            case 3: lineno = 4; return "//c\n\n" + decoy + "\n" + v + "\n" + d;
            default: lineno = 5; return decoy + "\nx:x\ntimestamp:T[^x]\n" + d + "\r\n" + v + "\r\n";
        }
    });
    bool const path = symex_param("path", 1) && symex_choose("path", 2);
    if (path) s->m_file_path = "some/schema";
    bool in[256] = {}, contains = false, is[256] = {};
    characters(r, in);
    for (char c : delim) {
        contains |= in[(unsigned char)c];
        is[(unsigned char)c] = true;
    }
    std::unique_ptr<ls::BufferParser> p;
    try {
        p = std::make_unique<ls::BufferParser>(std::move(s));
    } catch (std::runtime_error const& e) {
        symex_assert(contains, "a pattern without delimiters is accepted");
        string const want = (path ? "some/schema:" : ":") + std::to_string(lineno) + ": error: 'v'";
        symex_assert(string(e.what()).rfind(want, 0) == 0, "the error names the line and the variable");
        symex_cover("reported");
        sym::observe(e.what());
        return;
    }
    symex_assert(!contains, "a pattern with a delimiter is reported");
    symex_cover("accepted");
    for (int c = 0; c < 256; c++) symex_assert(p->get_log_parser().m_lexer.is_delimiter(c) == (is[c] || c == ls::utf8::cCharStartOfFile), "the last delimiters are used");
    if (path) return;
    unsigned const n = symex_param("n", 2);
    string buf = ref::log_bytes(n), out;
    p->reset();
    size_t off = 0, calls = 0;
    bool whole = n > 0 && ref::ends(r, buf, 1, is) >> n & 1;
    for (char c : buf) whole &= !is[(unsigned char)c] && c != '\n';
    while (!p->done()) {
        symex_assert(calls++ <= n, "parsing makes progress");
        symex_assert(p->parse_next_event(buf.data(), buf.size(), off, true) == ls::ErrorCode::Success, "every call succeeds");
        for (auto const& t : read_event(p->get_log_parser().get_log_event_view()).toks) {
            bool const start = out.empty() || out.back() == '\n';
            if (whole && out.empty()) {
                bool found = false;
                for (auto id : t.ids) found |= p->get_log_parser().get_id_symbol(id) == "v";
                symex_assert(t.text == buf && found, "a log that is a string of the pattern is a variable");
            }
            out += t.text;
            string const name = p->get_log_parser().get_id_symbol(t.ids.at(0));
            if (name != "v" && name != "w" && name != "x") continue;
            symex_cover("variable");
            if (t.text.empty()) {
                // a pattern that matches nothing at all, at the start
                symex_assert(start && ref::ends(r, "", 1, is) & 1, "a variable is not empty");
                continue;
            }
            // its first character is the delimiter before it unless it starts the log or a line
            bool const led = is[(unsigned char)t.text[0]];
            symex_assert(led || start, "a variable follows a delimiter or starts the log or a line");
            for (size_t i = 1; i < t.text.size(); i++) symex_assert(!is[(unsigned char)t.text[i]], "a variable holds no delimiter");
            if (name == "v") {
                string const value = led ? t.text.substr(1) : t.text;
                symex_assert(ref::ends(r, value, 1, is) >> value.size() & 1, "a value is a string of the pattern");
            }
        }
    }
    symex_assert(out == buf, "the text is kept");
    sym::observe(out);
}
