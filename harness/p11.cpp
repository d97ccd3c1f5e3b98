// P11: a schema text yields its declarations, in order, whatever the line ends, the length of the text and the buffer.
#include "regex.hpp"

struct Want {
    string name;
    unsigned line;
    unsigned pattern;
    string chars;  // for pattern 0, the characters
};
static char const* const patterns[] = {"", "a+", "[ab]{2}", "(a|b)c", "(?<g>\\d)x", "\\\\\\[", "a*"};
// which of some strings each pattern matches
static char const* const probes[] = {"a", "aa", "ab", "bb", "ac", "bc", "7x", "\\[", "", "aaa"};
static unsigned const expected[] = {0, 0x203, 0xe, 0x30, 0x40, 0x80, 0x303};

static unsigned signature(re::AST ast, string const& extra, bool* extra_matches) {
    re::Matcher m;
    m.add(1, std::move(ast));
    m.build();
    unsigned r = 0;
    for (unsigned i = 0; i < 10; i++)
        if (!m.match(probes[i]).empty()) r |= 1u << i;
    *extra_matches = !m.match(extra).empty();
    return r;
}
static void same_variable(ls::ParserAST* ast, Want const& w, bool line = true) {
    auto* v = dynamic_cast<ls::SchemaVarAST*>(ast);
    symex_assert(v != nullptr, "a variable is a variable");
    symex_assert(v->m_name == w.name, "a variable keeps its name");
    if (line) symex_assert(v->m_line_num == w.line, "a variable keeps its line");
    bool extra = false;
    unsigned const got = signature(re::AST(v->m_regex_ptr->clone()), w.chars, &extra);
    if (w.pattern == 0) {
        symex_assert(extra, "a variable keeps the characters of its pattern");
    } else {
        symex_assert(got == expected[w.pattern], "a variable keeps its pattern");
    }
}
static bool alnum(unsigned char c) { return (c >= '0' && c <= '9') | (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z'); }
// neither special nor a line end
static bool plain(unsigned char c) { return c >= 0x20 && c < 0x7F && !strchr("()*+-.[]\\^{}|<>?", c); }

extern "C" void harness() {
    vector<Want> want;
    vector<string> delims;
    auto s = re::parse([&] {
        unsigned const lines = symex_param("lines", 4), kinds = symex_param("kinds", 5), sym_left0 = symex_param("symbolic", 2);
        unsigned left = sym_left0;
        string text;
        unsigned const ends = symex_choose("line ends", 3);  // \n, \r\n, in turn
        for (unsigned l = 0; l < lines; l++) {
            unsigned k = l == 0 ? symex_choose("first line", 3) : symex_choose("line", kinds);
            switch (k) {
                case 0: {  // a variable
                    Want w;
                    w.line = l;
                    unsigned const indent = symex_choose("indent", symex_param("indents", 2));
                    w.pattern = symex_choose("pattern", symex_param("patterns", 3));
                    if (left) {
                        left--;
                        w.name = "n" + sym::bytes("name", 1);
                        symex_assume(alnum(w.name[1]));
                    } else {
                        w.name = l % 2 ? "word" : "w";
                    }
                    if (w.pattern == 0) {
                        w.chars = "z:";
                        if (left) {
                            left--;
                            string const c = sym::bytes("character", 1);
                            symex_assume(plain(c[0]));
                            w.chars += c;
                        }
                    }
                    text += string(indent * 2, ' ') + w.name + ":" + (w.pattern ? patterns[w.pattern] : w.chars);
                    want.push_back(w);
                    break;
                }
                case 1: {  // a comment
                    string c = "x";
                    if (left) {
                        left--;
                        c = sym::bytes("comment", 1);
                        symex_assume(c[0] != '\r' && c[0] != '\n' && (unsigned char)c[0] < 0xFD);
                    }
                    text += "//" + c + (l % 2 ? " a:delimiters" : "");
                    break;
                }
                case 2: {  // delimiters
                    string d = ", ";
                    if (left) {
                        left--;
                        d += sym::bytes("delimiter", 1);
                        symex_assume(plain(d[2]));
                    }
                    text += "delimiters:" + d + "\\n\\-";
                    delims.push_back(d + "\n-");
                    break;
                }
                case 3: break;  // a blank line
                default: {  // a long comment or a long name
                    if (symex_choose("long", 2)) {
                        text += "// " + string(symex_param("long", 30), '/');
                    } else {
                        Want w{string(symex_param("long", 30), 'N'), l, 1, ""};
                        text += w.name + ":a+";
                        want.push_back(w);
                    }
                }
            }
            bool const last = l + 1 == lines;
            if (last && !symex_choose("last line end", 2)) break;
            text += (ends == 1 || (ends == 2 && l % 2)) ? "\r\n" : "\n";
        }
        symex_note("schema");
        symex_observe(text.size());
        return text;
    });
    symex_assert(s != nullptr, "a schema text yields a schema");
    symex_assert(s->m_schema_vars.size() == want.size(), "the schema has as many variables as were declared");
    for (size_t i = 0; i < want.size(); i++) same_variable(s->m_schema_vars[i].get(), want[i]);
    symex_assert(s->m_delimiters.size() == delims.size(), "the schema has the lines of delimiters that were declared");
    for (size_t i = 0; i < delims.size(); i++) {
        auto* d = dynamic_cast<ls::DelimiterStringAST*>(s->m_delimiters[i].get());
        symex_assert(d != nullptr && d->m_delimiters.size() == delims[i].size(), "the schema has as many delimiters as were declared");
        for (size_t j = 0; j < delims[i].size(); j++)
            symex_assert(d->m_delimiters[j] == (unsigned char)delims[i][j], "the delimiters are those that were declared");
    }
    if (want.size() > 1) symex_cover("several variables");
    if (delims.size() > 1) symex_cover("several lines of delimiters");
    if (want.empty()) symex_cover("no variable");
}

// a schema that is given as a string of any length
extern "C" void from_string() {
    unsigned const length = 1 + symex_choose("length", symex_param("max", 24));
    string text = "ab:xyxy\nc:zz\nlonger:yyyyy\n";
    // where the text is cut, and whether its last character is any one
    text.resize(length < text.size() ? length : text.size());
    bool const any = symex_choose("any", 2);
    size_t start = text.rfind('\n', text.size() - 1);
    start = start == string::npos ? 0 : start + 1;
    string const line = text.substr(start);
    size_t const colon = line.find(':');
    if (any) {
        string const c = sym::bytes("last", 1);
        symex_assume(plain(c[0]));
        text.back() = c[0];
    }
    bool const whole = line.empty() || (colon != string::npos && colon + 1 < line.size());
    // the last character is part of a name or the colon after it
    if (any) symex_assume(whole && !line.empty());
    std::unique_ptr<ls::SchemaAST> s;
    try {
        s = ls::SchemaParser::try_schema_string(text);
    } catch (std::runtime_error const&) {
        symex_assert(!whole, "a schema is accepted");
        symex_cover("not a schema");
        return;
    }
    symex_assert(whole, "what is no schema is reported");
    vector<Want> want;
    for (size_t at = 0; at < text.size();) {
        size_t end = text.find('\n', at);
        if (any && end == text.size() - 1) end = string::npos;
        if (end == string::npos) end = text.size();
        size_t const c = text.find(':', at);
        want.push_back({text.substr(at, c - at), (unsigned)want.size(), 0, text.substr(c + 1, end - c - 1)});
        at = end + 1;
    }
    symex_assert(s->m_schema_vars.size() == want.size(), "the schema has as many variables as were declared");
    for (size_t i = 0; i < want.size(); i++) {
        same_variable(s->m_schema_vars[i].get(), want[i]);
        // nothing but the characters
        bool shorter = false;
        signature(re::pattern(*s, i), want[i].chars.substr(1), &shorter);
        symex_assert(!shorter, "a variable has no other characters");
    }
    if (want.size() > 1) symex_cover("several variables");
}

// variables that are added to a schema object
extern "C" void added() {
    struct Var {
        string name;
        unsigned pattern;
    };
    static char const* const names[] = {"one", "two", "six"};
    vector<Want> want;
    unsigned const steps = symex_param("steps", 2);
    stub::serve([&] {
        unsigned const k = symex_choose("declared before", 3);
        string t = "// schema\n";
        for (unsigned i = 0; i < k; i++) {
            t += string("v") + char('0' + i) + ":" + patterns[i + 1] + "\n";
            want.push_back(Want{string("v") + char('0' + i), i + 1, i + 1, ""});
        }
        return t;
    });
    ls::Schema sc("schema");
    for (unsigned i = 0; i < steps; i++) {
        int32_t const before = (int32_t)want.size();
        signed char pos = 0;
        symex_bytes("priority", &pos, 1);
        symex_assume(pos >= -1 && pos <= before);
        sc.add_variable(string(names[i]) + ":" + patterns[i + 3] + (i % 2 ? "\n" : ""), pos);
        int const at = (int)(signed char)symex_split((unsigned char)pos);
        if (at == -1) symex_cover("lowest priority");
        if (at == 0 && before) symex_cover("highest priority");
        want.insert(at == -1 ? want.end() : want.begin() + at, Want{names[i], 0, i + 3, ""});
    }
    auto s = sc.release_schema_ast_ptr();
    symex_assert(s->m_schema_vars.size() == want.size(), "the schema has the variables of the text and those added");
    for (size_t i = 0; i < want.size(); i++) same_variable(s->m_schema_vars[i].get(), want[i], false);
    auto rest = sc.release_schema_ast_ptr();
    symex_assert(rest && rest->m_schema_vars.empty() && rest->m_delimiters.empty(), "a released schema leaves an empty one");
}

// what is added but declares no variable is reported and changes nothing
extern "C" void none_added() {
    vector<Want> want;
    stub::serve([&] { return string("v:a+\n"); });
    ls::Schema sc("schema");
    bool failed = false;
    unsigned const k = symex_param("none", 0);
    try {
        sc.add_variable(k == 0 ? "// nothing" : "delimiters: ,", -1);
    } catch (std::runtime_error const&) {
        failed = true;
    }
    symex_assert(failed, "text without a variable is reported");
    auto s = sc.release_schema_ast_ptr();
    symex_assert(s->m_schema_vars.size() == 1, "a failed addition adds nothing");
    same_variable(s->m_schema_vars[0].get(), Want{"v", 0, 1, ""});
}

// a text that is much longer than the parser's storage for symbols and its buffers
extern "C" void many() {
    vector<Want> want;
    size_t delims = 0, lines = 0;
    unsigned const blocks = symex_param("blocks", 3), count = symex_param("count", 60);
    auto s = re::parse([&] {
        string text;
        for (unsigned b = 0; b < blocks; b++) {
            unsigned const kind = symex_choose("block", 4);
            for (unsigned i = 0; i < count; i++, lines++) {
                if (kind == 0 || (kind == 3 && i % 3 == 0)) {
                    text += "// " + string(80, 'c');
                } else if (kind == 1 || (kind == 3 && i % 3 == 1)) {
                    Want w{"v" + std::to_string(lines), (unsigned)lines, 0, "z:x"};
                    text += w.name + ":z:x";
                    want.push_back(w);
                } else {
                    text += "delimiters:" + string(40, ',');
                    delims++;
                }
                text += "\n";
            }
        }
        return text;
    });
    symex_assert(s->m_schema_vars.size() == want.size(), "a long schema has as many variables as were declared");
    for (size_t i = 0; i < want.size(); i++) {
        auto* v = dynamic_cast<ls::SchemaVarAST*>(s->m_schema_vars[i].get());
        symex_assert(v && v->m_name == want[i].name, "a variable of a long schema keeps its name");
        symex_assert(v->m_line_num == want[i].line, "a variable of a long schema keeps its line");
    }
    symex_assert(s->m_delimiters.size() == delims, "a long schema has the lines of delimiters that were declared");
    for (auto& d : s->m_delimiters)
        symex_assert(dynamic_cast<ls::DelimiterStringAST*>(d.get())->m_delimiters.size() == 40, "a line of delimiters is complete");
    if (!want.empty() && delims) symex_cover("variables and delimiters");
}
