// P10: any text yields a schema or a reported error, and a parser can be built from any such schema.
#include "regex.hpp"
#include "source.hpp"

static char const* const templates[] = {
    "//c\ndelimiters:,\nv:a+\n",
    "delimiters: \\n,\nv:[^a-c ,\\n]x\n",
    "delimiters:;\nw1:(a|b)c*d{2}\r\nq:\\[\\d\n",
    "delimiters:;\ntimestamp:\\d{1,3}Z\nv:(?<g>a|b{0,2})c\n",
    "v:a{10,12}\n\n  u:\\\\[\\-z]\ndelimiters:\\t!",
    "delimiters:\\t\\-a\n//\nv:.*(x|(y|z))\n",
};

// what was reported, or nothing
static bool parse_text(std::function<string()> text, std::unique_ptr<ls::SchemaAST>* out, size_t* lines) {
    try {
        *out = re::parse(std::move(text));
    } catch (std::runtime_error const& e) {
        symex_assert(e.what()[0] != 0, "an error comes with a message");
        string_view const m = e.what();
        if (m.starts_with("Schema:")) {
            size_t line = 0;
            for (size_t i = 7; i < m.size() && m[i] >= '0' && m[i] <= '9'; i++) line = line * 10 + (m[i] - '0');
            symex_assert(line >= 1 && line <= *lines + 1, "an error names a line of the text");
            symex_cover("syntax error");
        } else {
            symex_cover("other error");
        }
        return false;
    }
    symex_assert(*out != nullptr, "a schema or an error");
    for (auto& v : (*out)->m_schema_vars) {
        auto* var = dynamic_cast<ls::SchemaVarAST*>(v.get());
        symex_assert(var && !var->m_name.empty() && var->m_regex_ptr, "a variable has a name and a pattern");
    }
    for (auto& d : (*out)->m_delimiters) {
        auto* s = dynamic_cast<ls::DelimiterStringAST*>(d.get());
        symex_assert(s && !s->m_delimiters.empty(), "delimiters have characters");
    }
    symex_cover("schema");
    return true;
}
static void use(std::unique_ptr<ls::SchemaAST> s) {
    unsigned const mode = symex_param("use", 1);
    if (!mode) return;
    std::unique_ptr<ls::BufferParser> p;
    try {
        p = std::make_unique<ls::BufferParser>(std::move(s));
    } catch (std::runtime_error const& e) {
        symex_assert(e.what()[0] != 0, "an error comes with a message");
        symex_cover("refused");
        return;
    }
    symex_cover("parser");
    if (mode < 2) return;
    // the parser is usable
    string log = "abc 12,a\nx\\z\n";
    size_t off = 0, got = 0;
    while (!p->done()) {
        symex_assert(p->parse_next_event(log.data(), log.size(), off, true) == ls::ErrorCode::Success, "a log is parsed");
        got += p->get_log_parser().get_log_event_view().to_string().size();
        symex_assert(off <= log.size(), "the offset stays in the log");
    }
    symex_assert(got == log.size(), "the log is parsed to its end");
}
// one place of a valid schema is changed
extern "C" void harness() {
    size_t lines = 0;
    std::unique_ptr<ls::SchemaAST> s;
    bool ok = parse_text([&] {
        unsigned const t = symex_param("template", -1) >= 0 ? symex_param("template", 0) : symex_choose("template", symex_param("templates", 6));
        string text = templates[t];
        unsigned const op = symex_choose("edit", symex_param("edits", 4));
        unsigned const at = symex_choose("at", text.size() + (op == 1));
        unsigned const k = symex_param("bytes", 1);
        switch (op) {
            case 0: {  // replaced
                string const b = sym::bytes("byte", k);
                for (unsigned i = 0; i < k && at + i < text.size(); i++) text[at + i] = b[i];
                break;
            }
            case 1: text.insert(at, sym::bytes("byte", k)); break;
            case 2: text.erase(at, 1 + symex_choose("erased", 2)); break;
            case 3: text.resize(at); break;
            default: {  // a part is repeated
                unsigned const n = 1 + symex_choose("repeated", 3);
                text.insert(at, text.substr(at, n));
            }
        }
        for (char const* p = templates[t]; *p; p++) lines += *p == '\n';
        lines += k + 3;
        return text;
    }, &s, &lines);
    if (ok) use(std::move(s));
}

// short texts of arbitrary bytes, alone or in a frame
extern "C" void bytes() {
    static char const* const before[] = {"", "v:", "v:(", "v:[", "v:a{", "delimiters:", "v:\\", "v:(?<", "//", "v:[^", "v:a{1,", "v:a|"};
    static char const* const after[] = {"", "", ")", "]", "}", "\n", "", ">a)", "\n", "]", "}", "b"};
    size_t lines = 8;
    std::unique_ptr<ls::SchemaAST> s;
    bool ok = parse_text([&] {
        unsigned const f = symex_choose("frame", symex_param("frames", 12));
        string const b = sym::bytes("bytes", symex_param("n", 2));
        return string(before[f]) + b + after[f];
    }, &s, &lines);
    if (ok) use(std::move(s));
}

static char const* const bad[] = {"v:(a", "v:((((a|b)c)d*", "v:[b-a]", "delimiters:\\d", "v:a{3,1}", "", "\n", "v", "v:(?<g", "v:a{99999999999}", "v:a)", "(", "v:[a"};
// failures leave nothing behind
extern "C" void again() {
    unsigned const steps = symex_param("steps", 2);
    size_t lines = 4;
    for (unsigned i = 0; i < steps; i++) {
        std::unique_ptr<ls::SchemaAST> s;
        bool const ok = parse_text([&] {
            unsigned const k = symex_choose("text", sizeof bad / sizeof *bad + 3);
            if (k < sizeof bad / sizeof *bad) return string(bad[k]);
            lines = 4;
            if (k == sizeof bad / sizeof *bad) return "v:" + string(symex_param("long", 6000), 'a');  // more symbols than the parser can hold
            if (k == sizeof bad / sizeof *bad + 1) return "v:" + string(200, '(') + "a" + string(199, ')');
            return string("w:b\nv:(c\n");
        }, &s, &lines);
        symex_assert(!ok, "a malformed text is reported");
    }
    size_t none = 9;
    std::unique_ptr<ls::SchemaAST> s;
    bool const ok = parse_text([&] { return string("v:a+\ndelimiters: ,\nw:[bc](?<g>x)\n"); }, &s, &none);
    symex_assert(ok, "a valid text is accepted after failures");
    symex_assert(s->m_schema_vars.size() == 2 && s->m_delimiters.size() == 1, "a valid text yields its schema after failures");
    auto* v = dynamic_cast<ls::SchemaVarAST*>(s->m_schema_vars[0].get());
    auto* w = dynamic_cast<ls::SchemaVarAST*>(s->m_schema_vars[1].get());
    symex_assert(v->m_name == "v" && v->m_line_num == 0 && w->m_name == "w" && w->m_line_num == 2, "a valid text yields its variables after failures");
    re::Matcher m;
    m.add(1, std::move(v->m_regex_ptr));
    m.add(2, std::move(w->m_regex_ptr));
    m.build();
    symex_assert(m.match("aa") == vector<uint32_t>{1} && m.match("bx") == vector<uint32_t>{2} && m.match("b").empty(), "a valid text yields its patterns after failures");
}

// a file that fails to be read at any place is reported; nothing is made of what was read before
extern "C" void faults() {
    bool reported = false;
    try {
        stub::content = [] {
            stub::File f;
            f.data = templates[symex_choose("template", symex_param("templates", 6))];
            f.fail_at = symex_choose("fails at", f.data.size() + 1);
            return f;
        };
        ls::SchemaParser::try_schema_file("schema");
    } catch (std::runtime_error const& e) {
        symex_assert(e.what()[0] != 0, "an error comes with a message");
        reported = true;
    }
    symex_assert(reported, "a file that fails to be read is reported");
    symex_cover("read failed");
}
