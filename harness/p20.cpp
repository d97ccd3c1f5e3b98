// P20: names and ids of variables, for every choice of names.
#include "regex.hpp"
#include "events.hpp"
#include "source.hpp"

static void check(vector<string> const& pool, bool withTime, char const* label) {
    vector<string> name(3);
    auto s = re::parse([&] {
        string t = "delimiters: \\n";
        char const* pat[] = {"x+", "y+", "z(y)*"};
        for (int i = 0; i < 3; i++) {
            name[i] = pool[symex_choose("name", pool.size())];
            t += "\n" + name[i] + ":" + pat[i];
            if (withTime && i == 1) t += "\ntimestamp:T";
        }
        symex_note(t.c_str());
        return t;
    });
    ls::BufferParser p(std::move(s));
    auto const& lp = p.get_log_parser();
    vector<uint32_t> id(3);
    for (int i = 0; i < 3; i++) {
        auto const v = p.get_variable_id(name[i]);
        symex_assert(v.has_value(), "a declared name has an id");
        id[i] = *v;
        symex_assert(lp.get_id_symbol(*v) == name[i], "the id's name is the name");
        symex_assert(lp.get_symbol_id(name[i]) == v, "both lookups agree");
        for (int j = 0; j < i; j++) symex_assert((id[i] == id[j]) == (name[i] == name[j]), "different names have different ids");
        symex_observe(*v);
    }
    if (name[0] == name[2]) symex_cover("repeated name");
    for (string const& other : {string("timestamp"), string("delimiters"), string("nosuch"), string("xx"), string(""), string("X")}) {
        bool declared = false;
        for (auto& n : name) declared |= n == other;
        symex_assert(p.get_variable_id(other).has_value() == declared, "a name that is not declared has no id");
    }
    bool thrown = false;
    try {
        (void)lp.get_id_symbol(1000);
    } catch (std::out_of_range const&) {
        thrown = true;
    }
    symex_assert(thrown, "an id that was not given is rejected");
    unsigned const n = symex_param("n", 2);
    string buf = ref::picked_bytes(n, withTime ? "\n yzT" : "\n xyz");
    p.reset();
    size_t off = 0, calls = 0;
    while (!p.done()) {
        symex_assert(calls++ <= n, "parsing makes progress");
        symex_assert(p.parse_next_event(buf.data(), buf.size(), off, true) == ls::ErrorCode::Success, "every call succeeds");
        auto const& view = lp.get_log_event_view();
        Ev const ev = read_event(view);
        vector<string> want[3];
        for (auto const& t : ev.toks) {
            string v = t.text;
            if (!v.empty() && (v[0] == ' ' || v[0] == '\n')) v = v.substr(1);
            int k = -1;
            size_t xs = 0, ys = 0;
            while (xs < v.size() && v[xs] == 'x') xs++;
            while (ys < v.size() && v[ys] == 'y') ys++;
            if (!v.empty() && xs == v.size()) k = 0;
            else if (!v.empty() && ys == v.size()) k = 1;
            else if (!v.empty() && v[0] == 'z') {
                size_t i = 1;
                while (i < v.size() && v[i] == 'y') i++;
                if (i == v.size()) k = 2;
            }
            bool variable = false;
            for (auto i : t.ids)
                for (int j = 0; j < 3; j++) variable |= i == id[j];
            symex_assert(variable == (k >= 0), label);
            if (k < 0) continue;
            symex_assert(t.ids.size() == 1 && t.ids[0] == id[k], label);
            for (int j = 0; j < 3; j++)
                if (id[j] == id[k]) want[j].push_back(t.text);
            symex_cover("variable");
        }
        for (int j = 0; j < 3; j++) {
            auto const& vars = view.get_variables(id[j]);
            symex_assert(vars.size() == want[j].size(), label);
            for (size_t i = 0; i < vars.size(); i++) symex_assert(vars[i]->to_string() == want[j][i], label);
        }
    }
}

extern "C" void harness() {
    check({"x", "int", "hex", "a1B", "timestamps", "float", "0"}, false, "a value is reported under the id of its name");
}
extern "C" void with_timestamp() { check({"x", "int", "delimiter"}, true, "a value is reported under the id of its name"); }
// names the parser uses for its own tokens
extern "C" void builtin() { check({"newLine", "firstTimestamp", "newLineTimestamp"}, false, "a value is reported under the id of its name, which is also the parser's own"); }

// the streaming parser translates the same way
extern "C" void reader() {
    auto s = re::parse([] { return string("delimiters: \\n\nint:x+\nv:y+\nint:z"); });
    ls::ReaderParser p(std::move(s));
    auto const& lp = p.get_log_parser();
    for (char const* n : {"int", "v"}) {
        auto const id = p.get_variable_id(n);
        symex_assert(id.has_value() && lp.get_id_symbol(*id) == n && lp.get_symbol_id(n) == id, "a declared name has an id");
    }
    symex_assert(p.get_variable_id("v") != p.get_variable_id("int"), "different names have different ids");
    symex_assert(!p.get_variable_id("w") && !p.get_variable_id("timestamp"), "a name that is not declared has no id");
    Source src;
    src.data = ref::picked_bytes(symex_param("n", 3), "\n xyz");
    ls::Reader r = src.reader();
    p.reset_and_set_reader(r);
    size_t calls = 0;
    while (!p.done()) {
        symex_assert(calls++ <= src.data.size(), "parsing makes progress");
        symex_assert(p.parse_next_event() == ls::ErrorCode::Success, "every call succeeds");
        for (auto const& t : read_event(lp.get_log_event_view()).toks) {
            bool const y = t.text.find('y') != string::npos, xz = t.text.find_first_of("xz") != string::npos;
            if (y == xz) continue;
            bool const isvar = t.ids.at(0) == *p.get_variable_id("v") || t.ids.at(0) == *p.get_variable_id("int");
            if (!isvar) continue;
            symex_assert(t.ids.size() == 1 && t.ids[0] == *p.get_variable_id(y ? "v" : "int"), "a value is reported under the id of its name");
            symex_cover("variable");
        }
    }
}
