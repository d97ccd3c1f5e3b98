// P01 P02 P03 P07: one complete buffer, every log of n bytes, against the reference model.
#include "events.hpp"

static bool var_ids_ok(ls::LogParser const& lp, vector<uint32_t> const& ids, vector<string> const& names) {
    if (ids.size() != names.size()) return false;
    for (size_t i = 0; i < ids.size(); i++)
        if (lp.get_id_symbol(ids[i]) != names[i]) return false;
    return true;
}

extern "C" void harness() {
    int const prop = symex_param("prop", 2);
    unsigned const n = symex_param("n", 4);
    symex_alloc_mode(symex_param("alloc", 0));
    unsigned const si = ref::pick_index();
    ref::Schema sc = ref::schema_at(si);
    ls::BufferParser p(schema(sc.text));
    auto const& lp = p.get_log_parser();
    string const in = ref::some_log(n, si, true);
    vector<ref::Event> model;
    if (prop != 1 && prop != 24) model = ref::events(sc, in);
    string buf = in;
    p.reset();
    size_t off = 0, pos = 0, k = 0;
    string out;
    uint32_t lines = 0;
    while (!p.done()) {
        symex_assert(k <= in.size(), "parsing makes progress");
        symex_assert(p.parse_next_event(buf.data(), buf.size(), off, true) == ls::ErrorCode::Success, "every call succeeds");
        auto const& view = lp.get_log_event_view();
        Ev ev = read_event(view);
        observe(ev);
        string const text = ev.text();
        if (prop == 1) {
            out += text;
            symex_assert(!text.empty() || p.done(), "an event before the last is not empty");
            symex_assert(view.to_string() == text, "the event's text is its tokens' text");
            k++;
            continue;
        }
        if (prop == 24) {
            for (auto const& t : ev.toks) {
                for (char c : t.text)
                    if (c == '\n') lines++;
                symex_assert(t.line == lines, "a token's line is the number of newlines up to its end");
                if (lines > 0) symex_cover("after a newline");
            }
            k++;
            continue;
        }
        if (k >= model.size()) {
            symex_assert(text.empty() && p.done(), "no event after the end of the log");
            break;
        }
        ref::Event const& m = model[k];
        if (prop == 3) {
            symex_assert(text.size() == m.e - m.b, "event ends where it should");
            symex_assert(text == in.substr(m.b, m.e - m.b), "event has its text");
            symex_assert(ev.ts == m.ts, "timestamp reported when there is one");
            if (m.ts) symex_assert(ev.toks[0].text == in.substr(m.toks[0].b, m.toks[0].e - m.toks[0].b), "the timestamp is the matched text");
            symex_assert(ev.multi == m.multiline, "multi-line flag");
            if (m.multiline) symex_cover("multi-line event");
            if (m.ts && k > 0) symex_cover("timestamp after a newline");
            if (m.ts && k == 0) symex_cover("timestamp at the start");
            if (!m.ts && k > 0) symex_cover("event without timestamp");
        }
        if (prop == 2) {
            // token by token over the whole log, wherever events end
            size_t i = 0;
            symex_assert(ev.toks.size() == m.toks.size(), "number of tokens");
            for (auto const& t : m.toks) {
                EvTok const& a = ev.toks[i++];
                symex_assert(a.text == in.substr(t.b, t.e - t.b), "token text");
                switch (t.kind) {
                    case ref::Kind::Static:
                        symex_assert(var_ids_ok(lp, a.ids, {ls::cTokenUncaughtString}), "static text has no variable type");
                        break;
                    case ref::Kind::NewLine:
                    case ref::Kind::Timestamp:
                    case ref::Kind::Var:
                        symex_assert(lp.get_id_symbol(a.ids.at(0)) == t.names[0], "the type is the first declared variable with this match");
                        symex_assert(var_ids_ok(lp, a.ids, t.names), "the types are those of all variables with this match, as declared");
                        symex_cover(t.kind == ref::Kind::Var ? "variable token" : t.kind == ref::Kind::NewLine ? "newline token" : "timestamp token");
                        if (t.names.size() > 1) symex_cover("several variables match");
                        break;
                }
            }
        }
        if (prop == 7) {
            // the log type
            string type;
            for (auto const& t : m.toks) {
                string const s = in.substr(t.b, t.e - t.b);
                if (t.kind == ref::Kind::Static) type += s;
                if (t.kind == ref::Kind::NewLine) type += "<newLine>";
                if (t.kind == ref::Kind::Var) type += (sc.delim[(unsigned char)s[0]] ? s.substr(0, 1) : "") + "<" + t.names[0] + ">";
            }
            string const lt = view.get_logtype();
            sym::observe(lt);
            symex_assert(lt == type, "log type");
            // the timestamp
            symex_assert((view.get_timestamp() != nullptr) == m.ts, "timestamp present");
            if (m.ts) symex_assert(view.get_timestamp()->to_string_view() == in.substr(m.toks[0].b, m.toks[0].e - m.toks[0].b), "timestamp text");
            // the variables by name
            for (auto const& v : sc.vars) {
                if (v.name == "timestamp") continue;
                auto id = p.get_variable_id(v.name);
                symex_assert(id.has_value(), "declared name has an id");
                auto const& vs = view.get_variables(*id);
                size_t j = 0;
                for (auto const& t : m.toks)
                    if (t.kind == ref::Kind::Var && t.names[0] == v.name) {
                        symex_assert(j < vs.size(), "variable missing");
                        symex_assert(vs[j]->to_string_view() == in.substr(t.b, t.e - t.b), "variable text");
                        symex_cover("variable");
                        j++;
                    }
                symex_assert(j == vs.size(), "variable that is not in the event");
            }
        }
        pos += text.size();
        k++;
    }
    if (prop == 24) return;
    if (prop == 1) {
        symex_assert(out == in, "the events' text is the log");
        if (k > 1) symex_cover("several events");
    } else {
        symex_assert(k >= model.size(), "all events are returned");
    }
    (void)pos;
}
