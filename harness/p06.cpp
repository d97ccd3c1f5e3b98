// P06: deep copies of every event of a log, looked at after the parser went on and the buffers were overwritten.
#include "events.hpp"
#include "source.hpp"

static vector<string> names;

struct Report {
    Ev ev;
    bool delimiters;
    string text, type, stamp;
    vector<vector<std::pair<string, vector<uint32_t>>>> vars;
};
static Report report(ls::LogEventView const& v) {
    Report r;
    r.ev = read_event(v);
    r.delimiters = v.get_log_output_buffer()->has_delimiters();
    r.text = v.to_string();
    r.type = v.get_logtype();
    if (auto* t = v.get_timestamp()) r.stamp = string(t->to_string_view());
    for (auto& name : names) {
        r.vars.emplace_back();
        auto id = v.get_log_parser().get_symbol_id(name);
        if (!id) continue;
        for (auto* t : v.get_variables(*id)) r.vars.back().push_back({t->to_string(), *t->m_type_ids_ptr});
    }
    return r;
}
static bool equal_exactly(Ev const& a, Ev const& b) {
    if (a.ts != b.ts || a.multi != b.multi || a.toks.size() != b.toks.size() || a.of != b.of) return false;
    for (size_t i = 0; i < a.toks.size(); i++)
        if (a.toks[i].text != b.toks[i].text || a.toks[i].ids != b.toks[i].ids || a.toks[i].line != b.toks[i].line) return false;
    return true;
}
static void check(ls::LogEvent const& e, Report const& want) {
    Report const got = report(e);
    observe(got.ev);
    sym::observe(got.type);
    symex_assert(got.text == want.text, "the copy has the text of the event");
    symex_assert(got.ev.ts == want.ev.ts, "the copy has a timestamp if the event has one");
    symex_assert(got.stamp == want.stamp, "the copy has the timestamp of the event");
    symex_assert(got.ev.multi == want.ev.multi, "the copy is multi-line if the event is");
    symex_assert(equal_exactly(got.ev, want.ev), "the copy has the tokens of the event");
    symex_assert(got.delimiters == want.delimiters, "the copy says whether there are delimiters");
    symex_assert(got.type == want.type, "the copy has the log type of the event");
    symex_assert(got.vars == want.vars, "the copy has the variables of the event");
}
static void take(ls::LogEventView const& v, vector<ls::LogEvent>& copies, vector<Report>& want) {
    Report r = report(v);
    if (r.text.empty()) return;  // an event without text cannot be copied; it has nothing to keep
    if (r.ev.ts) symex_cover("copy with timestamp");
    else symex_cover("copy without timestamp");
    if (r.ev.multi) symex_cover("multi-line copy");
    if (r.ev.toks.size() > 4) symex_cover("many tokens");
    copies.push_back(v.deep_copy());
    want.push_back(std::move(r));
    check(copies.back(), want.back());
}

extern "C" void harness() {
    unsigned const n = symex_param("n", 5);
    unsigned const si = ref::pick_index();
    ref::Schema sc = ref::schema_at(si);
    // built before the log is made up, so that all logs share the work
    std::unique_ptr<ls::ReaderParser> r;
    std::unique_ptr<ls::BufferParser> b;
    if (symex_param("reader", 0)) r = std::make_unique<ls::ReaderParser>(schema(sc.text));
    else b = std::make_unique<ls::BufferParser>(schema(sc.text));
    string const in = ref::some_log(n, si, symex_param("full", 0));
    names = {ls::cTokenFirstTimestamp, ls::cTokenNewlineTimestamp, ls::cTokenNewline, ls::cTokenUncaughtString};
    for (auto& v : sc.vars) names.push_back(v.name);
    vector<ls::LogEvent> copies;
    vector<Report> want;
    if (r) {
        auto& p = *r;
        Source src{in, 0};
        ls::Reader rd = src.reader();
        p.reset_and_set_reader(rd);
        while (!p.done()) {
            symex_assert(want.size() <= in.size(), "parsing makes progress");
            symex_assert(p.parse_next_event() == ls::ErrorCode::Success, "every call succeeds");
            take(p.get_log_parser().get_log_event_view(), copies, want);
        }
        // the parser goes on with something else
        Source other{string(9, 'b') + " 1\n", 0};
        ls::Reader rd2 = other.reader();
        p.reset_and_set_reader(rd2);
        while (!p.done()) (void)p.parse_next_event();
        for (size_t i = 0; i < copies.size(); i++) check(copies[i], want[i]);
    } else {
        auto& p = *b;
        string buf = in;
        p.reset();
        size_t off = 0;
        while (!p.done()) {
            symex_assert(want.size() <= in.size(), "parsing makes progress");
            symex_assert(p.parse_next_event(buf.data(), buf.size(), off, true) == ls::ErrorCode::Success, "every call succeeds");
            take(p.get_log_parser().get_log_event_view(), copies, want);
        }
        for (char& c : buf) c = '#';
        p.reset();
        string other = "b 1\nb";
        off = 0;
        while (!p.done()) (void)p.parse_next_event(other.data(), other.size(), off, true);
        for (size_t i = 0; i < copies.size(); i++) check(copies[i], want[i]);
    }
}
