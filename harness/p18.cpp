// P18: a parser that was stopped anywhere in an earlier log and reset, against a new one.
#include "events.hpp"
#include "source.hpp"

static vector<Ev> read_all(ls::ReaderParser& p, size_t n) {
    vector<Ev> r;
    while (!p.done()) {
        symex_assert(r.size() <= n, "parsing makes progress");
        symex_assert(p.parse_next_event() == ls::ErrorCode::Success, "every call succeeds");
        r.push_back(read_event(p.get_log_parser().get_log_event_view()));
    }
    return r;
}
static string part(unsigned n, unsigned si, char const* name) {
    return symex_param("words", 0) ? ref::word_log(0, si) : ref::picked_bytes(n, ref::alphabet(si), name);
}
static void compare(vector<Ev> const& got, vector<Ev> const& want) {
    symex_assert(got.size() == want.size(), "as many events as from a new parser");
    for (size_t i = 0; i < got.size(); i++) {
        observe(got[i]);
        symex_assert(got[i].text() == want[i].text(), "an event has the same text as from a new parser");
        symex_assert(same(got[i], want[i]), "an event has the same tokens as from a new parser");
        for (size_t j = 0; j < got[i].toks.size(); j++) symex_assert(got[i].toks[j].line == want[i].toks[j].line, "a token has the same line as from a new parser");
    }
}

extern "C" void harness() {
    unsigned const na = symex_param("before", 3), nb = symex_param("after", 3);
    unsigned const si = ref::pick_index();
    ref::Schema sc = ref::schema_at(si);
    ls::BufferParser p(schema(sc.text)), q(schema(sc.text));
    string a = part(na, si, "before"), b = part(nb, si, "after");
    bool const finished = symex_choose("finished", 2);
    unsigned const calls = symex_choose("calls", na + 2);
    p.reset();
    size_t off = 0;
    for (unsigned i = 0; i < calls && !p.done(); i++)
        if (p.parse_next_event(a.data(), a.size(), off, finished) != ls::ErrorCode::Success) {
            symex_cover("earlier log ran out");
            break;
        }
    if (p.done()) symex_cover("earlier log was done");
    else symex_cover("earlier log was not done");
    for (char& c : a) c = '#';
    vector<Ev> const got = all_events(p, b);  // resets
    vector<Ev> want;
    off = 0;
    while (!q.done()) {  // never reset
        symex_assert(want.size() <= b.size(), "parsing makes progress");
        symex_assert(q.parse_next_event(b.data(), b.size(), off, true) == ls::ErrorCode::Success, "every call succeeds");
        want.push_back(read_event(q.get_log_parser().get_log_event_view()));
    }
    compare(got, want);
}

extern "C" void reader() {
    unsigned const na = symex_param("before", 3), nb = symex_param("after", 3);
    unsigned const si = ref::pick_index();
    ref::Schema sc = ref::schema_at(si);
    ls::ReaderParser p(schema(sc.text)), q(schema(sc.text));
    Source sa{part(na, si, "before"), 0, 0}, sb{part(nb, si, "after"), 0, 0}, sq = sb;
    ls::Reader ra = sa.reader(), rb = sb.reader(), rq = sq.reader();
    // the earlier source may fail after some reads
    unsigned const good = symex_choose("good_reads", 3);
    ls::Reader flaky{[&](char* buf, size_t n, size_t& got) -> ls::ErrorCode {
        if (good < 2 && sa.reads >= good) {
            got = 0;
            return ls::ErrorCode::Errno;
        }
        return ra.read(buf, n, got);
    }};
    unsigned const calls = symex_choose("calls", na + 2);
    p.reset_and_set_reader(flaky);
    for (unsigned i = 0; i < calls && !p.done(); i++)
        if (p.parse_next_event() != ls::ErrorCode::Success) {
            symex_cover("earlier source failed");
            break;
        }
    if (p.done()) symex_cover("earlier log was done");
    else symex_cover("earlier log was not done");
    p.reset_and_set_reader(rb);
    symex_assert(!p.done(), "not done after a reset");
    q.reset_and_set_reader(rq);
    vector<Ev> const got = read_all(p, sb.data.size()), want = read_all(q, sb.data.size());
    compare(got, want);
}
