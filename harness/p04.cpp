// P04: the streaming reader against one complete buffer.
#include "events.hpp"
#include "source.hpp"

extern "C" void harness() {
    unsigned const n = symex_param("n", 6);
    int const mode = symex_param("mode", 0);
    unsigned const si = ref::pick_index();
    ref::Schema sc = ref::schema_at(si);
    ls::BufferParser p(schema(sc.text));
    ls::ReaderParser r(schema(sc.text));
    string const in = ref::some_log(n, si, symex_param("full", 0));
    vector<Ev> const want = all_events(p, in);
    Source src{in, 0, mode};
    auto reader = src.reader();
    r.reset_and_set_reader(reader);
    size_t k = 0;
    string text;
    while (!r.done()) {
        symex_assert(k <= in.size(), "parsing makes progress");
        symex_assert(r.parse_next_event() == ls::ErrorCode::Success, "every call succeeds");
        Ev ev = read_event(r.get_log_parser().get_log_event_view());
        observe(ev);
        symex_assert(k < want.size(), "no more events than from the buffer");
        symex_assert(ev.text() == want[k].text(), "an event has the same text as from the buffer");
        symex_assert(same(ev, want[k]), "an event has the same tokens as from the buffer");
        if (symex_param("prop", 4) == 24)
            for (size_t i = 0; i < ev.toks.size(); i++) symex_assert(ev.toks[i].line == want[k].toks[i].line, "a token has the same line as from the buffer");
        if (ev.text().size() > sizeof(char) * ls::cStaticByteBuffSize) symex_cover("event longer than the buffer");
        if (ev.toks.size() + !ev.ts > ls::cStaticByteBuffSize) symex_cover("more tokens than the buffer");
        if (ev.ts && k > 0) symex_cover("timestamp after a newline");
        if (k > 2) symex_cover("four events");
        k++;
    }
    symex_assert(k == want.size(), "no fewer events than from the buffer");
    symex_assert(src.pos == in.size(), "everything is read");
}
