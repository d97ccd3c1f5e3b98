// P05: a log handed over in pieces, wherever it is cut, against the whole log in one buffer.
#include "events.hpp"

extern "C" void harness() {
    unsigned const cuts = symex_param("cuts", 1);
    unsigned const si = ref::pick_index();
    ref::Schema sc = ref::schema_at(si);
    ls::BufferParser p(schema(sc.text)), q(schema(sc.text));
    string const in = ref::some_log(symex_param("n", 5), si, symex_param("full", 0));
    size_t const n = in.size();
    symex_assume(n > 0);
    vector<Ev> const want = all_events(p, in);
    // the caller either moves the rest to the front of its buffer or goes on at the offset
    unsigned const how = symex_choose("how", 3);
    bool const move = how > 0;
    // and it may drop what the parser remembers after an event
    bool const again = how == 2;
    string buf;
    size_t off = 0, avail = 0, start = 0, base = 0;  // start: of the next event; base: of buf in the log
    size_t k = 0;
    unsigned left = cuts, calls = 0;
    avail = symex_choose("cut", n);
    buf = in.substr(0, avail);
    while (!q.done()) {
        symex_assert(++calls <= 2 * n + 8, "parsing makes progress");
        bool const last = avail == n;
        ls::ErrorCode const rc = q.parse_next_event(buf.data(), buf.size(), off, last);
        if (rc == ls::ErrorCode::Success) {
            Ev ev = read_event(q.get_log_parser().get_log_event_view());
            observe(ev);
            symex_assert(k < want.size(), "no more events than from the whole log");
            symex_assert(ev.text() == want[k].text(), "an event has the same text as from the whole log");
            symex_assert(same(ev, want[k]), "an event has the same tokens as from the whole log");
            symex_assert(last || !q.done(), "not done before the input is");
            if (!last) symex_cover("event from an unfinished buffer");
            if (ev.ts && !last) symex_cover("event with timestamp from an unfinished buffer");
            start += ev.text().size();
            k++;
            symex_assert(q.done() || base + off == start, "after an event the offset is the start of the next one");
            if (again && !q.done()) {
                symex_cover("reset after an event");
                q.reset();
                if (move) {
                    base = start;
                    off = 0;
                    buf = in.substr(base, avail - base);
                }
            }
            continue;
        }
        symex_assert(rc == ls::ErrorCode::BufferOutOfBounds, "only the end of the buffer is reported");
        symex_assert(!last, "the end of an unfinished buffer is not reported for a finished one");
        symex_assert(!q.done(), "not done at the end of an unfinished buffer");
        symex_observe(off);
        symex_assert(base + off == start, "the offset is the start of the event that could not be finished");
        if (start > 0) symex_cover("stopped after an event");
        if (start < avail) symex_cover("stopped inside an event");
        size_t more = n - avail;
        if (--left > 0) more = 1 + symex_choose("cut", n - avail);
        avail += more;
        if (move) {
            base = start;
            off = 0;
        }
        buf = in.substr(base, avail - base);
    }
    symex_assert(k == want.size(), "no fewer events than from the whole log");
}
