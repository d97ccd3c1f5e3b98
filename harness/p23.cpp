// P23: a source that fails now and then.
#include "events.hpp"
#include "source.hpp"

namespace {
ls::ErrorCode some_error() {
    static ls::ErrorCode const all[] = {ls::ErrorCode::Errno, ls::ErrorCode::BadParam, ls::ErrorCode::BufferOutOfBounds, ls::ErrorCode::FileNotFound, ls::ErrorCode::NotInit, ls::ErrorCode::Truncated};
    return all[symex_choose("error", symex_param("errors", 1))];
}
}  // namespace

extern "C" void harness() {
    unsigned const n = symex_param("n", 5), faults = symex_param("faults", 1);
    unsigned const si = ref::pick_index();
    ref::Schema sc = ref::schema_at(si);
    ls::BufferParser p(schema(sc.text));
    ls::ReaderParser r(schema(sc.text));
    string const in = ref::some_log(n, si, symex_param("full", 0));
    vector<Ev> const want = all_events(p, in);
    Source src{in, 0, (int)symex_param("mode", 0)};
    auto reader = src.reader();
    // each fault comes when so many bytes are delivered
    vector<size_t> at;
    for (unsigned i = 0; i < faults; i++) at.push_back(symex_choose("fault", in.size() + 1));
    size_t next = 0;
    bool failed = false;
    ls::ErrorCode error{};
    ls::Reader flaky{[&](char* buf, size_t count, size_t& got) -> ls::ErrorCode {
        symex_assert(!failed, "nothing is read after a failed read in the same call");
        if (next < at.size() && src.pos >= at[next]) {
            next++;
            got = 0;
            failed = true;
            return error = some_error();
        }
        // up to the fault
        if (next < at.size() && at[next] - src.pos < count) count = at[next] - src.pos;
        return reader.read(buf, count, got);
    }};
    r.reset_and_set_reader(flaky);
    size_t k = 0, calls = 0;
    while (!r.done()) {
        symex_assert(calls++ <= in.size() + faults, "parsing makes progress");
        failed = false;
        ls::ErrorCode const rc = r.parse_next_event();
        symex_assert(failed == (rc != ls::ErrorCode::Success), "a call fails exactly if a read fails");
        if (rc != ls::ErrorCode::Success) {
            symex_assert(rc == error, "the source's error is reported");
            symex_assert(!r.done(), "a failed call does not end the log");
            symex_cover("failed");
            if (src.pos == in.size()) symex_cover("failed at the end");
            if (k > 0) symex_cover("failed after an event");
            continue;
        }
        Ev ev = read_event(r.get_log_parser().get_log_event_view());
        observe(ev);
        symex_assert(k < want.size(), "no more events than without faults");
        symex_assert(ev.text() == want[k].text(), "an event has the same text as without faults");
        symex_assert(same(ev, want[k]), "an event has the same tokens as without faults");
        k++;
    }
    symex_assert(k == want.size(), "no fewer events than without faults");
    symex_assert(next == at.size(), "every fault is reported");
}
