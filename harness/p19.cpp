// P19: any bytes at all; every call ends, makes progress, and stays inside the buffers.
#include "events.hpp"
#include "source.hpp"

static size_t event_size(ls::LogParser const& lp) {
    auto const& v = lp.get_log_event_view();
    auto const& ob = *v.get_log_output_buffer();
    size_t n = 0;
    for (uint32_t i = ob.has_timestamp() ? 0 : 1; i < ob.pos(); i++) n += ob.get_token(i).get_length();
    symex_assert(v.to_string().size() == n, "the text of the event has the length of its tokens");
    (void)v.get_logtype();
    return n;
}

extern "C" void harness() {
    unsigned const n = symex_param("n", 5);
    ref::Schema sc = ref::pick_schema();
    ls::BufferParser p(schema(sc.text));
    string const in = sym::bytes("log", n);
    string buf = in;
    size_t off = 0, size = 0;
    unsigned calls = 0;
    p.reset();
    while (!p.done()) {
        symex_assert(calls <= n, "no more calls than bytes, and one");
        calls++;
        symex_assert(p.parse_next_event(buf.data(), buf.size(), off, true) == ls::ErrorCode::Success, "every call succeeds");
        size_t const k = event_size(p.get_log_parser());
        symex_assert(k > 0 || p.done(), "every call but the last makes progress");
        symex_assert(off <= n, "the offset stays in the buffer");
        size += k;
        symex_observe(k);
        symex_assert(!p.done() || size == n, "done at the end of the log, and not earlier");
    }
    symex_cover("done");
    if (calls > 1) symex_cover("several calls");
}

// an unfinished buffer of any size and content, at any offset
extern "C" void unfinished() {
    unsigned const n = symex_param("n", 4);
    ref::Schema sc = ref::pick_schema();
    ls::BufferParser p(schema(sc.text));
    string buf = sym::bytes("log", n);
    size_t off = symex_choose("offset", n + 1);
    p.reset();
    for (unsigned calls = 0;; calls++) {
        symex_assert(calls <= n, "no more calls than bytes, and one");
        size_t const before = off;
        ls::ErrorCode const rc = p.parse_next_event(buf.data(), buf.size(), off, false);
        symex_assert(!p.done(), "an unfinished buffer is never done");
        symex_assert(off >= before && off <= n, "the offset stays in the buffer");
        symex_observe(off);
        if (rc != ls::ErrorCode::Success) {
            symex_assert(rc == ls::ErrorCode::BufferOutOfBounds, "only the end of the buffer is reported");
            symex_cover("end of the buffer");
            break;
        }
        symex_assert(event_size(p.get_log_parser()) > 0, "every call makes progress");
        symex_cover("event");
    }
}

extern "C" void reader() {
    unsigned const n = symex_param("n", 5);
    ref::Schema sc = ref::pick_schema();
    ls::ReaderParser p(schema(sc.text));
    Source src{sym::bytes("log", n), 0, symex_param("mode", 0)};
    ls::Reader rd = src.reader();
    p.reset_and_set_reader(rd);
    size_t size = 0;
    unsigned calls = 0;
    while (!p.done()) {
        symex_assert(calls <= n, "no more calls than bytes, and one");
        calls++;
        symex_assert(p.parse_next_event() == ls::ErrorCode::Success, "every call succeeds");
        size_t const k = event_size(p.get_log_parser());
        symex_assert(k > 0 || p.done(), "every call but the last makes progress");
        size += k;
        symex_observe(k);
        symex_assert(!p.done() || size == n, "done at the end of the log, and not earlier");
    }
    symex_cover("done");
}
