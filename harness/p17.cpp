// P17: the input buffer under every order of taking, going back, consuming, refilling and growing.
#include "source.hpp"

namespace {
struct Model {
    ls::ParserInputBuffer& b;
    Source& src;
    size_t ready{0};  // bytes before are handed out on demand; a read that failed may have left more
    bool flaky{false};
    ls::Reader whole, rd;
    vector<uint32_t> at;  // position of each byte that was taken
    size_t taken{0}, used{0};  // next byte to take; bytes before `used` are consumed
    bool stuck{false};  // the buffer said that it ran out

    Model(ls::ParserInputBuffer& buf, Source& s) : b(buf), src(s), whole(s.reader()), rd(whole) {}

    void intact(char const* label) {
        for (size_t i = used; i < at.size(); i++)
            symex_assert(b.storage().get_value(at[i]) == src.data[i], label);
    }
    void take() {
        uint32_t const p = b.storage().pos();
        unsigned char c = 0;
        ls::ErrorCode const rc = b.get_next_character(c);
        if (rc == ls::ErrorCode::BufferOutOfBounds) {
            symex_assert(taken == ready, "all that was read is handed out before asking for more");
            symex_assert(!b.log_fully_consumed(), "the input is not at its end when more is asked for");
            stuck = true;
            symex_cover("out of data");
            return;
        }
        symex_assert(rc == ls::ErrorCode::Success, "taking a character succeeds or asks for more");
        if (b.log_fully_consumed()) {
            symex_assert(c == ls::utf8::cCharEOF, "the end of file is the end mark");
            symex_assert(taken == src.data.size(), "the end of file comes after the last byte");
            symex_cover("end of file");
            b.set_log_fully_consumed(false);
            symex_assert(b.storage().pos() == p, "the end of file takes nothing");
            return;
        }
        symex_observe(c);
        symex_assert(taken < ready, "nothing is handed out that was not read");
        symex_assert((char)c == src.data[taken], "the byte taken is the next one of the input");
        if (taken == at.size()) at.push_back(p);
        else symex_assert(at[taken] == p, "a byte stays where it was");
        taken++;
    }
    void refill() {
        size_t const before = src.pos;
        bool const safe = b.read_is_safe();
        if (flaky && symex_choose("fails", 2)) {
            size_t const left = src.data.size() - src.pos, most = left < b.storage().size() / 2 ? left : b.storage().size() / 2 - 1;
            size_t upto = src.pos + symex_choose("read before", most + 1);
            bool failed = false;
            ls::Reader bad{[&](char* p, size_t count, size_t& got) -> ls::ErrorCode {
                symex_assert(!failed, "a failed read is not read on from");
                if (src.pos >= upto) {
                    failed = true;
                    got = 0;
                    return ls::ErrorCode::Errno;
                }
                return whole.read(p, count < upto - src.pos ? count : upto - src.pos, got);
            }};
            ls::ErrorCode const rc = b.read_if_safe(bad);
            if (failed) {
                symex_assert(rc == ls::ErrorCode::Errno, "a failed read is reported");
                intact("a failed read leaves what is not consumed");
                symex_cover("failed");
                if (src.pos > before) symex_cover("failed after some bytes");
                return;
            }
            symex_assert(rc == ls::ErrorCode::Success || rc == ls::ErrorCode::EndOfFile, "no failure without a failed read");
            ready = src.pos;
            intact("a refill leaves what is not consumed");
            if (src.pos > before) stuck = false;
            return;
        }
        bool const rest = src.pos > ready;
        ls::ErrorCode const rc = b.read_if_safe(rd);
        if (safe) ready = src.pos;
        if (rest && safe) symex_cover("read on after a failure");
        symex_assert(rc == ls::ErrorCode::Success || rc == ls::ErrorCode::EndOfFile, "a refill succeeds or is at the end");
        if (!safe) symex_assert(src.pos == before, "an unsafe refill reads nothing");
        if (src.pos > before) symex_cover("refilled");
        if (src.pos > before && used > 0) symex_cover("refilled after consuming");
        if (safe && src.pos == before) symex_assert(src.pos == src.data.size(), "a safe refill reads if there is anything");
        intact("a refill leaves what is not consumed");
        if (src.pos > before || (rest && safe)) stuck = false;
    }
    void grow() {
        if (src.pos > ready) symex_cover("grown after a failed read");
        bool const again = flaky;
        flaky = false;
        uint32_t old = 0;
        bool flipped = false;
        uint32_t const size = b.storage().size();
        b.increase_capacity(old, flipped);
        symex_assert(old == size && b.storage().size() == 2 * size, "growing doubles the buffer");
        for (auto& p : at)
            if (flipped) p = p >= size / 2 ? p - size / 2 : p + size / 2;
        if (flipped) symex_cover("grown with the halves swapped");
        else symex_cover("grown in order");
        intact("growing keeps what is not consumed");
        symex_assert(b.read_is_safe() || src.pos == src.data.size(), "there is room after growing");
        size_t const before = ready;
        refill();
        flaky = again;
        symex_assert(ready > before || src.pos == src.data.size(), "a refill after growing reads something");
        stuck = false;
        size_t const t = taken;
        bool const any = taken < ready;
        take();
        symex_assert(!stuck, "there is a character or the end of file after growing");
        symex_assert(any == (taken > t), "the next character follows growing");
    }
    void consume(size_t to) {
        used = to;
        b.set_consumed_pos(at[to - 1]);
    }
    void back(size_t to) {
        b.set_pos(at[to]);
        taken = to;
        stuck = false;
    }
};
}  // namespace

extern "C" void harness() {
    unsigned const n = symex_param("n", 6), steps = symex_param("steps", 5);
    Source src{sym::bytes("data", n), 0, symex_param("mode", 0)};
    ls::ParserInputBuffer b;
    string theirs = "yyyyyyyyyyyy";
    if (symex_param("reuse", 0)) {
        // leftovers of another input
        Source old{"zzzzzz", 0, 0};
        ls::Reader r = old.reader();
        b.reset();
        unsigned const k = symex_choose("old", 7);
        if (k == 6) {
            // which was in a buffer of the caller's
            b.set_storage(theirs.data(), theirs.size(), 1, symex_choose("old finished", 2));
            unsigned char c = 0;
            symex_assert(b.get_next_character(c) == ls::ErrorCode::Success && c == 'y', "a byte of the buffer is handed out");
            b.set_consumed_pos(b.storage().pos());
            symex_cover("after a buffer of the caller's");
        } else {
            for (unsigned i = 0; i < k; i++) {
                unsigned char c;
                if (b.get_next_character(c) != ls::ErrorCode::Success) {
                    uint32_t o;
                    bool f;
                    b.increase_capacity(o, f);
                    (void)b.read_if_safe(r);
                }
                b.set_consumed_pos(b.storage().pos());
                (void)b.read_if_safe(r);
            }
        }
    }
    b.reset();
    Model m(b, src);
    m.flaky = symex_param("faults", 0);
    m.refill();
    if (symex_param("reuse", 0)) symex_assert(theirs == "yyyyyyyyyyyy", "a buffer of the caller's is not written to");
    for (unsigned i = 0; i < steps; i++) {
        switch (symex_choose("op", 6)) {
            case 0: m.take(); break;
            case 1:  // as far as it goes
                for (unsigned k = 0; k <= n && !m.stuck && m.taken < m.ready; k++) m.take();
                m.take();
                break;
            case 2:
                if (m.taken <= m.used) return;
                m.consume(m.taken);
                break;
            case 3:
                if (m.taken <= m.used + 1) return;
                m.consume(m.taken - 1);
                break;
            case 4:
                if (m.taken <= m.used) return;
                m.back(m.used);
                break;
            default:
                if (m.stuck && !(m.flaky && symex_choose("try", 2))) m.grow();
                else m.refill();
        }
    }
    // whatever happened, the rest comes out
    for (unsigned k = 0; m.taken < n; k++) {
        symex_assert(k < 4 * n + 8, "the rest is handed out");
        if (m.stuck) m.grow();
        else m.take();
    }
    m.take();
    if (m.stuck) m.grow();
}

// a buffer of the caller's
extern "C" void storage() {
    unsigned const n = symex_param("n", 6);
    string data = sym::bytes("data", n);
    unsigned const size = symex_choose("size", n + 1), pos = symex_choose("pos", size + 1);
    bool const finished = symex_choose("finished", 2);
    string buf = data.substr(0, size);
    ls::ParserInputBuffer b;
    b.set_storage(buf.data(), size, pos, finished);
    for (unsigned i = pos; i <= size; i++) {
        unsigned char c = 0;
        ls::ErrorCode const rc = b.get_next_character(c);
        if (i == size) {
            if (finished) symex_assert(rc == ls::ErrorCode::Success && b.log_fully_consumed() && c == ls::utf8::cCharEOF, "the end of a finished buffer is the end of file");
            else symex_assert(rc == ls::ErrorCode::BufferOutOfBounds && !b.log_fully_consumed(), "the end of an unfinished buffer asks for more");
            symex_cover(finished ? "finished" : "unfinished");
            break;
        }
        symex_assert(rc == ls::ErrorCode::Success && !b.log_fully_consumed(), "a byte of the buffer is handed out");
        symex_assert((char)c == data[i], "the byte is the next one of the buffer");
        symex_observe(c);
    }
    symex_assert(!b.read_is_safe() || !finished, "nothing is read into a finished buffer");
}
