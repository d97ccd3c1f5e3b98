// P27: buffers that grow, of tokens and of bytes.
#include "common.hpp"

namespace {
struct Item {
    uint32_t start, end, line;
};
uint32_t word(char const* name) {
    unsigned char b = 0;
    symex_bytes(name, &b, 1);
    return b;
}
}  // namespace

// tokens of events
extern "C" void harness() {
    unsigned const steps = symex_param("steps", 6);
    static vector<uint32_t> const kinds[2] = {{1}, {2, 3}};
    string const text = "sample";
    ls::LogParserOutputBuffer b;
    vector<Item> model(1, Item{0, 0, 0});
    vector<unsigned> kind(1, 0);
    vector<bool> known(1, false);  // whether the slot was set since the last reset
    bool stamp = false, delims = false;
    size_t pos = 0;
    auto make = [&](unsigned k, Item& m) {
        m.start = word("start");
        m.end = word("end");
        m.line = word("line");
        return ls::Token{m.start, m.end, text.data(), 6, m.line, &kinds[k]};
    };
    auto compare = [&](ls::Token& t, size_t i) {
        symex_assert(t.m_start_pos == model[i].start && t.m_end_pos == model[i].end && t.m_line == model[i].line, "a token keeps its place");
        symex_assert(t.m_type_ids_ptr == &kinds[kind[i]] && t.m_buffer == text.data() && t.m_buffer_size == 6, "a token keeps its types and its buffer");
    };
    for (unsigned s = 0; s < steps; s++) {
        switch (symex_choose("op", 5)) {
            case 0: {  // the next token
                unsigned const k = s % 2;
                ls::Token t = make(k, model[pos]);
                kind[pos] = k;
                known[pos] = true;
                b.set_curr_token(t);
                uint32_t const before = b.size();
                b.advance_to_next_token();
                pos++;
                if (b.size() > before) symex_cover("grown");
                model.resize(std::max(model.size(), pos + 1));
                kind.resize(model.size());
                known.resize(model.size());
                break;
            }
            case 1: {  // a token again
                size_t const i = symex_choose("which", pos + 1);
                unsigned const k = s % 2;
                ls::Token t = make(k, model[i]);
                kind[i] = k;
                known[i] = true;
                b.set_token(i, t);
                break;
            }
            case 2:  // go on after any of them
                pos = symex_choose("which", pos + 1);
                b.set_pos(pos);
                break;
            case 3:
                stamp = s % 2;
                delims = !stamp;
                b.set_has_timestamp(stamp);
                b.set_has_delimiters(delims);
                break;
            default:
                b.reset();
                symex_cover("reset");
                pos = 0;
                stamp = delims = false;
                model.assign(1, Item{0, 0, 0});
                kind.assign(1, 0);
                known.assign(1, false);
        }
        symex_assert(b.pos() == pos, "the position is after the last token");
        symex_assert(b.size() > pos, "there is room for a token");
        symex_assert(b.has_timestamp() == stamp && b.has_delimiters() == delims, "the flags are those that were set");
        for (size_t i = 0; i <= pos; i++)
            if (known[i]) compare(b.get_mutable_token(i), i);
        if (known[pos]) symex_assert(b.get_curr_token().m_start_pos == model[pos].start, "the current token is that of the position");
    }
}

// bytes
extern "C" void bytes() {
    unsigned const steps = symex_param("steps", 6);
    ls::Buffer<char> b;
    size_t const initial = b.static_size();
    struct Area {
        char const* at;
        string data;
        vector<bool> known;
    };
    // every area since the last reset; the last one is in use
    vector<Area> areas{{b.get_active_buffer(), string(initial, 0), vector<bool>(initial)}};
    char theirs[8] = {};
    uint32_t pos = 0;
    bool foreign = false;
    for (unsigned s = 0; s < steps; s++) {
        Area& now = areas.back();
        switch (symex_choose("op", 8)) {
            case 0: {
                char const c = sym::bytes("byte", 1)[0];
                b.set_curr_value(c);
                now.data[pos] = c;
                now.known[pos] = true;
                break;
            }
            case 1: {
                uint32_t const i = now.data.size() - 1 - pos;
                char const c = sym::bytes("byte", 1)[0];
                b.set_value(i, c);
                now.data[i] = c;
                now.known[i] = true;
                break;
            }
            case 2:
                if (pos + 1 == now.data.size()) return;
                b.increment_pos();
                pos++;
                break;
            case 3:
                {
                    uint32_t const places[] = {0, 1, uint32_t(now.data.size() - 2), uint32_t(now.data.size() - 1)};
                    pos = places[symex_choose("which", 4)];
                }
                b.set_pos(pos);
                break;
            case 4: {  // grow, and take the content along
                if (now.data.size() > 16) return;
                Area next{nullptr, now.data, now.known};
                next.data.resize(2 * now.data.size());
                next.known.resize(next.data.size());
                b.double_size();
                b.copy(now.at, now.at + now.data.size(), 0);
                next.at = b.get_active_buffer();
                symex_assert(next.at != now.at, "a grown buffer is elsewhere");
                areas.push_back(next);
                symex_cover("grown");
                if (areas.size() > 2) symex_cover("grown twice");
                break;
            }
            case 5: {  // part of the input
                uint32_t const half = now.data.size() / 2, at = half * symex_choose("second half", 2), n = half, got_of[] = {0, n - 1, n}, k = got_of[symex_choose("got", 3)];
                string const in = sym::bytes("read", k);
                ls::Reader r{[&](char* p, size_t count, size_t& got) -> ls::ErrorCode {
                    symex_assert(count == n, "as much is read as was asked for");
                    for (size_t i = 0; i < k; i++) p[i] = in[i];
                    got = k;
                    return k ? ls::ErrorCode::Success : ls::ErrorCode::EndOfFile;
                }};
                size_t got = 99;
                ls::ErrorCode const rc = b.read(r, at, n, got);
                symex_assert(got == k && rc == (k ? ls::ErrorCode::Success : ls::ErrorCode::EndOfFile), "the result of the reader is passed on");
                for (size_t i = 0; i < k; i++) {
                    now.data[at + i] = in[i];
                    now.known[at + i] = true;
                }
                symex_cover("read");
                break;
            }
            case 6: {
                b.reset();
                pos = 0;
                foreign = false;
                areas.clear();
                areas.push_back({b.get_active_buffer(), string(initial, 0), vector<bool>(initial)});
                symex_cover("reset");
                break;
            }
            default: {  // a buffer of the caller's
                if (foreign) return;
                string const in = sym::bytes("theirs", 8);
                for (size_t i = 0; i < 8; i++) theirs[i] = in[i];
                pos = 5;
                b.set_active_buffer(theirs, 8, pos);
                symex_assert(b.get_active_buffer() == theirs, "the buffer of the caller's is used");
                areas.push_back({theirs, in, vector<bool>(8, true)});
                foreign = true;
                symex_cover("a buffer of the caller's");
            }
        }
        Area& a = areas.back();
        symex_assert(b.pos() == pos, "the position is the one that was set");
        symex_assert(b.size() == a.data.size(), "the size is that of the area in use");
        symex_assert(b.static_size() == initial, "the size of the first area does not change");
        for (size_t i = 0; i < a.data.size(); i++)
            if (a.known[i]) symex_assert(b.get_value(i) == a.data[i] && b.get_mutable_value(i) == a.data[i], "a value is the one that was set");
        if (a.known[pos]) symex_assert(b.get_curr_value() == a.data[pos], "the current value is that of the position");
        for (auto const& old : areas)
            for (size_t i = 0; i < old.data.size(); i++)
                if (old.known[i]) symex_assert(old.at[i] == old.data[i], "what was there before growing stays there");
    }
}
