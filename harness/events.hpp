// What a parser reports for one event, copied out of the view through its public interface.
#pragma once
#include "schemas.hpp"

struct EvTok {
    string text;
    vector<uint32_t> ids;
    uint32_t line;
};
struct Ev {
    bool ts{false}, multi{false};
    vector<EvTok> toks;  // the timestamp first if there is one
    vector<vector<uint32_t>> of;  // by id: the tokens that are listed for it
    string text() const {
        string s;
        for (auto& t : toks) s += t.text;
        return s;
    }
};
inline Ev read_event(ls::LogEventView const& v) {
    Ev e;
    auto const& ob = *v.get_log_output_buffer();
    e.ts = v.get_timestamp() != nullptr;
    e.multi = v.is_multiline();
    for (uint32_t i = e.ts ? 0 : 1; i < ob.pos(); i++) {
        auto& t = ob.get_mutable_token(i);
        e.toks.push_back({string(t.to_string_view()), *t.m_type_ids_ptr, t.m_line});
    }
    // the two kinds of timestamps count as one, see below
    size_t const ids = v.get_log_parser().m_lexer.m_id_symbol.size(), first = (size_t)ls::SymbolId::TokenFirstTimestamp, next = (size_t)ls::SymbolId::TokenNewlineTimestamp;
    e.of.resize(ids);
    for (size_t id = 0; id < ids; id++)
        for (auto const* t : v.get_variables(id)) {
            uint32_t i = 0;
            while (i < ob.pos() && &ob.get_token(i) != t) i++;
            symex_assert(i < ob.pos(), "a listed token is one of the event");
            e.of[id == first ? next : id].push_back(i);
        }
    return e;
}
// The kind of a timestamp (first or after a newline) may depend on where a buffer starts; it is not compared.
inline bool same_ids(vector<uint32_t> a, vector<uint32_t> b) {
    for (auto* v : {&a, &b})
        for (auto& i : *v)
            if (i == (uint32_t)ls::SymbolId::TokenFirstTimestamp) i = (uint32_t)ls::SymbolId::TokenNewlineTimestamp;
    return a == b;
}
inline bool same(Ev const& a, Ev const& b) {
    if (a.ts != b.ts || a.multi != b.multi || a.toks.size() != b.toks.size() || a.of != b.of) return false;
    for (size_t i = 0; i < a.toks.size(); i++)
        if (a.toks[i].text != b.toks[i].text || !same_ids(a.toks[i].ids, b.toks[i].ids)) return false;
    return true;
}
inline void observe(Ev const& e) {
    symex_observe(e.ts * 2 + e.multi);
    for (auto& t : e.toks) {
        sym::observe(t.text);
        for (auto i : t.ids) symex_observe(i);
    }
}
// the events of a complete buffer
inline vector<Ev> all_events(ls::BufferParser& p, string buf) {
    vector<Ev> r;
    p.reset();
    size_t off = 0;
    while (!p.done()) {
        symex_assert(r.size() <= buf.size(), "parsing makes progress");
        symex_assert(p.parse_next_event(buf.data(), buf.size(), off, true) == ls::ErrorCode::Success, "every call succeeds");
        r.push_back(read_event(p.get_log_parser().get_log_event_view()));
    }
    return r;
}
