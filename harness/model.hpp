// Reference model, written from the documentation: regular expressions by sets of end positions,
// tokens and events by the rules of docs/schema.md and docs/parsing-constraints.md.
#pragma once
#include "common.hpp"
#include <array>

namespace ref {
struct Re {
    enum Kind { Set, Dot, Cat, Alt, Rep, Cap } kind;
    std::array<bool, 256> set{};
    string text;  // of a set
    vector<Re> kids;
    int lo{0}, hi{0};  // Rep; hi < 0: no upper bound
};
inline string esc(char c) {
    if (c == '\n') return "\\n";
    if (c == '\t') return "\\t";
    if (c == '\r') return "\\r";
    if (c == '\v') return "\\v";
    if (c == '\f') return "\\f";
    if (strchr("()*+-.[]\\^{}|<>?", c)) return string("\\") + c;
    return string(1, c);
}
inline Re ch(char c) {
    Re r{Re::Set};
    r.set[(unsigned char)c] = true;
    r.text = esc(c);
    return r;
}
// items such as "a-z_": ranges and single characters; '^' first negates
inline Re cls(char const* p) {
    Re r{Re::Set};
    bool neg = *p == '^';
    if (neg) p++;
    r.text = neg ? "[^" : "[";
    for (; *p; p++) {
        if (p[1] == '-' && p[2]) {
            for (int c = (unsigned char)p[0]; c <= (unsigned char)p[2]; c++) r.set[c] = true;
            r.text += esc(p[0]) + "-" + esc(p[2]);
            p += 2;
        } else {
            r.set[(unsigned char)*p] = true;
            r.text += esc(*p);
        }
    }
    r.text += "]";
    if (neg)
        for (bool& b : r.set) b = !b;
    return r;
}
inline Re digit() {
    Re r = cls("0-9");
    r.text = "\\d";
    return r;
}
inline Re space() {
    Re r{Re::Set};
    for (char c : {' ', '\t', '\r', '\n', '\v', '\f'}) r.set[(unsigned char)c] = true;
    r.text = "\\s";
    return r;
}
inline Re dot() { return Re{Re::Dot}; }
inline Re cat(vector<Re> k) {
    Re r{Re::Cat};
    r.kids = std::move(k);
    return r;
}
inline Re str(char const* s) {
    Re r{Re::Cat};
    for (; *s; s++) r.kids.push_back(ch(*s));
    return r;
}
inline Re alt(vector<Re> k) {
    Re r{Re::Alt};
    r.kids = std::move(k);
    return r;
}
inline Re rep(Re x, int lo, int hi) {
    Re r{Re::Rep};
    r.kids.push_back(std::move(x));
    r.lo = lo;
    r.hi = hi;
    return r;
}
inline Re star(Re x) { return rep(std::move(x), 0, -1); }
inline Re plus(Re x) { return rep(std::move(x), 1, -1); }
inline Re cap(char const* name, Re x) {
    Re r{Re::Cap};
    r.kids.push_back(std::move(x));
    r.text = name;
    return r;
}
inline string text(Re const& r) {
    switch (r.kind) {
        case Re::Set: return r.text;
        case Re::Dot: return ".";
        case Re::Cat: {
            string s;
            for (auto& k : r.kids) s += text(k);
            return s;
        }
        case Re::Alt: {
            string s = "((" + text(r.kids[0]) + ")";
            for (size_t i = 1; i < r.kids.size(); i++) s += "|(" + text(r.kids[i]) + ")";
            return s + ")";
        }
        case Re::Cap: return "(?<" + r.text + ">" + text(r.kids[0]) + ")";
        case Re::Rep: {
            string s = text(r.kids[0]);
            if (r.kids[0].kind == Re::Cat || r.kids[0].kind == Re::Rep) s = "(" + s + ")";
            if (r.lo == 0 && r.hi < 0) return s + "*";
            if (r.lo == 1 && r.hi < 0) return s + "+";
            if (r.lo == r.hi) return s + "{" + std::to_string(r.lo) + "}";
            return s + "{" + std::to_string(r.lo) + "," + std::to_string(r.hi) + "}";
        }
    }
    return "";
}
// positions where a match of r that starts at one of the positions in `from` can end
inline uint64_t ends(Re const& r, string const& s, uint64_t from, bool const* dotExcluded) {
    switch (r.kind) {
        case Re::Set:
        case Re::Dot: {
            uint64_t to = 0;
            for (size_t i = 0; i < s.size(); i++)
                if (from >> i & 1) {
                    auto c = (unsigned char)s[i];
                    bool in = r.kind == Re::Set ? r.set[c] : !(dotExcluded && dotExcluded[c]);
                    if (in) to |= 2ull << i;
                }
            return to;
        }
        case Re::Cat:
            for (auto& k : r.kids) {
                if (!from) return 0;
                from = ends(k, s, from, dotExcluded);
            }
            return from;
        case Re::Alt: {
            uint64_t to = 0;
            for (auto& k : r.kids) to |= ends(k, s, from, dotExcluded);
            return to;
        }
        case Re::Cap: return ends(r.kids[0], s, from, dotExcluded);
        case Re::Rep: {
            uint64_t cur = from, to = r.lo == 0 ? from : 0, seen = 0;
            for (int i = 1; r.hi < 0 || i <= r.hi; i++) {
                if (!cur) break;
                cur = ends(r.kids[0], s, cur, dotExcluded);
                if (i >= r.lo) {
                    to |= cur;
                    if (r.hi < 0) {
                        if (!(cur & ~seen)) break;
                        seen |= cur;
                    }
                }
            }
            return to;
        }
    }
    return 0;
}

struct Var {
    string name;
    Re re;
};
struct Schema {
    string delims;
    vector<Var> vars;  // "timestamp" or a variable, in order of declaration
    string text;
    bool delim[256]{};

    Schema(string d, vector<Var> v) : delims(std::move(d)), vars(std::move(v)) {
        text = "delimiters:";
        for (char c : delims) {
            text += esc(c);
            delim[(unsigned char)c] = true;
        }
        text += "\n";
        for (auto& x : vars) text += x.name + ":" + ref::text(x.re) + "\n";
        text.pop_back();
    }
};

enum class Kind { Static, NewLine, Timestamp, Var };
struct Tok {
    Kind kind;
    size_t b, e;
    vector<string> names;  // of a variable: every name whose pattern matches, in order of declaration
    bool newline{false};  // of a timestamp: whether it includes the newline before it
};

inline int longest(uint64_t m) {
    int r = -1;
    for (int i = 0; i < 64; i++)
        if (m >> i & 1) r = i;
    return r;
}

// a match ends before a delimiter or at the end of the log
inline uint64_t admissible(Schema const& sc, string const& s, uint64_t m) {
    uint64_t r = 0;
    for (size_t i = 0; i <= s.size(); i++)
        if (m >> i & 1)
            if (i == s.size() || sc.delim[(unsigned char)s[i]]) r |= 1ull << i;
    return r;
}

// the longest match at p, if any; a token starts at the start of the log or at a delimiter
inline std::optional<Tok> token_at(Schema const& sc, string const& s, size_t p, bool start) {
    size_t const n = s.size();
    std::optional<Tok> best;
    auto offer = [&](Kind k, size_t e, string const& name, bool newline) {
        if (best && best->e > e) return;
        if (!best || best->e < e) {
            best = Tok{k, p, e, {}, newline};
        }
        for (auto& x : best->names)
            if (x == name) return;
        best->names.push_back(name);
    };
    // every rule, in order of declaration, for a match of its pattern that starts at `from`
    auto rules = [&](size_t from, bool timestamps, bool newline, bool variables = true) {
        for (auto& v : sc.vars) {
            bool const ts = v.name == "timestamp";
            if (!(ts ? timestamps : variables)) continue;
            uint64_t const m = ends(v.re, s, 1ull << from, ts ? nullptr : sc.delim);
            // a newline is a token whatever follows, also if a variable matches the empty text after it
            int const e = longest(admissible(sc, s, m) | (newline ? m & 1ull << from : 0));
            if (e >= (int)from) offer(ts ? Kind::Timestamp : Kind::Var, e, ts ? (newline ? ls::cTokenNewlineTimestamp : ls::cTokenFirstTimestamp) : v.name, newline);
        }
    };
    if (start) {
        rules(0, true, false);
        if (best) return best;
    }
    if (p >= n) return {};
    bool const nl = s[p] == '\n', delim = sc.delim[(unsigned char)s[p]];
    if (!delim && !nl) return {};
    if (nl) offer(Kind::NewLine, p + 1, ls::cTokenNewline, false);
    rules(p + 1, nl, nl, delim);
    return best;
}

inline vector<Tok> tokens(Schema const& sc, string const& s) {
    vector<Tok> r;
    size_t last = 0, p = 0, n = s.size();
    while (p < n) {
        auto t = token_at(sc, s, p, p == 0 && r.empty());
        if (!t) {
            p++;
            continue;
        }
        if (last < t->b) r.push_back({Kind::Static, last, t->b, {}});
        r.push_back(*t);
        last = p = t->e;
    }
    if (last < n) r.push_back({Kind::Static, last, n, {}});
    return r;
}

struct Event {
    bool ts{false};
    bool multiline{false};
    vector<Tok> toks;
    size_t b{0}, e{0};
};

inline vector<Event> events(Schema const& sc, string const& s) {
    (void)sc;
    vector<Event> r;
    Event cur;
    auto add = [&](Tok t) {
        if (cur.toks.empty()) cur.b = t.b;
        cur.e = t.e;
        cur.toks.push_back(std::move(t));
    };
    auto end = [&] {
        if (cur.toks.empty()) return;
        if (cur.ts)
            for (size_t i = cur.toks[0].e; i + 1 < cur.e; i++)
                if (s[i] == '\n') cur.multiline = true;
        r.push_back(cur);
        cur = Event{};
    };
    for (auto const& t : tokens(sc, s)) {
        bool nl = t.b < t.e && s[t.b] == '\n';
        if (t.kind == Kind::Timestamp) {
            if (t.newline) {
                add({Kind::Static, t.b, t.b + 1, {}});
                end();
                add({Kind::Timestamp, t.b + 1, t.e, t.names});
            } else {
                add(t);
            }
            cur.ts = true;
            continue;
        }
        if (!cur.ts && t.kind == Kind::Var && nl) {
            add({Kind::Static, t.b, t.b + 1, {}});
            end();
            Tok u = t;
            u.b++;
            // a variable without its delimiter
            add(u);
            continue;
        }
        add(t);
        if (!cur.ts && t.kind == Kind::NewLine) end();
    }
    end();
    return r;
}
}  // namespace ref
