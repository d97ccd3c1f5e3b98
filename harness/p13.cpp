// P13: the interval tree against a list of intervals, under every sequence of operations on
// intervals with arbitrary bounds.
#include "common.hpp"
#include <log_surgeon/finite_automata/UnicodeIntervalTree.hpp>

using ls::finite_automata::Interval;
using Tree = ls::finite_automata::UnicodeIntervalTree<uint32_t>;
struct Item {
    uint32_t lo, hi, value;
};
static bool overlap(Item const& a, uint32_t lo, uint32_t hi) { return a.lo <= hi && lo <= a.hi; }
static uint32_t number(char const* name) {
    uint32_t v = 0;
    unsigned const bytes = symex_param("bytes", 4);
    symex_bytes(name, &v, bytes);
    return v;
}
// the same intervals and values in any order
static void same(vector<Tree::Data> const& got, vector<Item> want, char const* label) {
    symex_assert(got.size() == want.size(), label);
    for (auto const& d : got) {
        size_t i = 0;
        while (i < want.size() && !(want[i].value == d.m_value)) i++;
        symex_assert(i < want.size(), label);
        symex_assert(want[i].lo == d.m_interval.first && want[i].hi == d.m_interval.second, label);
        want.erase(want.begin() + i);
    }
}

extern "C" void harness() {
    unsigned const steps = symex_param("steps", 4), inserts = symex_param("inserts", 3);
    Tree t;
    vector<Item> items;  // sorted
    bool popped = false, reset = false;
    for (unsigned k = 0; k < steps; k++) {
        // with removals=1 the insertions are followed by one removal and one lookup or removal
        unsigned const op = k < inserts                       ? 0
                            : !symex_param("removals", 0) ? symex_choose("op", 4)
                            : k == inserts                ? 2
                                                          : 1 + symex_choose("op", 2);
        if (op == 3) {
            if (reset) return;
            reset = true;
            t.reset();
            items.clear();
        }
        uint32_t lo = 0, hi = 0;
        if (op < 3) {
            lo = number("low");
            hi = number("high");
            symex_assume(lo <= hi);
        }
        if (op == 0) {
            size_t i = 0;
            while (i < items.size() && items[i].hi < lo) i++;
            if (i < items.size() && items[i].lo == lo && items[i].hi == hi) {
                items[i].value = k;
                symex_cover("value replaced");
            } else {
                symex_assume(i == items.size() || hi < items[i].lo);
                items.insert(items.begin() + i, {lo, hi, k});
            }
            t.insert(Interval(lo, hi), k);
            symex_cover("insert");
        } else if (op < 3) {
            vector<Item> hit, rest;
            for (auto const& x : items) (overlap(x, lo, hi) ? hit : rest).push_back(x);
            if (op == 1) {
                same(*t.find(Interval(lo, hi)), hit, "a lookup finds what overlaps");
                if (hit.size() > 1) symex_cover("several found");
                if (hit.empty()) symex_cover("nothing found");
                if (items.empty()) symex_cover("lookup in an empty tree");
                if (popped && !hit.empty()) symex_cover("found after a removal");
            } else {
                same(*t.pop(Interval(lo, hi)), hit, "a removal removes what overlaps");
                if (hit.size() > 1) symex_cover("several removed");
                if (!hit.empty() && !rest.empty()) symex_cover("some removed");
                popped |= !hit.empty();
                items = rest;
            }
        }
        auto const all = t.all();
        symex_assert(all.size() == items.size(), "the tree lists every interval");
        for (size_t i = 0; i < all.size(); i++) {
            symex_assert(all[i].m_interval.first == items[i].lo && all[i].m_interval.second == items[i].hi, "the intervals are listed in increasing order");
            symex_assert(all[i].m_value == items[i].value, "an interval has its value");
            symex_observe(all[i].m_value);
        }
    }
}
