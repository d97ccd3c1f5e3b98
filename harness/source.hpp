// A reader over a string.
#pragma once
#include "common.hpp"

// hands out a string; how much each read gets may be chosen by the solver
struct Source {
    string data;
    size_t pos{0};
    int mode{0};  // 0: what is asked for; 1: up to that; 2: one byte
    unsigned reads{0};
    ls::Reader reader() {
        return ls::Reader{[this](char* buf, size_t count, size_t& got) -> ls::ErrorCode {
            size_t const left = data.size() - pos;
            size_t n = count < left ? count : left;
            if (n == 0) {
                got = 0;
                return ls::ErrorCode::EndOfFile;
            }
            if (mode == 1 && n > 1) n = 1 + symex_choose("read", n);
            if (mode == 2) n = 1;
            for (size_t i = 0; i < n; i++) buf[i] = data[pos + i];
            pos += n;
            got = n;
            reads++;
            return ls::ErrorCode::Success;
        }};
    }
};
