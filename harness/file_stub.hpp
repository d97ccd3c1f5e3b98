// Stands in for the C library's files while the library's sources are compiled: every file that is
// opened has the content (and the faults) the harness gives it. No real file is touched.
#pragma once
#include <algorithm>
#include <any>
#include <array>
#include <bitset>
#include <cassert>
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <queue>
#include <ranges>
#include <set>
#include <span>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <unistd.h>
#include <fmt/core.h>
#include <fmt/format.h>
#include <fmt/ranges.h>
#include <fmt/xchar.h>

namespace stub {
// what one opened file does
struct File {
    std::string data;
    size_t pos{0};
    bool eof{false}, error{false}, open{true};
    size_t fail_at{SIZE_MAX};  // reading this position fails
    int no_memory{0};  // a getdelim that fails without touching the file
};
inline int open_errno = 0;  // what the next open fails with
inline std::function<File()> content;  // asked when a file is first read
inline std::vector<File*> files;  // every file that was opened
inline std::vector<bool> known;  // whether its content was asked for

inline File& at(void* f) {
    for (size_t i = 0; i < files.size(); i++)
        if ((void*)files[i] == f) {
            if (!known[i]) {
                known[i] = true;
                *files[i] = content();
            }
            return *files[i];
        }
    abort();  // not a file that was opened
}
inline FILE* fopen(char const* path, char const*) {
    if (!*path) {
        errno = ENOENT;
        return nullptr;
    }
    if (open_errno) {
        errno = open_errno;
        return nullptr;
    }
    files.push_back(new File);
    known.push_back(false);
    return (FILE*)(void*)files.back();
}
inline int fclose(FILE* p) {
    for (size_t i = 0; i < files.size(); i++)
        if ((void*)files[i] == (void*)p) {
            if (!files[i]->open) abort();  // closed twice
            files[i]->open = false;
            return 0;
        }
    abort();
}
inline size_t fread(void* to, size_t size, size_t n, FILE* p) {
    File& f = at(p);
    if (!f.open) abort();
    size_t const want = size * n;
    size_t k = 0;
    while (k < want) {
        if (f.pos == f.fail_at) {
            f.error = true;
            break;
        }
        if (f.pos == f.data.size()) {
            f.eof = true;
            break;
        }
        ((char*)to)[k++] = f.data[f.pos++];
    }
    return k / size;
}
inline int ferror(FILE* p) { return at(p).error; }
inline int feof(FILE* p) { return at(p).eof; }
inline int getc(FILE* p) {
    char c;
    return stub::fread(&c, 1, 1, p) == 1 ? (unsigned char)c : -1;
}
inline ssize_t getdelim(char** line, size_t* cap, int delim, FILE* p) {
    File& f = at(p);
    if (!f.open) abort();
    if (f.no_memory) {
        errno = ENOMEM;
        return -1;
    }
    size_t k = 0;
    auto put = [&](char c) {
        if (!*line || k + 1 > *cap) {
            *cap = k + 8;
            *line = (char*)realloc(*line, *cap);
        }
        (*line)[k++] = c;
    };
    while (true) {
        int const c = stub::getc(p);
        if (c < 0) {
            if (f.error || k == 0) return -1;
            break;
        }
        put((char)c);
        if ((unsigned char)c == (unsigned char)delim) break;
    }
    put(0);
    return (ssize_t)k - 1;
}
// a file with this content, which is made up when it is first read, for every open
inline void serve(std::function<std::string()> text) {
    content = [text, made = std::optional<std::string>()]() mutable {
        File f;
        if (!made) made = text();
        f.data = *made;
        return f;
    };
}
}  // namespace stub
#undef ferror
#undef feof
#undef getc
#define fopen(...) stub::fopen(__VA_ARGS__)
#define fclose(...) stub::fclose(__VA_ARGS__)
#define fread(...) stub::fread(__VA_ARGS__)
#define ferror(...) stub::ferror(__VA_ARGS__)
#define feof(...) stub::feof(__VA_ARGS__)
#define getc(...) stub::getc(__VA_ARGS__)
#define fgetc(...) stub::getc(__VA_ARGS__)
#define getdelim(...) stub::getdelim(__VA_ARGS__)
#include "common.hpp"
#undef fopen
#undef fclose
#undef fread
#undef ferror
#undef feof
#undef getc
#undef fgetc
#undef getdelim
