// P15: the file reader over a file of any content that may fail anywhere, under every order of calls.
#include "file_stub.hpp"

extern "C" void harness() {
    unsigned const n = symex_param("n", 5), steps = symex_param("steps", 4);
    string const data = sym::bytes("data", n);
    size_t fail_at = SIZE_MAX;
    if (symex_param("faults", 0)) {
        fail_at = symex_choose("fail_at", n + 2);
        if (fail_at == n + 1) fail_at = SIZE_MAX;
    }
    stub::content = [&] {
        stub::File f;
        f.data = data;
        f.fail_at = fail_at;
        return f;
    };
    ls::FileReader r;
    char buf[16];
    bool open = false;
    size_t pos = 0;  // in the file
    bool past = false;  // the end was met
    for (unsigned i = 0; i < steps; i++) {
        unsigned const op = symex_choose("op", 5);
        if (op == 0) {
            stub::open_errno = symex_choose("open", 3);
            stub::open_errno = stub::open_errno == 1 ? ENOENT : stub::open_errno == 2 ? EACCES : 0;
            ls::ErrorCode const rc = r.try_open("file");
            open = stub::open_errno == 0;
            symex_assert((rc == ls::ErrorCode::Success) == open, "an open succeeds or is reported as failed");
            symex_assert((rc == ls::ErrorCode::FileNotFound) == (stub::open_errno == ENOENT), "a missing file is reported as such");
            symex_assert(open || rc == ls::ErrorCode::FileNotFound || rc == ls::ErrorCode::Errno, "another failure is reported as such");
            symex_cover(open ? "opened" : "failed to open");
            pos = 0;
            past = false;
            size_t left = 0;
            for (auto* f : stub::files) left += f->open;
            symex_assert(left == open, "the file that was open before is closed");
        } else if (op == 1) {
            size_t const want = 1 + symex_choose("count", 3);
            memset(buf, '#', sizeof buf);
            size_t got = 77;
            ls::ErrorCode const rc = r.read(buf, want, got);
            if (!open) {
                symex_assert(rc == ls::ErrorCode::NotInit, "reading without a file is reported as such");
                symex_assert(got == 77 && buf[0] == '#', "reading without a file changes nothing");
                symex_cover("not open");
                continue;
            }
            size_t const end = fail_at < n ? fail_at : n;
            size_t const k = want < end - pos ? want : end - pos;
            symex_assert(got == k, "a read gives what is there");
            for (size_t j = 0; j < k; j++) symex_assert(buf[j] == data[pos + j], "a read gives the next bytes of the file");
            for (size_t j = k; j < sizeof buf; j++) symex_assert(buf[j] == '#', "a read leaves the rest of the buffer");
            pos += k;
            symex_observe(got);
            if (k < want && fail_at <= n) {
                symex_assert(rc == ls::ErrorCode::Errno, "a failing read is reported as such");
                symex_cover("read failed");
                return;
            }
            if (k == 0) {
                symex_assert(rc == ls::ErrorCode::EndOfFile, "the end of the file is reported where nothing is left");
                symex_cover("end of file");
            } else {
                symex_assert(rc == ls::ErrorCode::Success, "a read that gives data succeeds");
                symex_cover("read");
            }
        } else if (op == 2) {
            if (!open) continue;
            bool const keep = symex_choose("keep", 2), append = symex_choose("append", 2);
            string line = "pre";
            ls::ErrorCode const rc = r.try_read_to_delimiter('\n', keep, append, line);
            size_t const end = fail_at < n ? fail_at : n;
            size_t e = pos;
            bool found = false;
            while (e < end && !found) found = data[e++] == '\n';
            if (!found && fail_at <= n) {
                symex_assert(rc == ls::ErrorCode::Errno, "a failing line read is reported as such");
                symex_cover("line read failed");
                return;
            }
            if (e == pos) {
                symex_assert(rc == ls::ErrorCode::EndOfFile, "the end of the file is reported where no line is left");
                symex_assert(line == (append ? "pre" : ""), "no text is made up at the end of the file");
                symex_cover("no line left");
                continue;
            }
            symex_assert(rc == ls::ErrorCode::Success, "a line read that gives data succeeds");
            string const want = string(append ? "pre" : "") + data.substr(pos, e - pos - (found && !keep));
            symex_assert(line == want, "a line read gives the text up to the delimiter");
            sym::observe(line);
            symex_cover(found ? "line" : "last line");
            pos = e;
        } else if (op == 3) {
            r.close();
            open = false;
            size_t left = 0;
            for (auto* f : stub::files) left += f->open;
            symex_assert(left == 0, "closing closes the file");
        } else {
            size_t got = 77;
            ls::ErrorCode const rc = r.read(nullptr, 2, got);
            symex_assert(rc == (open ? ls::ErrorCode::BadParam : ls::ErrorCode::NotInit), "reading to nowhere is reported as such");
            symex_assert(got == 77, "reading to nowhere changes nothing");
        }
    }
}

// a line read that fails before it reads, as when memory is short
extern "C" void memory() {
    string const data = sym::bytes("data", 3);
    stub::content = [&] {
        stub::File f;
        f.data = data;
        f.no_memory = 1;
        return f;
    };
    ls::FileReader r;
    symex_assert(r.try_open("file") == ls::ErrorCode::Success, "an open succeeds");
    string line = "pre";
    symex_assert(r.try_read_to_delimiter('\n', symex_choose("keep", 2), symex_choose("append", 2), line) == ls::ErrorCode::Errno, "a failing line read is reported as such");
    symex_cover("failed");
}
