// P25: where a syntax error of a schema is said to be.
#include "regex.hpp"

namespace {
struct Frame {
    char const* head;  // a beginning of a line, all of it valid
    char const* next;  // what may follow
};
bool alnum(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
Frame const frames[] = {
    {"v:a{", "#"}, {"v:ab{1", "#,}"}, {"v:((a|b){1,", "#"}, {"v:a{12,3", "#}"}, {"v:(?", "<"}, {"v:(?<", "@"}, {"va", "@:"}, {"v:(?<g", "@>"},
    {"/", "/"}, {"v:\\d)", ""}, {"v:a+*", ""}, {"v:*", ""}, {"v:()", ""}, {"delimiters", ":"}, {"v:[^a]]", ""},
};
// is c one of those: # a digit, @ a letter, digit
bool may_follow(char c, char const* next) {
    for (; *next; next++)
        if (*next == '#' ? c >= '0' && c <= '9' : *next == '@' ? alnum(c) : c == *next) return true;
    return false;
}
}  // namespace

extern "C" void harness() {
    static char const* const before[] = {"a:b\n", "//x: [\n", "delimiters: \\n\n", "t1:(1|2){3}\r\n", "\n"};
    static char const* const after[] = {"", "\n", "b\n", "y\nc:(\n"};
    string text, line;
    size_t number = 1, column = 0;
    bool reported = false;
    string message;
    try {
        re::parse([&] {
            unsigned const lines = symex_choose("lines", symex_param("lines", 2) + 1);
            for (unsigned i = 0; i < lines; i++) {
                unsigned const k = symex_choose("line", i ? 5 : 4);
                text += before[k];
                number++;
            }
            size_t const start = text.size();
            Frame const& f = frames[symex_choose("frame", sizeof frames / sizeof *frames)];
            text += f.head;
            column = text.size() - start + 1;
            // the last character of the head is wrong if nothing may follow
            if (!*f.next) {
                column--;
                text += after[symex_choose("after", 4)];
            } else if (symex_choose("end", 2)) {
                symex_cover("ends too early");
            } else {
                string c = sym::bytes("byte", 1);
                symex_assume(c[0] != 0 && (unsigned char)c[0] < 0xf8);
                symex_assume(!may_follow(c[0], f.next));
                text += c + after[symex_choose("after", 4)];
            }
            for (size_t i = start; i < text.size() && text[i] != '\n' && text[i] != '\r'; i++) line += text[i];
            return text;
        });
    } catch (std::runtime_error const& e) {
        message = e.what();
        reported = true;
    }
    sym::observe(message);
    symex_assert(reported, "a syntax error is reported");
    string const where = "Schema:" + std::to_string(number) + ":" + std::to_string(column) + ": error: ";
    symex_assert(message.substr(0, where.size()) == where, "the error names its line and column");
    // the last two lines show the line and mark the column
    symex_assert(!message.empty() && message.back() == '\n', "the message ends with a line");
    message.pop_back();
    size_t const mark = message.rfind('\n');
    symex_assert(mark != string::npos, "the message shows a line");
    symex_assert(message.substr(mark + 1) == string(10 + column - 1, ' ') + "^", "the column is marked");
    message.resize(mark);
    while (!message.empty() && (message.back() == '\n' || message.back() == '\r')) message.pop_back();
    symex_assert(message.size() >= line.size() + 11 && message.substr(message.size() - line.size() - 11) == "\n" + string(10, ' ') + line, "the line is shown");
    if (number > 2) symex_cover("third line");
}
