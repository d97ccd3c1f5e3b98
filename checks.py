ASSUME = [
    "clang's translation of the C++ source to LLVM IR at -O1 and the executor's model of the C++ runtime (operator new, exceptions, memcpy family) are trusted; every run replays explored paths natively and compares",
    "input bytes 0xFD..0xFF, which the lexer reserves as marks, are outside the bounds unless a run says otherwise",
]
TECHNIQUE = "symbolic execution of the library's LLVM IR with z3 deciding every branch and assertion; counterexamples replayed natively"


def log(prop, n, schemas, n2, **kw):
    p = dict(prop=prop, n=n, schemas=schemas, **kw.pop("params", {}))
    return dict(dict(name=f"buffer-n{n}", harness="p02", params=p, thorough=dict(n=n2)), **kw)


def words(prop, **kw):
    # longer logs, with more tokens than the (shrunk) token buffer holds
    return log(prop, 1, 0x3ff, 1, name="words", buf=4, params=dict(words=4, of=4), thorough=dict(words=5, of=7), **kw)


def many(prop, **kw):
    # events of so many tokens that the (shrunk) token buffer grows twice
    return log(prop, 1, 0x233, 1, name="many-tokens", buf=4, params=dict(words=9, of=2), thorough=dict(words=11), **kw)


CHECKS = {
    "P01": dict(note="all logs up to the stated length in one complete buffer, ten schemas",
                runs=[log(1, 5, 0x3ff, 6, cover=["several events"]), words(1), many(1)]),
    "P02": dict(note="all logs up to the stated length in one complete buffer, ten schemas, against a reference tokenizer; heap growing in either direction",
                runs=[log(2, 5, 0x3ff, 6, cover=["variable token", "timestamp token", "several variables match"]),
                      log(2, 4, 0x1f, 5, name="reversed-heap", heap=True, params=dict(alloc=1), cover=["several variables match"]), words(2), many(2)]),
    "P03": dict(note="all logs up to the stated length in one complete buffer, ten schemas, against a reference event splitter",
                runs=[log(3, 5, 0x3ff, 6, cover=["multi-line event", "timestamp after a newline", "timestamp at the start", "event without timestamp"]), words(3)]),
    "P07": dict(note="all logs up to the stated length in one complete buffer, ten schemas, against a reference log type",
                runs=[log(7, 5, 0x3ff, 6, cover=["variable"]), words(7)]),
    "P04": dict(note="all logs up to the stated length over a few characters, through input and token buffers of 4 to 8 entries, with full reads and with every split of the log into reads",
                runs=[dict(name="full-reads", harness="p04", buf=4, params=dict(n=7, schemas=0x27), thorough=dict(n=8), cover=["event longer than the buffer", "more tokens than the buffer", "timestamp after a newline"]),
                      dict(name="short-reads", harness="p04", buf=4, params=dict(n=5, mode=1, schemas=0x27), thorough=dict(n=6)),
                      dict(name="phases", harness="p04", buf=8, params=dict(n=4, phases=16, schemas=0x27), thorough=dict(n=6), cover=["timestamp after a newline", "four events"]),
                      dict(name="words", harness="p04", buf=4, params=dict(n=1, words=4, of=5, schemas=0x27), thorough=dict(words=5, of=6, schemas=0x37), cover=["four events", "more tokens than the buffer"]),
                      dict(name="many-tokens", harness="p04", buf=4, params=dict(n=1, words=9, of=2, schemas=0x233), thorough=dict(words=11))]),
    "P05": dict(note="all logs up to the stated length over a few characters, cut into two or three pieces at every position, rest moved or appended",
                runs=[dict(name="two-pieces", harness="p05", params=dict(n=5, schemas=0x27), thorough=dict(n=7), cover=["event from an unfinished buffer", "event with timestamp from an unfinished buffer", "stopped after an event", "stopped inside an event"]),
                      dict(name="three-pieces", harness="p05", params=dict(n=4, cuts=2, schemas=0x27), thorough=dict(n=6)),
                      dict(name="words", harness="p05", params=dict(n=1, words=3, of=3, schemas=0x27), thorough=dict(words=4, of=5)),
                      dict(name="any-bytes", harness="p05", params=dict(n=4, full=1, schemas=0x27), thorough=dict(n=5, schemas=0x7f))]),
    "P06": dict(note="all logs up to the stated length; copies of every event compared with the event before and after the parser went on and the buffers were overwritten, tokens in one piece and wrapped",
                runs=[dict(name="buffer", harness="p06", buf=4, params=dict(n=6, schemas=0x27), thorough=dict(n=7), cover=["copy with timestamp", "copy without timestamp", "multi-line copy", "many tokens"]),
                      dict(name="reader", harness="p06", buf=4, params=dict(n=6, reader=1, schemas=0x27), thorough=dict(n=7), cover=["copy with timestamp", "copy without timestamp", "many tokens"]),
                      dict(name="words", harness="p06", buf=4, params=dict(n=1, words=4, of=4, schemas=0x3f), thorough=dict(words=5, of=5)),
                      dict(name="many-tokens", harness="p06", buf=4, params=dict(n=1, words=9, of=2, schemas=0x233), thorough=dict(words=11)),
                      dict(name="words-reader", harness="p06", buf=4, params=dict(n=1, words=4, of=4, reader=1, schemas=0x3f), thorough=dict(words=5, of=5)),
                      dict(name="any-bytes", harness="p06", params=dict(n=4, full=1, schemas=0x3ff), thorough=dict(n=5)),
                      dict(name="long-tokens", harness="p06", params=dict(n=2, long=1, after=4, schemas=0x3ff), thorough=dict(n=4, after=8)),
                      dict(name="huge-tokens", harness="p06", params=dict(n=1, long=2, after=4, schemas=0x3ff), thorough=dict(n=2, after=8)),
                      dict(name="long-tokens-reader", harness="p06", buf=8, params=dict(n=2, long=1, reader=1, schemas=0x27), thorough=dict(n=4))]),
    "P17": dict(note="all contents of the stated length, through buffers of 4 and 8 bytes, under every sequence of the stated number of operations",
                runs=[dict(name="operations", harness="p17", buf=4, params=dict(n=8, steps=7), thorough=dict(n=13, steps=10), cover=["refilled after consuming", "grown with the halves swapped", "grown in order", "end of file", "out of data"]),
                      dict(name="short-reads", harness="p17", buf=8, params=dict(n=6, steps=5, mode=1), thorough=dict(n=9, steps=7)),
                      dict(name="reset", harness="p17", buf=4, params=dict(n=7, steps=5, reuse=1), thorough=dict(n=9, steps=7), cover=["after a buffer of the caller's"]),
                      dict(name="faults", harness="p17", buf=4, params=dict(n=7, steps=5, faults=1), thorough=dict(n=9, steps=7), cover=["failed after some bytes", "read on after a failure", "grown after a failed read"]),
                      dict(name="storage", harness="p17", entry="storage", buf=4, params=dict(n=6), thorough=dict(n=10), cover=["finished", "unfinished"])]),
    "P16": dict(note="all buffers up to the stated size, all start and end positions, copies and assignments",
                runs=[dict(name="tokens", harness="p16", params=dict(n=6), thorough=dict(n=9), cover=["in one piece", "wrapped"]), dict(name="large", harness="p16", entry="large")]),
    "P18": dict(note="all earlier and later logs of the stated lengths over a few characters, stopped after any number of calls, for the buffer and the streaming parser, also after a failing source",
                runs=[dict(name="buffer", harness="p18", params=dict(before=3, after=2, schemas=0x27), thorough=dict(before=4, after=4), cover=["earlier log ran out", "earlier log was done", "earlier log was not done"]),
                      dict(name="reader", harness="p18", entry="reader", buf=4, params=dict(before=3, after=3, schemas=0x23), thorough=dict(before=5, after=3, schemas=0x27), cover=["earlier source failed", "earlier log was done", "earlier log was not done"]),
                      dict(name="words", harness="p18", params=dict(before=4, words=2, of=4, schemas=0x27), thorough=dict(of=7)),
                      dict(name="words-reader", harness="p18", entry="reader", buf=4, params=dict(before=4, words=2, of=4, schemas=0x27), thorough=dict(of=7))]),
    "P19": dict(note="all byte sequences of the stated length, reserved bytes included, ten schemas, complete, unfinished and streamed",
                runs=[dict(name="complete", harness="p19", params=dict(n=5, schemas=0x3ff), thorough=dict(n=6), cover=["done", "several calls"]),
                      dict(name="unfinished", harness="p19", entry="unfinished", params=dict(n=4, schemas=0x3ff), thorough=dict(n=5), cover=["end of the buffer", "event"]),
                      dict(name="reader", harness="p19", entry="reader", buf=4, params=dict(n=5, schemas=0x27), thorough=dict(n=6), cover=["done"])]),
    "P15": dict(note="all file contents of the stated length, every sequence of the stated number of calls, every open result and every position of a read fault; the C library's files are a model of their contract",
                runs=[dict(name="calls", harness="p15", params=dict(n=4, steps=4), thorough=dict(n=5, steps=5), cover=["opened", "failed to open", "not open", "read", "end of file", "line", "last line", "no line left"]),
                      dict(name="faults", harness="p15", params=dict(n=3, steps=3, faults=1), thorough=dict(n=4, steps=4), cover=["read failed", "line read failed"]),
                      dict(name="memory", harness="p15", entry="memory", cover=["failed"])],
                assumptions=["fopen, fread, getdelim, feof, ferror and fclose are replaced by a model of their ISO C / POSIX contract"]),
}
CHECKS["P08"] = dict(note="all patterns of the stated grammar up to the stated depth with every string up to the stated length; every single character, plain, escaped, in brackets and as ends of a range",
    runs=[dict(name="shapes", harness="p08", params=dict(depth=2, side=1, leaves=0, n=4, ascii=1), thorough=dict(depth=3, side=0, n=4), cover=["match", "no match"]),
          dict(name="classes", harness="p08", params=dict(depth=1, leaves=2, n=2, posts=4), thorough=dict(posts=9, n=3), cover=["match", "no match"]),
          dict(name="brackets", harness="p08", entry="brackets", params=dict(items=3, kinds=9), thorough=dict(items=4, kinds=10), cover=["match", "no match"]),
          dict(name="tails", harness="p08", entry="tails", params=dict(n=3, kinds=7), thorough=dict(n=5, kinds=8), cover=["match", "no match"]),
          dict(name="counts", harness="p08", entry="counts", cover=["match", "no match"]),
          dict(name="characters", harness="p08", entry="characters", params=dict(near=3), thorough=dict(near=0), cover=["match", "no match", "reported"])])
CHECKS["P09"] = dict(note="ten delimiter sets, at five places of the schema, with all patterns of the stated grammar up to the stated depth, and all logs up to the stated length",
    runs=[dict(name="places", harness="p09", params=dict(places=1, path=1, depth=0, n=2), thorough=dict(n=2, depth=1), cover=["reported", "accepted", "variable"]),
          dict(name="leaves", harness="p09", params=dict(depth=1, posts=7, n=1, path=0, delims=6), thorough=dict(posts=9, n=3, delims=10), cover=["reported", "accepted", "variable"]),
          dict(name="nested", harness="p09", params=dict(depth=2, leaves=1, n=1, posts=7, path=0, delims=3), thorough=dict(n=2, delims=10), cover=["reported", "accepted", "variable"])])
CHECKS["P12"] = dict(note="all sequences of the stated number of operations with arbitrary 32-bit positions and arbitrary ids",
    runs=[dict(name="tree", harness="p12", entry="tree", params=dict(steps=5), thorough=dict(steps=6), cover=["insert", "set", "unknown predecessor", "unknown node", "unknown node read"]),
          dict(name="registers", harness="p12", params=dict(steps=4), thorough=dict(steps=5), cover=["register added", "register set", "register copied", "position appended", "unknown register"])])
CHECKS["P13"] = dict(note="all sequences of the stated number of operations on intervals with arbitrary bounds of the stated number of bytes",
    runs=[dict(name="mixed", harness="p13", params=dict(steps=4, inserts=1), thorough=dict(steps=5), cover=["insert", "value replaced", "several found", "nothing found", "lookup in an empty tree", "found after a removal", "some removed"]),
          dict(name="large", harness="p13", params=dict(steps=5, inserts=4, removals=1, bytes=1), thorough=dict(steps=7, inserts=5), cover=["several removed"]),
          dict(name="twice", harness="p13", params=dict(steps=5, inserts=3, removals=1, bytes=2), thorough=dict(steps=6, inserts=4), cover=["several removed", "several found", "found after a removal"])])
CHECKS["P14"] = dict(note="all triples of a query and two variables from the stated grammar, against the product of reference automata and, with symbolic strings, against the patterns",
    runs=[dict(name="triples", harness="p14", params=dict(query=1, first=1, second=0, posts=5, n=2), thorough=dict(posts=9, n=3), cover=["none", "both", "shared string"]),
          dict(name="deep-query", harness="p14", params=dict(query=2, first=0, second=0, posts=5, n=2, leaves=0, same=1, alloc=1), thorough=dict(first=1, n=3), heap=True, cover=["none", "both"])])
CHECKS["P20"] = dict(note="three variables with every choice of their names from lists that hold repeated and built-in names, and all logs of the stated length",
    runs=[dict(name="names", harness="p20", params=dict(n=2), thorough=dict(n=3), cover=["repeated name", "variable"]),
          dict(name="timestamp", harness="p20", entry="with_timestamp", params=dict(n=3), thorough=dict(n=4), cover=["variable"]),
          dict(name="builtin", harness="p20", entry="builtin", params=dict(n=1), thorough=dict(n=2)),
          dict(name="reader", harness="p20", entry="reader", buf=4, params=dict(n=4), thorough=dict(n=6), cover=["variable"])])
CHECKS["P11"] = dict(note="all schema texts of the stated number of lines, of every kind of line and both line ends, with symbolic characters; all priorities of added variables; texts far longer than the parser's buffers and storage",
    runs=[dict(name="kinds", harness="p11", params=dict(lines=3, symbolic=0, patterns=2, indents=2, kinds=4), thorough=dict(patterns=3, kinds=5), cover=["several variables", "several lines of delimiters", "no variable"]),
          dict(name="characters", harness="p11", params=dict(lines=2, symbolic=1, patterns=1, indents=1, kinds=2), thorough=dict(kinds=3), cover=["several variables"]),
          dict(name="small-buffer", harness="p11", buf=8, params=dict(lines=2, symbolic=0, patterns=7, indents=1, kinds=5), thorough=dict(lines=3, patterns=2), cover=["several variables"]),
          dict(name="string", harness="p11", entry="from_string", buf=8, params=dict(max=27), cover=["not a schema", "several variables"]),
          dict(name="added", harness="p11", entry="added", params=dict(steps=2), thorough=dict(steps=3), cover=["lowest priority", "highest priority"]),
          dict(name="no-variable", harness="p11", entry="none_added", params=dict(none=0)),
          dict(name="no-variable-delimiters", harness="p11", entry="none_added", params=dict(none=1)),
          dict(name="many", harness="p11", entry="many", params=dict(blocks=3, count=60), thorough=dict(blocks=4), cover=["variables and delimiters"])])
CHECKS["P10"] = dict(note="every edit of the stated kind at every position of valid schemas, with every byte value; every short text in twelve frames; sequences of failing texts before a valid one; a read fault at every position of the file",
    runs=[dict(name="edits", harness="p10", params=dict(templates=4, edits=4, use=2, messages=1), weight=3, thorough=dict(templates=6, edits=5), cover=["syntax error", "other error", "schema", "refused", "parser"]),
          dict(name="bytes", harness="p10", entry="bytes", params=dict(n=1, use=2, messages=1), thorough=dict(n=2), cover=["syntax error", "schema", "refused", "parser"]),
          dict(name="small-buffer", harness="p10", entry="bytes", buf=4, params=dict(n=1, use=1, messages=1), thorough=dict(n=2), cover=["syntax error", "schema"]),
          dict(name="faults", harness="p10", entry="faults", buf=8, params=dict(templates=6), cover=["read failed"]),
          dict(name="again", harness="p10", entry="again", params=dict(steps=1, messages=1), thorough=dict(steps=2), cover=["syntax error", "other error"])])
CHECKS["P21"] = dict(note="all patterns of the stated grammar up to the stated depth; originals, copies and copies of copies, destroyed in either order; the automaton walked over every text up to the stated length against a reference",
    runs=[dict(name="grammar", harness="p21", params=dict(depth=2, n=1), thorough=dict(n=3), cover=["match", "no match", "recorded", "absent", "several captures"]),
          dict(name="captures", harness="p21", params=dict(depth=2, side=1, n=1, captures=1, posts=3), thorough=dict(posts=6, n=2), cover=["recorded", "absent", "several captures"])])
CHECKS["P24"] = dict(note="all logs of the stated length and all logs of a few words, ten schemas, as one buffer and streamed",
    runs=[log(24, 5, 0x3ff, 6, cover=["after a newline"]), words(24),
          dict(name="reader", harness="p04", buf=4, params=dict(prop=24, n=5, schemas=0x27), thorough=dict(n=6), cover=["timestamp after a newline"]),
          dict(name="reader-words", harness="p04", buf=4, params=dict(prop=24, n=1, words=3, of=4, schemas=0x3ff), thorough=dict(words=4, of=5))])
CHECKS["P25"] = dict(note="all combinations of up to the stated number of valid lines, a beginning of a line, every byte that cannot follow (below 0xF8) or the end of the text, and a rest",
    runs=[dict(name="places", harness="p25", params=dict(lines=2, messages=1), thorough=dict(lines=3), cover=["ends too early"])])
CHECKS["P23"] = dict(note="all logs of the stated length and all logs of a few words, one or two failures of the source after any number of bytes, whole and partial reads, through a buffer of 4 bytes",
    runs=[dict(name="one-failure", harness="p23", buf=4, params=dict(n=5, schemas=0x67, faults=1), thorough=dict(n=6), cover=["failed at the end", "failed after an event"]),
          dict(name="two-failures", harness="p23", buf=4, params=dict(n=4, schemas=0x27, faults=2), thorough=dict(n=5, schemas=0x3ff), cover=["failed at the end", "failed after an event"]),
          dict(name="partial-reads", harness="p23", buf=8, params=dict(n=5, schemas=0x23, faults=1, mode=1), thorough=dict(n=6, faults=2), cover=["failed after an event"]),
          dict(name="words", harness="p23", buf=4, params=dict(words=2, of=4, n=1, schemas=0x3ff, faults=1, errors=2), thorough=dict(words=3, of=5, errors=6), cover=["failed after an event"])])
CHECKS["P22"] = dict(note="all pairs of patterns of the stated grammar up to the stated depth, two sets of delimiters, all texts up to the stated length before either wildcard or none, against reference automata",
    runs=[dict(name="nested", harness="p22", params=dict(leaves=4, first=2, posts=3, n=1), thorough=dict(posts=6, n=2), cover=["variable", "variable before '?'", "variable before '*'", "text not fixed by '?'", "text not fixed by '*'"]),
          dict(name="texts", harness="p22", params=dict(leaves=1, first=1, posts=4, n=2), thorough=dict(second=1, posts=5), cover=["variable", "variable before '?'", "variable before '*'"]),
          dict(name="again", harness="p22", params=dict(leaves=4, first=1, posts=2, n=1, rounds=2), thorough=dict(posts=4, n=2), cover=["variable before '?'", "variable before '*'"])])
CHECKS["P27"] = dict(note="all sequences of the stated number of operations on a buffer of tokens and on a buffer of bytes, of four items at first, growing up to three times, with any values",
    runs=[dict(name="tokens", harness="p27", buf=4, params=dict(steps=6), thorough=dict(steps=7), cover=["grown", "reset"]),
          dict(name="bytes", harness="p27", buf=4, entry="bytes", params=dict(steps=4), thorough=dict(steps=5), cover=["grown twice", "read", "reset", "a buffer of the caller's"])])
CHECKS["P26"] = dict(note="all grammars with one or two productions for each of two nonterminals from lists of bodies, and for three nonterminals, with every text up to the stated length of any characters that are no control characters",
    runs=[dict(name="two-nonterminals", harness="p26", params=dict(n=3), thorough=dict(n=4, starts=11, others=8, terminals=3), weight=2, cover=["refused", "sentence", "not a sentence"]),
          dict(name="three-nonterminals", harness="p26", entry="deep", params=dict(n=4), thorough=dict(n=4, bodies=2, bodies3=2), weight=2, cover=["refused", "sentence", "not a sentence"]),
          dict(name="again", harness="p26", params=dict(n=2, starts=5, others=3, texts=2, twice=1), thorough=dict(starts=10, others=7), cover=["sentence after another text"]),
          dict(name="small-buffer", harness="p26", buf=4, params=dict(n=8, starts=6, others=2, only=1), thorough=dict(n=10), cover=["sentence"])])
