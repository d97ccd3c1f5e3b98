#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["src/log_surgeon/"+f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))
NOTEST = "No existing test drives this at all; "

prop("P01", "Parsing a complete buffer loses, duplicates and reorders nothing",
 "When a complete log is handed to the buffer parser, the text of the events it returns, concatenated in order, is byte for byte the log. This holds for every schema and every log content, and every returned event, other than possibly the last, is non-empty.",
 ["inputs", "configurations"], "all log contents (all byte values below the reserved start-of-file byte) and schemas, up to the stated length",
 NOTEST+"and the property is about every byte sequence, in particular the ones that end inside a token, start with a newline or a delimiter, or put a timestamp at a token boundary.",
 ["LogParser.cpp", "BufferParser.cpp", "Lexer.tpp", "LogEvent.cpp", "Token.cpp"],
 [("token boundaries: m_start_pos/m_last_match_pos", "Lexer.tpp Lexer::scan"), ("start-of-log token carried to the next event", "LogParser.cpp LogParser::parse")],
 [("m_start_of_log_message", "timestamp token that opens the next event", "LogParser.hpp")], ["LogEventView::to_string", "LogEvent::to_string"])

prop("P02", "Tokens are the longest schema match after a delimiter, else static text",
 "Each event is cut into tokens by one rule: a token is either the longest match of a schema variable directly after one delimiter (which belongs to the token) or at the very start of the log, or a newline, or else all the static text up to the next such match. If several variables match the same longest text, all of them are reported, in the order of their declaration, the first one being its type. The cut depends only on the log text and the schema, never on memory layout or on buffer positions.",
 ["inputs", "configurations"], "all log contents and all heap layouts, for schemas with overlapping variables, within the stated lengths",
 NOTEST+"heap layout and rare overlaps of patterns decide the types, and tests sample one layout and no log text.",
 ["Lexer.tpp", "LogParser.cpp", "finite_automata/RegexDFA.tpp", "finite_automata/RegexDFA.hpp", "finite_automata/RegexNFA.hpp"],
 [("longest match bookkeeping", "Lexer.tpp Lexer::scan"), ("type order of an accepting state", "RegexDFA.tpp new_state")],
 [("matching variable ids of a DFA state", "ordered candidates for the token type", "RegexDFA.hpp")], ["LogEventView::get_log_output_buffer", "Token::m_type_ids_ptr", "Token::to_string"])

prop("P03", "Events start at timestamps that start a line, otherwise at newlines",
 "A log is cut into events as follows: an event ends right before a timestamp that directly follows a newline, and, in an event that has no timestamp, also after each newline; a timestamp at the very start of the log or after a newline is the event's timestamp and is reported only then. An event is flagged multi-line exactly when it has a timestamp and some character of it follows a newline in it.",
 ["inputs", "histories"], "all log contents up to the stated length, with and without a leading timestamp, and every sequence of events",
 NOTEST+"the state carried between events (start-of-log token, found-timestamp flag) is a function of the whole history.",
 ["LogParser.cpp", "LogEvent.cpp", "Lexer.tpp"],
 [("segmentation state machine", "LogParser.cpp LogParser::parse"), ("multi-line flag", "LogEvent.cpp LogEventView / LogParser.cpp")],
 [], ["LogEventView::get_timestamp", "LogEventView::is_multiline", "event boundaries"])

prop("P04", "Streaming gives the same events whatever the read sizes and buffer size",
 "Parsing a log through the streaming reader gives exactly the events (text, token boundaries and types, timestamps) that parsing it as one buffer gives. Neither the sizes in which the reader delivers bytes nor where buffers wrap or grow can be seen in the result, and no byte is lost.",
 ["inputs", "schedules", "configurations"], "all log contents, all read-size sequences the reader interface allows, all positions of buffer wrap and growth, within the stated lengths",
 NOTEST+"wrap and growth happen only at multiples of 24,000 bytes or in tokens longer than that, and read sizes are chosen by the environment.",
 ["ReaderParser.cpp", "ParserInputBuffer.cpp", "Lexer.tpp", "LogParser.cpp", "Buffer.hpp", "LogParserOutputBuffer.cpp"],
 [("double-buffer flip", "ParserInputBuffer.cpp"), ("growth and token fix-up", "Lexer.tpp increase_buffer_capacity, ReaderParser.cpp")],
 [("m_consumed_pos, m_last_read_first_half", "which half may be overwritten", "ParserInputBuffer.hpp, Lexer.hpp")], ["ReaderParser::parse_next_event events"],
 "LOG_SURGEON_VERIF_STATIC_BUFF_SIZE shrinks the static buffer so that wrap and growth lie within the bound")

prop("P05", "An unfinished buffer stops at the start of the unparsed event and resumes",
 "When the buffer parser runs out of an unfinished buffer it reports so and leaves the offset at the beginning of the event it could not finish; calling it again with the rest of the log appended from that offset yields the same remaining events as parsing the whole log at once. After each success the offset is the start of the next event, and success is reported only for events that no continuation of the log could change. (For schemas that declare the newline as a delimiter and have no variable that matches the empty text.)",
 ["inputs", "histories"], "all log contents and all split points, within the stated lengths",
 NOTEST+"the split can fall on every byte of every token.",
 ["BufferParser.cpp", "LogParser.cpp", "Lexer.tpp", "ParserInputBuffer.cpp"],
 [("offset on BufferOutOfBounds", "BufferParser.cpp parse_next_event")], [], ["BufferParser::parse_next_event return code and offset"])

prop("P06", "A deep copy of an event says what the event says and outlives the buffer",
 "A log event made from an event view reports the same text, timestamp, log type, multi-line flag, and variables and tokens with the same values, types and line numbers as the view (for every event that has text), and keeps reporting them after the parser moved on and the input buffer was overwritten.",
 ["inputs", "histories"], "all log contents and events, with and without timestamp, within the stated lengths",
 NOTEST+"the copy is laid out from token lengths and flags that vary with the log.",
 ["LogEvent.cpp", "LogEvent.hpp", "Token.cpp", "LogParserOutputBuffer.cpp"],
 [("copying constructor", "LogEvent.cpp LogEvent::LogEvent"), ("add_token", "LogEvent.cpp LogEventView::add_token")], [], ["LogEvent and LogEventView accessors"])

prop("P07", "Event accessors agree with the event's tokens",
 "For every event, the variables reported for a schema name are exactly the event's tokens of that type in order of appearance, the timestamp is the text matched by the timestamp pattern without the preceding newline, and the log type is the event text with each variable (but not its preceding delimiter) replaced by its name in angle brackets.",
 ["inputs"], "all log contents up to the stated length, schemas with several variables and occurrences per event",
 NOTEST+"occurrence tables and the log type depend on the order and the delimiters of all tokens of an event.",
 ["LogEvent.cpp", "LogEvent.hpp", "LogParserOutputBuffer.cpp", "Token.cpp"],
 [("per-type occurrence table", "LogParser.cpp / LogEvent.hpp get_variables"), ("log type construction", "LogEvent.cpp get_logtype")], [], ["get_variables", "get_timestamp", "get_logtype"])

prop("P08", "A schema pattern matches exactly the strings its regular expression denotes",
 "For every supported regular expression (literals, escapes, classes, ranges, negated classes, dot, concatenation, parenthesised alternation, star, plus, counted repetition, capture groups), the compiled matcher accepts exactly the strings in the documented language of the expression. Repetition inside an alternation or a sequence affects nothing outside it. (The operands to the right of a bar are single characters or parenthesised groups.)",
 ["inputs", "programs"], "all expressions of the stated grammar up to the stated depth and all strings up to the stated length",
 "The tests compare the printed structure of five expressions and never match a string; language equality quantifies over all expressions and strings.",
 ["SchemaParser.cpp", "finite_automata/RegexAST.hpp", "finite_automata/RegexNFA.hpp", "finite_automata/RegexNFAState.hpp", "finite_automata/RegexDFA.hpp", "finite_automata/RegexDFA.tpp", "finite_automata/UnicodeIntervalTree.tpp", "Lexer.tpp"],
 [("Thompson construction", "RegexAST.hpp add_to_nfa"), ("subset construction", "Lexer.tpp nfa_to_dfa")], [], ["RegexDFA states reached from get_root"])

prop("P09", "Variables can never contain a delimiter",
 "No variable value other than a timestamp contains a delimiter: a dot in a pattern matches every character that is not a delimiter and no delimiter, and a schema with a variable pattern that can match text containing a delimiter is rejected with an error that names the variable's line, while every other schema is accepted. This holds for whichever characters the schema declares as delimiters and wherever in the schema they are declared. (A variable whose pattern matches the empty text may be reported empty where a line or the log starts.)",
 ["inputs", "configurations"], "all delimiter sets and patterns of the stated grammar, all log contents within the stated lengths",
 NOTEST+"the check for delimiters looks at every reachable transition of a pattern; tests never build a log parser.",
 ["LogParser.cpp", "finite_automata/RegexAST.hpp", "finite_automata/RegexNFA.hpp"],
 [("possible-input computation and rejection", "LogParser.cpp add_rules"), ("remove_delimiters_from_wildcard", "RegexAST.hpp")], [], ["LogParser construction", "variable token text"])

prop("P10", "Any schema text yields a schema or a reported error, never a crash",
 "Parsing any text as a schema either returns a schema or throws a standard runtime error with a message; it never crashes, trips an internal assertion, reads outside its data or runs forever, and building a parser from any schema so obtained is equally safe. A failed parse does not affect later parses, and a file that fails to be read is reported like a malformed text. (Repetition counts are small enough for the automaton to fit in memory.)",
 ["inputs", "histories", "fault_sequences"], "all schema texts up to the stated length, including edits of valid schemas at every position, sequences of parses, and read faults at every position of a file",
 "Tests parse five valid one-line schemas; malformed text, long text and sequences of failures are never tried.",
 ["SchemaParser.cpp", "LALR1Parser.tpp", "Lexer.tpp", "finite_automata/RegexAST.hpp", "LogParser.cpp", "ParserInputBuffer.cpp"],
 [("LALR(1) error recovery to exception", "LALR1Parser.tpp / SchemaParser.cpp"), ("semantic rules' casts and checks", "SchemaParser.cpp")], [], ["SchemaParser::try_schema_string", "ReaderParser/BufferParser constructors"])

prop("P11", "A schema keeps its variables, their names and their order",
 "Parsing a schema text yields exactly its declarations in order: each variable with its name, line and pattern, the delimiters, comments and blank lines ignored, whatever the length of the text or the line ending (the first line being a comment, a variable or a delimiter line). Adding a variable to a schema object is equivalent to writing it in the text, at the given valid priority position, and adding a text without variable is reported and changes nothing.",
 ["inputs", "histories"], "all sequences of schema lines of the stated forms up to the stated number, and texts longer than the internal buffer",
 "Tests add single variables to an empty schema; order, comments, delimiters, priorities and long texts are not covered.",
 ["SchemaParser.cpp", "Schema.cpp", "Schema.hpp", "ParserInputBuffer.cpp", "LALR1Parser.tpp"],
 [("schema semantic rules", "SchemaParser.cpp"), ("add_variable / priority", "Schema.cpp, SchemaParser.hpp")], [], ["SchemaAST::m_schema_vars", "SchemaVarAST"])

prop("P12", "Prefix tree and register operations behave like a list of position histories",
 "For every sequence of operations, inserting a node returns a fresh id whose root path is its predecessor's path plus the given position; appending, copying and reversing positions changes exactly the targeted register, and setting a position changes the last position of exactly the registers that share the target's last node, as copies do; and an id that was never issued is rejected with an out-of-range error that leaves everything unchanged.",
 ["histories", "inputs"], "all operation sequences up to the stated length with arbitrary ids and positions",
 "Tests run fixed sequences with a handful of ids; the statement is about every sequence and every id value, including huge ones.",
 ["finite_automata/PrefixTree.hpp", "finite_automata/RegisterHandler.hpp"],
 [("m_nodes/predecessor ids", "PrefixTree.hpp"), ("register to node map", "RegisterHandler.hpp")], [], ["PrefixTree and RegisterHandler public methods"])

prop("P13", "The interval tree answers like a set of disjoint labelled intervals",
 "After any sequence of insertions of disjoint intervals and removals, looking up or removing by an interval yields exactly the stored intervals that overlap it with their values (the latest one, for an interval that was inserted again), listing yields all stored intervals in increasing order, and an empty tree answers with nothing.",
 ["histories", "inputs"], "all sequences of operations up to the stated length over arbitrary interval bounds",
 NOTEST+"the answers depend on the tree's shape, which depends on the insertion order.",
 ["finite_automata/UnicodeIntervalTree.hpp", "finite_automata/UnicodeIntervalTree.tpp"],
 [("AVL balancing", "UnicodeIntervalTree.tpp balance_*"), ("find/pop", "UnicodeIntervalTree.tpp")], [], ["UnicodeIntervalTree::insert/find/pop/all"])

prop("P14", "Automaton intersection reports exactly the variables that share a string",
 "Intersecting a query automaton with a schema automaton returns precisely the set of variable ids for which some string is matched both by the query and by that variable.",
 ["programs", "inputs"], "all pairs of patterns of the stated grammar up to the stated size, all strings up to the stated length",
 NOTEST+"the answer quantifies over all strings and pairs of patterns.",
 ["finite_automata/RegexDFA.hpp", "finite_automata/RegexDFA.tpp", "Lexer.tpp"],
 [("state-pair exploration", "RegexDFA.tpp RegexDFA::get_intersect / RegexDFAStatePair")], [], ["RegexDFA::get_intersect"])

prop("P15", "Reading a file delivers its bytes in order with truthful result codes",
 "Successive reads and line reads from a file reader deliver exactly the file's bytes in order, split at the requested sizes and delimiters, whatever short reads the operating system returns; success is reported only with data, the end of file only at the end, and an unopened reader or a failed open is reported as such without changing anything.",
 ["inputs", "fault_sequences", "histories"], "all file contents, sequences of calls, and results the file layer may return, within the stated lengths",
 NOTEST+"file errors and short reads come from the environment.",
 ["FileReader.cpp", "FileReader.hpp", "Reader.hpp"],
 [("read / try_read_to_delimiter", "FileReader.cpp")], [], ["FileReader public methods"])

prop("P16", "A token reports the same text through every accessor, also when it wraps",
 "For every token, its length, its characters by index, its string and its string view agree with the bytes of the input between its start and end, whether or not it wraps around the end of the buffer, and its delimiter is its first character.",
 ["inputs"], "all buffer sizes, start and end positions and contents within the stated sizes",
 NOTEST+"wrap-around needs particular buffer positions.",
 ["Token.cpp", "Token.hpp"], [("wrap-around arithmetic", "Token.cpp")], [], ["Token::to_string, to_string_view, get_length, get_char, get_delimiter"])

prop("P17", "The input buffer hands out the reader's bytes once, in order, unchanged",
 "The characters taken from the input buffer are exactly the bytes the reader supplied, each once and in order, followed by end-of-file; refilling and growing never change, drop or repeat a byte that was read but not yet consumed, and a refill that could overwrite unconsumed data is refused.",
 ["inputs", "histories", "schedules"], "all contents, read sizes, consume positions and interleavings of take, refill and grow operations, within the stated sizes",
 NOTEST+"the failure positions are buffer halves and wrap points.",
 ["ParserInputBuffer.cpp", "ParserInputBuffer.hpp", "Buffer.hpp"],
 [("read_is_safe, increase_capacity, get_next_character", "ParserInputBuffer.cpp")], [], ["ParserInputBuffer public methods"],
 "LOG_SURGEON_VERIF_STATIC_BUFF_SIZE")

prop("P18", "A reset parser behaves like a new one",
 "After a reset, or after being given a new reader, a parser that was stopped at any point of any earlier log produces exactly the events a freshly built parser produces for the new log.",
 ["histories", "inputs"], "all earlier logs and stopping points, all later logs, within the stated lengths",
 NOTEST+"leftover state is only visible for particular combinations of the earlier log's end and the later log's start.",
 ["LogParser.cpp", "Lexer.tpp", "BufferParser.cpp", "ReaderParser.cpp", "ParserInputBuffer.cpp", "LogEvent.cpp"],
 [("reset chain", "LogParser::reset, Lexer::reset, ParserInputBuffer::reset, LogEventView::reset")], [], ["events after BufferParser::reset / ReaderParser::reset_and_set_reader"])

prop("P19", "Every log is parsed to its end, with progress on every call",
 "For every byte sequence and every schema, repeatedly asking for the next event reaches the end of the log after at most one successful call per byte and one more; the parser then says it is done and says so not earlier, and no call crashes, trips an internal assertion, accesses memory outside its buffers or runs forever.",
 ["inputs", "configurations"], "all byte values including non-ASCII ones and control bytes, logs up to the stated length, several schemas including ones without timestamps or variables",
 NOTEST+"the byte values and endings that matter are rare ones.",
 ["LogParser.cpp", "Lexer.tpp", "BufferParser.cpp", "ReaderParser.cpp", "ParserInputBuffer.cpp"],
 [("parsing loop and done()", "LogParser.cpp, BufferParser.cpp, ReaderParser.cpp")], [], ["return codes of parse_next_event, done()"])

prop("P20", "Variable names and ids translate both ways",
 "Every name a schema declares has one variable id, the id's name is that name, different names have different ids, names the schema does not declare have no id, and the id reported with a variable value in an event is the id of the name under which it was declared. (Names of the parser's own tokens have ids even when not declared.)",
 ["inputs", "configurations"], "all sets of names up to the stated number, including repeated and reserved-looking names, and all logs within the stated length",
 NOTEST+"repeated names and reserved ids are configurations no test builds.",
 ["LogParser.cpp", "LogParser.hpp", "Lexer.tpp", "Parser.tpp", "Lexer.hpp"],
 [("m_symbol_id / m_id_symbol", "LogParser.cpp add_rules")], [], ["get_variable_id, get_id_symbol"])

prop("P21", "Copies of a pattern are equal, independent and keep capture tags",
 "A copy of a whole pattern is printed and matched exactly like the original, also after the original is gone, and whenever a pattern matches, each of its capture groups ends up recorded (started, then ended) if the last alternative or repetition taken contains it, and marked absent if it was bypassed.",
 ["programs", "histories"], "all patterns of the stated grammar up to the stated depth, all orders of destroying originals and copies",
 "Tests print originals only; dangling tags show only after the original is destroyed.",
 ["finite_automata/RegexAST.hpp", "finite_automata/Tag.hpp", "finite_automata/TaggedTransition.hpp", "finite_automata/RegexNFA.hpp"],
 [("clone() and tag sets", "RegexAST.hpp copy constructors"), ("negative tags of alternatives", "RegexAST.hpp RegexASTOr")], [], ["RegexAST::clone, serialize, RegexNFA::serialize"])

prop("P22", "A search text stays a variable whatever its wildcard stands for",
 "Scanning a text that holds no delimiter, followed by a wildcard, reports the text as the variables that match it exactly if some variable matches it whatever the wildcard stands for ('?': any one character that is not a delimiter; '*': any number of them), and otherwise reports the whole text as static; without a wildcard it reports exactly the variables that match the text. A character is said to be a first character exactly if some variable starts with it, and a delimiter exactly if it was declared as one.",
 ["inputs", "configurations"], "all pairs of patterns of the stated grammar, two sets of delimiters, all texts up to the stated length, every wildcard, repeated scans after a reset",
 "No test scans with a wildcard; whether a replacement is missed depends on the combination of patterns and text.",
 ["Lexer.tpp", "Lexer.hpp"],
 [("scan_with_wildcard", "Lexer.tpp"), ("m_is_first_char in generate", "Lexer.tpp")], [], ["Lexer::scan_with_wildcard, scan, is_first_char, is_delimiter, get_rule"])

prop("P23", "A failing source is reported and costs nothing that is read later",
 "When the source of a streaming parser fails, the call that met the failure returns the source's error, delivers no event and does not end the log; a call fails only if the source failed during it. If the parser is called again and the source goes on, the events are exactly those of the same log without any failure, whatever the number of failures, the bytes they come after, and the sizes of the reads.",
 ["inputs", "fault_sequences", "configurations"], "all logs up to the stated length, every position of up to two failures, every way of cutting the reads",
 "No test lets a source fail; a failure has to come at particular fill levels of the two halves of the buffer or in the middle of an event.",
 ["ReaderParser.cpp", "ParserInputBuffer.cpp", "LogParser.cpp", "Lexer.tpp"],
 [("parse_next_event", "ReaderParser.cpp"), ("read, read_if_safe, increase_capacity", "ParserInputBuffer.cpp")], [], ["return codes and events of ReaderParser::parse_next_event, done()"])

prop("P24", "A token's line number is the number of newlines up to its end",
 "Every token of every event of a log, parsed as one buffer or streamed, carries as its line the number of newline characters in the log up to and including the token.",
 ["inputs", "configurations"], "all logs up to the stated length, ten schemas, one buffer and streamed through a buffer of 4 bytes",
 NOTEST+"the count has to survive rewinding after failed matches, tokens that span newlines, and buffer growth.",
 ["Lexer.tpp", "Token.hpp", "LogParser.cpp"],
 [("m_line, m_match_line, m_last_match_line", "Lexer.tpp"), ("Token::m_line", "Token.hpp")], [], ["Token::m_line"])

prop("P25", "A schema syntax error names and shows the place of the error",
 "When a schema text has a syntax error, the exception's message begins with the line and the column of the first character that cannot continue a schema (or of the end of the text, if it ends too early), and its last two lines show the text of that line and a mark under that column.",
 ["inputs"], "all bytes that cannot follow (below 0xF8, not NUL) after beginnings of lines of several kinds, after any of several kinds of valid lines, with several rests of the text",
 "No test looks at an error message; the place depends on how tokens before the error were combined into stack symbols.",
 ["LALR1Parser.tpp", "SchemaParser.cpp", "Lexer.tpp"],
 [("report_error, get_input_after_last_newline, get_input_until_next_newline", "LALR1Parser.tpp")], [], ["what() of the exception of SchemaParser::try_schema_file"])

prop("P26", "A generated parser accepts exactly the sentences of its grammar",
 "A parser generated from tokens and productions accepts a text exactly if the first production's head derives it; it then calls the productions' semantic rules, each with its body's children, for one derivation of the text, and otherwise throws, and it can be used again after either. Generating a parser is refused for a grammar with ambiguous sentences and never for an SLR(1) grammar. A production added again only replaces the rule.",
 ["programs", "inputs", "histories"], "all grammars with up to two productions per nonterminal from stated lists of bodies, two or three nonterminals, all texts up to the stated length, two texts in a row, small buffers",
 "The tests only use the grammar of schemas; a wrong lookahead shows only for grammars with empty productions or shared contexts and particular sentences.",
 ["LALR1Parser.tpp", "LALR1Parser.hpp", "LALR1Parser.cpp", "Parser.tpp"],
 [("generate_first_sets, generate_lr1_item_sets, generate_lr1_closure", "LALR1Parser.tpp"), ("generate_lalr1_action", "LALR1Parser.tpp"), ("parse, parse_advance, parse_symbol", "LALR1Parser.tpp")], [], ["LALR1Parser::add_token, add_production, generate, parse; NonTerminal; semantic rules"])

prop("P27", "Growing buffers keep their items, and pointers into them stay valid",
 "After any sequence of setting, moving, growing, reading and resetting, a buffer's size, position and flags are those implied by the operations, each item that was set holds the value last set, also after growing (with the content copied, for a byte buffer), and what a pointer taken before growing points to keeps its content until the buffer is reset. A reader's result and the bytes it delivered are passed on unchanged, and a caller's own area is used where it is set.",
 ["histories", "inputs"], "all sequences of the stated number of operations on either buffer, sizes of four growing up to three times, any values",
 "Buffers hold tens of thousands of items in the tests and hardly ever grow there; tokens point into areas that growing replaces.",
 ["Buffer.hpp", "LogParserOutputBuffer.hpp", "LogParserOutputBuffer.cpp"],
 [("double_size, reset, copy, read, set_active_buffer", "Buffer.hpp"), ("advance_to_next_token", "LogParserOutputBuffer.cpp")], [], ["Buffer, LogParserOutputBuffer"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
