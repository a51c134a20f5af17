#!/usr/bin/env python3
"""writes properties.jsonl (kept as a generator so the list stays uniform)"""
import json, os
I = "include/ss/"
P = []
def p(id, title, st, over, qt, why, files, mech, obs, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": obs, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": st,
              "quantifier": {"over": over, "text": qt},
              "why_tests_cant": why, "anchors": a})

p("P01", "Every line of the input is delivered exactly once, in order and whole",
  "Without multiline, reading to the end of data delivers every physical line exactly once, in order and with all its bytes: a line ends at LF or CRLF (mixed endings are fine and never part of the row), the last line may lack an ending, lines may have any length, and a file and a memory buffer with the same bytes give the same rows. "
  "With ignore_empty exactly the lines of length zero are left out, with ignore_header exactly the first row, with neither option nothing is left out.",
  ["inputs", "configurations"],
  "all byte sequences (without NUL), all line lengths and line ending mixes, both input sources, ignore_empty/ignore_header on or off",
  "the tests use a handful of short generated files; line lengths around the growth points of the line buffer, mixed endings and endings at the end of data are not enumerated",
  [I+"parser.hpp", I+"common.hpp"],
  [("line reading with growing buffer", I+"common.hpp:get_line_buffer,get_line_file,get_line"), ("end of line removal and empty line skipping", I+"parser.hpp:reader::read_next,remove_eol"), ("one line look ahead", I+"parser.hpp:reader::update,read_line")],
  ["values returned by get_next until eof()"],
  [("position in the data", "which lines have been handed out", I+"parser.hpp:reader")])

p("P02", "A row is cut at exactly the delimiter occurrences, fields are verbatim",
  "Outside of quotes and escapes a non-empty row is cut at every left-to-right non-overlapping occurrence of the delimiter (any non-empty string, partial occurrences included in fields), giving one more field than occurrences, empty fields included. "
  "Each field is the exact text between delimiters, minus only the configured trim characters on the configured sides (left, right or both, at every field including the first and the last). "
  "An empty delimiter is reported as an error.",
  ["inputs", "configurations"],
  "all rows, all non-empty delimiters which share no character with quote/escape/trim characters, all trim character sets",
  "the tests combine a few fields and spacings; partial delimiter matches, empty fields at every position and different left/right trim sets are sampled only",
  [I+"splitter.hpp", I+"setup.hpp"],
  [("delimiter matching", I+"splitter.hpp:match_delimiter"), ("trimming", I+"splitter.hpp:trim_left_if_enabled,trim_right_if_enabled")],
  ["converter split(), convert<string...>()", "parser get_next<string...>()"])

p("P03", "Quoting, escaping and trimming decode to one meaning; malformed rows fail",
  "A field that starts with the quote character extends to its closing quote and is delivered without the quotes, a doubled quote inside it is one quote, delimiters and spacing inside it are kept; with escape enabled an escape character is removed and the character after it is taken literally, both inside and outside of quotes; trim characters around an (un)quoted field are dropped, inside it they are kept. "
  "A row with text after a closing quote, with an unclosed quote or with an escape as its last character (without multiline) is reported as an error and never delivered as data.",
  ["inputs", "configurations"],
  "all rows and all combinations of quote, escape (one or more characters), trim, trim_left, trim_right",
  "the meaning of a character depends on all characters before it in the row; the tests sample combinations of well-formed fields and few malformed ones",
  [I+"splitter.hpp"],
  [("in-place unescaping of quoted and normal fields", I+"splitter.hpp:read_quoted,read_normal,shift_and_set_current"), ("error detection", I+"splitter.hpp:handle_error_*")],
  ["converter convert/split, parser get_next"],
  [("begin/curr/end/escaped", "window of the field being decoded in place", I+"splitter.hpp")])

p("P04", "Fields encoded with quotes or escapes are read back unchanged",
  "If any list of text fields is written as one row by quoting each field (quotes inside doubled or escaped), or by escaping every special character, optionally with trim characters around the fields, then reading that row with the matching setup gives back exactly the same list of fields. "
  "The same holds for whole documents of such rows, and, with multiline, for fields containing LF or CRLF line endings.",
  ["inputs", "configurations"],
  "all lists of fields over all characters (without NUL), all ways to encode each field, all delimiters and matching setups",
  "tests check selected encoded strings; the round trip quantifies over all field contents and encodings",
  [I+"splitter.hpp", I+"parser.hpp"],
  [("decoding", I+"splitter.hpp:read_quoted,read_normal"), ("joining of lines", I+"parser.hpp:reader::parse")],
  ["converter convert, parser get_next"])

p("P05", "A multiline row is its lines joined with their original line endings",
  "With multiline, a row whose line ends inside an open quote, or ends with an escape character that is not itself escaped, continues on the next line, with the original line ending (LF or CRLF) kept as part of the field; all other rows end at their line, so a document is always cut into rows in one way, whatever the number and length of the lines joined. "
  "If the data end while a row is still open, that row is reported as an error.",
  ["inputs", "configurations"],
  "all documents, all numbers of joined lines, all line lengths, setups with quote and/or escape and any trim",
  "joining resumes a half finished in-place split in a reallocated buffer; the tests use a few generated values with short lines and uniform endings",
  [I+"parser.hpp", I+"splitter.hpp"],
  [("joining", I+"parser.hpp:reader::parse,append_next_line_to_buffer,undo_remove_eol,realloc_concat,escaped_eol"), ("continuing a split", I+"splitter.hpp:resplit,adjust_ranges")],
  ["get_next values, line(), eof()"])

p("P06", "multiline_restricted bounds how many lines one row may take",
  "With multiline_restricted<N> a row may be continued over at most N line ends, counting quoted and escaped ones together: a row that needs at most N is delivered exactly as with unrestricted multiline, a row that needs more is reported as an error. "
  "The bound applies to each row separately, and after such an error reading goes on with the first line that was not yet taken.",
  ["inputs", "configurations", "histories"],
  "all N, all documents mixing quoted and escaped line ends below, at and above the bound",
  "tests use one limit per setup and few shapes of rows",
  [I+"parser.hpp"],
  [("limit counting", I+"parser.hpp:reader::multiline_limit_reached,parse")],
  ["get_next validity and values"])

p("P07", "A bad row is reported once and never disturbs the rows around it",
  "Whatever is wrong with a row (malformed quoting, wrong number of columns, failed conversion or restriction, unterminated or too long multiline), exactly that read reports an error, in every error mode. "
  "All rows before and after it are delivered exactly as if the bad row were replaced by a good one, and the error state is cleared by the next successful read.",
  ["inputs", "histories"],
  "all documents with bad rows of every kind at every position, including first, last and consecutive ones, and all error modes",
  "tests check one bad row per document in few positions; state left by a failed split, conversion or join leaks only with particular successors",
  [I+"parser.hpp", I+"converter.hpp", I+"splitter.hpp"],
  [("error state", I+"parser.hpp:clear_error, "+I+"converter.hpp:clear_error, "+I+"splitter.hpp:clear_error"), ("row hand over", I+"parser.hpp:get_next,reader::update")],
  ["valid(), returned values, exceptions"])

p("P08", "The three error modes accept the same rows and report the same failures",
  "For the same data, setup and calls, the default mode, string_error and throw_on_error accept exactly the same rows with the same values and fail on exactly the same calls: default and string_error make valid() false (string_error with a non-empty message), throw_on_error throws ss::exception and nothing else. "
  "After a thrown exception the parser stands at the same place as after the same error in the other modes and can go on reading, and in throwing mode valid() stays true.",
  ["inputs", "histories", "configurations"],
  "all documents, all sequences of calls, all setups; each run in the three modes",
  "mode specific code paths (captured line number, read ahead in catch handlers) are only compared on single examples",
  [I+"parser.hpp", I+"converter.hpp", I+"splitter.hpp"],
  [("mode dependent error handling", I+"parser.hpp:get_next,handle_error_*,decorate_rethrow")],
  ["valid(), error_msg(), exceptions, values, line(), position(), eof()"])

p("P09", "eof, line and position always tell how much of the input has been read",
  "After every call, position() is the byte offset at which the next unread row starts and line() is the number of physical lines before that row (lines skipped by ignore_empty and lines joined by multiline included); at the end they equal the size of the data and the number of lines. "
  "eof() is true exactly when no unread row is left; reading at eof reports an error, changes nothing, and never delivers a row.",
  ["inputs", "histories"],
  "all documents (file and buffer), all sequences of reading, skipping and querying calls, including calls made at eof",
  "tests look at line() and position() for simple files; multi-line rows, blank lines, CRLF, failed reads and calls past the end interact",
  [I+"parser.hpp", I+"common.hpp"],
  [("look ahead reading", I+"parser.hpp:reader::read_next,read_line,line,position,eof,ignore_next")],
  ["eof(), line(), position(), ignore_next()"],
  [("line_number_, chars_read_, eof_", "cursor of the parser", I+"parser.hpp")])

p("P10", "use_fields delivers exactly the named columns, in the order they are named",
  "After a successful use_fields(f1..fn) every read delivers for its i-th type the value of the column whose header name is fi, for any order and subset of the header, until the next successful use_fields; if the header row has not been read yet it is skipped. "
  "A read with a number of types different from n, or on a row whose number of columns differs from that of the header, fails.",
  ["inputs", "histories"],
  "all headers and rows, all ordered subsets of fields, repeated use_fields at any point of the reading",
  "tests use fixed headers and a few permutations; remapping in the middle of the data and columns past the mapping are sampled",
  [I+"parser.hpp", I+"converter.hpp"],
  [("column mapping", I+"parser.hpp:use_fields, "+I+"converter.hpp:set_column_mapping,column_position")],
  ["use_fields, get_next, try_next, iterate"])

p("P11", "Header queries are truthful and a failed use_fields changes nothing",
  "raw_header() is always the first row as written, header() its fields decoded with the same quoting, escaping and trimming as data (without multiline), and field_exists(f) holds exactly if f is one of them, at any time before, during and after reading. "
  "use_fields with no field, an unknown field, a repeated field, or on a header that has duplicate names or cannot be split reports an error; neither such a failure nor any header query moves the read position or changes the mapping in use.",
  ["inputs", "histories"],
  "all header rows, all field lists, at every point of a reading history",
  "tests call header functions at the start of well-formed files",
  [I+"parser.hpp"],
  [("header handling", I+"parser.hpp:header,raw_header,field_exists,use_fields,split_header_data")],
  ["header(), raw_header(), field_exists(), valid(), subsequent reads"])

p("P12", "Integers convert exactly if and only if the text is in range",
  "For every integer type (short to unsigned long long, ss::int8 and ss::uint8) a field converts exactly when it is a non-empty run of decimal digits, with an optional leading minus for signed types, and its value is in the range of the type; the delivered value is that number. "
  "Everything else (spaces, plus sign, minus for unsigned types, trailing or leading text, overflow by one) is a reported failure.",
  ["inputs", "configurations"],
  "all texts and all integer types",
  "boundaries of each type, long runs of leading zeros and stray characters at every position exceed the sampled values",
  [I+"extract.hpp"],
  [("integer conversion", I+"extract.hpp:to_num,extract,numeric_wrapper")],
  ["convert/get_next values and validity"])

p("P13", "Characters, booleans, strings, optional and variant follow their rules",
  "A char, int8_t or uint8_t takes exactly one-character fields; a bool takes exactly 1, 0, true and false; std::string and string_view take every field unchanged; a variant takes the first of its alternatives that accepts the field and fails if none does; an optional never fails and is empty exactly if its type does not accept the field. "
  "A type with a user supplied extract function takes exactly what that function accepts.",
  ["inputs", "configurations"],
  "all texts, all element types in optional and variant, any order of alternatives",
  "tests use a few texts per type; prefixes, longer texts and alternatives accepting the same text are sampled",
  [I+"extract.hpp"],
  [("extraction", I+"extract.hpp:extract,extract_variant")],
  ["convert/get_next values and validity"])

p("P14", "Decimal numbers convert to the nearest float or double",
  "A field that is a decimal numeral (optional minus, digits with optional fraction, optional exponent) of any length within the range of the type converts to the closest representable float or double, ties to even, both with the bundled fast_float path and without it. "
  "Empty fields, and fields with text before or after the numeral or without any digit, are reported as failures.",
  ["inputs", "configurations"],
  "all decimal numerals of any number of digits, float and double, both conversion back ends",
  "tests check some numbers; correctness of rounding and handling of long numerals quantify over all digit strings",
  [I+"extract.hpp"],
  [("floating point conversion", I+"extract.hpp:to_num")],
  ["convert/get_next values and validity"])

p("P15", "A restricted value is delivered exactly when it meets its restriction",
  "A column declared with ax, nx, gt, gte, lt, lte, ir, oor, ne or a user defined validator is delivered exactly when the field converts to the underlying type and the value satisfies the stated relation (bounds of gte, lte and ir included, those of gt, lt and oor excluded); otherwise the read fails. "
  "Every restriction in the list is applied to its own column, independent of its position and of the other columns.",
  ["inputs", "configurations"],
  "all values of the underlying type, all restriction kinds, all positions in the column list",
  "tests check each restriction next to a few values",
  [I+"restrictions.hpp", I+"converter.hpp"],
  [("restrictions", I+"restrictions.hpp"), ("validation", I+"converter.hpp:extract_one")],
  ["convert/get_next values and validity"])

p("P16", "A read yields all requested columns or nothing",
  "A conversion succeeds only if the number of requested types equals the number of columns and every non-void column converts; then it delivers one value per non-void type in column order (a bare value if there is only one), void columns are ignored whatever they contain, and get_object, convert_object, tuples and tied classes deliver the same values as members in the same order. "
  "A failed conversion delivers only default constructed values.",
  ["inputs", "configurations"],
  "all rows, all type lists including void, tuple, tied class and object forms",
  "type lists are a compile time dimension; tests check few lists against few malformed rows and do not look at values after failures",
  [I+"converter.hpp", I+"type_traits.hpp", I+"parser.hpp"],
  [("tuple building", I+"converter.hpp:convert_impl,extract_multiple,extract_tuple"), ("object building", I+"type_traits.hpp:to_object")],
  ["convert, convert_object, get_next, get_object"])

p("P17", "Chained conversions deliver the first alternative that accepts the row",
  "In try_next/try_object(...).or_else/or_object(...) all alternatives are tried on the same row, in order, until the first one that converts and whose check (if it returns a condition) is not false; only that alternative carries a value, its callback runs exactly once with the converted value, later alternatives and their callbacks are not evaluated, and valid() tells whether one succeeded. "
  "on_error handlers run exactly when everything before them in the chain failed, and the chain consumes exactly one row.",
  ["inputs", "histories", "configurations"],
  "all rows, all chains of alternatives and check outcomes, including rows that cannot be split and reads at eof",
  "tests use chains on well-formed rows with at most one failing alternative",
  [I+"parser.hpp"],
  [("composite", I+"parser.hpp:composite,try_next,try_object,try_invoke")],
  ["values(), callback invocations, valid()"])

p("P18", "Iterating is the same as repeated reading",
  "A loop over iterate<Ts...>() or iterate_object<T, Ts...>() visits exactly the rows, values and per-row validity that repeated get_next/get_object calls would give, from the current position to the end of data, once each. "
  "A loop on a parser at eof visits nothing, and loops, single reads and ignore_next can be mixed in any order, also within the body of a loop.",
  ["inputs", "histories"],
  "all documents, start positions and mixes of loops and single reads, including bad rows",
  "tests loop over small well-formed files from the start",
  [I+"parser.hpp"],
  [("iterator", I+"parser.hpp:iterable,iterator")],
  ["values and validity within range-for loops"])

p("P19", "A moved parser continues exactly where the original stood",
  "Moving a parser (construction or assignment, at any point of the reading, in any error state, with a mapping in use) gives a parser that delivers the remaining rows, cursor, header, mapping and error state as the original would have; the parser assigned to forgets all its own data, and its resources are released. "
  "string_view values stay equal to their field until the next read on the same parser, whatever is queried in between.",
  ["histories", "inputs"],
  "all points of a reading history at which a move can happen, file and buffer parsers in both roles",
  "tests move parsers at one or two points of simple files",
  [I+"parser.hpp"],
  [("moves", I+"parser.hpp:reader::reader(reader&&),operator=,release"), ("double buffering", I+"parser.hpp:reader::update")],
  ["reads after a move, string_view contents, sanitizer reports"])

p("P20", "Results depend only on the data and setup, never on earlier use",
  "A converter gives for each line the same result, validity and fields as a fresh converter would, whatever lines, failures and type lists it processed before; converting from the cached split or from a split_data gives the same as converting the line directly. "
  "Any number of parsers and converters used interleaved, or at the same time in different threads, do not influence each other: what one does is the same as if it were alone, and they have no memory in common.",
  ["histories", "inputs"],
  "all histories of lines and calls, all interleavings of independent objects, all schedules of threads with objects of their own",
  "leftover error flags, field windows and buffers matter only for particular sequences of calls",
  [I+"converter.hpp", I+"splitter.hpp", I+"parser.hpp"],
  [("state reset", I+"converter.hpp:split,convert,clear_error, "+I+"splitter.hpp:split,clear_error")],
  ["convert, split, valid, unterminated_quote over histories"])

p("P21", "All shipped build variants of the library behave the same",
  "The single header file, a freshly generated single header, and the line reader used on platforms without getline give the same rows, fields, values, cursor and errors as the regular headers for the same data and calls.",
  ["configurations", "inputs"],
  "all documents and calls, over the build variants",
  "the tests run against the regular headers on a POSIX system only",
  ["ssp.hpp", "script/single_header_generator.py", I+"common.hpp", I+"extract.hpp"],
  [("single header generation", "script/single_header_generator.py"), ("portable line reading", I+"common.hpp:get_line_file")],
  ["the same observations as for the regular headers"])

p("P22", "Setups are accepted exactly if consistent, and mean the same in any order",
  "A list of setup options compiles exactly if no option is given twice, quote/escape/trim characters do not overlap, trim is not combined with trim_left or trim_right, multiline comes with quote or escape, and string_error is not combined with throw_on_error. "
  "The order of the options, and wrapping them in ss::setup, does not change the behaviour of parser and converter.",
  ["configurations", "programs"],
  "all combinations and orders of options",
  "tests compile a fixed list of setups, and cannot contain setups that must be rejected",
  [I+"setup.hpp"],
  [("static checks", I+"setup.hpp:setup"), ("option lookup", I+"setup.hpp:get_matcher,get_multiline")],
  ["compilation result, behaviour of permuted setups"])

p("P23", "Arbitrary bytes are read to the end without crash, hang or memory error",
  "For any bytes (NUL, control and non-ASCII bytes included), any setup and any calls, every read terminates, consumes at least one line, stays within the data, and executes no undefined memory access, and reading reaches eof after at most as many reads as there are lines.",
  ["inputs", "configurations", "histories"],
  "all byte sequences and call sequences over all setups, under address and undefined behaviour sanitizers",
  "tests only use printable well-behaved content",
  [I+"parser.hpp", I+"splitter.hpp", I+"common.hpp"],
  [("in-place window arithmetic", I+"splitter.hpp"), ("buffer growth", I+"common.hpp, "+I+"parser.hpp:reader::realloc_concat")],
  ["sanitizer reports, termination, cursor"])

p("P24", "Error reports name the place and the cause of the failure",
  "In string_error and throw_on_error modes the report of a failed read contains the name of the file (or buffer), the number of the last physical line of the row, and for a failed conversion or restriction the number of the first failing type in the list with the text of the offending field and the message of the validator; for a wrong column count the expected and the actual number; for a row that cannot be split or a read at the end, the word that says so (quote, escape, limit, end). "
  "Failed use_fields calls name the file and the offending field.",
  ["inputs", "histories", "configurations"],
  "all documents and failing reads, every column position, with and without mapping, blank lines, header skipping and multi-line rows in front",
  "tests mostly check that a message is present",
  [I+"parser.hpp", I+"converter.hpp"],
  [("message building", I+"parser.hpp:handle_error_*,decorate_rethrow, "+I+"converter.hpp:error_sufix,handle_error_*")],
  ["error_msg(), what()"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
