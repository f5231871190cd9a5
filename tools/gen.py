#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U, I, G, C = "api/src/cmp/unicode/", "api/src/cmp/io/", "api/src/cmp/desktop_gui/", "api/src/cmp/core/"
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

p("C01", "Code units, code points, digits and whitespace are classified as Unicode says",
  "For every 32-bit value, is_code_point_valid is true exactly for the Unicode scalar values (0 to 10FFFF without D800 to DFFF). For every code unit, the classifiers of UTF-8 bytes (standalone, leading, trailing) and UTF-16 surrogates (leading, trailing, either) say exactly what the encoding's definition says. For every radix from 2 to 36, is_radix_digit accepts exactly the characters 0-9, A-Z and a-z whose value is below the radix, and is_whitespace accepts exactly the code points with the White_Space property.",
  ["inputs"], "every 8-, 16- and 32-bit value, every radix 2..36",
  "tests sample a handful of characters; 2^32 values times 35 radices are out of reach",
  [U + "examiners.ipp"], [("is_code_point_valid, is_radix_digit, is_whitespace, surrogate and byte examiners", U + "examiners.ipp")])
p("C02", "Adding a code point to a string encodes it correctly and changes nothing else",
  "insert_code_point, append_code_point and prepend_code_point put exactly the UTF-8, UTF-16, UTF-32, wide or narrow encoding of the code point at the requested index and leave all other code units as they were. A value that is not a Unicode scalar value is refused with invalid_code_point in UTF-8 and UTF-16 strings, and the string is then unchanged; strings with one code unit per code point store the value as it is.",
  ["inputs"], "every 32-bit code point value, every existing content and every insertion index",
  "tests insert a few well-formed characters; boundaries of the length classes and invalid values are not sampled",
  [U + "algorithms.ipp", U + "impl/impl.cpp"], [("insert_code_point, append_code_point, prepend_code_point", U + "algorithms.ipp")])
p("C03", "Forward iteration decodes well-formed text and refuses ill-formed text safely",
  "Iterating over a text by code point yields exactly its code points, in order, in every encoding, and visits every code unit once. On ill-formed UTF-8 (overlong, surrogate, out of range, stray or missing trailing bytes) or UTF-16 (unpaired surrogate) it throws instead of yielding a wrong code point, and a text that ends inside a sequence throws iterated_past_end; no byte outside the text is ever read.",
  ["inputs"], "every sequence of code units, well-formed or not",
  "tests iterate over a few fixed well-formed strings; ill-formed and truncated sequences are not tried",
  [U + "by_code_point.cpp", U + "impl/impl.cpp"], [("dereference and increment of code point iterators", U + "by_code_point.cpp")])
p("C04", "Backward iteration and offsets are the exact inverse of forward iteration",
  "On well-formed text, decrementing a code point iterator returns to the previous code point and yields the same value as on the way forward, reverse iteration yields the reverse sequence, and adding or subtracting n moves exactly n code points. Iterators are equal exactly if they are at the same position.",
  ["inputs"], "every well-formed text, every start position and every offset inside the text",
  "tests walk a few strings with mostly one sequence length",
  [U + "by_code_point.cpp"], [("operator --, +, -, +=, -= of the iterators", U + "by_code_point.cpp")])
p("C05", "Conversion between encodings preserves the text or fails",
  "Converting a well-formed text between UTF-8, UTF-16, UTF-32, wide and (for ASCII) narrow strings yields the well-formed encoding of exactly the same code points, so converting back restores the original. Ill-formed UTF-8 or UTF-16 never converts: the conversion throws.",
  ["inputs"], "every text and every pair of encodings",
  "tests convert one sample string per pair",
  [U + "algorithms.ipp"], [("convert_string and the code point loop behind it", U + "algorithms.ipp")])
p("C06", "validate_string accepts exactly the well-formed texts",
  "For every sequence of code units, validate_string reports success exactly if the sequence is well-formed in its encoding as the Unicode standard defines it; otherwise the iterator it returns is just past the last valid code point before the first ill-formed sequence. It never reads outside the text.",
  ["inputs"], "every sequence of code units",
  "tests validate a few strings; the borders of well-formedness (overlong forms, surrogates, truncation) are many",
  [U + "algorithms.ipp", U + "impl/impl.cpp"], [("validate_string", U + "algorithms.ipp")])
p("C07", "starts_with and ends_with compare by code point across encodings",
  "For well-formed texts in any two encodings, starts_with (ends_with) is true exactly if the code points of the second text are a prefix (suffix) of those of the first; an empty second text always is.",
  ["inputs"], "every pair of well-formed texts, every pair of encodings",
  "tests try a few pairs",
  [U + "algorithms.ipp"], [("starts_with, ends_with", U + "algorithms.ipp")])
p("C08", "format_integer writes the canonical digits of every value",
  "For every integer, radix, sign mode and thousands separator, format_integer writes the canonical representation: upper-case digits without leading zeros, a minus for negative values (a plus for positive ones only if the sign is always shown), separators between groups of three digits counted from the right and nowhere else, and zero as 0. The smallest value of a signed type is no exception, and all string types get the same characters.",
  ["inputs", "configurations"], "every value of every integer type, radix 2..36, sign mode, separator, string type",
  "tests format a few numbers; group borders, extremes and odd radices are not sampled",
  [U + "formatters.ipp"], [("format_integer", U + "formatters.ipp")])
p("C09", "parse_integer accepts exactly the well-formed representable numbers",
  "For every text and format, parse_integer returns the denoted value if the text is an optional sign followed by digits of the radix (upper or lower case), grouped by three from the right exactly if a separator is set, and the value fits the type; otherwise it throws and never returns a wrong or wrapped value. A minus is accepted for signed types in every sign mode, a plus only if the sign is always shown; empty text is reported as empty_input.",
  ["inputs", "configurations"], "every text in every encoding, radix 2..36, sign mode, separator, integer type",
  "tests parse a few numbers; limits of the types, misplaced separators and signs, ill-formed text are unbounded",
  [U + "parsers.ipp"], [("parse_integer", U + "parsers.ipp")])
p("C10", "Integers survive a round trip through text",
  "For every value and every format, parsing with a format the text that formatting with the same format produced gives back the value.",
  ["inputs", "configurations"], "every value of every integer type and every format",
  "tests round-trip no value at all",
  [U + "formatters.ipp", U + "parsers.ipp"], [("format_integer, parse_integer", U)])
p("C11", "Truth values are formatted and parsed exactly as the format says",
  "format_bool writes exactly the format's true or false text, in every string type and whatever encoding the format uses. parse_bool returns true (false) exactly for the true (false) text and throws for any other text, empty text included.",
  ["inputs", "configurations"], "every pair of texts in the format, every input text, every encoding",
  "tests use the default texts",
  [U + "formatters.ipp", U + "parsers.ipp"], [("format_bool, parse_bool", U)])
p("C12", "format_floating_point writes the exact value within the place limit",
  "format_floating_point writes the sign, the integral digits, the chosen radix character and the fraction digits that denote exactly the value (as long as it has few enough significant bits for computing digit by digit in its type to be exact), cut off (not rounded) or padded with zeros to the number of places as the place limit mode demands; without a limit all places of a fraction that ends in the radix are written. Separators group the integral digits in threes from the right and the written fraction digits in threes from the left, and never end the text. A value that is not finite or whose magnitude is 2^63 or more is refused with std::out_of_range, and formatting always terminates without undefined behaviour.",
  ["inputs", "configurations"], "every double, radix, sign mode, separator, radix character, place limit",
  "tests format a few numbers in radix 10",
  [U + "formatters.ipp"], [("format_floating_point", U + "formatters.ipp")])
p("C13", "parse_floating_point accepts exactly conforming text and yields its value",
  "For every text and format, parse_floating_point accepts exactly an optional sign, digits of the radix and, as the place limit allows, the chosen radix character followed by fraction digits, and returns the denoted value (exactly, where it is representable, otherwise up to rounding); any other text throws, as does an integral part beyond the range of long long. The integral part is grouped in threes if the format has a thousands separator (other than the radix character). The sign applies to integral part and fraction alike.",
  ["inputs", "configurations"], "every text, radix, sign mode, radix character, place limit",
  "tests parse a few numbers",
  [U + "parsers.ipp"], [("parse_floating_point", U + "parsers.ipp")])
p("C14", "Reading a container resource yields exactly the container's bytes",
  "Through any history of reads, seeks (from begin, current position and end), go_back and go_forward, and for every buffer capacity, a container input resource delivers exactly the bytes of the container from the current position on, as many as were asked for or as there are, reports positions in bytes and the end exactly at the end. It never touches memory outside the container.",
  ["histories", "inputs", "configurations"], "every history of operations, every content, every buffer capacity and element type",
  "tests read small containers in one or two steps with one buffer capacity",
  [I + "input_resource.cpp", I + "io_buffer.cpp", I + "opaque_container_input_resource.ipp", I + "transparent_container_input_resource.ipp", I + "seekable_input_resource.ipp"],
  [("read, read_buffered, fill, set_position, go_back, go_forward", I + "input_resource.cpp")])
p("C15", "Writing a container resource stores exactly what was written",
  "Through any history of writes, seeks and flushes, and for every buffer capacity, after a flush a container output resource holds exactly the initial content overwritten and extended at the written positions (gaps filled with zero elements); nothing is lost, duplicated or misplaced, and the position counts the written bytes.",
  ["histories", "inputs", "configurations"], "every history of operations, every content, every buffer capacity and element type",
  "tests write a container in one or two steps",
  [I + "output_resource.cpp", I + "io_buffer.cpp", I + "opaque_container_output_resource.ipp", I + "transparent_container_output_resource.ipp"],
  [("write, write_buffered, flush, set_position", I + "output_resource.cpp")])
p("C16", "Mixing reads, writes and seeks on one resource is like using an array",
  "An I/O container resource behaves like a byte array with one position: through any interleaving of reads, writes, seeks and flushes, with every buffer capacity, each read returns the bytes that the earlier operations left there, and after a flush the container equals the array.",
  ["histories", "inputs", "configurations"], "every history of operations, every content, every buffer capacity",
  "tests do not mix reads and writes in varying order",
  [I + "opaque_container_io_resource.ipp", I + "transparent_container_io_resource.ipp", I + "seekable_io_resource.ipp", I + "io_resource.cpp", I + "io_buffer.cpp"],
  [("synchronisation of read and write buffers", I + "seekable_io_resource.ipp")])
p("C17", "A file behaves like a byte array even when system calls transfer less",
  "Through any history of reads, writes, seeks and flushes, with every buffer capacity, a file delivers the bytes that are in it, and after flush or close the file on disk is exactly what was written; this holds also when read and write system calls transfer fewer bytes than asked for. A failing read delivers no bytes and corrupts nothing, and a failing write of an unbuffered file reports exactly how much was written.",
  ["histories", "fault_sequences", "inputs"], "every history of operations, every content, every place where the system transfers less or a read fails",
  "tests cannot make the system transfer less than asked",
  [I + "impl/unix_like/unix_like_file.cpp", I + "file.cpp"], [("read_raw, write_raw, set_position_raw", I + "impl/unix_like/unix_like_file.cpp")])
p("C18", "Opening, reopening, moving and closing files keeps data and descriptors right",
  "Opening succeeds or fails as access mode, if_not_there policy and existence of the file demand, creating the file only when told to. Closing, destroying, reopening and moving a file never lose data that was written, never use stale data of an earlier file, and release every descriptor exactly once; a moved-to file continues where the source was and the source is closed.",
  ["histories", "configurations"], "every access mode, policy, existence and history of open, move, close with pending data",
  "tests open a file once and read it",
  [I + "impl/unix_like/unix_like_file.cpp", I + "file.cpp"], [("open, close, move operations, is_at_end", I + "impl/unix_like/unix_like_file.cpp")])
p("C19", "Data streams write and read values in the chosen byte order",
  "A data output stream writes exactly the bytes of each value in the stream's byte order, for every fundamental type; a data input stream in the system's byte order reads them back unchanged, and a value that is not completely there throws read_past_end and leaves the target alone. invert_endianness reverses any number of bytes, and a stream's raw read returns the available bytes, reversed exactly if its byte order is not the system's.",
  ["inputs", "configurations"], "every value of every fundamental type, both byte orders, every amount of data available",
  "tests write and read two values in one byte order",
  [I + "data_output_stream.ipp", I + "data_input_stream.ipp", I + "data_io_stream.ipp", I + "output_stream.ipp", I + "input_stream.ipp", I + "general.cpp"],
  [("operator <<, operator >>, read, reverse_write", I)])
p("C20", "Text output streams encode every text in the chosen form and byte order",
  "Whatever its type (characters, narrow, UTF-8, UTF-16, UTF-32 and wide strings, truth values, integers, floating-point numbers), what is written to a text output stream arrives as the encoding of exactly its code points in the stream's encoding form and byte order, and write_bom writes the byte order mark for them. The resource holds it after a flush and after the stream is destroyed.",
  ["inputs", "configurations"], "every text and number, three encoding forms, two byte orders, every buffer capacity",
  "tests write a few strings per encoding",
  [I + "text_output_stream.ipp", I + "output_stream.ipp"], [("write_code_point and operator <<", I + "text_output_stream.ipp")])
p("C21", "Text input streams decode exactly the code points that are there",
  "Reading code points from a text input stream yields exactly the code points of well-formed input in the stream's encoding form and byte order, whatever the buffer capacity. Ill-formed UTF-8 and UTF-16 throw instead of yielding a wrong code point, and input that ends inside a code point throws read_past_end.",
  ["inputs", "configurations"], "every byte sequence, three encoding forms, two byte orders, every buffer capacity",
  "tests read a few well-formed texts",
  [I + "text_input_stream.ipp"], [("read_code_point and the sequence readers", I + "text_input_stream.ipp")])
p("C22", "Lines, tokens, values and byte order marks are read without losing text",
  "read_line and append_line deliver the text up to the next line terminator (LF or CR LF, which is consumed and not delivered), read_all and append_all all remaining text with CR LF as LF, and reading a string, truth value or number consumes leading whitespace, one token and the whitespace code point after it. read_bom switches the byte order exactly when it reads a byte order mark and otherwise returns the code point that is there.",
  ["inputs", "configurations"], "every text, encoding form and byte order",
  "tests read a few lines and tokens",
  [I + "text_input_stream.ipp"], [("append_line, append_all, operator >>, read_bom", I + "text_input_stream.ipp")])
p("C23", "Standard streams deliver all data in order, and input flushes tied output",
  "Everything written to a standard output resource reaches its descriptor once and in order after a flush, also when the system accepts only part of it, and reading from standard input yields the bytes that arrive, in order. Before a read takes data from a resource with a tied output resource, everything written to the tied resource has reached its destination. A failing write of an unbuffered resource reports exactly how much was written.",
  ["histories", "fault_sequences", "inputs"], "every history of writes, flushes and reads, every place where the system transfers less or a read fails",
  "tests cannot observe the order of system calls nor make them transfer less",
  [I + "impl/unix_like/unix_like_uin.cpp", I + "impl/unix_like/unix_like_uout.cpp", I + "input_resource.cpp", I + "output_resource.cpp"],
  [("tie, flush, read_raw, write_raw", I)])
p("C24", "Every native key code maps to its key, every key to its own name",
  "For every native key value, the key reported by a key event is the one that the native key denotes (letters in either case to the same key, everything else to unknown), and pressed and released keys are reported as such to the window they belong to and to no other. Every key has its own name, the one printed on it.",
  ["inputs"], "every 32-bit native key value, every key",
  "the GUI has no automated tests",
  [G + "impl/gtk/gtk_window.cpp", G + "general.cpp", G + "key_event.cpp"], [("translate_key_code, forward_key_*_event_to_window, to_u8string", G)])
p("C25", "Windows keep their association, state and close decision through any history",
  "Through any history of opening, moving, closing and native events, every native window is associated with exactly the window object that owns it: events reach that object and no other, and a closed window gets none. A close request closes the window exactly if the handler does not refuse it, opening an open window is refused, and destroying a window object takes its native window along. A window has the size, mode and title it was opened with, and the last title set. Every open window is updated in every idle round of the main loop with the times since its last update and since its opening, and the main loop ends when the last window is closed.",
  ["histories"], "every history of opens, moves, closes and events on several windows",
  "the GUI has no automated tests",
  [G + "impl/gtk/gtk_window.cpp", G + "impl/gtk/gtk_desktop_gui_application.cpp", G + "impl/common/common_window.cpp"],
  [("window_associations, fix_association, forward_close_event_to_window, update_window", G)])
p("C26", "Core helpers compare and count digits correctly for every value",
  "count_digits returns the number of digits of the canonical representation of every integer in every radix (1 for zero, negative numbers like their magnitude). cmp_equal is true exactly if both values have the same floor after scaling by the given power of ten, cmp_not_equal is its negation, and cmp_equal is reflexive and symmetric on finite values.",
  ["inputs"], "every value, every radix of at least 2, every number of places",
  "tests sample a few values",
  [C + "general.ipp"], [("count_digits, cmp_equal, cmp_not_equal", C + "general.ipp")])
p("C27", "The application object is found and keeps its arguments and notice",
  "app() returns the application object that was constructed last, from construction on, or the object that this one was moved into, and the object returns exactly the argument count and vector it was given and the last copyright notice it was told, also after being moved. run of the plain application returns 0.",
  ["inputs", "histories"], "every argument count, vector and notice, every history of construction and moves",
  "the application object has no automated tests",
  [C + "application.cpp"], [("application", C + "application.cpp")])
p("C28", "Number and truth value formats hold what they were given, radix 2 to 36 only",
  "A format object returns exactly the radix, sign mode, separator, radix character, place limit and places (or the texts) it was given, by constructor or setter, and its defaults are the documented ones. A radix outside 2..36 is refused with an exception by constructor and setter, and a refused change leaves the format as it was.",
  ["inputs", "configurations"], "every value of every field",
  "tests sample a few formats",
  [U + "formats.cpp"], [("constructors and setters of the formats", U)])
p("C29", "A test module runs every test once and returns how many failed",
  "run_tests runs every registered test function once, in order, returns exactly the number of those that reported failure, and writes a report with the numbers of successful and failed tests and, for each failed test, its number, name and the stage it failed on; an earlier run does not count towards a later one, and how often a test announces itself never leads to undefined behaviour. Messages come out in the order they were pushed, the empty message from an empty queue, each test starts with an empty queue, and each special member function of a dummy leaves its one message and hands on the value (a moved-from dummy is reset).",
  ["inputs", "histories"], "every outcome of every test, number of stages, history of runs, messages and dummies",
  "the tests use the module but cannot see whether it miscounts: a module that loses a failure makes every other test useless",
  [C + "test_module.ipp"], [("test_module, test_module::dummy", C + "test_module.ipp")])

NA = {}
built = {}
for f in sorted(glob.glob(V + "/harness/c*.cpp")):
    t = open(f).read()
    built.setdefault(re.search(r"//PROPERTY (\S+)", t)[1], []).append(t)
checks, na = [], []
for q in P:
    if q["id"] in built and q["id"] not in NA:
        t = "\n".join(built[q["id"]])
        g = lambda k: "; ".join(re.findall(r"^//" + k + r" (.*)$", t, re.M))
        note = ("Bounded model checking: every value within the bounds is decided by the solver. Bounds: " + g("BOUNDS") +
                ". Outside: " + (g("OUTSIDE") or "nothing further") +
                ". Trusted: clang 18's IR generation, the executor in engine/ and its models of libstdc++/libc primitives, Z3" +
                (", and the models named: " + g("ASSUME") if g("ASSUME") else "") + ".")
        checks.append(dict(property=q["id"], quick_cmd=f"python3 run.py {q['id']}", thorough_cmd=f"python3 run.py {q['id']} --tier thorough",
                           evidence_file=f"evidence/{q['id']}.json",
                           technique="bounded symbolic execution of the compiled LLVM IR, assertions decided by Z3, counterexamples replayed natively",
                           level="model_checking", level_note=note))
    else:
        na.append(dict(property=q["id"], reason=NA.get(q["id"], "no check built yet")))
with open(V + "/properties.jsonl", "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash engine/build.sh", checks=checks, not_applicable=na,
         notes="No hooks: harnesses use the public API only and compile /repo's sources as they are.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
