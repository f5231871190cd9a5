import json,glob,os,subprocess,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=''
for d in sorted(glob.glob(V+'/seeded/*')):
    m=json.load(open(d+'/meta.json'))
    rows+=f"| {os.path.basename(d)} | {m['property']} | {m['needs']} | caught |\n"
fixed=[l[len('fixed: '):].strip() for l in open(V+'/known_findings.txt') if l.startswith('fixed')]
fx=''.join(f"* {re.sub(r'^property=', '', l)}\n" for l in fixed)
open(V+'/tools/design_tail.md','w').write(f'''## Genuine defects

Repaired in /repo, one `fix:` commit each (also in `known_findings.txt`):

{fx}
Recorded, not repaired (`KNOWN-FINDING` lines, exit 0):

* C19 `KF-data-input-order`: reading a multi-byte value with `>>` from a data input stream
  whose byte order is not the system's inverts the bytes twice. The existing test
  `data_input_stream_test::test_read` relies on it, so it cannot be repaired without
  editing tests. The harness asserts the right value and attributes only exactly this
  (bytes in the system's order, other order asked for, more than one byte) to the finding.
* C22 `KF-lone-cr`: a carriage return that is not followed by a line feed is dropped by text
  input streams, because the stream cannot put the code point after it back. A repair needs
  one code point of look-ahead state in the stream, shared with every reading function; not
  a small patch. Only texts with such a carriage return are attributed to it.
* C29 `KF-second-run`: `run_tests` called again counts and numbers on from the run before.
  Attributed only when result and report are exactly those of such a run.
* C29 `KF-pad-overflow`: ten or more announcements (`start_test`) in a module of fewer than ten
  tests write past the padded number. Attributed only to an invalid memory access in such a module.
  Both had small repairs, but the file (`test_module.ipp`) counts as a test file, which no commit may change.

## False alarms met and what was done

* C07: `starts_with`/`ends_with` on ill-formed text are `noexcept` and terminate; nothing
  documents otherwise, so the property is stated for well-formed text (like reverse iteration, C04).
* C02/C05: narrow, wide and UTF-32 strings store any value unchecked; the first version of
  the property demanded an exception. Narrow strings are only claimed for ASCII.
* C12: values that are not finite or beyond long long: the repaired code throws
  `std::out_of_range`; the statement says so.
* C13: a text without radix character under `exactly_equal` is unclaimed; failure types are
  unclaimed except `empty_input` and the place limit.
* C15/C16: `is_at_end` with unflushed output is unclaimed; padding of partial elements is part of the model.
* C25: `close()` on a window that was never shown is ignored by GTK: outside.
* Engine: counterexamples from an imprecise model would be false alarms; that is why each is replayed
  natively (g++, sanitizers) before it is reported, and dropped (with a note in the evidence) if the real code does not show it.

## Where the machinery is weak

* The bounds: histories of 2 to 5 operations, texts of 8 to 12 free units plus fixed padding. Bugs
  that need more are missed unless the padded or bulk jobs reach them.
* The operating system and GTK are models; Windows and macOS back ends do not compile here.
* A job that runs out of time is reported as incomplete in evidence and output, with exit 0.
* Code that calls something the engine does not know (a new libc or GTK function) makes the
  check exit 3 (no answer) rather than guess.

## Planted bugs (`seeded/`) and the checks that catch them

Each was confirmed with `tools/seed.py` (builds, 144 tests pass, demo 0 without and non-zero
with the patch).

| bug | property | needs | check |
|---|---|---|---|
{rows}
Missed at first, and what was strengthened: c25-time (windows are now moved between updates),
c13-digits (long fractions), c17-short (input names with spaces were parsed wrongly in the
native replay, so the counterexample looked unconfirmed), c12-narrow and c08-period (longer
numbers, grouping), c02-plane (long strings).

Mutation testing (operators swapped, constants changed, statements removed in every source
file under unicode, io, core and desktop_gui; some 900 compiled mutants, each checked with the
properties of its file) was used to look for gaps as well; what survived is
equivalent (for example a buffer capacity treated as 0, dead branches such as 16-bit wchar_t) or led to
stronger harnesses.
''')
