import sys
V = sys.argv[1] if len(sys.argv) > 1 else __import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))
head=open(V+'/DESIGN.md').read()
if '## The properties' in head: head=head[:head.index('## The properties')]
T={
'C01':("The classifying functions are run on a symbolic code unit, code point or radix; the oracle is the definition in the Unicode standard written as ranges in `harness/ref.h`.","tests sample some thirty values of 2^32."),
'C02':("append, prepend and insert_code_point run on a symbolic code point and a string of symbolic units with every index; the oracle encodes independently and compares the whole string; invalid code points must throw and leave the string alone.","the borders of the encoding lengths, and the bytes around the insertion, for every code point."),
'C03':("by_code_point's iterators run over texts whose units are all symbolic, in exactly sized heap objects, so a read outside is an out-of-bounds violation; the oracle decoder gives the code points or where decoding must fail.","every ill-formed text within the length, not one sample per error."),
'C04':("well-formed texts (symbolic units constrained by the oracle decoder) are walked backwards, by offsets and by differences; positions are compared with the forward walk.","every mix of sequence lengths."),
'C05':("to_u8string, to_u16string, to_u32string, to_wstring and convert_string for every pair of encodings on symbolic text; output compared with the oracle's code points; ill-formed input must throw.","every text within the length, in every pair of encodings."),
'C06':("validate_string on symbolic text; the returned iterator must be just past the last valid code point of the oracle.","every border of well-formedness."),
'C07':("starts_with and ends_with on two well-formed symbolic texts in two encodings against a comparison of the decoded code points.","pairs of texts; tests use literals."),
'C08':("format_integer on a symbolic value; the oracle does not repeat the division loop: it reads the produced text back as a positional number, checks canonical form (no leading zeros, sign, groups of three) and equality with the value.","every value; the whole 64-bit range in radices 2, 4, 8, 16, 32."),
'C09':("parse_integer on texts of symbolic characters; the oracle is a grammar for sign, digits and groups plus the exact value in 128-bit arithmetic.","which of all texts are accepted, and overflow borders."),
'C10':("format then parse of a symbolic value with every format.","composition of the two for every value."),
'C11':("format_bool and parse_bool with symbolic strings in the format and as input.","texts that begin with or contain the strings of the format."),
'C12':("format_floating_point on symbolic floating-point values (dyadic rationals with symbolic mantissa, exact in the engine's fixed-point terms), the text is read back as a rational and compared within the place limit.","rounding, carries and place limits for every mantissa."),
'C13':("parse_floating_point on symbolic characters; exact in power-of-two radices, within rounding otherwise; long texts with one arbitrary character.","which texts are accepted and where the sign and places apply."),
'C14':("every history of reads, seeks, go_back and go_forward is a tree of solver-chosen operations, run on the real resource and on a byte array with a position.","histories that cross the buffer's border in every way."),
'C15':("the same for writes, seeks and flushes; content compared after each flush.","partial elements, growth, pending output at a seek."),
'C16':("the same for reads and writes mixed.","the switch between reading and writing at every buffer state."),
'C17':("cmp::file on `osmodel.h`: open, read, write, lseek and the filesystem queries are redirected (symbolically and natively) to a model whose read and write may transfer any smaller amount or fail, as solver choices.","fault schedules no test can produce."),
'C18':("opening, reopening, moving, assigning and closing files on the same model, with pending data; descriptors are counted.","lifecycle histories with pending data."),
'C19':("data streams write and read symbolic values of twelve types in both orders; invert_endianness on symbolic bytes.","every value and byte order."),
'C20':("text output streams write symbolic code points, strings, characters and numbers in every encoding form, order, newline and BOM setting; bytes compared with the oracle's encoding.","every code point in every form."),
'C21':("text input streams read streams of symbolic bytes in every form and order; code points, failures and what remains are compared with the oracle decoder.","every byte sequence, truncation included."),
'C22':("lines, tokens, values, BOMs and mixed histories of reading calls on symbolic text against a reference reader.","sequences of calls: what one call leaves for the next."),
'C23':("standard resources and tied resources on the OS model: what reached each descriptor is compared at every read and flush.","order of system calls, partial transfers."),
'C24':("translate_key_code on a symbolic 32-bit key value, and names of every key, by way of the event handlers on `guimodel.h`.","all 2^32 key values."),
'C25':("histories of opening, moving, assigning, destroying, closing (with symbolic decisions of the handlers), events and updates with symbolic clock readings on the toy GTK.","histories of several windows; the tests open none."),
'C26':("core helpers on symbolic values against direct definitions.","every value."),
'C27':("histories of construction, moves and destruction of application objects.","histories."),
'C28':("constructors and setters of the formats with symbolic values.","every value, including rejected ones."),
'C29':("a module of symbolic size with tests that pass or fail as the solver decides, run once or twice with the standard streams faked; the counts, the calls and the return value are compared.","every pattern of failures; tests of the test module itself do not exist."),
}
body='''## The properties

For each: what is run and against what oracle; why tests cannot reach it; bounds (kept in
the harness, repeated here by `tools/gen.py`). All are decided by the solver verdicts of
`engine/symx` on the real code (level `model_checking`, bounded); none is not-applicable.

'''
import glob,re,json
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); i=d['id']
    f=glob.glob(f'{V}/harness/{i.lower()}_*.cpp')[0]
    src=open(f).read()
    g=lambda k:' '.join(re.findall(rf'^//{k} (.*)$',src,re.M))
    a,b=T[i]
    body+=f"### {i} {d['title']}\n\n`harness/{f.split('/')[-1]}`: {a}\nBeyond tests: {b}\n\n* Bounds: {g('BOUNDS')}.\n* Outside: {g('OUTSIDE')}.\n"
    if g('ASSUME'): body+=f"* Assumed: {g('ASSUME')}.\n"
    body+='\n'
open(V+'/DESIGN.md','w').write(head+body+open(V+'/tools/design_tail.md').read())
