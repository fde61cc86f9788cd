#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (run from /verif)"""
import json, subprocess, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
P = []
def p(id, title, statement, over, text, why, files, mech, technique, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na))
ABE = 'crates/abe/src/'
EXP = 'exploration: held on the counted executions; trusts the independent reference written from the documented format, the generators\' reach and the pinned toolchain'

p('A01', 'The abtxt text form of bytes is exact, printable and reversible',
  'Every byte string has one text form made only of printable ASCII, with the documented escapes for null, 0xff, tab, newline, carriage return, backslash, colon, slash and brackets and \\xHH for the rest. Decoding that text gives back exactly the same bytes, two different byte strings never share a text, and decoding respects the given maximum length or buffer size without writing past it. Text that is not valid (unescaped delimiters or non-printable bytes, unknown escapes, bad hex) is refused and the reported position and byte are those of the first offending one.',
  ['inputs'], 'all byte strings and all texts, every buffer size',
  'the tests encode a handful of literals; the claim is over every byte string, every malformed text and every buffer length',
  [ABE+'abtxt.rs'], [('escape table', ABE+'abtxt.rs as_abtxt'), ('decoder and buffer bound', ABE+'abtxt.rs parse_abtxt_into / parse_abtxt_upto_max')],
  'monitored random and exhaustive-small execution against an independent codec', EXP)
p('A02', 'Parsing an expression text is total and is the inverse of printing',
  'Parsing any bytes as an ABE expression returns an expression or an error: it never panics, overflows the stack or hangs, however deeply brackets are nested. Printing a parsed expression and parsing it again gives the same expression, and the accepted texts, the resulting tree and the position or kind of the error are those of the documented grammar, for the strict and for the unencoded-tolerant parser. Everything nested up to 100 brackets deep is accepted.',
  ['inputs'], 'all byte strings as text, all expression trees',
  'the tests parse a few expressions; totality and inverse must hold for every text and tree, including hostile nesting',
  [ABE+'ast.rs'], [('parser and collector', ABE+'ast.rs parse_abe_b, parse_abe_strict_b, collect'), ('printer', ABE+'ast.rs Display for ABE')],
  'fuzzing with an independent parser as oracle, panic/abort/stack monitors, exhaustive small texts', EXP)
p('A03', 'Splitting a text at its top-level delimiters partitions it',
  'Tokenizing a text splits it exactly at the delimiters that are outside brackets and are not escaped or declared plain: the pieces joined by their delimiters give the text back, each piece says which delimiter opened it and whether it contains brackets, and each piece parses on its own. Unbalanced brackets, forbidden delimiters and malformed escapes are refused.',
  ['inputs'], 'all texts and all choices of plain and forbidden delimiters',
  'one test splits one text; the property ranges over all texts and delimiter sets',
  [ABE+'ast.rs'], [('tokenizer', ABE+'ast.rs tokenize_abe_b')],
  'monitored random and exhaustive-small execution against an independent tokenizer', EXP)
p('A04', 'Evaluating any expression with any arguments never crashes or hangs',
  'Evaluating any expression over the built-in functions and any user supplied arguments returns a value or an error: no panic, abort, stack overflow, out-of-memory abort or endless loop, whatever lengths, bounds, steps, patterns or self-references the expression contains. An expression that would evaluate itself without end, or ask for more memory than can exist, is an error. Every error can be printed, and asking for help on any function works.',
  ['inputs', 'programs'], 'all expressions over the basic scope with any arguments',
  'no test feeds hostile expressions; a crash needs a specific combination of function, length and nesting',
  [ABE+'eval.rs', ABE+'scope/bytes.rs', ABE+'scope/uint.rs', ABE+'scope/base.rs', ABE+'scope/argv.rs', ABE+'scope/encode.rs'], [('nesting bound', ABE+'eval.rs match_expr'), ('fallible allocation and clamping', ABE+'scope/bytes.rs pad, slice')],
  'fuzzing in resource-limited processes with crash, hang, abort and stack monitors', EXP + '; deliberate exponential blow-up within the nesting bound is not claimed')
p('A05', 'Expressions evaluate to what the language defines',
  'An evaluated expression gives the delimiter-separated list of byte strings the language defines: literal bytes join, [f:a:b] calls, [../g:c] passes the result on as the first argument, [:x:y] concatenates, [/:..] quotes, and [/or:..], [/e:..], [/?:..], [/~?:..] take the first success, evaluate in place and encode. A failing call names the function that failed, an unknown function or macro is reported as unknown by name, and calls with more than 15 arguments or computed function names are refused.',
  ['programs'], 'all expressions over the basic scope, up to size bounds',
  'the tests evaluate a few expressions; composition of chaining, nesting, macros and errors has unboundedly many shapes',
  [ABE+'eval.rs', ABE+'scope/encode.rs', ABE+'scope/logic.rs'], [('evaluation', ABE+'eval.rs match_expr, call'), ('macros', ABE+'scope/encode.rs, scope/logic.rs list_macros')],
  'differential execution against an independent reference evaluator', EXP)
p('A06', 'Byte functions pad, cut, replace, slice and escape exactly',
  'lpad/rpad/a/f bring a byte string to exactly the requested length with the pad byte on the documented side and refuse longer input, the ~ forms leave longer input alone, lfixed/rfixed also cut; lcut/rcut take exactly the first/last bytes. replace substitutes every leftmost non-overlapping occurrence and nothing else, slice follows python indexing (negative bounds, steps, clamping), ?a/?a0 escape and ~utf8 converts lossily. Malformed numbers and pad arguments are errors.',
  ['inputs'], 'all arguments of the byte functions',
  'no test covers these functions beyond examples; boundaries between length, pad side and limit are where they break',
  [ABE+'scope/bytes.rs'], [('implementations', ABE+'scope/bytes.rs pad, cut, replace, slice')],
  'differential execution against a reference plus algebraic laws; all small slices', EXP)
p('A07', 'Integer functions parse, print and saturate exactly',
  'uN/luN turn a decimal text into exactly N/8 big/little endian bytes and refuse anything out of range or malformed, lu gives the shortest little endian form, and ?u/?lu print up to 16 bytes as the decimal they encode, so printing inverts parsing. + and - on equal-size byte strings of any size are exact big endian addition and subtraction that saturate at all-ones and zero, and operands of different sizes are refused.',
  ['inputs'], 'all decimal texts and byte strings',
  'the tests never exercise carries, saturation or type bounds',
  [ABE+'scope/uint.rs'], [('implementations', ABE+'scope/uint.rs')],
  'differential execution against a reference plus round-trip and monotonicity laws', EXP)
p('A08', 'Base-n decoding is strict and tests pass or refuse exactly',
  'b2/b8/b16 decode digits to the shortest big endian bytes and refuse other digits and values over 128 bits; b and bs decode exactly the texts that ?b and ?bs produce (url-safe unpadded and standard padded base64) and refuse every other text; 2mini abbreviates long values. size? and val? pass their input through unchanged exactly when the comparison holds and are errors otherwise.',
  ['inputs'], 'all texts, byte strings and operators',
  'no test covers malformed or non-canonical texts',
  [ABE+'scope/base.rs', ABE+'scope/logic.rs'], [('base-n', ABE+'scope/base.rs'), ('tests', ABE+'scope/logic.rs')],
  'differential execution against a reference plus canonicality and round-trip laws', EXP)
p('A09', 'Encoding bytes as an expression is the exact inverse of evaluating it',
  'Whatever byte string and list of encoder options is given, encoding either refuses or yields an expression text that evaluates to exactly those bytes. Options are tried left to right, an encoder that does not fit is skipped, length arguments are respected, an empty option is the plain text fallback, and an encoder error aborts unless errors are ignored. The ?, ?? and ??? functions and the /? and /~? macros give the same text (without brackets, without function name).',
  ['inputs'], 'all byte strings and option lists',
  'the built-in self check is an assertion that only fires on inputs someone tries; the tests try none',
  [ABE+'eval.rs', ABE+'scope/base.rs', ABE+'scope/bytes.rs', ABE+'scope/uint.rs', ABE+'scope/encode.rs'], [('encode', ABE+'eval.rs encode_abe'), ('encoders', ABE+'scope/*.rs to_abe')],
  'round-trip monitoring: encode, evaluate, compare; reference for the choice of encoder', EXP)
p('A10', 'Lists of delimited bytes keep their components in every view',
  'A list built from bytes and delimiters reports the same components whichever way it is read: entry by entry, as components, concatenated bytes, printed and re-parsed text, expression items, or popped from the front; taking from an empty list gives nothing. Colon and slash joined lists read back as their elements, only a list of one undelimited entry counts as exact bytes, and replacing a pattern in an expression replaces every leftmost non-overlapping match, innermost lists first, and nothing else.',
  ['inputs'], 'all lists, trees and patterns',
  'two tests replace one word; the agreement of views must hold for all lists',
  [ABE+'eval.rs', ABE+'ast.rs', ABE+'convert.rs'], [('list', ABE+'eval.rs ABList'), ('replacement and matchers', ABE+'ast.rs replace_abe, take.., multi_ctr_expr')],
  'differential execution against a reference list and law checking', EXP)
p('A11', 'Configuration lookups return the latest matching entry and its value',
  'A lookup in a configuration returns the entries whose leading components equal the given ones, the most recently added (topmost in the text) first. The optional value of the first match is the one component after the prefix if it is separated by a colon, absent if there is none, and an error if the entry is longer or uses a slash, also for entries that start with a delimiter. Printing a configuration and reading it back, with or without the header, gives the same answers, and malformed text is refused.',
  ['inputs', 'configurations'], 'all configurations and lookups',
  'no test covers configurations at all',
  [ABE+'abconf.rs'], [('lookup', ABE+'abconf.rs get_inner, get_checked, has_optional_value'), ('text', ABE+'abconf.rs try_from, Display')],
  'differential execution against a reference lookup, with print/parse round trips', EXP)
p('A12', 'User arguments are bound by position and never leak or shift',
  'In an expression [n] is exactly the n-th user argument, whatever bytes it holds and without evaluating it, and is an error when there is no such argument, when arguments are passed to it or when it is chained. [argv:start:stop:step] is the concatenation of the python slice of the arguments, and names that are not numbers are unaffected. The fixed-size form refuses more than 8 arguments.',
  ['inputs', 'configurations'], 'all argument lists and index expressions',
  'no test covers user arguments',
  [ABE+'scope/argv.rs'], [('binding', ABE+'scope/argv.rs ArgV, ArgList')],
  'differential execution against the reference evaluator', EXP)
p('A13', 'Composed scopes answer in order, with the exact call and the whole scope',
  'When scopes are combined (pairs, triples, optional, fallible, shared, lazy or borrowed) a function, macro or encoder name is answered by the first scope that knows it: a value or error from it is final and later scopes are not asked. Each asked scope receives exactly the name, arguments and position of the call and the complete combination for further lookups; a failed scope answers everything with an error and an absent one nothing. A function declared with a number of arguments or a position is only called that way, and describing a combination lists its scopes in order.',
  ['configurations', 'programs'], 'all compositions of scopes and lookups',
  'tests only use one fixed composition',
  [ABE+'eval.rs'], [('composition', ABE+'eval.rs impl Scope for ..'), ('arity', ABE+'eval.rs EScope')],
  'recording scopes with an online order/argument oracle', EXP)
#--BEGIN-MORE
exec(open('tools/props_more.py').read()) if os.path.exists('tools/props_more.py') else None
with open('properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'],
            quantifier=dict(over=x['over'], text=x['text']), why_tests_cant=x['why'],
            anchors=dict(files=x['files'], mechanism=[dict(name=n, where=w) for n, w in x['mech']]))) + '\n')
HOOKS = dict(guard='none', enable='no hooks were needed: the monitors use the public API of the crates built from /repo', source_commits=[])
m = dict(version=1, setup_cmd='./setup.sh', hooks=HOOKS,
    checks=[dict(property=x['id'], quick_cmd=f"./check.sh {x['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {x['id']}", technique=x['technique'], level='exploration', level_note=x['note']) for x in P if not x['na']],
    not_applicable=[dict(property=x['id'], reason=x['na']) for x in P if x['na']])
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
print(len(P), 'properties', sum(1 for x in P if not x['na']), 'claimed')
