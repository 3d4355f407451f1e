#!/usr/bin/env python3
"""The property list, as data; `python3 tools/props.py` rewrites properties.jsonl
and MANIFEST.json (claimed = has a module in checks/)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = 'include/configor/'
D = INC + 'details/'

def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files,
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=list(observe), hook_needed=None))

PROPS = [
P('C01', 'A value’s kind and its payload always agree',
  'After every construction, conversion, assignment, clear, swap, element access or parse, whether it returns or throws, the kind a value reports and the payload it holds belong together: a string, array or object owns a live payload of exactly that kind, an integer, float or boolean holds a number of that kind, and nothing ever reads a payload through the wrong kind. A value constructed from a kind constant holds the empty or zero payload of that kind.',
  ['inputs', 'histories', 'fault_sequences'], 'all kinds before and after each operation, all orders of operations, including operations that throw half way',
  'The tests build a few dozen literal values and read back the kind they just stored; they never sweep kind x operation x failure point, and a stale payload is invisible without a sanitizer.',
  [D + 'value.hpp', D + 'conversion.hpp'],
  [('value_constructor::reset', D + 'value.hpp'), ('basic_value constructors', D + 'value.hpp')],
  [('type_', 'the kind', 'basic_value'), ('data_', 'union payload', 'basic_value')], ['type()', 'is_*()', 'data()']),
P('C02', 'Every payload is released exactly once',
  'Every string, array and object payload that a value allocates is released exactly once, when the value is destroyed, overwritten or moved from, also when an allocation, a copy or a user conversion fails with an exception in the middle of the operation. No operation uses a payload after it was released, and a failing operation leaves every value involved destructible.',
  ['histories', 'fault_sequences'], 'all sequences of operations on values, with every allocation or user conversion allowed to fail',
  'No test injects an allocation failure or runs under a leak checker.',
  [D + 'value.hpp', D + 'conversion.hpp'],
  [('create_data / destroy', D + 'value.hpp'), ('basic_value::~basic_value', D + 'value.hpp'), ('copy-and-swap assignment', D + 'value.hpp')]),
P('C03', 'Copies are deep, moves empty the source, swap exchanges',
  'Copying a value by construction or assignment yields a value equal to the source that shares no payload with it, so that changing one never changes the other. Moving transfers the payload and leaves the source null; swap exchanges kind and payload; assigning a value to itself leaves it unchanged.',
  ['inputs', 'histories'], 'all values of every kind and all later modifications of either copy',
  'The tests copy a handful of values and compare them once; aliasing shows only after a later mutation.',
  [D + 'value.hpp'], [('copy and move constructors', D + 'value.hpp'), ('operator= / swap', D + 'value.hpp')]),
P('C04', 'Reading a value never changes it',
  'Operations on a const value (kind queries, size, empty, find, count, at, operator[], iteration, get, comparison, dump) leave the value and everything it contains unchanged and give no mutable access to it, and they write to no state shared between values, so that threads may read the same value at the same time.',
  ['inputs', 'schedules'], 'all const operations on all values, in any interleaving of readers',
  'Tests are single threaded and never compare a value before and after a read.',
  [D + 'value.hpp', D + 'iterator.hpp', D + 'serializer.hpp', INC + 'json.hpp'],
  [('const overloads', D + 'value.hpp'), ('basic_serializer::do_dump', D + 'serializer.hpp')]),
P('C05', 'Malformed text is refused with the documented exception',
  'Whatever characters the text contains, parsing either returns the value the text describes or throws the library’s deserialization error: no other exception type, no abort, no assertion failure and no silent acceptance of a prefix. Text that ends early, or whose decoder reports an error, at any position, is refused in the same way, and a string or number that was refused is never stored as if it were complete.',
  ['inputs'], 'all character sequences, ending or failing to decode at every position',
  'The tests try a few dozen malformed documents out of infinitely many.',
  [INC + 'json.hpp', D + 'parser.hpp'], [('json_parser::fail', INC + 'json.hpp'), ('basic_parser::parse', D + 'parser.hpp')]),
P('C06', 'An installed error handler receives every error once',
  'When an error handler is installed, every failure of parsing or dumping, from the first character on and including decoding, encoding and output-stream failures, is passed to it exactly once as the exception that would have been thrown, and the call then returns normally; nothing escapes. Without a handler the exception propagates to the caller, and a call that succeeds never invokes the handler.',
  ['inputs', 'fault_sequences'], 'all inputs, all failure positions, with and without a handler',
  'The tests trigger one parse error and one dump error with a handler installed.',
  [D + 'parser.hpp', D + 'serializer.hpp', D + 'exception.hpp'], [('basic_parser::parse catch block', D + 'parser.hpp'), ('basic_serializer::dump catch block', D + 'serializer.hpp')]),
P('C07', 'Parsing builds exactly the structure the text describes',
  'A text is accepted only if it is one complete value followed by nothing but whitespace, comments or a terminating NUL: brackets match, members are key, colon, value, and elements are separated by commas (one trailing comma before a closing bracket is allowed). The parsed value has exactly the elements of the text, in order, at the right nesting level, and each object member sits under its own key.',
  ['inputs'], 'all token sequences at any nesting and length',
  'The tests parse a few sample documents.',
  [D + 'parser.hpp', INC + 'json.hpp'], [('basic_parser::do_parse', D + 'parser.hpp'), ('json_parser::scan', INC + 'json.hpp')]),
P('C08', 'Whitespace, comments and literals are recognised exactly',
  'Between tokens exactly space, tab, line feed and carriage return, // comments up to the end of the line or text, and /* */ comments (closed by the first */, whatever stars precede the slash) are skipped, in any number and order, and an unclosed /* comment is refused. The literals true, false and null are recognised only when spelt out completely and exactly, whatever the code points.',
  ['inputs'], 'all sequences of characters between and inside tokens, including code points that share low bits with ASCII',
  'The tests contain a few comments and the three literals.',
  [INC + 'json.hpp'], [('json_parser::skip_spaces / skip_comments', INC + 'json.hpp'), ('json_parser::scan_literal', INC + 'json.hpp')]),
P('C09', 'String contents are read exactly',
  'A quoted string is read up to its closing quote, and its content is exactly the characters written: the escapes \\" \\\\ \\/ \\b \\f \\n \\r \\t stand for their characters, \\uXXXX in either letter case for that code point, and a surrogate pair of escapes for one supplementary code point. Control characters below U+0020, unknown escapes, fewer than four hex digits and unpaired or wrongly ordered surrogate escapes are refused.',
  ['inputs'], 'all code points, escapes and their positions in the string',
  'The tests parse a dozen strings.',
  [INC + 'json.hpp'], [('json_parser::scan_string', INC + 'json.hpp'), ('json_parser::read_escaped_codepoint', INC + 'json.hpp')]),
P('C10', 'Number grammar is decided exactly and ends where it should',
  'A number is an optional sign, digits without a superfluous leading zero, an optional fraction with at least one digit and an optional exponent with at least one digit (in this dialect a leading plus is allowed, an exponent without a sign may not start with 0, and a bare zero takes no exponent); the character after the number is left for the next token. Without fraction and exponent the value is an integer, otherwise a float; a bare sign, a missing fraction digit and a missing exponent digit are refused, and a float that is too large to be finite is refused rather than stored.',
  ['inputs'], 'all digit, sign, point and exponent sequences of any length',
  'The tests parse about thirty numbers.',
  [INC + 'json.hpp'], [('json_parser::scan_number / scan_integer / scan_float / scan_exponent', INC + 'json.hpp')]),
P('C11', 'Integers are read exactly or refused',
  'Every integer text whose value fits the integer type, including the smallest and the largest, is stored with exactly that value and sign, and every integer text outside that range is refused; nothing wraps around, saturates or depends on undefined overflow, for numbers of any length, and the digits of an exponent do not wrap around either.',
  ['inputs'], 'all digit strings of any length and both signs',
  'The tests read a handful of integers; overflow needs particular boundary digits.',
  [INC + 'json.hpp'], [('json_parser::scan_integer', INC + 'json.hpp'), ('json_parser::scan_exponent', INC + 'json.hpp')]),
P('C12', 'Strings and keys are written so that they read back',
  'A dumped string or key is enclosed in quotes and every code point is written exactly once and in order: quote, backslash and control characters below U+0020 only as escapes (\\u escapes with exactly four hex digits), all others as themselves in the target encoding. With unicode escaping on, every code point from U+007F up is written as \\u escapes, as a surrogate pair beyond U+FFFF, so that the output is pure ASCII; content that cannot be decoded or encoded is refused with a serialization error.',
  ['inputs'], 'all strings over all code points, both settings of unicode escaping',
  'The tests dump a dozen strings.',
  [INC + 'json.hpp'], [('json_serializer::put_string', INC + 'json.hpp'), ('json_hex', INC + 'json.hpp')]),
P('C13', 'The writer emits one well-formed document for every value',
  'For every value the output is exactly one well-formed JSON document: all elements and members in order, commas between and only between them, a colon after each key, matching brackets, true, false and null spelt out, integers in decimal and finite floats with nothing that would turn them into another kind, while infinity and NaN are refused. Pretty printing puts every element, member and closing bracket (also that of an empty container) on its own line, indented by depth times the configured width of fill characters, and one fill character after each colon, and adds nothing else; compact output contains no whitespace.',
  ['inputs', 'configurations'], 'all values of any shape and depth, all indent settings',
  'The tests dump a few values and compare the text.',
  [D + 'serializer.hpp', INC + 'json.hpp'], [('basic_serializer::do_dump', D + 'serializer.hpp'), ('json_serializer::next', INC + 'json.hpp'), ('indent', D + 'serializer.hpp')]),
P('C14', 'UTF codecs accept exactly well-formed Unicode, both ways',
  'For every Unicode scalar value, encoding in UTF-8, UTF-16 or UTF-32 and decoding again yields the same scalar value and consumes exactly the units written, and the units are those of the Unicode standard. Decoding any ill-formed unit sequence (stray or missing continuation units, overlong forms, surrogates, values above U+10FFFF, truncated sequences) is reported as an error, and so is encoding a value above U+10FFFF.',
  ['inputs'], 'all code points and all unit sequences, ending at every position',
  'The tests convert a few sample texts between encodings.',
  [D + 'encoding.hpp'], [('utf8 / utf16 / utf32 / auto_utf ::encode and ::decode', D + 'encoding.hpp'), ('unicode::encode_surrogates / decode_surrogates', D + 'encoding.hpp')]),
P('C15', 'Iterators visit each element once and refuse misuse',
  'Iterating a value from begin to end, or from rbegin to rend, visits every element of an array or object exactly once in order and treats a scalar value as a single element and null as none; const iterators behave alike. Arithmetic, comparison and distance are consistent with positions, and key() and value() give the current member. Dereferencing an end iterator (or any position outside a scalar) throws std::out_of_range; iterators of different values are never equal, and ordering or subtracting them, offsetting or ordering object iterators, taking distances outside arrays, key() on anything but an object, and every use other than comparison for equality of an iterator that refers to no value throw the invalid-iterator error.',
  ['inputs', 'histories'], 'all kinds of values, all sequences of iterator operations',
  'The tests iterate over a few small arrays and objects.',
  [D + 'iterator.hpp', D + 'value.hpp'], [('iterator', D + 'iterator.hpp'), ('primitive_iterator', D + 'iterator.hpp'), ('reverse_iterator', D + 'iterator.hpp')]),
P('C16', 'Element access is checked and creates only what was asked',
  'Access by index or key with at() or on a const value throws out_of_range when the element does not exist and changes nothing; mutable operator[] turns a null value into an array or object, creates exactly the missing member, or extends the array with nulls to exactly index plus one, and returns that element. push_back appends exactly one element to an array or to a null value; erase removes exactly the named element and reports how many members were removed; every access through the wrong kind throws the documented error and leaves the value unchanged.',
  ['inputs', 'histories'], 'all kinds, indices (including the largest) and keys',
  'The tests access a few existing and missing elements.',
  [D + 'value.hpp'], [('operator[] / at / erase / push_back / find / count / size / empty / clear', D + 'value.hpp')]),
P('C17', 'Conversions keep every element and check every kind',
  'Converting a C++ container, smart pointer or scalar to a value keeps every element in order under the right key, and converting back yields the same elements and nothing that was in the target before; only a fixed-size array keeps its elements beyond those of the value. Null reads as an empty container or a null pointer. Reading a value as a type of another kind, at any depth, throws the library’s exception (the reading form that returns a bool returns false) and never reinterprets the payload; get of a plain pointer type yields null instead of throwing.',
  ['inputs', 'programs'], 'all supported C++ types, all values and kinds',
  'The tests convert one small instance of each container.',
  [D + 'conversion.hpp', D + 'value.hpp'], [('value_binder / to_value / from_value', D + 'conversion.hpp'), ('basic_value::do_get', D + 'value.hpp')]),
P('C18', 'Bound members are written and read under their own names',
  'A type bound with CONFIGOR_BIND is converted to an object that has exactly one member per bound name, holding that data member (an optional member that equals its default is left out), and reading an object back fills every bound data member from the member of the same name. A required member that is missing is an error, while an optional binding leaves its data member untouched when the key is missing.',
  ['programs', 'inputs'], 'all bound types with any number of members up to the supported maximum, all objects',
  'The tests bind two small structs.',
  [D + 'conversion.hpp', D + 'value.hpp'], [('CONFIGOR_BIND, REQUIRED, OPTIONAL', D + 'conversion.hpp')]),
P('C19', 'Text moves through the stream adapters unchanged',
  'The string, buffer and file sources deliver every unit of their source exactly once and in order, whichever mix of peeking, single reads, steps and block reads consumes them, report the end exactly at the end, and never read outside the source; a put-back that is refused changes nothing. The stream over a user’s input adapter delivers every unit the adapter returns, once and in order. Everything written through the string sink or a user’s output adapter reaches it in order and complete.',
  ['inputs', 'histories'], 'all buffer contents and all sequences of read operations',
  'The tests read each adapter once from start to end.',
  [D + 'stream.hpp'], [('fast_string_istreambuf / fast_buffer_istreambuf / fast_cfile_istreambuf / fast_string_ostreambuf', D + 'stream.hpp')]),
P('C20', 'Output format does not depend on locale or caller state',
  'What is read and written does not depend on the global locale or on the locale, width, fill, base, sign or boolean formatting flags the caller has set on the stream, other than the documented use of width and fill as indentation and of the precision and float format. Dumping clears the width it consumed and leaves the other formatting state of the caller’s stream as it was, and the hexfloat format is never used.',
  ['configurations', 'inputs'], 'all stream states and locales',
  'The tests run in the C locale with default flags.',
  [D + 'serializer.hpp', D + 'parser.hpp', INC + 'json.hpp'], [('basic_serializer constructor', D + 'serializer.hpp'), ('json_serializer constructor and prepare', INC + 'json.hpp'), ('basic_parser constructor', D + 'parser.hpp')]),
P('C21', 'Every overload of parse and dump is the same function',
  'All overloads of parse and dump (stream, string, C string, file; in place or returning; each character type) and the stream operators apply the same defaults and all the options they are given, in order: the default encoding for both sides, encodings, error handler, indentation, escaping, and precision. with_source_encoding and with_target_encoding change only their own side.',
  ['programs', 'configurations'], 'all overloads, option lists and character types',
  'The tests use most overloads once, mostly without options.',
  [D + 'parser.hpp', D + 'serializer.hpp', INC + 'json.hpp', D + 'wrapper.hpp'], [('parsable::parse', D + 'parser.hpp'), ('serializable::dump', D + 'serializer.hpp'), ('option factories', INC + 'json.hpp')]),
P('C22', 'Comparison operators agree with each other and with content',
  'Two values are equal exactly when they have the same kind and equal content, or are an integer and a float of equal numeric value; null equals only null. For every pair, != is the negation of ==, > is < with the sides swapped, <= and >= are the negations of > and <, values of different non-numeric kinds are unordered and unequal, and comparing with a C++ scalar equals comparing with the value made from it.',
  ['inputs'], 'all pairs of values and scalars',
  'The tests compare a few pairs.',
  [D + 'value.hpp'], [('operator== / operator< and the derived operators', D + 'value.hpp')]),
P('C23', 'Compile-time interface: only meaningful programs build',
  'The documented conversions, accessors and options compile with the documented result types; const values yield only const references, pointers and iterators; and conversions the library does not support (an unbound type, a mutable reference from a const value, an unsupported pointer) are rejected at compile time instead of compiling to something else. Move construction, move assignment and swap of values do not throw.',
  ['programs'], 'all programs using the interface, as far as their types decide',
  'Tests only contain programs that compile.',
  [D + 'value.hpp', D + 'conversion.hpp', D + 'iterator.hpp', INC + 'json.hpp'], [('is_value / has_to_value / has_from_value traits', D + 'conversion.hpp'), ('enable_if constraints', D + 'value.hpp')]),
P('C24', 'What is declared noexcept cannot throw',
  'No function of the library that is declared not to throw (including destructors, move operations and get of a pointer) can reach a throwing operation, so that no input terminates the program, and destructors release without throwing.',
  ['inputs', 'fault_sequences'], 'all call paths from noexcept functions and destructors',
  'A test would have to inject a failure on exactly that path.',
  [D + 'value.hpp', D + 'iterator.hpp', D + 'exception.hpp', D + 'stream.hpp'], [('noexcept specifications', D + 'value.hpp')]),
P('C25', 'Parsing terminates and consumes input at every step',
  'Every loop of the parser either consumes a character or ends, so parsing any finite text terminates, and skipping whitespace or comments and reading strings or numbers uses no recursion, whatever their length.',
  ['inputs'], 'all texts of any length',
  'A hang or unbounded recursion needs a particular input.',
  [INC + 'json.hpp', D + 'parser.hpp', D + 'encoding.hpp'], [('scanner loops', INC + 'json.hpp')]),
P('C26', 'Stream wrappers read and write the wrapped value',
  'Writing json::wrap(x) or a value to a stream emits the document of x, using the stream’s width and fill as indentation, and reading into a wrapped object replaces it with the value of the document; failures are reported by exception, and reading into a wrapped object of a user’s type leaves it unchanged if the text is malformed or its conversion fails. Nothing is read from or written to a stream that has already failed.',
  ['inputs', 'configurations'], 'all wrapped values, streams and options',
  'The tests wrap a few objects once.',
  [D + 'wrapper.hpp'], [('iostream_wrapper', D + 'wrapper.hpp')]),
P('C27', 'Floats survive writing and reading',
  'Every finite float, written with enough precision and read again, yields the same float, and is read to the nearest representable value of its text.',
  ['inputs'], 'all finite floats and all number texts',
  'The tests round-trip a few floats.',
  [INC + 'json.hpp'], [('json_parser::scan_float / scan_exponent', INC + 'json.hpp'), ('json_serializer::put_float', INC + 'json.hpp')]),
P('C28', 'Deeply nested text cannot exhaust the stack',
  'Parsing, dumping, copying and destroying arbitrarily deeply nested values succeeds or is refused with an exception, but never overflows the stack.',
  ['inputs'], 'all nesting depths',
  'The tests nest a few levels.',
  [D + 'parser.hpp', D + 'serializer.hpp', D + 'value.hpp'], [('basic_parser::do_parse recursion', D + 'parser.hpp')]),
]

NA = {
 'C27': 'Correct rounding quantifies over the numeric result of long chains of floating-point operations; no static analysis in reach bounds it, and the reader (digit by digit, powers of 0.1) is known not to round correctly, so the property does not hold of the design. The kind, sign and finiteness of floats are decided under C10 and C13.',
 'C28': 'The recursion depth is a runtime quantity (the nesting of the text); the call graph shows that do_parse, do_dump and the destructor are recursive with no depth limit, so the property is known not to hold and the stack size that bounds it is outside the source.',
}
PENDING = 'No sound check has been built for it.'

CHECKS = {}   # id -> (technique, level_note)
def load():
    p = os.path.join(ROOT, 'tools', 'claims.json')
    return json.load(open(p)) if os.path.exists(p) else {}

def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    claims = load()
    checks, na = [], []
    for p in PROPS:
        i = p['id']
        if i in claims:
            c = claims[i]
            checks.append(dict(property=i, quick_cmd='python3 check.py ' + i,
                               thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                               evidence_file='evidence/%s.json' % i,
                               technique=c['technique'], level='other', level_note=c['note']))
        else:
            na.append(dict(property=i, reason=NA.get(i, PENDING)))
    m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
             notes='Static analysis only: every check rebuilds LLVM IR (or re-runs the compiler front end) from /repo’s current headers and decides the property from it; nothing of configor is executed.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
    print('claimed', [c['property'] for c in checks], 'n/a', [n['property'] for n in na])
main()
