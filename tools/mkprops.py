import json
P=[]
def p(id,title,st,over,qt,why,files,mech):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
U='include/papilio/utf/'
p('P01','Every Unicode scalar value survives encoding and decoding in UTF-8/16/32',
 'For every Unicode scalar value c, a code point built from c holds exactly the well-formed UTF-8 encoding of c, converts back to c, and emits exactly the well-formed UTF-8, UTF-16 or UTF-32 code units of c when appended to a string of that encoding. Decoding the well-formed encoding of c (char, char8_t, char16_t, char32_t, wchar_t) from the front of any buffer yields c and the number of code units it occupies. A UTF-16 high surrogate that is not followed by a low surrogate is reported by an exception.',
 ['inputs'],'all 1,112,064 scalar values in every encoding, whatever follows them in the buffer; all pairs of 16-bit units',
 'The tests decode and encode a dozen hand-picked characters; a wrong mask, shift or range boundary at an unsampled scalar value passes them.',
 [U+'codepoint.hpp',U+'codepoint.inl',U+'stralgo.hpp','src/utf/codepoint.cpp'],
 [('decoder<CharT>::to_codepoint / to_char32_t / from_codepoint',U+'codepoint.inl'),('codepoint::append_to_as / append_to / assign / operator char32_t',U+'codepoint.hpp'),('is_leading_byte, byte_count, is_high_surrogate, is_low_surrogate',U+'stralgo.hpp')])
p('P02','String length is the number of code points',
 'For every well-formed UTF-8, UTF-16 or UTF-32 string of any length, utf::strlen of a view and length() of a string reference equal the number of code points in it. utf::strlen of a pointer with a limit counts the code points before the first NUL or the limit, whichever comes first, and never reads at or beyond the limit.',
 ['inputs'],'all well-formed strings of all lengths, all limits that fall on a code point boundary',
 'The tests measure a handful of literals, none with every length class of code point adjacent to every other, and none at a limit.',
 [U+'stralgo.hpp',U+'string.hpp'],
 [('strlen overloads',U+'stralgo.hpp'),('implement_string::length',U+'string.hpp')])
p('P03','Index and reverse index address exactly the i-th code point',
 'For every well-formed string and every index i, the offset lookup returns the offset at which the i-th code point starts (counted from the front, or from the back for a reverse index), and npos exactly when the string has no more than i code points. at() returns that code point and throws out_of_range exactly when there is none; index_or() returns that code point or the given default; operator[], index(), front() and back() return that code point whenever it exists.',
 ['inputs'],'all well-formed UTF-8/16/32 strings of all lengths, all indices up to the largest size_t',
 'The tests index short literals with small indices; the empty string, huge indices and mixed-length sequences are not reached.',
 [U+'stralgo.hpp',U+'string.hpp'],
 [('index_offset overloads',U+'stralgo.hpp'),('implement_string::get_offset/at/index/index_or/front/back, cp_from_off, make_const_reference',U+'string.hpp')])
p('P04','Iterating visits every code point exactly once, in both directions',
 'Over every well-formed string, starting from begin() and incrementing reaches exactly the start of each code point in order and then end(); decrementing from any position after the first reaches the start of the preceding code point; dereferencing yields the code point that starts there. Moving by n steps equals n single steps, and the difference of two iterators is the number of code points between them.',
 ['inputs','histories'],'all well-formed UTF-8/16/32 strings, all positions, all step counts that stay inside the string',
 'The tests walk a few literals; they cannot cover every mixture of code point lengths at every position.',
 [U+'codepoint.hpp',U+'codepoint.inl'],
 [('cp_iter_impl::next_pos/prev_pos',U+'codepoint.hpp'),('codepoint_iterator operators',U+'codepoint.hpp'),('codepoint_begin/codepoint_end',U+'codepoint.inl')])
p('P05','Substrings and prefix/suffix removal cut at the requested code points',
 'For every well-formed string of L code points, substr(pos, count) of a string reference denotes exactly code points [pos, min(pos+count, L)) and throws out_of_range (or returns an empty string, as selected) exactly when pos > L. Slicing by an index range denotes the code points between the two indices, negative indices counting from the end. remove_prefix(n)/remove_suffix(n) drop exactly min(n, L) code points from that end.',
 ['inputs'],'all well-formed UTF-8/16/32 strings, all positions, counts and index ranges',
 'Only a few in-range substrings of short literals are tested.',
 [U+'string.hpp','include/papilio/utility.hpp'],
 [('implement_string::substr / substr_extended',U+'string.hpp'),('basic_string_ref::remove_prefix/remove_suffix',U+'string.hpp'),('index_range',  'include/papilio/utility.hpp')])
p('P06','Transcoding a string preserves its code point sequence',
 'Converting a well-formed string reference to any of the encodings UTF-8, UTF-16, UTF-32 yields the well-formed encoding of exactly the same code point sequence, in order, with nothing added or lost, for strings of any length.',
 ['inputs'],'all well-formed strings of all lengths, all pairs of source and target encodings',
 'Tests convert two or three literals.',
 [U+'string.hpp',U+'codepoint.hpp'],
 [('basic_string_ref::to_string',U+'string.hpp'),('codepoint::append_to',U+'codepoint.hpp')])
p('P07','Comparison and search agree with the code point sequences',
 'For well-formed strings in any two encodings, compare() orders them lexicographically by code point value (a proper prefix first) and == holds exactly when the code point sequences are equal. Within one encoding, starts_with, ends_with and contains tell exactly whether the argument is a prefix, a suffix, or occurs, and find returns the first code point position at or after the start position where the argument (a code point or a string) occurs, or end().',
 ['inputs'],'all pairs of well-formed strings of all lengths and encodings',
 'A few literal pairs are compared; agreement for all contents is not a finite set of examples.',
 [U+'string.hpp'],
 [('compare_impl',U+'string.hpp'),('operator== / <=>',U+'string.hpp'),('find / find_impl / starts_with / ends_with',U+'string.hpp')])
p('P08','Integers are formatted exactly as their specification says',
 'For every value of every supported integer type up to 64 bits and every presentation type d (or none), x, X, o, b, B, formatting it writes exactly: the left padding, the sign required by the sign option (- for negative values, otherwise +, a space or nothing), the prefix of the alternate form (0x, 0X, 0, 0b, 0B), the zeros of zero padding, the shortest representation of the absolute value in that base in the right digit case, and the right padding. Padding is the fill character repeated up to the width, split by the alignment (right by default; zero padding applies only with default alignment). Type c writes the code point with that value, padded (left-aligned by default), and throws format_error when the value is negative or above U+10FFFF.',
 ['inputs'],'all values (including the most negative), all bases, signs, alternate forms and widths',
 'Tests format a few small numbers; boundary values such as the minimum of each type and combinations of options are not enumerated.',
 ['include/papilio/core.hpp'],
 [('int_formatter / formatter for integral types','include/papilio/core.hpp')])
p('P09','Padding and precision give text and characters exactly the requested width',
 'For every well-formed string, character and Boolean, every width, precision, fill and alignment, formatting with types s and c writes exactly: the left padding, the content, the right padding. The content is the whole text or, with a non-zero precision, its longest prefix of code points whose total display width does not exceed the precision. The padding is the fill character (a space by default), max(0, width - display width of the content) times, on the right for left alignment (the default), on the left for right alignment, and split for centring with the odd cell on the right. The display width of a code point is 2 for the wide ranges of [format.string.std], otherwise 1.',
 ['inputs'],'all strings, widths, precisions, alignments and fills',
 'Tests try a few widths and literals.',
 ['include/papilio/core.hpp','include/papilio/utf/codepoint.hpp'],
 [('std_formatter_base::fill / fill_size','include/papilio/core.hpp'),('string_formatter / codepoint_formatter','include/papilio/core.hpp'),('codepoint::estimate_width','include/papilio/utf/codepoint.hpp')])
p('P10','The format specification parser accepts exactly the documented grammar',
 'For every specification string, parsing yields exactly the fill, alignment, sign, alternate-form, zero-padding, width, precision, locale and type fields that the documented grammar assigns to it, stops exactly at the end of the specification, and rejects with an exception what the grammar does not allow.',
 ['inputs'],'all specification strings',
 'Tests parse a few dozen examples of an infinite language.',
 ['include/papilio/core.hpp','src/format.cpp'],
 [('std_formatter_parser::parse','include/papilio/core.hpp')])
p('P11','Literal text and brace escapes are copied exactly',
 'For every well-formed format string, each literal character outside replacement and script fields is written exactly once and in order, in the encoding of the output, {{ is written as { and }} as }, and nothing else is written outside the fields; a lone closing brace, an unterminated opening brace and a field that is not followed by its closing brace are rejected with a format_error. No well-formed format string makes the interpreter read outside the string.',
 ['inputs'],'all format strings of all lengths',
 'Tests format a few literals.',
 ['include/papilio/core.hpp'],
 [('basic_interpreter::format / format_impl','include/papilio/core.hpp')])
p('P12','A script emits the branch of its first true condition',
 'For every well-formed conditional script, the output is the text of the first branch whose condition holds, or of the else branch, or nothing; the text is independent of the other branches.',
 ['inputs'],'all scripts with any number of branches and any condition outcomes',
 'Tests run a few scripts with at most three branches.',
 ['include/papilio/core.hpp'],
 [('basic_interpreter::exec_script','include/papilio/core.hpp')])
p('P13','Script comparisons and truth tests agree with the values compared',
 'Comparing two script values with ==, !=, <, <=, >, >= gives the mathematical comparison of the two values whenever both are integers, and code point order when both are strings; a value used alone as a condition is true exactly when it is a non-zero number or a non-empty string, and ! negates it.',
 ['inputs'],'all pairs of values',
 'Tests compare a few constants.',
 ['include/papilio/core.hpp'],
 [('variable comparison, execute_op, exec_condition','include/papilio/core.hpp')])
p('P14','Automatic argument numbering and manual indexing cannot be mixed up',
 'A parse context hands out the automatic argument indices 0, 1, 2, ... in order. A request for an argument by number is accepted exactly when there is an argument with that number, and switches automatic numbering off for good; from then on every automatic request is refused with format_error and changes nothing. A request by name is accepted exactly when there is an argument of that name and does not affect the numbering. In a format string an empty replacement field takes the next automatic index, and a numbered field refers to the argument with exactly the number written, however many digits it has.',
 ['histories'],'all sequences of requests',
 'Tests try single mixes only.',
 ['include/papilio/core.hpp'],
 [('basic_format_parse_context::check_arg_id/next_arg_id/enable_manual_indexing','include/papilio/core.hpp'),('basic_interpreter_base::parse_field_name','include/papilio/core.hpp')])
p('P15','small_vector behaves as a sequence and neither leaks nor overruns',
 'From every valid state of a small_vector of any size, whether its elements are in the static buffer or allocated, each operation (push_back, emplace_back, pop_back, append, insert-range at end, reserve, resize, shrink_to_fit, clear, copy, move, swap, assignment) yields exactly the element sequence that operation specifies, keeps size <= capacity, keeps the static capacity available, and leaves every allocated block owned by exactly one vector or released once. Every element that is constructed is destroyed exactly once, and an argument that is an element of the vector itself counts with the value it had.',
 ['inputs','histories'],'all sizes, capacities and element values; both storage modes on both sides',
 'Tests run short fixed operation sequences; the storage-mode combinations and sizes are not enumerated.',
 ['include/papilio/container.hpp','src/container.cpp'],
 [('small_vector operations','include/papilio/container.hpp'),('small_vector_impl::get_mem_size','src/container.cpp')])
p('P16','fixed_vector behaves as a bounded sequence',
 'From every valid state of a fixed_vector, each operation yields exactly the specified element sequence, never holds more than its capacity, and reports an attempt to exceed it with length_error (and out-of-range access through at() with out_of_range) while leaving the contents unchanged. Every element that is constructed is destroyed exactly once, and an argument that is an element of the vector itself is inserted with the value it had.',
 ['inputs','histories'],'all sizes up to the capacity, all element values',
 'Tests run short fixed sequences.',
 ['include/papilio/container.hpp'],
 [('fixed_vector operations','include/papilio/container.hpp')])
p('P17','fixed_flat_map behaves as a finite map',
 'From every valid state of a fixed_flat_map, lookup finds a key exactly when it is present, insertion of an absent key adds exactly that association and of a present key changes nothing (or replaces the value for insert_or_assign), and the keys stay unique and sorted; an insertion into a full map is refused with length_error and at() of an absent key with out_of_range, both without changing the map.',
 ['inputs','histories'],'all reachable contents up to the capacity, all keys',
 'Tests insert a few fixed keys in one order.',
 ['include/papilio/container.hpp'],
 [('fixed_flat_map operations','include/papilio/container.hpp')])
p('P18','optional_unique_ptr deletes what it owns exactly once and never what it borrows',
 'Through every operation on optional_unique_ptr, an object it owns is deleted exactly once, when the last owner drops or replaces it, and an object it merely refers to is never deleted; ownership moves exactly as the operation specifies.',
 ['histories'],'all ownership states of all operands, all operations',
 'Tests check a few sequences.',
 ['include/papilio/memory.hpp'],
 [('optional_unique_ptr','include/papilio/memory.hpp')])
p('P19','string_container copies before it writes and keeps its text',
 'Every string_container operation leaves exactly the text it specifies; obtaining ownership never changes the text, and writing through a container never modifies a buffer it only refers to.',
 ['inputs','histories'],'all texts, both ownership states',
 'Tests check a few literals.',
 ['include/papilio/utf/string.hpp'],
 [('basic_string_container','include/papilio/utf/string.hpp')])
p('P20','Escaped output denotes exactly the original character',
 'For every string and every code point, the escaped (debug, \'?\') form denotes exactly the original text: each character is copied unchanged, in order, unless it is a tab, newline, carriage return or backslash (the two-character escape), the quote character (\" in strings, \' in single characters; backslash and quote), or another control character below U+0020 (\\u{...} with its exact value in hexadecimal); every code unit that is not part of a valid character is written as \\x{...} with exactly the value of that code unit, and swallows no neighbouring character.',
 ['inputs'],'all characters',
 'Tests escape a few characters.',
 ['include/papilio/core.hpp'],
 [('append_escaped / escaped output','include/papilio/core.hpp')])
p('P21','Indexing and slicing through an accessor never leaves the range',
 'For every contiguous range (spans, vectors, user ranges) of any size and every signed index, the accessor returns exactly the addressed element, negative indices counting from the end, and an empty argument when there is no such element. For every slice [a:b] it returns exactly the elements between the two ends, negative ends counting from the end and ends outside the range clamped to it, and an empty argument when the slice has no element. The same holds for the bits of std::vector<bool> and the elements of tuples and pairs (index only), and, by code points, for strings (U+0000 for a missing index, an empty string for an empty slice). The size attribute is the number of elements (strings: length in code points, size in code units) and every unknown attribute name throws invalid_attribute. Memory outside the range is never touched.',
 ['inputs'],'all range sizes, all indices and slices, all attribute names, all well-formed UTF-8 strings',
 'Tests index small fixed arrays.',
 ['include/papilio/accessor/ranges.hpp','include/papilio/accessor/tuple.hpp','include/papilio/utility.hpp','include/papilio/utf/string.hpp'],
 [('contiguous_range_accessor','include/papilio/accessor/ranges.hpp'),('accessor<std::vector<bool>>','include/papilio/accessor/ranges.hpp'),('accessor<basic_string_container>','include/papilio/accessor/ranges.hpp'),('tuple_accessor','include/papilio/accessor/tuple.hpp'),('index_range::normalize','include/papilio/utility.hpp')])
p('P30','Floating-point output is correctly rounded',
 'For every finite floating-point value and precision, the text produced is the correctly rounded decimal representation.',
 ['inputs'],'all doubles','Tests sample a few values.',['include/papilio/core.hpp'],[('float_formatter via std::to_chars','include/papilio/core.hpp')])
p('P31','Chrono, locale, colour and OS output match their documentation',
 'Formatting chrono values, locale-dependent numbers, terminal colours and file names yields the text documented for the current locale and terminal.',
 ['inputs','configurations'],'all values and environments','Tests sample the C locale.',['include/papilio/formatter/chrono.hpp','include/papilio/locale.hpp','include/papilio/color.hpp'],[('delegation to the C++ standard library and the OS','include/papilio/formatter/chrono.hpp')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
