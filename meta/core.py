# Properties: statements, anchors and how each is checked.  `python3 bin/gen.py` writes properties.jsonl and MANIFEST.json from this.
# fields: id,title,statement,over,text,why,files(default strtk.hpp),mech[(name,where)],level,technique,note,explain,parts,min_obl | na=reason
PROPS=[]
def P(id,title,statement,text,why,mech,**k):
    PROPS.append(dict(id=id,title=title,statement=statement,text=text,why=why,mech=mech,**k))
A=lambda file,**k: dict(engine='absint',file=file,**k)
B=lambda file,**k: dict(engine='bits',file=file,**k)
BT='bit-provenance dataflow over the compiler IR (each bit a boolean function of input bits, compared with its definition)'
AI='relational abstract interpretation of LLVM IR with specification-automaton drivers'
NOTE='Every obligation (memory accesses, specification automaton, ranking functions) is discharged for all inputs of the instantiated entry points; trusts clang, the LLVM passes used, the analyser and its standard-library models.'
P('C01','Splitting a text yields exactly the specified tokens',
 'For every text and every delimiter predicate, splitting hands the caller exactly the tokens the chosen mode defines (default, compressed delimiters, first delimiter kept, all delimiters kept), in order, each once, ending with the final token, and returns their number. Every token is a sub-range of the text, only characters of the text are examined, and the call returns.',
 'all texts (any length, contents) and delimiter predicates, in all six split modes','The tests split a few dozen fixed strings; a wrong boundary at an unusual position, adjacency or mode needs the input that reaches it.',
 [('split','strtk.hpp split(DelimiterPredicate, begin, end, out, split_options)')],parts=[A('d_split',only='split_[^n].*')],min_obl=30,
 explain='Drivers call split in each mode with an arbitrary predicate and an output iterator tied to an automaton that accepts only the specified next token; the analyser proves no rejection is reachable.')
P('C02','Bounded splitting stops exactly at the requested number of tokens',
 'Splitting with a token limit yields the same tokens in the same order as unlimited splitting but never more than the limit; it yields fewer only when the text has no more tokens, and the returned count is the number of tokens handed out. An empty text or a limit of zero yields none.',
 'all texts, delimiter predicates, limits and supported modes','Tests use a handful of limits on fixed strings; off-by-one at the limit or on the last token depends on both text and limit.',
 [('split_n','strtk.hpp split_n(DelimiterPredicate, begin, end, token_count, out, split_options)')],parts=[A('d_split',only='split_n_.*')],min_obl=20,
 explain='As C01 with an arbitrary token limit.')
P('C03','The tokenizer iterator walks exactly the specified tokens',
 'Iterating a tokenizer from its begin to its end visits exactly the tokens of its mode (default, compressed, first delimiter kept, all delimiters kept), each once and in order, for every text, including empty texts and texts that end in a delimiter. The iteration ends and never looks outside the text. This also holds for a tokenizer that had another text before (assign keeps the mode), for copies of a tokenizer or its iterators, and for the postfix and += increments.',
 'all texts, predicates and tokenizer modes','Tests iterate fixed strings; end-of-sequence state machines fail on particular endings and modes.',
 [('tokenizer iterator','strtk.hpp class tokenizer, tokenizer_iterator')],parts=[A('d_split',only='tok.*')],min_obl=150,
 explain='As C01 for begin()/end()/++/* of the tokenizer.')
P('C04','In-place removal keeps exactly the right elements in order',
 'Removing elements that satisfy a predicate, collapsing runs (equal neighbours, or neighbours that both satisfy a predicate) and dropping a leading run keep exactly the specified elements, in their original order at the front of the range, and return how many were dropped. Counting a trailing run returns the length of the trailing matching tail (the very first element is never part of it). The std::string forms (one character, a set of characters as text or C string, or a predicate) apply this to the whole text with exactly those characters and then drop exactly the returned count from its end, leaving the remaining characters in place.',
 'all ranges and all predicates (one fixed answer per element)','Compaction bugs need particular patterns of kept and dropped elements around the boundaries.',
 [('remove_inplace','strtk.hpp remove_inplace'),('remove_consecutives_inplace','strtk.hpp'),('remove_leading / remove_trailing','strtk.hpp')],parts=[A('d_keep'),A('d_kwrap'),A('d_range',only='remove_.*',kinds=['read','write','relation','read-range','ordered-range','length','resize-arg','memcpy-overlap'],skip='remove_duplicates')],min_obl=250,
 explain='Symbolic elements known only by origin; an automaton tracks which element may be written where. The string forms are analysed against a stand-in range form that queries the predicate, follows one arbitrary kept character and returns an arbitrary count.')
P('C05','Range scans stay inside their ranges and finish',
 'Replacing characters, wildcard and case-insensitive matching, substring search, prefix and suffix tests and duplicate removal read and write only inside the ranges they were given, always return, and report positions inside the searched text; a prefix or suffix test succeeds only when the pattern is no longer than the text.',
 'all texts, patterns and wildcard symbols, including empty ones and bytes above 127','Out-of-range reads by one are invisible to value-comparing tests.',
 [('match, imatch','strtk.hpp details::match_impl'),('find, ifind, begins_with, ends_with','strtk.hpp'),('remove_duplicates','strtk.hpp')],
 parts=[A('d_range',only='replace(_s)?|match.*|imatch.*|ifind|index_of|i?begins_with.*|i?ends_with.*|remove_duplicates'),A('d_text',only='count_dups.*')],min_obl=15,
 explain='Drivers call each scan with arbitrary buffers; every access, ordering and ranking obligation is discharged.')
P('C06','Find-all reports ordered, non-overlapping occurrences',
 'Every occurrence reported by the (case-insensitive) find-all operations has the length of the pattern, lies inside the searched data, and starts at or after the end of the one before it; the returned count is the number reported and the call returns.',
 'all data and all non-empty patterns','Overlap and end-of-data behaviour depends on pattern repetition.',
 [('find_all, ifind_all','strtk.hpp')],parts=[A('d_text',only='i?find_all')],min_obl=4,explain='Output iterator automaton checks each reported occurrence.')
P('C07','Offset splitting cuts consecutive pieces of the given lengths',
 'Splitting by offsets yields consecutive pieces starting at the beginning of the text, piece i having the i-th length except the last, which ends at the end of the text; it stops at the end of the text or of the offset list, unless the list rotates, never reads outside the text or the list, and returns the number of pieces.',
 'all texts and all offset lists (including zero and negative entries), rotating or not','Tests use two fixed offset lists that fit the text.',
 [('offset_splitter','strtk.hpp offset_splitter'),('offset_predicate','strtk.hpp offset_predicate::next')],parts=[A('d_text',only='offset_.*')],min_obl=60,explain='An arbitrary offset source monitored for use order plus the library offset predicates.')
P('C08','Splitting into two parts cuts at the first delimiter',
 'Splitting a text into a pair cuts at the first delimiter: the first part is everything before it and the second everything after it; it succeeds exactly when a delimiter with text after it exists, and on success both parts lie inside the text.',
 'all texts and delimiter predicates','The tests use well-formed key=value strings.',
 [('split_pair','strtk.hpp split_pair')],parts=[A('d_text',only='split_pair.*')],min_obl=5,explain='Delimiter-test automaton pins the cut position.')
P('C09','Delimiter characters mean exactly the listed characters, in every form of split',
 'A single-delimiter predicate accepts exactly its one value; a predicate built from a text accepts exactly the characters of that text, for all 256 character values (also queried as unsigned char) and any number or repetition of characters, and none if the text is empty. Every split, split_n and for_each_token form that takes its delimiters as a text, a C string or one character splits the whole text once, by exactly those characters, passes on the caller\'s options and token limit (default mode where none is given), and returns the resulting count.',
 'all delimiter texts and all query characters; all texts, options and limits','Tests use a few punctuation characters; a table that mishandles characters above 127, or one overload that drops an option or a delimiter, shows only for particular characters and forms.',
 [('single_delimiter_predicate, multiple_char_delimiter_predicate','strtk.hpp'),('split, split_n overloads taking delimiters as text or character','strtk.hpp'),('for_each_token','strtk.hpp')],
 parts=[A('d_delim',only='(single|tab)_.*'),A('d_dwrap')],min_obl=400,explain='A list of arbitrary length in which one arbitrary position is followed (membership must be found), or whose characters are all kept below or above the query (must be rejected); the string forms are analysed against a stand-in range form that queries the predicate it is given.',
 note=NOTE+' Rejection is decided for lists whose characters all lie on one side of the queried character.')
P('C10','Text encodings respect their size contract',
 'Hexadecimal encoding writes exactly two characters per byte and decoding one byte per two characters, refusing odd or empty input; Base64 encoding writes exactly four characters per started group of three bytes and decoding at most three bytes per four characters. All of them, and printable/upper/lower conversion, touch only their input and those output bytes, for any contents, and the string forms size their result accordingly.',
 'all byte sequences of every length','Tests round-trip whole strings; a stray byte before or after the output goes unseen.',
 [('convert_bin_to_hex/convert_hex_to_bin','strtk.hpp'),('convert_bin_to_base64/convert_base64_to_bin','strtk.hpp'),('convert_to_printable_chars, upper/lower','strtk.hpp')],
 parts=[A('d_text',only='hex_.*|b64_.*|printable.*|upper.*|lower.*')],min_obl=40,explain='Exactly sized symbolic output buffers.')
P('C11','Hexadecimal and Base64 text carries exactly the bytes encoded',
 'Hexadecimal encoding turns byte i of the input, whatever it is, into the two upper-case digits of its high and low half at positions 2i and 2i+1, and hexadecimal decoding turns two digits (either case) back into that byte. Base64 encoding writes, at position 4j+k, the character of the standard alphabet (A-Z a-z 0-9 + /) for the k-th six bits of input group j, pads an incomplete last group with zero bits, and marks its missing characters with =. Base64 decoding gives back exactly the bytes encoded.',
 'every byte at every position of an input of any length','Tests encode a few strings; one wrong table entry, shift or padding case changes only particular bytes at particular positions.',
 [('convert_bin_to_hex/convert_hex_to_bin','strtk.hpp'),('convert_bin_to_base64','strtk.hpp')],
 parts=[A('d_codec',kinds=['relation']),B('b_code')],min_obl=200,explain='One arbitrary input byte and one arbitrary output byte are followed through the loops; lookup tables are read from the program and split into affine pieces.  Whole encodings and decodings of 1 to 6 bytes (every remainder, one and two groups) are also decided bit by bit: each output bit is compared, as a boolean function of the input bits, with its definition, and decoding with the identity.')
P('C12','Binary reading and writing never leave the buffer and move by whole values',
 'A binary reader or writer over a buffer reads or writes only inside that buffer, its position never exceeds the buffer length, and every transfer that reports success advances the position by exactly the encoded size (the value size; count plus contents for strings, vectors and arrays with their length; the given width for fixed-width fields). A fixed-size value is transferred exactly when it still fits, and otherwise nothing moves. Seek and rewind succeed exactly when the target lies inside the buffer.',
 'all buffers, starting positions and values: every fixed-size type, strings, pointers with counts, arrays, pairs, vectors, other containers, length-prefixed strings, fixed-width fields, endian conversions','Tests write and read back sequences that always fit; capacity arithmetic fails only near the end of a buffer or with large stored counts.',
 [('binary::reader','strtk.hpp class binary::reader'),('binary::writer','strtk.hpp class binary::writer'),('length-prefixed strings','strtk.hpp binary::details::sized_string')],parts=[A('d_binary')],min_obl=400,
 explain='Drivers build a reader or writer at an arbitrary reachable position over an exactly sized symbolic buffer and perform one transfer.')
P('C18','Text to integer conversion yields exactly the written value or refuses',
 'Converting a range of characters to int, unsigned int, short, unsigned short, long, unsigned long, long long or unsigned long long succeeds only if the whole range is an optional sign (a minus only for signed types) followed by at least one digit and nothing else, and then delivers exactly the value written, including leading zeros. A text in that form is refused exactly when its value does not fit the type. (For the 64-bit types the exact value is established up to 18 significant digits, and refusal beyond the maximum number of digits.)',
 'all digit texts, per number of significant digits: every length, sign and leading zero combination','Each type has 10^5 to 10^19 values and unboundedly many spellings; unrolled digit loops and overflow cut-offs fail for particular lengths and last digits.',
 [('string_to_type_converter_impl_ref','strtk.hpp details::string_to_type_converter_impl_ref for signed and unsigned tags'),('numeric<T> limits','strtk.hpp details::numeric')],
 parts=[A('d_num',only='(int|uint|short|ushort)_.*|u?ll_(0|1|2|5|10|15|18|over)|u?long_(0|1|10|18|over)',secs=400),A('d_num',only='u?ll_(3|4|6|7|8|9|11|12|13|14|16|17)|u?long_(2|11)',tier='thorough',secs=400)],min_obl=300,
 explain='A character source that has one fixed answer per position and knows the exact decimal value read so far; the analyser proves value equality and the refusal conditions for each significant-digit count.')
P('C19','Text to value conversion only looks at its text',
 'Converting any range of characters to a number (integral or floating point, including not-a-number, infinity and exponent forms), boolean, character or string examines only characters of that range, never indexes outside the library\'s own tables whatever exponent or digits the text spells, leaves the position inside the range and returns.',
 'all texts up to 2^30 characters with arbitrary contents, for every convertible type','Exponents and digit tables are indexed from the text; the tests use well-formed numbers.',
 [('string_to_type_converter_impl','strtk.hpp details'),('pow10','strtk.hpp details::pow10'),('parse_nan, parse_inf','strtk.hpp details')],
 parts=[A('d_conv')],min_obl=100,explain='Drivers convert an arbitrary exactly sized buffer; every access, table index and ranking obligation is discharged.')

P('C20','Integer to text conversion writes exactly the decimal digits of the value',
 'type_to_string on short, unsigned short, int, unsigned int, long, unsigned long, long long or unsigned long long reports success and yields exactly the decimal representation of the value: a minus sign exactly for negative values, no leading zero (zero itself is the single digit 0), and digits that denote the value. bool gives 1 or 0. (For the 64-bit types this is established for magnitudes of up to 17 digits; the smaller types completely, extremes included.)',
 'all values of the 16- and 32-bit types, all 64-bit magnitudes of up to 17 digits','Digits are produced two and three at a time through tables; errors concern particular digit counts, table entries or the most negative value.',
 [('type_to_string_converter_impl (unsigned, signed, bool)','strtk.hpp'),('rev_3digit_lut, rev_2digit_lut','strtk.hpp')],
 parts=[A('d_tostr')],min_obl=700,explain='One entry per type, sign and number of digits; the digit loops are peeled completely, the tables are read from the program as jointly affine records, and the sum of the written digits is shown to equal the value.')
P('C16','Parsing several values gives each variable its own token, in order, or fails',
 'Parsing a text into 1 to 16 variables splits it once with compressed delimiters and converts the k-th token into the k-th variable, from left to right, stopping at the first conversion that fails. It reports success exactly when there are at least as many tokens as variables and every conversion succeeded; with fewer tokens it fails without converting anything. With a container after 1 to 11 variables, at least one further token is required, and all remaining tokens go to the container, whose outcome decides. The std::string forms and the line-of-a-stream forms forward the same delimiters, the whole text and every variable in its position to the range forms and return their result (false when no line can be read).',
 'all texts, delimiter strings, token counts and conversion outcomes','The sixteen hand-written overloads repeat the same sequence; a slip in one arity, in the required token count or in one position concerns only particular counts and failures.',
 [('parse(begin,end,delimiters,t1..tN)','strtk.hpp parse overloads'),('parse(begin,end,delimiters,t1..tN,container_adder)','strtk.hpp'),('parse(std::string,...), parse_line','strtk.hpp')],
 parts=[A('d_parse'),A('d_pwrap')],min_obl=2000,explain='The tokeniser (decided by C01/C02) is replaced by explicit specialisations handing out tagged tokens, one entry per number of variables and number of tokens; destination types record which token they are converted from and in which order.')
P('C17','Parsing into a container stores exactly the tokens that convert, in order',
 'Parsing into a vector, deque, list, set, multiset, queue, stack or priority queue (from a range, a pair, a std::string or a line of a stream, with the given or the default compressed splitting) tokenises the whole text once with the caller\'s mode, attempts to convert every token exactly once and in order, and stores exactly the values of those that convert; it returns the number of tokens. The bounded forms pass on the bound and return the number of values stored, also into a plain array, which is filled from the front. A container at the end of a variable list stores the remaining values up to the first that does not convert, and reports success exactly when all converted.',
 'all texts, delimiters, modes, bounds and conversion outcomes, for every container kind','Skipped, doubled or reordered values show only with failing conversions at particular positions; the tests parse clean data.',
 [('parse into containers, parse_n','strtk.hpp'),('range_to_type_back_inserter_iterator and relatives','strtk.hpp'),('container_adder','strtk.hpp details::container_adder')],
 parts=[A('d_pcont')],min_obl=800,explain='Tagged tokens from a stand-in tokeniser, stand-in containers that accept only the value just converted.')
P('C24','Field comparisons, filters, trims and case changes decide by the text given',
 'expect, begins_with, ends_with, their case-insensitive forms iexpect, ibegins_with, iends_with and imatch, string_condition (equal, notequal, like, begins_with, ends_with, within, notwithin), the size predicates (size_equal_to, size_less_than, size_greater_than, size_is_even, size_is_odd), empty_range, nonempty_range, filter_non_empty_range, filter_on_match, filter_on_wildcard_match, like, inrange, trim, trim_leading, trim_trailing, skip_while_matching, fill_array and the lower/upper-case conversions give the right answer whatever the lengths of the texts involved. Texts equal throughout (in content, or in content up to letter case for the case-insensitive forms) are accepted as equal; texts that differ at one position, wherever it lies, or in length are told apart; a prefix or suffix condition looks only at the beginning or the end and never beyond the shorter text; a pattern longer than the text is contained nowhere; "*" matches everything and a pattern without wildcards only itself. A filter passes on exactly the ranges or strings its rule lets through, once each and unchanged, inverted when asked to stop matches. inrange accepts exactly the values between its two bounds. trim asks for removal at exactly the side named, with the characters given. fill_array hands out the whole text in consecutive pieces of the requested size. Case conversion changes every letter of the text and nothing else.',
 'all texts of every length; differences at every position, in the low and the high half of the character set','Off-by-one in a suffix offset, a comparison that runs past the shorter text, or an inverted answer for one relation of lengths shows only with particular length combinations; the tests hardly touch these helpers.',
 [('expect, begins_with, ends_with and case-insensitive forms','strtk.hpp details::expect_impl and relatives'),('string_condition','strtk.hpp'),('filter_on_match, filter_on_wildcard_match, filter_non_empty_range','strtk.hpp'),('trim, inrange, fill_array, convert_to_lowercase/uppercase','strtk.hpp')],
 parts=[A('d_field'),A('d_cond'),A('d_trim')],min_obl=250,explain='Pairs of symbolic texts of unrelated lengths: both filled with one arbitrary character (equal), or different at one arbitrary position (different); a recording output counts what a filter passes on. The bulk removal behind trim is decided by C04 and replaced by a recording specialisation here.')
P('C25','token_grid reads, extracts, sums, joins and partitions exactly the asked cells',
 'For a token_grid whose table of rows gives each row any position range of the table of tokens: a row\'s size, token, range, raw_length, as_string and validate, the grid\'s row and get, and operator[] address exactly the token of that row and column; row.parse into 1 to 10 values, parse_with_index with 1 to 10 column indices, parse into a container (whole row, range, checked), parse_n and for_each_column convert exactly the row\'s tokens asked for, each from its own text, in order and once, and report failure when there are too few or a conversion fails; extract_column of 1 to 5 columns (plain, checked, iterator output) takes from every row of the range that has the columns its tokens, in row order, skips no such row, and refuses an invalid range or column; for_each_row visits the rows of the range in order; accumulate_column and accumulate_row add exactly the values of the column or row and return how many there were; column_width and join_column look at exactly the column\'s token of every row that has one; column_width is the length of the longest; join_row joins all tokens of the row (or those chosen), with the delimiter between two tokens; sequential_partition splits the range into consecutive, nonempty partitions that cover it. No access leaves either table or a token.',
 'all tables of rows and tokens of every size, rows with too few columns, every row range and column, tokens of every length','Whether a column read lands on the right token depends on the row lengths, the range and the column together; tests use one rectangular file. Ragged rows, ranges that do not start at row 0 and the last token of the last row decide the outcome.',
 [('token_grid, token_grid::row_type, extract_column*, accumulate*, join*, column_width, sequential_partition','strtk.hpp class token_grid')],
 parts=[A('d_grid'),A('d_gridc'),A('d_gridw')],min_obl=1800,explain='The two tables of the grid are replaced by stand-ins (specialisations of std::deque for the two element types): the row table hands out any pair of positions that lies within the token table (one pair per row), and the token table hands out a distinct tagged text per position, so that a conversion callback can tell exactly which cell it was given. column_width is decided as the maximum for columns whose lengths do not decrease from row to row. Loading (splitting) is decided by C01 to C03.')
P('C26','Real-number text is read digit by digit, with its point, exponent and sign',
 'Converting text to a floating point value accepts an optional sign, integer digits, an optional point and fraction digits (at least one digit in all), an optional exponent (e or E, optional sign, up to four digits after leading zeros) and an optional suffix f, F, l or L. The value is built from exactly those digits in their order, the fraction scaled by one power of ten per fraction digit, the whole by the written exponent, and negated exactly when the sign is a minus. nan, NAN, inf, INF, infinity and INFINITY, with or without a sign, give the value named; misspelt words, texts without any digit, exponents without a digit, and texts that are numbers but for one other character anywhere are refused without storing a value. Scaling by a power of ten is exact up to rounding for every exponent, and zero stays zero. decimal_sink reads an optional sign, at most the given number of integer digits and at most the given number of fraction digits in the same way, and refuses longer integer parts and empty texts.',
 'all digit values in every position of texts with up to 11 mantissa digits, with and without sign, leading zeros, point, fraction, exponent and suffix; every exponent of the table of powers','The tests convert a list of numbers and compare; a wrong entry in the table of 308 powers, a digit taken twice in one position of the unrolled loops, or a suffix after an exponent is not among them.',
 [('string_to_type_converter_impl (real_type_tag), string_to_type_converter_impl_ref, parse_nan, parse_inf','strtk.hpp namespace details'),('pow10','strtk.hpp details::pow10'),('decimal_sink','strtk.hpp class decimal_sink')],
 parts=[A('d_real',only='real_.*|none_.*|word_.*|decimal_.*|other_[0-9]*[13579]',secs=400),A('d_real',only='other_[0-9]*[02468]',tier='thorough',secs=400),A('d_pow')],min_obl=800,
 explain='The conversion is instantiated with a driver-defined number type whose operations record the Horner steps, the scaling and the negation, and with an iterator that hands out a symbolic digit for every digit position, so each step can be compared with the character it came from. Rounding of real arithmetic itself is not part of the property. The powers of ten are decided by evaluating pow10 for constant exponents inside the compiler (constant propagation), one obligation per table entry and direction.')
P('C27','Building, joining and bracketing text yields exactly the given pieces in order',
 'construct and replicate append each given piece whole, once, in order, and repeat a piece exactly the requested number of times. join and join_if over an iterator range or container yield the selected items in order with the delimiter between each two adjacent selected ones and nowhere else: none before the first, none after the last, none for an empty selection; join_if uses exactly the items accepted by the predicate, each asked once. bracketize puts the prefix before and the suffix after every item. Nothing is appended that was not given, nothing given is left out, and the memory read is only that of the pieces.',
 'all pieces of any length and content, any number of items, any predicate outcome, every form (iterator pair, vector, deque, list, set, multiset)','The tests join a few short lists; a delimiter that goes missing when the first item is rejected or is empty, or a size computed for one argument and used for another in the 12-argument form, is not seen.',
 [('construct, build_string, replicate, join, join_if, bracketize','strtk.hpp namespace strtk'),('replicate_inplace','strtk.hpp')],
 parts=[A('d_join'),A('d_joinif'),A('d_bracket'),A('d_repeat'),A('d_repl')],min_obl=400,
 explain='std::string is replaced by a model class that knows which piece and offset the text should continue with and rejects every other append, reserve notwithstanding; lengths, numbers of items and predicate outcomes are symbolic.')
P('C28','Key-value text is handed to the map pair by pair',
 'keyvalue::parser cuts its text at pair block delimiters, skips empty blocks, cuts each other block at the first pair delimiter and hands exactly these two parts, once and in order, to the map. Strict parsing stops at the first block that has no pair delimiter or that the map refuses and returns false; lenient parsing goes on, returns true and counts exactly the failures. A parser used again starts afresh. The unsigned-key map never touches memory outside its table, whatever the key text and the capacity.',
 'all texts, block counts, splits, map outcomes and parser reuse; all keys of the unsigned-key map','The tests parse a handful of pairs; failure counting after reuse, refusal by the map in the middle, and keys beyond the table are not among them.',
 [('keyvalue::parser, keyvalue::uintkey_map','strtk.hpp namespace keyvalue')],
 parts=[A('d_kv'),A('d_kvmap',only='uint_(none|used)')],min_obl=150,
 explain='split and split_pair are replaced by stand-ins allowing every outcome their own properties (C01, C08) permit and checking how they are called (delimiters, ranges); the map is a driver class that checks each pair and accepts or refuses arbitrarily.')
P('C14','Byte order and bit operations compute exactly their definition',
 'Byte order conversion reverses the bytes of 16-, 32- and 64-bit values, signed and unsigned; conversion to big endian does so and to little endian keeps the value on this platform. Interleaving puts bit k of the first text at bit 2k and bit k of the second at bit 2k+1 of the result (the n-way tables spread bit k to bit n*k), and refuses texts of different length. bitwise_transform combines byte by byte with and, or, xor. high_bit_count counts the one bits of a byte, a word or a range; hamming_distance the differing bits and hamming_distance_elementwise the differing elements of two ranges of one length, and both say so when the lengths differ. bit_state, set_bit_high and set_bit_low test and change exactly the bit asked for. None of them leaves its ranges, whatever their length.',
 'all values of every width; all contents of 1 to 3 byte ranges bit by bit; extents and termination for ranges of every length','The tests of these functions use a few values; one wrong entry of the 256-entry tables, a mask off by one bit or a shift in one of the eight terms shows only for particular bits.',
 [('binary::details::convert, convert_to_be, convert_to_le','strtk.hpp namespace binary'),('twoway_bitwise_interleave, create_nway_interleave_table, bitwise_transform, high_bit_count, bit_state, set_bit_high/low, hamming_distance(_elementwise)','strtk.hpp')],
 parts=[B('b_bits'),A('d_bitx')],min_obl=1000,technique=BT+'; '+AI,
 explain='After inlining and unrolling by the compiler each result bit is computed as a boolean function of the input bits (a truth table over the bits it depends on; table lookups and bit counts as weighted sums of bits) and compared with the definition; ranges of arbitrary length are analysed by the interval/relational engine.')
P('C29','The binary reader gets back exactly what the writer wrote',
 'Values, length-prefixed texts, short and Pascal strings, arrays, pointer-and-length sequences (any length type), vectors, deques, lists, sets, pairs and user records written one after the other with binary::writer are read back by binary::reader in the same order with the same contents, each following the other without gap. be_to_native/native_to_be move a value as its bytes most significant first, le_to_native/native_to_le least significant first. Going back to the last mark, to the start, or by a number of bytes continues reading or writing exactly there; marks nest.',
 'all contents of values of every integer width, of texts of 0, 1 and 3 characters and of sequences of 0 and 3 elements, in every form','The tests write and read one structure; a byte order helper used on the wrong side, a length written in another width than it is read, or a mark that is not taken back goes unseen.',
 [('binary::reader, binary::writer','strtk.hpp namespace binary'),('short_string, pascal_string, strtk_binary_reader/writer macros','strtk.hpp'),('details::marker','strtk.hpp')],
 parts=[B('b_rw')],min_obl=350,technique=BT,level='other',note='All contents, for fixed short shapes (texts of 0, 1, 3 characters; sequences of 0 and 3 elements); trusts clang, its optimiser and tool/bitflow.cpp.',
 explain='std::string and the containers are replaced by classes of small fixed capacity; every byte of the buffer and of the values read back is compared as a function of the bits written. That buffers of any size are never left is C12.')
L=lambda file,rules: dict(engine='lint',file=file,rules=rules)
LT='dataflow and ownership rules over the type-checked syntax tree (clang AST), whole header'
LN='The rules are decided for every class and function of the header as the compiler resolved them; a rule instance is discharged by what the code itself does, not by naming. Trusts clang and the rule implementation (tool/astlint.cpp).'
P('C21','Copies of library objects are complete and share nothing they own',
 'For every class of the library that can be copied: copying or assigning takes over every data member of the source; an object never ends up with a pointer into another object of its class; memory released by a destructor is never shared between two objects by copying; and no constructor releases memory through a pointer that has not been given a value.',
 'every class of the header, every constructor, copy constructor, assignment operator and destructor','The tests hardly ever copy sinks, filters, grids, predicates or holders; a forgotten member or shared pointer only shows when the copy outlives or diverges from its source.',
 [('hand-written copy operations','strtk.hpp: delimiter predicates, sinks, util::value, util::semantic_action_impl, bloom::filter, details::container_adder, ...'),('owning classes','strtk.hpp: token_grid, bloom::filter, trie::prefix, combination_iterator')],
 parts=[L('l_all',dict(copy=30,owner=2,self=2,share=3,release=8))],min_obl=45,level='other' if False else 'proof',technique=LT,note=LN,
 explain='For every class the members taken from the source and the members written are collected through the members and helpers the copy operations call; members released by the destructor, and pointers set to point into the object itself, must have a written (or forbidden) copy that does not take over the pointer.')
P('C22','Every constructor leaves every scalar member with a value',
 'After any constructor of any library class has run, every member of arithmetic, enumeration or pointer type has been given a value on every path through the constructor.',
 'every constructor of every class of the header, every path','Uninitialised members usually read as zero in a test and matter only for objects built in reused memory or through the rarely used constructor.',
 [('constructors','strtk.hpp: all classes')],parts=[L('l_all',dict(init=120))],min_obl=120,technique=LT,note=LN,
 explain='Must-assign dataflow over the control-flow graph of each constructor, following member functions called on the object; constructor initialisers, default member initialisers and delegation count.')
P('C23','Characters above 127 are looked up like any other',
 'No table is indexed with, and no character-class function (toupper, isdigit and the like) is given, a character whose value may be negative: every such use first makes the character unsigned. Removing duplicate characters, case-insensitive matching and character translation access only their 256-entry tables and their texts, whatever the characters.',
 'every subscript and character-class call of the header; all texts','The tests use ASCII; plain char is signed here, so a missing conversion reads before the table only for bytes above 127.',
 [('table subscripts and ctype calls','strtk.hpp: all functions'),('remove_duplicates, imatch, translation_table','strtk.hpp')],parts=[L('l_all',dict(index=250)),A('d_char')],min_obl=250,technique=LT+'; '+AI,note=LN,
 explain='Every resolved subscript and ctype call is classified by the expression (or never-compared local) its value comes from; the functions with run-time built tables are also analysed by the interval/relational engine.')
