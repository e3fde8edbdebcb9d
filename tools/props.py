# The table of properties; gen.py turns it into properties.jsonl and MANIFEST.json.
PROPS = []
NA = []
def P(id, title, statement, quant, why, files, mech, note, over=('inputs',)):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, note=note, over=list(over)))
H = 'include/daw/'

P('P01', 'String view searching is exact',
  'For every text, needle and starting position, searching a string view (forward and backward, for a substring, a character, any of or none of a set, or a predicate; containment, prefix and suffix tests included) returns the position a naive scan finds, or reports not-found exactly when there is none. It never reads outside the text or the needle.',
  'all character contents, lengths, needles and starting positions, for narrow and wide characters',
  'tests search a handful of fixed strings; positions next to the end, empty or overlong needles and wide characters only show with specific combinations',
  [H + 'daw_string_view.h'], [('find family', H + 'daw_string_view.h basic_string_view::find .. find_last_not_of, starts_with, ends_with, search*')],
  'text <=4, needle <=2..3 in the quick tier (6 / 3 thorough) and texts of 16..33 (65) with a needle at the ends, the middle or nowhere, char/char16_t/char32_t, run-time and constant-evaluation branches; the position argument of find_last_of is outside (its meaning is pinned oddly by the tests)')
P('P02', 'String view slicing and splitting never leave the text',
  'Every operation that shortens, splits, trims or copies from a string view yields exactly the stated part of the original text, for any count, position or delimiter, and clips or throws out_of_range at the ends instead of leaving it. A view claims to be zero terminated only when a terminator really follows it, so its C string is always terminated and equal to the view; splitting repeatedly consumes the text exactly once and in order.',
  'all texts, counts, positions and delimiters, with and without a terminator behind the text',
  'a wrong clip or a stale terminator mark needs a particular length/position combination and memory layout to show',
  [H + 'daw_string_view.h'], [('slicing', H + 'daw_string_view.h remove_*/pop_*/try_pop_*/substr*/trim*/get_c_str')],
  'text <=4 (<=7 thorough) and texts of 16..33 (65) with boundary counts and delimiter positions, delimiters <=2 (<=3), counts over all 64-bit values')
P('P05', 'Fixed-width unsigned types behave as integers modulo 2^N',
  'The 8, 16, 32 and 64 bit unsigned types give, for all operand values, the exact mathematical result reduced modulo the width of the result for every arithmetic, bitwise, shift (count below the width), increment, unary, conversion and compound operation, and the exact answer for every comparison, also when mixed with each other or with builtin unsigned integers of at most the same width. Rotation (counts 0 to the width), single-bit get and set, low-bit masks, literals and little-endian loads from byte buffers are exact, and no operation has undefined behaviour or touches bytes outside the buffer.',
  'all operand values of all width combinations, all rotation counts and bit positions',
  'more than 300 hand-written overloads; a truncated or sign-extended operand only shows for values above a width boundary',
  [H + 'daw_uint_types.h', H + 'daw_uint_buffer.h'], [('operators', H + 'daw_uint_types.h operators of UInt8/UInt16/UInt32/UInt64')],
  'complete over operand values (no loop bounds needed); builtin operands wider than the named type (narrowed by implicit conversion first) and division by zero are outside; the stream inserters are outside')
P('P06', 'Integer comparison and limits are mathematically exact',
  'Comparing two integers of any builtin types, including 128 bit ones and mixed signedness, gives the answer the mathematical values give, and a value is reported as representable in another integer type exactly when it is. The sign test, the smallest/largest/lowest values, digit counts and the signed/unsigned counterparts of every integer type are right.',
  'all values of all pairs of builtin integer types', 'a signed/unsigned mix-up only shows when an operand is negative or above the other type\'s maximum',
  [H + 'daw_int_cmp.h', H + 'daw_arith_traits.h', H + 'impl/daw_gcc_clang_int128.h'], [('cmp_*/in_range', H + 'daw_int_cmp.h')],
  'complete over values; bool operands are outside')
P('P07', 'Bit masks, bit sets, bit reversal and byte order conversions are exact',
  'For every value, width and bit position: mask building and testing, setting/clearing/reading selected bits, the fixed-size bit set, bit sets built from lists of positions, and reversal of the bits of an integer act on exactly the requested bits and no others. Converting to or from big endian, little endian or network order yields the value whose bytes in memory are in the stated order, and a bit cast preserves every byte.',
  'all values, positions and mask widths of 8 to 64 bit types; both the builtin and the portable bit reversal',
  'errors in a mask only show for particular bit positions or for the other byte order',
  [H + 'daw_bit.h', H + 'daw_bitset.h', H + 'daw_bitset_helper.h', H + 'daw_integer_reverse.h', H + 'daw_endian.h', H + 'daw_bit_cast.h', H + 'daw_bit_cast_util.h'],
  [('bits', H + 'daw_bit.h'), ('byte order', H + 'daw_endian.h'), ('bitset', H + 'daw_bitset.h')],
  'complete over values; bit set: 2 (4) operations on sets of 3, 32, 40 and 65 bits; little endian host; the unfinished static_bitset (its test is marked NOT COMPLETED, most members do not instantiate) is outside')
P('P08', 'Bit queues and bit streams deliver exactly the bits put in, in order',
  'A bit queue behaves as a bounded string of bits: pushing n bits appends the low n bits of the value, popping n bits at either end returns those n bits and removes them, and pushing too much or popping more than it holds from the old end is refused. A bit stream over a sequence of elements yields every bit exactly once, most significant bit first, for any split into reads; multi-element values, skipping and searching consume exactly the stated bits and running out of data is reported.',
  'all values, all bit counts, sequences of operations', 'needs read sizes that straddle element boundaries and full-width counts',
  [H + 'daw_bit_queues.h', H + 'daw_bit_stream.h'], [('queue', H + 'daw_bit_queues.h'), ('stream', H + 'daw_bit_stream.h')],
  'queues of 8/8, 16/8, 16/16, 32/32, 64/8 and 64/64 bits with 2..3 (3..4) operations from empty or full; streams of <=2 (3) elements with <=3 (4) reads; popping more than available from the new end is outside (documented precondition)')

P('P16', 'The growable vector behaves as the sequence of values put in it',
  'Whatever sequence of constructions, appends, insertions (also of its own elements), erasures, resizes, assignments, swaps, moves and fill-by-function operations is applied, the vector holds exactly the expected values in order, and its returned iterators and references designate the stated elements. Every element is constructed and destroyed exactly once and all memory is released, also when an element constructor or an allocation throws, and each block goes back to the allocator it came from; a failed append leaves the previous contents untouched. The double-ended buffer behind it keeps its elements in order in the same way.',
  'all element values, positions, sizes, spare capacities and the point at which a constructor or allocation fails',
  'needs particular size/capacity combinations, aliasing of the argument with an element, or a failure at a particular construction',
  [H + 'vector.h', H + 'split_buffer.h', H + 'wrap_iter.h', H + 'vector_algorithm.h', H + 'compressed_pair.h'], [('vector', H + 'vector.h'), ('split_buffer', H + 'split_buffer.h')],
  'vectors of <=3..4 (<=4..6) elements, and for most operations of 32 or 33 (64 or 65) at the ends and the middle, with spare capacity 0..3, one modifying operation (sequences of 3..4 at the end, of 3..4 on the double-ended buffer), integer and life-cycle checked elements, std::allocator and allocators that differ and travel on some operations; moves do not throw')
P('P15', 'The fixed-capacity vector and array behave as the sequence of values put in them',
  'As long as no more elements are added than fit, any sequence of appends, removals at either end, erasures, resizes, assignments, copies and swaps leaves exactly the expected values in order, and iterators returned by erasing designate the element after the erased ones. Size, room and fullness are reported exactly, and checked access, popping too much or resizing past the capacity is refused.',
  'all element values, counts and positions; histories with elements popped off the front', 'tests never pop from the front or erase; the front offset only matters in combination with the other operations',
  [H + 'daw_bounded_vector.h', H + 'daw_bounded_array.h'], [('bounded_vector_t', H + 'daw_bounded_vector.h'), ('array', H + 'daw_bounded_array.h')],
  'capacities 3 and 5 (33 with fewer choices), any fill and front offset, then 2 (3..4) operations; adding beyond the capacity is a precondition violation and outside')
P('P17', 'Spans and contiguous views select exactly the stated elements',
  'Constructing, sub-slicing, dropping or popping elements at either end, searching, and forward or reverse iteration of read-only and mutable spans and views yield exactly the stated range of the underlying elements, with out-of-range positions clipped or refused as specified. Writers into a span store the given values in order, advance past exactly them, change nothing else, and terminate instead of writing past the end.',
  'all positions, counts (64 bit) and element values', 'sub-range arithmetic errors need a non-zero offset and a count below the remainder; tests use whole ranges',
  [H + 'daw_span.h', H + 'daw_contiguous_view.h', H + 'daw_span_writer.h'], [('span', H + 'daw_span.h'), ('contiguous_view', H + 'daw_contiguous_view.h'), ('span_writer', H + 'daw_span_writer.h')],
  'ranges of <=3 (<=7) elements (large sizes at boundary positions); unchecked removals of more elements than there are (remove/pop on a span, dont_clip) are preconditions and outside')
P('P18', 'Views over iterator ranges select exactly the stated elements',
  'For views over any pair of iterators (pointers, bidirectional or forward iterators), indexing, first/last access, forward and reverse iteration, dropping or popping at either end, searching, popping up to or while a value, sub-views and comparisons act on exactly the stated elements, with counts beyond the size clipped where clipping is specified. The cached size always equals the distance between the two ends.',
  'all positions, counts (64 bit), element values and needles', 'a size cache going stale or a needle that is absent only shows for particular counts and contents',
  [H + 'daw_view.h', H + 'daw_iter_view.h', H + 'impl/daw_view_tags.h'], [('view', H + 'daw_view.h'), ('iter_view', H + 'daw_iter_view.h')],
  'ranges of <=3 (<=6) elements (large sizes at boundary positions); removing more than there are in the unclipped form is a precondition and outside')
P('P19', 'Ring adaptor and indexed iterators are first-in first-out and exact',
  'A ring over a container of fixed size hands elements back in the order they were added, for any interleaving of adding, removing and clearing and any rotation of the storage; size, emptiness, fullness, indexing and iteration describe exactly the stored elements. Iterators that address a container by index move, subtract and compare by exactly the given amounts over all positions from the first element to the end.',
  'all rotations, fills, operation sequences and values', 'wrap-around needs more pushes than the capacity, interleaved with pops',
  [H + 'daw_ring_adaptor.h', H + 'iterator/daw_indexed_iterator.h', H + 'daw_container_traits.h'], [('ring', H + 'daw_ring_adaptor.h'), ('indexed_iterator', H + 'iterator/daw_indexed_iterator.h')],
  'capacities 2, 3 and 4 (17 and 33 with fewer choices) over array, std::array and std::vector, any rotation and fill, then 2..3 (4..5) operations; adding to a full or taking from an empty ring is outside (asserted precondition)')
P('P13', 'Sorting orders any input and loses nothing',
  'Each fixed-size sorting network, the general sort, the stack based quick sort and the sorting into a fixed-size result leave a permutation of their input arranged so that no element compares less than its predecessor, for any values, any order and any size, with the default or a given ordering. The sorting into a bounded result also drops nothing that fits and keeps the elements in the requested direction.',
  'all arrangements of all values of the small sizes; patterned inputs with arbitrary values at arbitrary positions for the large ones',
  'a wrong comparator in a network only shows for a few of the n! arrangements; size thresholds select different code',
  [H + 'daw_sort_n.h', H + 'daw_algorithm.h', H + 'deprecated/daw_stack_quick_sort.h'], [('networks', H + 'daw_sort_n.h'), ('sort', H + 'daw_sort_n.h sort'), ('quick sort', H + 'deprecated/daw_stack_quick_sort.h')],
  'networks of 3..8 and 16 complete (arbitrary values), 32 with one ordered half; general sort complete up to size 8, 9..34 (..63), 64..100 (..160) and 1000 as seven patterns with one arbitrary value; life-cycle checked elements; quick sort: sorted for every input up to size 3, two-valued up to 8 (12), already ordered up to 6 (9), a permutation for every input up to size 5 (6); beyond that finding F-P13-1 applies')
P('P14', 'Range algorithms do what their standard namesakes specify',
  'Searching, bound searching in ordered ranges, comparing, counting, copying, moving, filling, transforming, folding, scanning, rotating, partitioning, splitting, repeating and set intersecting over iterator ranges and whole containers give, for any content, predicate threshold and position, exactly the result the specification of the like-named standard algorithm gives. They write exactly the specified outputs, and stepping an iterator with a limit never passes it.',
  'all contents, needles, thresholds, positions and lengths within the bounds',
  'an error for an absent needle, an empty range, equal elements or a boundary position needs that exact combination',
  [H + 'daw_algorithm.h', H + 'daw_algorithm_cx.h', H + 'daw_container_algorithm.h', H + 'daw_swap.h', H + 'algorithms/daw_algorithm_find.h', H + 'algorithms/daw_algorithm_find_transform.h', H + 'algorithms/daw_algorithm_accumulate.h', H + 'algorithms/daw_algorithm_partial_sum.h', H + 'algorithms/daw_array_compare.h'],
  [('algorithms', H + 'daw_algorithm.h'), ('container forms', H + 'daw_container_algorithm.h')],
  'ranges of <=3 (<=5) elements and of 8..17 (33) with the decisive element at the ends or the middle; not_equal and consume_if (meaning not specified) and a step of the smallest 64 bit value are outside')
P('P20', 'Result, optional and validated types hold exactly one honest state',
  'An expected value (of a value or void type, and the form that lists its exceptions) is at all times exactly one of empty, value or exception, however it was made or changed; the exception given or thrown is the one rethrown on access and copies are independent. An optional (of values, references or polymorphic objects) reports presence and value faithfully, refuses access when empty, owns its contents exactly once and orders like the standard optional. A validated value never holds something its predicate rejects: constructing or assigning a rejected value throws and changes nothing.',
  'all values, every constructor, one modification afterwards, every combination of presence',
  'a wrong state after one particular sequence of construction and change, or one comparison form, is not exercised by tests',
  [H + 'daw_expected.h', H + 'daw_optional.h', H + 'daw_validated.h', H + 'deprecated/daw_optional_poly.h', H + 'deprecated/daw_checked_expected.h'],
  [('expected', H + 'daw_expected.h'), ('optional', H + 'daw_optional.h'), ('validated', H + 'daw_validated.h')],
  'one construction and one modification; nullary callables, one or two arguments; copies of a polymorphic optional are checked through the declared type (copying slices by design)')
P('P23', 'Owning pointers destroy each object exactly once and keep it while owned',
  'Under any sequence of making, moving, copying where allowed, swapping, resetting, releasing and chaining, the unique, maybe-owning, value-semantic, heap-value, copiable and reference-counted pointers hold exactly the object the sequence implies. Every owned object is destroyed exactly once, by its deleter, and not before its last owner lets go; a borrowed object is never destroyed, a released one is left alone, and copies of value-semantic owners are independent. Comparisons order by address (value-semantic ones by value, empty first) and the reported use count is the number of owners.',
  'all sequences of 2-4 operations on two or three owners, all values',
  'a double free or leak appears only after one particular history such as resetting one of several sharers',
  [H + 'daw_unique_ptr.h', H + 'daw_maybe_unique_ptr.h', H + 'daw_value_ptr.h', H + 'daw_ref_counted_pointer.h', H + 'deprecated/daw_heap_value.h', H + 'deprecated/daw_copiable_unique_ptr.h', H + 'daw_monadic_pointer_ops.h'],
  [('unique', H + 'daw_unique_ptr.h'), ('maybe owning', H + 'daw_maybe_unique_ptr.h'), ('reference counted', H + 'daw_ref_counted_pointer.h'), ('value semantic', H + 'daw_value_ptr.h')],
  'sequences of 2-3 (3-4) operations; single threaded; use of a moved-from heap value and constructors of the maybe-owning pointer taking a deleter (they do not compile) are outside')
P('P34', 'Non-owning pointers point where arithmetic says and refuse null or strays',
  'Observer, const-propagating, never-null, range-checked pointers and reference wrappers refer to exactly the element that ordinary pointer arithmetic and assignment give, compare by address, and give only const access where they promise it. A never-null or const-propagating pointer can never come to hold null and a null observer cannot be dereferenced: the program stops instead. A range-checked pointer stops the program instead of stepping, dereferencing or subscripting outside its range, or being used after it was destroyed.',
  'all positions in small arrays, all steps, all values',
  'tests step inside the range; the boundary element, the end and negative steps need their own combination',
  [H + 'daw_observer_ptr.h', H + 'daw_prop_const_ptr.h', H + 'daw_not_null.h', H + 'daw_safe_pointer.h', H + 'daw_rw_ref.h', H + 'daw_reference.h', H + 'daw_read_only.h'],
  [('never null', H + 'daw_not_null.h'), ('range checked', H + 'daw_safe_pointer.h'), ('observer', H + 'daw_observer_ptr.h')],
  'arrays of 3-4 elements; the range-checked pointer of void and the deprecated never-null pointer only partly')

P('P29', 'Iterator adapters step, compare and bound exactly like positions',
  'Chunk, circular, counting, indexed, checked, pointer, reversed, wrapped, repeated, integer, stepped-sequence, argument-list, filtering, zipped and type-erased iterators refer to the element at the position that the steps taken add up to; incrementing n times, adding n, subtracting -n and indexing agree, differences and orderings follow positions, and postfix steps return the old position. Indexed and checked iterators and argument access refuse whatever lies outside their range, inserting iterators put every value exactly once where they promise (sorted ones in order), and erased iterators release what they hold. Iterator views keep size, contents and search results in step through every removal, pop and sub-view.',
  'all positions, steps and values in small ranges; circular steps up to 2^30 in either direction',
  'an off-by-one at an end, a negative step or a whole number of rounds is one of many positions tests do not visit',
  [H + 'iterator/*.h', H + 'daw_iter_view.h', H + 'daw_zipcontainer.h', H + 'wrap_iter.h'],
  [('circular', H + 'iterator/daw_circular_iterator.h'), ('checked', H + 'iterator/daw_checked_iterator_proxy.h'), ('indexed', H + 'iterator/daw_indexed_iterator.h'), ('view', H + 'daw_iter_view.h')],
  'ranges of 3-5 elements; bit_iterator (does not compile when used), split_iterator (marked not completed), arrow access of zip iterators, const iteration of zip containers and find iterators without an end are outside; equality of stepped sequences past each other is a known finding')
P('P03', 'Text parsing gives exactly the spelled value or refuses',
  'Parsing text into an integer gives exactly the number its sign and digits spell, or refuses: a number that does not fit, an empty text, a lone sign or stray characters never produce a value. Splitting, quoted-text, trimming, searching and matching return exactly the pieces, positions and found flags that reading the text from left to right defines, never look outside the text, and end; fields parsed with a delimiter or white space arrive in order or the parse refuses. Character classification and ASCII case conversion agree with the ASCII tables for every character, program arguments split into name and value at the first equals sign, and string concatenation keeps every part in order.',
  'every text up to small lengths; numbers around the limits of 8 to 64 bit types',
  'an overflow, a missing terminator or an empty remainder is one text among many that tests do not contain',
  [H + 'daw_parse_to.h', H + 'daw_from_string.h', H + 'daw_parser_addons.h', H + 'daw_parser_helper.h', H + 'daw_parser_helper_sv.h', H + 'daw_ascii.h', H + 'daw_parse_args.h', H + 'daw_string_concat.h'],
  [('parse to', H + 'daw_parse_to.h'), ('numbers', H + 'daw_parser_addons.h'), ('splitting', H + 'daw_parser_helper.h'), ('arguments', H + 'daw_parse_args.h')],
  'texts of <=6 characters, searching and splitting also 16..33; floating point (strtod), find_first_of_any, is_crlf, one_of (does not compile), doubled escapes in quoted text are outside; conversion of numbers outside the neighbourhood of the limits only by overlap with short texts')
P('P11', 'Integer mathematics, rounding, minimum and maximum are exact',
  'Absolute value, powers of any base, of two and of ten, factorials, squares, minimum and maximum of several values (also of different widths), rounding to the nearest, lower or upper integer or multiple, decimal digit counts, odd and even tests, rounding up to a power of two, leading/trailing zero and set bit counts, sign copying and mixed-sign comparison give the mathematical result for every argument whose result is representable. Natural numbers never hold a value below one: construction, assignment, subtraction, division, remainder and decrement that would leave one refuse and change nothing. Near-equality of floating point numbers is symmetric to the documented relative test, exact for equal values and near zero, and a not-a-number is only near another one.',
  'all argument values (all single and double precision values below the stated magnitude for rounding)',
  'the lowest integer, negative fractions, whole numbers, the top bit: single values out of 2^64 that tests do not contain',
  [H + 'daw_math.h', H + 'daw_cxmath.h', H + 'daw_natural.h', H + 'impl/daw_math_impl.h'],
  [('rounding', H + 'daw_math.h'), ('bit counts', H + 'daw_cxmath.h'), ('natural numbers', H + 'daw_natural.h')],
  'complete over values except: powers with exponents <=9, natural number products and quotients of operands below 16, rounding of magnitudes below 2^30 / 2^62, multiples of 1/2, 2, 8; sine and cosine are outside (series without an exact specification)')
P('P12', 'Floating point decomposition and scaling are bit exact',
  'Classifying a floating point number, testing for NaN, infinity and finiteness, absolute value, sign copying, reading its exponent and significand, setting or adjusting the exponent, scaling by a power of two, stepping by units in the last place and computing powers of two give exactly the IEEE result for every bit pattern whose result is normal. Tabulated powers of two and ten match the true powers to double precision, exactly where those are representable. Square roots are not-a-number exactly for negative numbers and NaN, keep zero and infinity, and are accurate to a few units in the last place.',
  'all single and double precision bit patterns, all exponents',
  'subnormals, signed zeros, the extreme exponents and exponent zero are rarely in a test',
  [H + 'daw_cxmath.h'],
  [('decomposition', H + 'daw_cxmath.h fp_classify/get_exponent/set_exponent/adjust_exponent/ldexp'), ('square root', H + 'daw_cxmath.h sqrt')],
  'complete over bit patterns with normal results; scaling with the low 32 significand bits zero; the accuracy of square roots is evaluated at points only (352 per type quick, 2816 thorough): symbolic division chains exceed the solver')

P('P25', 'Callable wrappers call exactly what they were given, and keep it while held',
  'Function references, views, in-place and shared functions, function tables, overload sets and callables made from pointers, members or bound arguments call exactly the target they were last given, with the arguments in order and unchanged, and return its result. Owning wrappers copy, move, swap and destroy their target exactly once and keep it independent of the original; non-owning ones track the original; an expired or empty wrapper is reported, never called. Small-buffer storage holds exactly the one value last stored, whether it fits the buffer or not.',
  'all argument values, every table index, every sequence of up to three operations on owners',
  'a wrong target after a copy, move or self assignment needs that sequence',
  [H + 'daw_function_ref.h', H + 'daw_function_view.h', H + 'daw_stack_function.h', H + 'daw_shared_function.h', H + 'daw_function_table.h', H + 'daw_bind_args_at.h', H + 'daw_bind_front.h', H + 'daw_overload.h', H + 'daw_sbo.h', H + 'daw_callable.h', H + 'daw_mutable_capture.h', H + 'daw_fwd_pack_apply.h'],
  [('views', H + 'daw_function_view.h'), ('in place', H + 'daw_stack_function.h'), ('shared', H + 'daw_shared_function.h'), ('table', H + 'daw_function_table.h')],
  'up to three operations on two or three owners; single threaded')
P('P26', 'Graphs keep nodes and edges consistent and walk them in a legal order',
  'After any sequence of adding and removing nodes and edges, a directed or undirected graph has exactly the nodes and edges the sequence leaves: every edge joins two existing nodes and is seen from both its ends, removed nodes leave no edge behind, and queries for nodes, values, edges, roots and leaves answer from that state; a missing node is reported. A topological order lists every node of an acyclic graph exactly once, every edge leading forward, and a cycle never produces one that claims otherwise. Breadth- and depth-first walks visit exactly the nodes reachable from the start, the first visits in breadth- or depth-first order, and a minimum spanning tree connects the nodes with the least total cost.',
  'all edge sets over a few nodes, all values and edge costs, all sequences of edits',
  'the result depends on the shape of the whole graph; tests contain a handful of shapes',
  [H + 'daw_graph.h', H + 'daw_graph_algorithm.h'],
  [('graph', H + 'daw_graph.h'), ('walks', H + 'daw_graph_algorithm.h')],
  'every set of edges over <=4 nodes; sequences of 3 (4) edits; walks may visit a node again later, as the existing tests pin')
P('P27', 'Hashes equal their published definitions for every input',
  'The FNV-1a hash of any text, byte range, array, integer or pointed-to value, the 32 and 64 bit generic hash, MetroHash64 and SipHash-2-4 are exactly the published functions of the bytes, the length and the seed or key given. Each form of the same bytes (pointer and length, iterator pair, string view, terminated string) gives the same hash, and nothing outside the range is read.',
  'all contents, seeds and keys for every length up to the bound',
  'bytes above 127 and particular tail lengths take their own path; a test pins a handful of texts',
  [H + 'daw_fnv1a_hash.h', H + 'daw_generic_hash.h', H + 'daw_metro_hash.h', H + 'daw_sip_hash.h'],
  [('fnv', H + 'daw_fnv1a_hash.h'), ('metro', H + 'daw_metro_hash.h'), ('sip', H + 'daw_sip_hash.h')],
  'texts up to 3 (8) bytes for FNV, 40 (100) for MetroHash, 17 (40) for SipHash; the unfinished 16 bit generic hash is outside')
P('P28', 'Fixed hash tables find exactly the keys they hold',
  'In a fixed-capacity hash set, a static hash table and a perfect hash table, a key is found exactly when it was put in and not taken out since, with the value last stored for it, whatever the hashes of the keys and however they collide. Sizes count the keys held, erasing one key never hides another, an absent key is reported absent, and a full table refuses instead of overwriting or writing past its end.',
  'all sequences of a few operations over colliding and spread keys; all key sets of the stated size for the perfect table',
  'a lost key needs a particular collision followed by a particular erase',
  [H + 'daw_hash_set.h', H + 'static_hash_table.h', H + 'daw_min_perfect_hash.h'],
  [('set', H + 'daw_hash_set.h'), ('static table', H + 'static_hash_table.h'), ('perfect table', H + 'daw_min_perfect_hash.h')],
  'capacities 3-4, sequences of 3-5 operations, and 17..20 keys with one erased or missing; perfect tables of 1, 3 and 7 keys')
P('P30', 'Range pipelines equal the plain loop they replace',
  'For every range, composing stages (mapping, filtering, taking, skipping, prefixes by predicate, every n-th, chunks, sliding windows, flattening, splitting, zipping, swizzling, selecting elements, concatenating, enumerating, counting sequences, unique, reverse, clamp, caching, random sampling, conversion to containers) yields exactly the values, in order, that the plain loop over the input would yield, for empty, short and uneven ranges too, in both call styles and however stages are composed. The final stages (sum, compensated sum, count, minimum, maximum, find, contains, first, for-each, sort) return what the loop would, own comparisons and projections included. The views\' iterators step, jump, compare and subtract like positions in the result and never read outside the input.',
  'all contents of ranges up to the bound, all counts, windows, delimiters and thresholds',
  'views are lazy: a wrong stop or step shows for particular lengths and values only',
  [H + 'daw_pipelines.h'] + [H + 'pipelines/%s.h' % x for x in 'algorithm cache_last_view chunk concat copy drop elements enumerate every filter find first flatten foreach generate iota map maybe numeric pipeline predicates range reverse sample sized_iterator skip slide split swizzle take to unique zip'.split()],
  [('map', H + 'pipelines/map.h'), ('flatten', H + 'pipelines/flatten.h'), ('split', H + 'pipelines/split.h'), ('zip', H + 'pipelines/zip.h')],
  'ranges of <=4 (6) elements and, for most stages, of 16..17 (33) at boundary positions, zips of <=3 elements in <=3 ranges; compensated sums of <=3 small whole numbers and powers of two; printing is in P46; containers are passed as lvalues or views')
P('P31', 'Tuples, visitation and polymorphic values give the element held',
  'Reading, changing, comparing, concatenating, applying a function to, or indexing at run time a tuple touches exactly the element asked for, with its value or as a reference to the original, and a position past the end runs no function or stops. Visiting a variant of any number of alternatives calls the visitor once with the alternative held, and casting one gives its converted value; a variant that lost its value, or holds something not convertible, is reported. Polymorphic values and two-way unions hold an independent object of the last stored type through every sequence of stores, copies and moves, and construct and destroy each object exactly once.',
  'all element values, positions and alternatives; all short sequences of stores, copies and moves',
  'the wrong alternative or a lost destructor shows only for particular sizes and sequences',
  [H + x for x in ('daw_tuple.h', 'daw_tuple2.h', 'daw_tuple_helper.h', 'daw_apply.h', 'daw_visit.h', 'daw_visit_as.h', 'daw_variant_cast.h', 'daw_poly_value.h', 'daw_poly_var.h', 'daw_union_pair.h')],
  [('tuple', H + 'daw_tuple.h'), ('visit', H + 'daw_visit.h'), ('poly', H + 'daw_poly_value.h')],
  'tuples of <=6 elements, variants of 1-18, 26 and 33 alternatives, sequences of 2-3 (3-4) operations; printing is outside, and enumerated tuples need a newer standard library than the one installed')
P('P32', 'Scope guards, unique resources and take run every clean-up exactly once',
  'A scope guard runs its handler exactly once when its scope ends, normally or by an exception, unless it was cancelled, dismissed or already run, and handing it over by move hands over the duty; a success-only guard runs exactly when no exception leaves the scope. A unique resource calls its deleter, and an owner of a C file handle closes the file, exactly once for every resource it was given and that was not released from it, through any sequence of resets, releases, emplacements and moves, and access to an empty one terminates. Taking a value returns it and leaves the stated default behind, and repeating a function n times calls it exactly n times with the stated indexes.',
  'all values, flags and histories of handing over, resetting and releasing', 'needs a reset or a move followed by the end of the scope; the tests only let one guard expire',
  [H + 'daw_scope_guard.h', H + 'daw_unique_resource.h', H + 'daw_take.h', H + 'daw_do_n.h', H + 'deprecated/daw_cfile.h'], [('guards', H + 'daw_scope_guard.h'), ('resource', H + 'daw_unique_resource.h'), ('take', H + 'daw_take.h')],
  'histories of 3 (5) operations on two owners; releasing from an empty resource is a precondition violation and outside; whether the replaced handler of an assigned guard runs is left open (at most once is checked); success-only guards inside another unwinding are outside')
P('P33', 'Atomics, one-time gates, counted resources and timed waits survive any schedule',
  'Whatever way threads interleave, a one-time gate lets exactly one caller through per reset and what was done before is visible to the one let through next; a counted resource counts exactly the live objects; and no update made through an atomic value is lost, each operation giving the result and the resulting value of the plain operation. What a thread wrote before a releasing store is visible to the thread that acquires it. A timed wait reports found only when its condition was met, reports a timeout only after the deadline has passed with the condition unmet, and an untimed wait returns exactly when the condition holds.',
  'all values, all interleavings with the stated number of preemptions, all clock advances', 'tests run one or two schedules, and on x86 a too weak memory order cannot be observed at all',
  [H + 'daw_allow_once.h', H + 'daw_countable_resource.h', H + 'daw_cx_atomic.h', H + 'daw_atomic_wait.h'], [('gate', H + 'daw_allow_once.h'), ('atomic', H + 'daw_cx_atomic.h'), ('waits', H + 'daw_atomic_wait.h')],
  '2-3 threads of 1-2 operations, 2-3 (3-5) preemptions, sequentially consistent interleavings with happens-before race detection; stale values under relaxed orders are outside; clock advances of <=2 s at 4 readings, then past every deadline', over=('inputs', 'schedules'))
P('P35', 'Small utilities do exactly what they say for every value',
  'Counting set bits, hexadecimal output of integers, objects and ranges, ASCII case conversion, narrowing casts and their range checks, membership and any-of comparisons, container helpers (contains, index of, find all where, append, copies, ranges), conversions between values and bytes, pack selection and application, ends of data, buffers, member offsets and underlying values all give, for every input, exactly the result their name states. Nothing outside the given data is read or written, and a cast whose value does not fit is refused.',
  'all values, container contents and positions', 'boundary values, negative numbers and wide characters are each a special case; several of these helpers have no test at all',
  [H + 'daw_utility.h', H + 'daw_container_algorithm.h', H + 'daw_ascii.h', H + 'daw_data_end.h', H + 'daw_cx_offset_of.h', H + 'daw_to_underlying_type.h'],
  [('utility', H + 'daw_utility.h'), ('ascii', H + 'daw_ascii.h')],
  'containers of <=4 elements; values complete; function-trait helpers, initializer-list makers and size literals are outside')
P('P36', 'Value holders keep exactly the values put in them',
  'A holder of the n best values holds, in order, the n smallest (or largest) of everything offered and its initial values; array makers, simple arrays, heap-allocated unique arrays, uninitialised storage and move-only wrappers hold the values given, in place, and give out the same object through every accessor; checked access past the end is refused. Named options return the value given for the asked name or the default, and a piecewise factory builds the object from exactly the collected arguments; every object is created and destroyed exactly once.',
  'all values, sizes, insertion orders and positions', 'the wrong element is dropped only for particular orders and ties',
  [H + 'daw_keep_n.h', H + 'daw_array.h', H + 'daw_simple_array.h', H + 'daw_unique_array.h', H + 'daw_uninitialized_storage.h', H + 'daw_move_only.h', H + 'daw_named_params.h', H + 'daw_piecewise_factory.h'],
  [('keep_n', H + 'daw_keep_n.h'), ('unique_array', H + 'daw_unique_array.h'), ('simple_array', H + 'daw_simple_array.h')],
  'keep_n of 1-3 from <=4 (5) insertions, arrays of <=4 elements')
P('P37', 'Random helpers stay in range, lose nothing and repeat for a seed',
  'Whatever the engine delivers, a random integer or real stays within the bounds asked for and every value of the bounds can occur; shuffling yields a permutation, and every permutation occurs equally often over the choices of the engine; filling and making random data writes every element asked for and nothing else. The same seed gives the same sequence again, and compile-time sources follow their stated generator.',
  'all engine outputs, seeds, bounds and data sizes', 'a test that draws samples cannot show that a bound is never exceeded or an element never lost',
  [H + 'daw_random.h'], [('random', H + 'daw_random.h')],
  'data of <=4 elements; the standard engines and distributions are replaced by ones that deliver an arbitrary allowed value')
P('P38', 'Heap and stack arrays and insertion-ordered maps keep what was put in',
  'The fixed-size heap array, the sentinel heap array and the byte-backed stack array behave, through construction from sizes, values, ranges and lists, copying, moving, assigning, clearing, swapping and releasing, as the sequence of elements put in them: forward and reverse iteration, data and checked access agree, searching finds the first match, access past the end is refused, and every object and allocation is released exactly once. The insertion-ordered map holds each key once, with the value last stored, in order of first insertion.',
  'all element values, sizes, positions and short sequences of operations', 'a lost end pointer or a double release needs a particular move or clear first; none of the arrays has a test',
  [H + 'deprecated/daw_fixed_array.h', H + 'deprecated/daw_heap_array.h', H + 'deprecated/daw_carray.h', H + 'deprecated/daw_ordered_map.h'],
  [('fixed_array', H + 'deprecated/daw_fixed_array.h'), ('heap_array', H + 'deprecated/daw_heap_array.h'), ('carray', H + 'deprecated/daw_carray.h'), ('ordered_map', H + 'deprecated/daw_ordered_map.h')],
  'arrays of <=3 elements; map sequences of 4 (5) operations; element constructors that throw are outside')
P('P39', 'Bounded hash maps, sets and graphs hold exactly what was put in',
  'After any sequence of inserting, overwriting and erasing, a bounded hash map or set finds exactly the keys put in and not erased since, with the value last stored, however their hashes collide; iteration in both directions visits each once and never leaves the table, a missing key is reported, and a full table refuses. A fixed lookup table returns the value stored for a key, keeps positions stable and throws for missing keys or when full; a bounded graph has exactly the nodes and edges its edits leave, seen from both ends, and its queries answer from that state.',
  'all sequences of a few operations over colliding and spread keys', 'a lost key needs a particular collision followed by a particular erase; these containers have no tests',
  [H + 'deprecated/daw_bounded_hash_map.h', H + 'deprecated/daw_bounded_hash_set.h', H + 'deprecated/daw_bounded_graph.h', H + 'deprecated/daw_fixed_lookup.h'],
  [('map', H + 'deprecated/daw_bounded_hash_map.h'), ('set', H + 'deprecated/daw_bounded_hash_set.h'), ('lookup', H + 'deprecated/daw_fixed_lookup.h'), ('graph', H + 'deprecated/daw_bounded_graph.h')],
  'capacity 3, sequences of 3-4 (4-5) operations; graphs of 3 nodes and 3 (4) edits; two keys with the same full hash are one key to the fixed lookup table by design')
P('P40', 'The first-generation string view finds, splits and compares right',
  'For every text, search text, character set and start position, the first-generation string view (both ways of storing its end) reports from finding, searching, first and last member of a set, and first non-member exactly the position a plain scan finds, or that nothing was found; a start behind the end finds nothing. Removing a prefix or suffix, popping up to a count, delimiter or predicate, substrings, resizing and splitting partition the text without loss, comparison and relations are lexicographic, and nothing outside the text is read.',
  'all texts, search texts, sets, positions and counts of the stated sizes', 'the last occurrence at the very end, a start behind the end or the first character are each missed separately',
  [H + 'deprecated/daw_string_view1.h'], [('view', H + 'deprecated/daw_string_view1.h')],
  'texts of <=3 (5) characters and of 16..33 with boundary positions, search texts of <=2 (3), char and char16_t; finding the last non-member is outside (its unusual meaning is fixed by an existing test), as are views made from character arrays (they count the terminator), stream output and hashing')
P('P41', 'String views keep their text: making, ordering, terminating, streaming',
  'A string view made from a pointer and count, pointers, zero-terminated text, arrays, strings, vectors or other views covers exactly that text and is marked zero-terminated only when it is; its comparison and relations, with parts and with other kinds of text on either side, equal lexicographic comparison of the characters. Expanding a view grows it by exactly the count asked for within its text, and streaming writes the characters padded to the stream\'s width on the side asked for.',
  'all texts, counts and widths of the stated sizes', 'a wrong comparison shows for particular lengths and high characters; a wrong termination mark only when the view is later handed to C code',
  [H + 'daw_string_view.h', H + 'daw_string_view_fwd.h'], [('view', H + 'daw_string_view.h')],
  'texts of <=3 (6) characters and of 16..33 with the difference at the ends or the middle, widths <=20 (30); streaming against a stand-in stream with the members the inserter uses')
P('P42', 'String helpers split, trim, match, replace and join right',
  'Splitting a text at a character, a set or a predicate and iterating over its delimited pieces yield exactly the pieces between the delimiters; trimming removes exactly the leading and trailing members of the set; ends-with, contains and membership tell whether the text does so. Replacing substitutes every non-overlapping occurrence from the left and leaves the rest, joining concatenates the pieces in order, and a sanitised text gives exactly what its sanitiser makes of the raw text.',
  'all texts, delimiters, sets and replacements of the stated sizes', 'texts made of delimiters only, empty search text and overlapping matches are each a special case; none of these helpers has a test',
  [H + 'deprecated/daw_string.h', H + 'deprecated/daw_string_split_range.h', H + 'deprecated/daw_safe_string.h'],
  [('string', H + 'deprecated/daw_string.h'), ('split range', H + 'deprecated/daw_string_split_range.h'), ('safe string', H + 'deprecated/daw_safe_string.h')],
  'texts of <=3 (5) characters; splitting at white space by default, regular-expression formatting, stream-based combining and number conversion are outside')
P('P43', 'Checks throw, stop or pass exactly as their condition says',
  'Every conditional throwing helper throws exactly when its condition says so, an exception of the type asked for built from exactly the arguments given, and otherwise hands back the value or pointer it was given; assertions over a container stop at the first offending element. A failed ensure, precondition or postcondition stops the program and a passed one does nothing, whatever kind of condition is given, and a contract can only be made from, extended over or converted with a value that meets all its conditions. Non-short-circuit logic, all-of tests, binary size literals and conversions of comparison results give the stated value.',
  'all conditions, values, pointers and container contents', 'a check that never fires looks exactly like one that always passes until the day it is needed',
  [H + 'daw_exception.h', H + 'daw_ensure.h', H + 'daw_contract.h', H + 'daw_check_exceptions.h', H + 'daw_size_literals.h', H + 'daw_logic.h', H + 'daw_any_if.h', H + 'daw_ordering_to_integer.h'],
  [('exceptions', H + 'daw_exception.h'), ('ensure', H + 'daw_ensure.h'), ('contract', H + 'daw_contract.h')],
  'complete over values; containers of <=3 elements; builds without exceptions and replaced contract handlers are outside, as are the literals named KiB to PiB (they multiply by 1000)')
P('P44', 'Files mapped or read give exactly their bytes, whatever call fails',
  'A memory mapped file covers exactly the file\'s content after a successful open and nothing when opening, sizing or mapping failed or it holds no file; a second open, a move or the end of its life lets go of what was held, so that every descriptor is closed and every mapping released exactly once, whichever operating system calls fail. Reading a whole file returns exactly its content or nothing when any call fails or falls short, and always closes what it opened.',
  'all combinations of failing calls, sizes, contents and histories of opening and moving', 'a disk error between open and map is needed to see a leaked or wrongly closed descriptor',
  [H + 'daw_memory_mapped_file.h', H + 'daw_read_file.h', H + 'daw_unique_resource.h'], [('mapping', H + 'daw_memory_mapped_file.h'), ('reading', H + 'daw_read_file.h')],
  'POSIX branch only; the operating system is a stand-in that records each call and fails on demand; files of <=8 bytes (<=18 when read), histories of 2 (3) operations on two mappings', over=('inputs', 'fault_sequences'))
P('P45', 'Iterator stepping, swapping and value hand-over match their standard namesakes',
  'Stepping an iterator of any category forward or (where it can) backward, by one or by any count, lands exactly that many elements away without ever leaving the sequence on the way, and distances are exact; swapping values, elements, arrays or ranges exchanges exactly their contents by the best means the type offers. Exchanging, copying by value, negating a callable, picking the n-th of several values, forwarding a part like its owner, chaining through possibly null pointers, summing a sequence and taking its last element give exactly the plain result, with each value moved or copied only as asked. A compressed pair holds and swaps exactly its two values, and three-way comparison results convert to the matching integer-valued ones.',
  'all values, positions and distances', 'stepping back by one is off by one only for iterators that are neither plain pointers nor forward only; a wrong forwarding shows as a copy too many or a value lost',
  [H + 'cpp_17.h', H + 'cpp_17_iterator.h', H + 'cpp_20.h', H + 'daw_swap.h', H + 'daw_exchange.h', H + 'daw_forward_like.h', H + 'daw_nth_pack_element.h', H + 'daw_monadic_pointer_ops.h', H + 'algorithms/daw_algorithm_accumulate.h', H + 'compressed_pair.h', H + 'daw_ordering_to_integer.h', H + 'daw_iterator_traits.h'],
  [('stepping', H + 'cpp_17_iterator.h'), ('swapping', H + 'daw_swap.h')],
  'sequences of <=5 (8) elements; values complete; type traits are outside')
P('P46', 'Formatted ranges, tuples and string views come out as their parts, in order',
  'A range or tuple put into formatted text appears as its elements in order, each written with the format specification given, between the left and right markers and with the separator between neighbours only; nested ranges and tuples follow the same rule, and ranges of characters appear as text. This holds wherever the argument stands in the format string, indexed or not, and what surrounds it is unaffected; a string view is formatted exactly like the standard one with the same characters. Printing, with or without a line end, writes exactly the formatted text to the stream asked for (standard output when none is), and a printing pipeline stage hands its input on unchanged.',
  'all element values, separators and markers up to the bound',
  'a specification is cut out of the format string by hand: it goes wrong only with indexed arguments or text that follows',
  [H + x for x in ('daw_format_range.h', 'daw_format_tuple.h', 'daw_format_string_view.h', 'daw_formatters.h', 'daw_print.h', 'pipelines/print.h')],
  [('ranges', H + 'daw_format_range.h'), ('tuples', H + 'daw_format_tuple.h'), ('printing', H + 'daw_print.h')],
  'narrow characters; ranges of <=2 (3) whole numbers of <=2 digits; std::format itself is encoded along; printing to C++ streams and quoted or nested replacement fields inside a specification are outside')
