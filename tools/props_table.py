prop('P01', 'optional: engagement, value and object lifetime agree after every operation',
 'After any construction, assignment, emplace, reset or move, an optional reports engaged exactly when it holds a live object of its payload type, with the value last given to it, and reading an empty one through value() throws. Every payload object it creates is destroyed exactly once, also when a payload constructor throws, and storage is aligned for the payload. Comparisons, value_or and conversions from other optionals agree with that state; sentinel-based optionals treat exactly the sentinel as empty.',
 ['inputs', 'histories'], 'for all payload values and, per operation, every combination of empty/engaged operands',
 'Tests build a handful of optionals with constants; the obligation is over every value and both engagement states of every operand, including destructor balance and throwing constructors.',
 ['src/estd/optional.h', 'src/estd/internal/optional.h', 'src/estd/internal/variant/storage.h'],
 [('optional::operator=', 'src/estd/optional.h'), ('optional::emplace', 'src/estd/optional.h'), ('optional_base::destroy', 'src/estd/internal/optional.h'), ('layer1::optional_base', 'src/estd/internal/optional.h')])
prop('P02', 'variant: exactly one live alternative, matching its index, or valueless',
 'At all times a variant either holds exactly one live object whose type is the alternative reported by its index, or is valueless and holds none; alternatives are constructed and destroyed exactly once across construction, copy, move, assignment, emplace, self-assignment and throwing constructors. get, get_if, holds_alternative and visitation expose only that alternative, and get of any other alternative throws. Storage is large enough and aligned for every alternative. All monostates are equal and hash alike.',
 ['inputs', 'histories'], 'for all alternative values and all pairs (held alternative, incoming alternative), trivial and non-trivial, assignable and non-assignable',
 'Tests exercise a few transitions with constants; the transition matrix, the lifetime balance and the throwing paths are not sampled.',
 ['src/estd/variant.h', 'src/estd/internal/variant.h', 'src/estd/internal/variant/storage.h', 'src/estd/internal/variadic/visitor.h'],
 [('variant::operator=', 'src/estd/internal/variant.h'), ('variant_storage_base::assign_or_init', 'src/estd/internal/variant/storage.h'), ('get/get_if', 'src/estd/variant.h'), ('type_visitor::visit', 'src/estd/internal/variadic/visitor.h')])
prop('P03', 'expected: holds exactly one of value and error, and reports which',
 'An expected holds at any time exactly one live object, either its value or its error, and has_value tells which, with the content last given to it; copies, moves (including move-only payloads), assignments of values and of unexpected, and emplace preserve this with every object destroyed exactly once. Reading the value of one that holds an error through value() throws with that error, and value_or yields the default.',
 ['inputs', 'histories'], 'for all values and errors, from both states, for value, error and void-value instantiations',
 'Tests use constants and one state per operation and never move an expected; lifetime balance over both states is not observed.',
 ['src/estd/expected.h', 'src/estd/internal/expected.h', 'src/estd/internal/variant/storage.h'],
 [('expected::operator=', 'src/estd/expected.h'), ('expected move constructor', 'src/estd/internal/expected.h'), ('assign_or_init<I,index>', 'src/estd/internal/variant/storage.h')])
prop('P04', 'Shared pointers: object destroyed exactly once, with its last holder',
 'The object managed by a shared pointer lives until the last holder (the owner or any reference to it) lets go, in whatever order they do, and is then destroyed, through the owner\'s deleter if it has one, exactly once. The use count equals the number of current holders and every holder reports the same object; moved-from, reset and never-constructed holders count for nothing and release nothing.',
 ['histories', 'inputs'], 'for all release orders of an owner with up to three references, all owner kinds and deleter kinds, and all object values',
 'Tests run one release order per owner kind and check the count at a few points.',
 ['src/estd/memory.h', 'src/estd/internal/value_evaporator.h'],
 [('shared_ptr2_base::eval_delete', 'src/estd/memory.h'), ('layer3::shared_ptr', 'src/estd/memory.h'), ('shared_ptr_inline_deleter_control_block', 'src/estd/memory.h')])
prop('P05', 'Fixed-capacity strings and vectors hold what was put into them, within capacity',
 'After any sequence of append, assign, insert, erase, pop_back, resize and clear, a layer1/layer2/layer3 string (null terminated or sized) or vector of trivially copyable elements reports the size, and holds exactly the characters or elements, that the operations call for; null terminated strings stay terminated; indexing, iteration, front and back show the same contents. Strings over given memory start with the text or length they are told, and assigning changes that memory, not which memory it is. Nothing outside its storage is ever touched, and an operation whose result would not fit the capacity does not return (assertion) and leaves the contents as they were, however large the total.',
 ['inputs', 'histories'], 'for all contents of strings and vectors of up to 6 elements, each operation at every kind of position (start, middle, end, full, empty)',
 'Tests use a few literals, never look at the bytes around a container, never fill one completely and never exceed its capacity.',
 ['src/estd/internal/dynamic_array.h', 'src/estd/internal/impl/dynamic_array.h', 'src/estd/internal/string.h', 'src/estd/internal/runtime_array.h', 'src/estd/internal/container/specializer.h', 'src/estd/vector.h', 'src/estd/allocators/fixed.h'],
 [('dynamic_array::ensure_total_capacity', 'src/estd/internal/dynamic_array.h'), ('dynamic_array::raw_insert', 'src/estd/internal/dynamic_array.h'), ('dynamic_array::_erase', 'src/estd/internal/dynamic_array.h'), ('null terminated size', 'src/estd/internal/impl/dynamic_array.h')])
prop('P06', 'String and string_view queries agree with the contents',
 'On every kind of string and on string_view, find, rfind, find_first_of and find_last_of (with a character, C string, counted text or another string, from any position) return the absolute position of the right occurrence inside the string or npos; starts_with, ends_with, == and compare are true exactly for the actual prefix, suffix or equal text (compare orders by length first, then by the first differing character); copy, substr, remove_prefix/suffix and conversion between strings and views cover exactly the addressed characters; equal text hashes alike, and stol/stoul/stoi hand the whole terminated text to the C library and pass its result and stop position through. No query looks past the end.',
 ['inputs'], 'for all contents: every equality pattern between a subject of up to 4 and an argument of up to 3 characters, from several positions',
 'Tests search a handful of literals; off-by-one and past-the-end matches need particular length, position and content combinations.',
 ['src/estd/internal/runtime_array.h', 'src/estd/internal/string.h', 'src/estd/string_view.h', 'src/estd/internal/container/starts_with.h', 'src/estd/internal/container/ends_with.h', 'src/estd/algorithm.h', 'src/estd/string.h', 'src/estd/internal/string/hash.h'],
 [('allocated_array::find/rfind/find_first_of/find_last_of', 'src/estd/internal/runtime_array.h'), ('basic_string::compare', 'src/estd/internal/string.h'), ('basic_string_view::substr', 'src/estd/string_view.h'), ('stol/stoul', 'src/estd/string.h')])
prop('P07', 'bipbuffer: bytes come out once each, in order, from inside the buffer',
 'Bytes polled from a bipbuffer are exactly the bytes accepted by offer (or written through offer_begin/offer_end), in order, each once, also when the content wraps; peek shows what poll would return. An offer larger than unused() is refused and a poll or peek of more than the contiguous content returns null, both without changing anything; used() is the number of bytes accepted and not yet polled, polling from a full buffer makes room again, and a drained buffer offers its whole capacity. Nothing outside the buffer is touched; layer1::bipbuf storage is aligned for its header.',
 ['inputs', 'histories'], 'for all contents, over the offer/poll histories of a 5 byte buffer up to and past the wrap (about 340 per interface), and all sizes for refusals',
 'The tests offer three blocks and poll them once; wrapping, draining, refusal and over-long polls are never reached.',
 ['src/estd/ext/willemt/bipbuffer/bipbuffer.c', 'src/estd/internal/bip/buffer.h'],
 [('bipbuf_poll/bipbuf_peek', 'src/estd/ext/willemt/bipbuffer/bipbuffer.c'), ('bipbuf_offer', 'src/estd/ext/willemt/bipbuffer/bipbuffer.c'), ('offer_end', 'src/estd/internal/bip/buffer.h')])
prop('P08', 'Circular deque, queue and stack keep order within capacity',
 'A layer1::deque of trivially copyable elements behaves as a double-ended sequence: whatever the history of push_back, push_front, emplace and pop at both ends, and however often it has wrapped, size, front, back and iteration (forwards and backwards, also when full) show exactly the elements put in and not yet taken out, in order. A push onto a full one and a pop from an empty one return false and change nothing, neighbouring memory is never touched, and a moved deque keeps its content independent of the original. queue is first in first out, stack last in first out.',
 ['inputs', 'histories'], 'for all element values, over the operation histories of a three element deque (up to six operations)',
 'Tests use a few short histories, never overflow, never iterate a full deque and never look at a moved one.',
 ['src/estd/queue.h', 'src/estd/stack.h', 'src/estd/array.h'],
 [('deque::push_back/push_front/pop_*', 'src/estd/queue.h'), ('deque::forward_iterator', 'src/estd/queue.h'), ('stack', 'src/estd/stack.h')])
prop('P09', 'Heaps stay heaps and priority queues yield the greatest first',
 'make_heap, push_heap and pop_heap (binary, and internal heap of any arity) leave a permutation of the elements in which no child beats its parent, pop moves the best element to the end, and popping everything sorts the range; an empty range is left alone. A priority_queue reports size correctly, always has a greatest element on top, yields all elements pushed or emplaced in non-increasing order, each once, and erase/erase_if removes exactly the one element while keeping that order.',
 ['inputs', 'histories'], 'for all key rank patterns of up to 3 elements and a quarter (quick) or all (thorough) of those of 4, samples of 5, with all payloads',
 'Tests use one input sequence per algorithm.',
 ['src/estd/internal/algorithm/heap.h', 'src/estd/internal/priority_queue.h', 'src/estd/algorithm.h'],
 [('heap::restore_up/restore_down', 'src/estd/internal/algorithm/heap.h'), ('heap::make', 'src/estd/internal/algorithm/heap.h'), ('priority_queue::erase', 'src/estd/internal/priority_queue.h')])
prop('P10', 'Linked lists hold exactly the nodes put in, in order',
 'After any history of push_front, push_back, pop_front, insert, insert_after, erase_after, replace_after, remove and remove_if (all matches or the first), iterating an intrusive or owning, singly or doubly linked list visits exactly the nodes that should be in it, by address, once each and in order, ending at end(); front, back, empty and iterator arithmetic (forwards, and backwards for doubly linked lists) agree. Runs of adjacent matches are all removed, nodes taken out can be put in again, a list drained to empty is usable again, payloads are never changed, and an owning singly linked list ends every popped value and returns its node to its allocator exactly once, and moves in what it is given to move.',
 ['histories', 'inputs'], 'for all payloads, over operation histories of up to five operations on lists of up to five nodes, and every subset of four nodes for removal',
 'Tests remove single middle elements and never reuse, drain or append after draining.',
 ['src/estd/forward_list.h', 'src/estd/list.h', 'src/estd/internal/list_node.h', 'src/estd/internal/list/intrusive_forward.h', 'src/estd/internal/reverse_list.h', 'src/estd/iterators/list.h', 'src/estd/traits/list_node.h'],
 [('forward_list::remove_if', 'src/estd/forward_list.h'), ('forward_list_with_back_base::set_back', 'src/estd/internal/list_node.h'), ('list_base::insert', 'src/estd/list.h'), ('intrusive_forward::erase_after', 'src/estd/internal/list/intrusive_forward.h')])
prop('P11', 'Hash containers hold each key once, reachable, within their slots',
 'After any history of insert, emplace, try_emplace, insert_or_assign, operator[], erase (by key, by position, with or without compaction), gc_active and clear, a layer1::unordered_map or unordered_set contains exactly the keys put in and not erased, each once and with the value last given to it: contains, count, find, size, empty, bucket_size, iteration over everything and within a bucket agree, whatever collides. An insertion with room in its bucket succeeds and reports truthfully whether it took place; erase by position yields the next element; elements other than explicitly compacted ones stay where they are; equality ignores order. Values are moved or copied in as given, left with the caller when nothing is inserted by insert or try_emplace, and ended exactly once by erase and clear. No memory around the container is touched, also when a bucket or the table is full.',
 ['histories', 'inputs'], 'for all values (and, for sets and equality, all keys of one bucket), over operation histories of up to seven operations on an eight slot table, and erase/insert histories in a table of 20 buckets',
 'Tests hardly ever collide, never fill a bucket or the table, and never look a key up after erasing its predecessor in the bucket.',
 ['src/estd/unordered_map.h', 'src/estd/unordered_set.h', 'src/estd/internal/container/unordered_map.h', 'src/estd/internal/container/unordered_set.h', 'src/estd/internal/container/unordered/base.h', 'src/estd/internal/container/unordered/traits.h'],
 [('unordered_base::insert_precheck', 'src/estd/internal/container/unordered/base.h'), ('unordered_base::find_ll', 'src/estd/internal/container/unordered/base.h'), ('unordered_map::erase_ll/gc_sparse', 'src/estd/internal/container/unordered_map.h'), ('unordered_map_traits', 'src/estd/internal/container/unordered/traits.h')])
prop('P12', 'Streambufs deliver every character once, in order, and never past their buffer',
 'Characters put into a streambuf (over a span, a fixed string, or buffered by a string or bipbuffer in front of another one, also through the virtual interface) arrive at the destination in order, each exactly once; the count returned, or eof, tells exactly which were taken, nothing is refused while there is room, whatever is buffered arrives on pubsync, and what a full destination refused stays buffered. Characters read come out in order, each once, all 256 values distinct from eof, then eof: sgetc, sbumpc, snextc, sungetc, sgetn, in_avail and seeking agree on one position, also far into large spans, and in_avail is -1 at the end. Nothing outside the buffer is read or written.',
 ['histories', 'inputs'], 'for all characters, over histories of up to six operations on sources of up to 7 and destinations of 0 to 24 characters with buffers of 1 to 4, and any position of spans of up to two million characters',
 'Tests put a few literals in; nothing is ever filled to the brim, no refusing destination, no character 0 or 255 is tried.',
 ['src/estd/streambuf.h', 'src/estd/internal/streambuf.h', 'src/estd/internal/impl/streambuf.h', 'src/estd/internal/impl/streambuf/base.h', 'src/estd/internal/impl/streambuf/bipbuf.h', 'src/estd/internal/impl/streambuf/buffer.h', 'src/estd/internal/impl/streambuf/helpers.h', 'src/estd/internal/impl/streambuf/pos.h', 'src/estd/internal/impl/streambuf/span.h', 'src/estd/internal/impl/streambuf/string.h', 'src/estd/port/posix/streambuf.cpp'],
 [('streambuf::sputn', 'src/estd/streambuf.h'), ('out_span_streambuf::xsputn', 'src/estd/internal/impl/streambuf/span.h'), ('out_buffered_stringbuf::overflow/ll_sync', 'src/estd/internal/impl/streambuf/buffer.h'), ('out_buffered_bipbuf/in_buffered_bipbuf', 'src/estd/internal/impl/streambuf/bipbuf.h'), ('basic_stringbuf::seekoff', 'src/estd/internal/impl/streambuf/string.h')])
prop('P13', 'Formatted streams put and take exactly what they say',
 'basic_ostream puts each character, run, text and number exactly once and in order: characters and numbers are filled to the width (on the side asked for, with the fill character, the width then being spent), signs, bases and letter case follow the flags, boolalpha names the truth values; a character or run which the streambuf does not take makes the stream fail, a stream which has failed puts nothing further until cleared, unitbuf flushes after each insertion, endl and flush synchronise, seekp and tellp address the output and nothing else. basic_istream delivers the characters of its streambuf once and in order over any history of get, peek, unget, ws, formatted extraction, ignore, read, readsome, getline, sync and seekg: nothing is lost or delivered twice, destinations are written within the given size and no further, getline terminates its text, gcount tells what was taken, and eofbit, failbit and badbit are set exactly when the end was met, nothing could be extracted or nothing could be put back. A word of which not all has arrived is left for another attempt. The state bits, flags and width of every stream can be set and read back without touching each other.',
 ['inputs', 'histories'], 'for all characters and values with contents of up to 5 characters of each shape of blanks, delimiters and letters, and histories of up to four operations',
 'Tests read a few literal inputs; refused puts, exact-fit lines, exhausted streams, character 0 and 255, and operations after a failure are never tried.',
 ['src/estd/ostream.h', 'src/estd/istream.h', 'src/estd/iomanip.h', 'src/estd/internal/ostream.h', 'src/estd/internal/istream.h', 'src/estd/internal/ios_base.h', 'src/estd/internal/iomanip.h', 'src/estd/internal/ostream/integer.h', 'src/estd/internal/istream_runtimearray.hpp', 'src/estd/internal/istreambuf_iterator.h'],
 [('basic_ostream', 'src/estd/internal/ostream.h'), ('basic_istream', 'src/estd/internal/istream.h'), ('ios_base', 'src/estd/internal/ios_base.h'), ('istreambuf_iterator', 'src/estd/internal/istreambuf_iterator.h')])

prop('P14', 'Integers and text convert exactly, within their buffers',
 'to_chars writes exactly the digits of the value in the given base (lower case letters, or upper on request, a minus sign first when negative), for every value of every integer type including the lowest, into any buffer that has room for them, and says value_too_large without leaving the buffer otherwise; to_chars_opt does the same at the end of the buffer, to_string yields the same text. from_chars consumes the longest run of digits of the base (after one minus sign, for signed types), yields exactly their value, points behind them, reports invalid_argument when there are none and result_out_of_range when the value does not fit, and then leaves the value alone; it never looks past the end. num_get reads the same digits, with failbit and the nearest limit when they do not fit or are missing and eofbit exactly when the input ran out; num_put writes the digits in the base of the stream flags, filled to the width on the proper side.',
 ['inputs'], 'for all values of each sign and digit count (bases 2, 8, 10, 11, 16, 36; 8 to 64 bit types), for all digits around every structural prefix and at the overflow boundaries',
 'Tests convert a handful of literals; the lowest values, exact-fit buffers and one-past-the-limit inputs are never tried.',
 ['src/estd/charconv.h', 'src/estd/internal/charconv.hpp', 'src/estd/internal/charconv/from_chars.hpp', 'src/estd/internal/charconv/reverse.hpp', 'src/estd/internal/to_string.h', 'src/estd/internal/locale/cbase.h', 'src/estd/internal/locale/num_get.h', 'src/estd/internal/locale/num_put.h', 'src/estd/internal/locale/iterated/num_get.h', 'src/estd/internal/raise_and_add.h'],
 [('to_chars_integer_opt', 'src/estd/internal/charconv.hpp'), ('from_chars_integer', 'src/estd/internal/charconv/from_chars.hpp'), ('iterated::num_get', 'src/estd/internal/locale/iterated/num_get.h'), ('num_put::put_integer', 'src/estd/internal/locale/num_put.h')])

prop('P15', 'Durations, dates and units keep the quantity they stand for',
 'A duration (and likewise a unit) converted to another period or representation, by construction, assignment or cast, from and to the standard durations as well, has the count of the same quantity, exactly or without its fraction; sums, differences and comparisons of different periods are those of the quantities, in a period in which both are whole; compound operators, negation, abs, min, max and zero agree with the counts. Time points move, differ and compare by their durations, those of the standard library as well. hh_mm_ss splits a duration into hours (below 256), minutes, seconds and the rest, and tells its sign. Calendar types hold what they were given, are ok exactly within their ranges, years are leap by the Gregorian rule, year_month_day yields the Gregorian date of a day, year_month_day_last the last day of the month. Ratio arithmetic yields the exact ratio. Projected units convert by what is read; a percentage of a range lies in proportion; put_unit writes the count with its sign and the names of prefix and unit.',
 ['inputs'], 'for all counts (within the range of the types) over the listed pairs of representations and periods; for dates, all months around the leap rules between 1600 and 2400; for hh_mm_ss, listed times',
 'Tests convert a few round numbers; truncation, mixed periods, negative values, leap days, month ends and projected units are hardly tried.',
 ['src/estd/chrono.h', 'src/estd/ratio.h', 'src/estd/internal/chrono.h', 'src/estd/internal/chrono/duration.h', 'src/estd/internal/chrono/duration.hpp', 'src/estd/internal/chrono/operators.hpp', 'src/estd/internal/chrono/time_point.h', 'src/estd/internal/chrono/formatter.hpp', 'src/estd/internal/chrono/units.hpp', 'src/estd/internal/chrono/ratio.h', 'src/estd/internal/units/base.h', 'src/estd/internal/units/operators.hpp', 'src/estd/internal/units/percent.h', 'src/estd/internal/units/ostream.h', 'src/estd/port/std/chrono.h'],
 [('duration::convert_from', 'src/estd/internal/chrono/duration.hpp'), ('hh_mm_ss', 'src/estd/internal/chrono/formatter.hpp'), ('unit_base::convert_from', 'src/estd/internal/units/base.h'), ('ratio_add', 'src/estd/ratio.h')])

prop('P18', 'Arrays, spans and fixed maps address exactly their elements',
 'An array of N elements (of any N, also around 256 and 65536) has size N and N distinct elements between begin and end, front and back being its first and last; access, fill, initialiser list, copy and assignment reach exactly these; two are equal exactly when of the same size with equal elements, and to_array copies. An uninitialised array holds room for N elements in place. A span, of dynamic or static extent, made of an array, a pointer and a count or two pointers designates exactly these elements: data, size, size_bytes, empty, begin, end and indexing agree; first and subspan (with and without a count) designate the part asked for, as_bytes and as_writable_bytes the same memory, and assignment makes one designate what the other does. The legacy arrays (owning, or referring to memory of known or runtime size) do likewise. A fixed map yields, for a key, the address of the value of the first pair with that key, null when there is none, and changes nothing else.',
 ['inputs'], 'for all element values and (spans) all pointers, sizes, offsets and counts up to 65535; arrays of 1 to 65537 elements; maps of two and three pairs, for all keys by position of the match',
 'Tests look at a few elements of small arrays and never at the ends, at sizes beyond 255, at subspans without a count or at missing keys.',
 ['src/estd/array.h', 'src/estd/internal/array.h', 'src/estd/internal/legacy/array.h', 'src/estd/span.h', 'src/estd/map.h'],
 [('array', 'src/estd/internal/array.h'), ('span::subspan', 'src/estd/span.h'), ('span_base::first', 'src/estd/span.h'), ('map::operator[]', 'src/estd/map.h')])

prop('P19', 'Algorithms and iterators work like their standard namesakes, within their ranges',
 'min_element and max_element yield the first of the least and greatest, min, max and clamp the right one of their arguments (by identity), find_if, find_first_of, search, mismatch and equal the first position asked for or the end, internal find_last_of the last one; copy, copy_n, copy_backward, move_backward, fill and fill_n put exactly the elements in order where they belong (also when shifting a range within itself in the proper direction), return the position after the last one put, and touch nothing else; reverse and iter_swap permute as named, also when an element is swapped with itself; accumulate applies the operation from left to right; distance counts. None dereferences or advances an iterator outside the ranges given. Stream and container output iterators put each value assigned once and in order, a streambuf iterator has failed exactly when the streambuf was full, a streambuf input iterator shows each remaining character once and equals the end exactly when none is left, and the transforming iterator yields the function of each element. gcd and lcm are such.',
 ['inputs'], 'for all contents: ranges of 0 to 4 elements, over all outcomes of comparisons (all rank patterns up to 3, samples of 4)',
 'Tests run each algorithm on one or two ranges; equal elements, empty ranges, ends of ranges and elements next to them are not looked at.',
 ['src/estd/algorithm.h', 'src/estd/internal/algorithm/raw.h', 'src/estd/numeric.h', 'src/estd/internal/numeric.h', 'src/estd/iterator.h', 'src/estd/internal/iterator_standalone.h', 'src/estd/internal/iterator/back_insert.h', 'src/estd/internal/ostream_iterator.h'],
 [('search/find_first_of/find_last_of/mismatch', 'src/estd/algorithm.h'), ('copy/copy_backward/move_backward/fill_n', 'src/estd/algorithm.h'), ('min/max/max_element', 'src/estd/internal/algorithm/raw.h'), ('ostreambuf_iterator', 'src/estd/iterator.h')])

prop('P16', 'Function objects call what they hold, copies hold their own',
 'A function (default, context, thisify, inline, static, or one owning its callable on the heap) invokes exactly the callable it was made of, once per call, with the arguments given in their order, and yields its result; an empty one says so and a bound one does too. A copied or moved one refers to a callable of its own or to the shared model it was given, never to the storage of the source: it works as before when the source has ended. Inline and heap functions end their callable exactly once. A once-model is released by its call. invoke calls functions, function objects and lambdas with the arguments, forwarding them as what they are. function_traits tell the result and argument types of the signature. reference_wrapper designates its object (by address, also when the type overloads &), instance_wrapper holds or finds its instance. Comparison objects agree with the operators. hash and FNV of a value are the standard FNV-1a value of its bytes, equal for equal texts however stored.',
 ['inputs', 'histories'], 'for all arguments and payloads, over the listed models and histories of copy, move, assignment and destruction; hashed texts of up to 8 characters',
 'Tests call each model where it was made: sources which ended, moved objects, ends of owned callables and argument order are not looked at.',
 ['src/estd/functional.h', 'src/estd/internal/functional.h', 'src/estd/internal/functional/function_traits.h', 'src/estd/internal/functional/hash.h', 'src/estd/internal/invoke.h', 'src/estd/internal/invoke_result.h', 'src/estd/internal/value_evaporator.h'],
 [('function', 'src/estd/functional.h'), ('invoke', 'src/estd/internal/invoke.h'), ('fnv_hash', 'src/estd/internal/functional/hash.h')])

prop('P17', 'Pairs, tuples and type lists keep their elements in their places',
 'Pairs and tuples hold, in order, what they were made of, by copy, move, from convertible elements, piecewise or by make_pair, make_tuple, tie-like references; get by index or type yields the very element, empty elements take no room, copies have their own elements, moves move. Comparison of pairs is lexicographic. swap exchanges and exchange yields the old value and stores the new one, each object living exactly once. apply and make_from_tuple call with the elements in order; visit calls for each element in order with its index, stops at the first true and yields its index, or -1. Integer sequences count from 0 in order, reverse sequences backwards; value and type lists report first, last, size, membership, index and filtered lists of exactly their members, also when members repeat.',
 ['inputs'], 'for all element values; tuples of 0 to 4 elements of trivial, empty, reference, move-only and tracked types; lists of 0 to 300 members',
 'Tests look at a few tuples of numbers; lifetimes, empty elements, repeated members and early stops are not looked at.',
 ['src/estd/tuple.h', 'src/estd/utility.h', 'src/estd/internal/utility.h', 'src/estd/internal/tuple.h', 'src/estd/internal/variadic.h', 'src/estd/internal/variadic/type_sequence.h', 'src/estd/internal/variadic/integer_sequence.h', 'src/estd/internal/variadic/selector.h', 'src/estd/internal/variadic/visitor.h'],
 [('tuple', 'src/estd/tuple.h'), ('pair', 'src/estd/internal/utility.h'), ('types/values', 'src/estd/internal/variadic.h')])

prop('P20', 'Type traits and numeric limits say what the standard says',
 'For every listed type, each type trait of estd (categories, properties, relations, transformations, conditional, conjunction, disjunction, common_type, underlying integer selection, aligned_storage, alignment_of) has the value or type of its namesake of the standard library, and numeric_limits has the same least, lowest and greatest values, digits, digits10 and signs; the number of characters reported for a type in base 2, 8, 10 and 16 suffices for its greatest value exactly. addressof yields the address of the object itself, also when & is overloaded.',
 ['inputs'], 'over 60 listed types (arithmetic, cv-qualified, references, pointers, arrays, functions, member pointers, enumerations, classes, unions, final, abstract, polymorphic), all pairs of 12 of them for the relations; addressof for all objects',
 'Tests ask a few traits about one or two types; traits decide overloads everywhere in the library, silently.',
 ['src/estd/type_traits.h', 'src/estd/internal/type_traits.h', 'src/estd/internal/common_type.h', 'src/estd/internal/type_traits/is_function.h', 'src/estd/limits.h', 'src/estd/internal/limits.h', 'src/estd/internal/limits/traits.h'],
 [('type_traits', 'src/estd/type_traits.h'), ('numeric_limits', 'src/estd/limits.h')])

prop('P21', 'Bits, bytes and flags are changed exactly as asked',
 'byteswap reverses the bytes of every integer type and nothing else, endian names the order of the target. raise_and_add and raise_and_sub multiply by the base and add or subtract, and say so exactly when the result would not fit. Flags made of a bit mask enumeration contain, add, remove and compare exactly the bits named, in the width of the enumeration. Evaporating wrappers and value providers take no room when they are constants and yield exactly the value they were given, stored or constant; values moved into them are moved. Operators of byte shift and combine its 8 bits and nothing else; div yields quotient and remainder of every integer type.',
 ['inputs'], 'for all values of the listed integer types (8 to 64 bits, both signs), bases and flags',
 'Tests try single values; carry into the last digit, narrow enumerations and negative limits are not tried.',
 ['src/estd/bit.h', 'src/estd/internal/raise_and_add.h', 'src/estd/flags.h', 'src/estd/internal/value_evaporator.h'],
 [('byteswap', 'src/estd/bit.h'), ('raise_and_add', 'src/estd/internal/raise_and_add.h'), ('flags', 'src/estd/flags.h')])

prop('P22', 'Pools and fixed allocators hand out their own memory, once at a time',
 'A memory pool hands out each of its items once until it is given back, none when all are taken, never two which overlap or which leave its room, and giving one back makes exactly that one available; the contents of items handed out are not changed by other operations, and typed pools construct with the arguments given and end exactly what they constructed. Handles resolve to the item they name. Fixed allocators of layers 1, 2 and 3 give exactly their buffer: lock and offset yield its address and positions, sizes are those of the buffer, positions move and differ by elements (also with negative and 32 bit differences), and iterators of containers over them walk from the first to the last element in both directions, equal exactly at the same place.',
 ['histories', 'inputs'], 'pools of two to four items, over histories of up to six operations; for all buffer contents and positions, sizes to 16 elements',
 'Tests allocate once and look at the result; exhaustion, reuse, neighbouring items and positions beyond 16 bits are not looked at.',
 ['src/estd/internal/memory/pool.h', 'src/estd/allocators/fixed.h', 'src/estd/allocators/generic.h', 'src/estd/allocators/handle_desc.h', 'src/estd/internal/impl/handle_desc.h', 'src/estd/internal/container/handle_with_offset.h', 'src/estd/internal/container/iterator.h', 'src/estd/internal/container/accessor.h'],
 [('memory_pool', 'src/estd/internal/memory/pool.h'), ('single_fixedbuf_allocator', 'src/estd/allocators/fixed.h'), ('handle_with_offset', 'src/estd/internal/container/handle_with_offset.h')])

prop('P25', 'Characters are classified, changed and named as in the classic locale',
 'isspace, isdigit, isupper, islower and isalpha (with and without a locale) and the ctype facet, for every category or combination of categories asked for, say exactly what the C locale says about each character; widening keeps the character. Digits of base 2 to 36 are recognized exactly when they are digits of that base, in either case, and have their value, whether the base is fixed or given at run time, and are written as the right character, upper or lower as asked. numpunct and moneypunct name the punctuation, currency, true and false of their locales; locales have their names; encodings which hold ASCII say so. The chooser finds which of the given names the input starts with and leaves the input behind it, and none for input which departs from all of them or ends early.',
 ['inputs'], 'for all 256 (7 bit where named so) character values, in constant ranges; bases 2 to 36; the listed locales and encodings',
 'Tests try a handful of letters and digits; boundaries of ranges, control characters and characters above 127 are not looked at.',
 ['src/estd/cctype.h', 'src/estd/locale.h', 'src/estd/internal/cctype.h', 'src/estd/internal/locale/ctype.h', 'src/estd/internal/locale/cbase.h', 'src/estd/internal/locale/numpunct.h', 'src/estd/internal/locale/money.h', 'src/estd/internal/locale/utility.h', 'src/estd/internal/locale.h', 'src/estd/internal/text/encodings.h', 'src/estd/internal/chooser.h'],
 [('ascii_isspace', 'src/estd/internal/cctype.h'), ('ctype', 'src/estd/internal/locale/ctype.h'), ('cbase', 'src/estd/internal/locale/cbase.h')])

prop('P26', 'Containers keep their contents in memory which moves, and give back every lock',
 'Over an allocator whose memory relocates whenever it grows and may only be looked at while locked, vectors and strings hold after every operation exactly what they should (push, emplace, append, insert, erase, assign, resize, clear, compare, find, stream), grow when and only when they must, never touch memory which is not locked, not allocated or has moved away, and never relocate it while it is locked; iterators and accessors designate their element across growth. Every operation which is not an iterator unlocks exactly what it locked, on every path, also where it returns early; a growth the allocator refuses leaves contents, size and locks as they were. Accessors read, write, compare and lock the element at their handle and offset and give the lock back; handle descriptors allocate, reallocate, construct, destroy and copy within their allocation, and tell whether and how much is allocated.',
 ['histories', 'inputs'], 'for all contents; vectors of 2 to 5 and strings of 2 to 41 elements, one to three operations from a full allocation, every operation listed; all early exits of searches and comparisons over texts of 4',
 'Tests use allocators where locking does nothing and memory never moves: a missing unlock, or a pointer kept over growth, cannot be seen there.',
 ['src/estd/internal/dynamic_array.h', 'src/estd/internal/runtime_array.h', 'src/estd/internal/impl/dynamic_array.h', 'src/estd/internal/string.h', 'src/estd/internal/impl/handle_desc.h', 'src/estd/allocators/handle_desc.h', 'src/estd/internal/container/accessor.h', 'src/estd/internal/container/handle_with_offset.h', 'src/estd/internal/container/iterator.h', 'src/estd/traits/allocator_traits.h'],
 [('dynamic_array', 'src/estd/internal/dynamic_array.h'), ('allocated_array', 'src/estd/internal/runtime_array.h'), ('accessor_shared', 'src/estd/internal/container/accessor.h'), ('allocator_and_handle_descriptor', 'src/estd/internal/impl/handle_desc.h')])

REACH_NOTE = 'The obligation files of the other properties serve as the uses: each is compiled to IR with no optimisation pass, so that no path of any input is left out, and tools/oblcheck --reach follows the calls (and every function whose address is taken) from all of them. Inputs play no part, so nothing is bounded except that uses which no obligation makes are not seen; uses which do not compile are named in the evidence and left to the property they belong to.'
prop('P24', 'Fixed facilities use neither the heap nor virtual functions',
 'Fixed capacity containers and strings, optional, variant, expected, fixed spans, bip buffers, streams over non-virtual stream buffers, number conversion, algorithms, chrono, tuples and callables with fixed dispatch never call the heap (operator new/delete, malloc and relatives), whatever their input, their contents or the path taken, and their objects carry no virtual functions. Virtual are only the exceptions thrown for wrong access, deleters of shared pointers, classic virtual stream buffers and virtually dispatched functions.',
 ['inputs', 'histories'], 'for all inputs and histories of every use in the obligations of the other properties (about 16000 uses, 20000 library functions)',
 'Tests run on a hosted heap which always answers, and none counts allocations; an allocation on a rare path is invisible to them and fatal on the small targets the library is for.',
 ['README.md', 'src/estd/internal/dynamic_array.h', 'src/estd/internal/runtime_array.h', 'src/estd/allocators/fixed.h', 'src/estd/internal/locale/num_put.h', 'src/estd/internal/locale/num_get.h', 'src/estd/internal/impl/streambuf/bipbuf.h', 'src/estd/functional.h', 'src/estd/ext/willemt/bipbuffer/bipbuffer.c'],
 [('"No virtual functions or dynamic allocation for any of these!"', 'README.md'), ('single_fixedbuf_allocator', 'src/estd/allocators/fixed.h'), ('num_put', 'src/estd/internal/locale/num_put.h')],
 technique='call-graph reachability over unoptimised compiler IR from every use to heap functions and vtables', note=REACH_NOTE)
prop('P27', 'No hidden state: operations depend on and change only the objects they are given',
 'No operation of the library keeps anything in variables which outlast the call (globals, static members, function statics, thread locals) and can change: what it does depends only on the objects and arguments given to it, and only those are changed. So distinct objects can be used from different threads or interrupt handlers at once, and a use never depends on which others came before. The one exception is experimental::static_function, which keeps one callable per type by design.',
 ['schedules', 'histories', 'inputs'], 'for all interleavings of uses of distinct objects, over every use in the obligations of the other properties (about 16000 uses, 20000 library functions)',
 'Tests run on a single thread and hardly ever have two operations of a kind under way, so a shared scratch buffer or counter gives them the right result each time.',
 ['src/estd/internal/locale/num_put.h', 'src/estd/internal/locale/num_get.h', 'src/estd/internal/charconv.hpp', 'src/estd/internal/string_convert.cpp', 'src/estd/internal/dynamic_array.h', 'src/estd/queue.h'],
 [('num_put', 'src/estd/internal/locale/num_put.h'), ('to_chars', 'src/estd/internal/charconv.hpp')],
 technique='call-graph reachability over unoptimised compiler IR from every use to mutable variables of static or thread storage', note=REACH_NOTE)
