#!/usr/bin/env python3
"""The single source of the property list: writes /verif/properties.jsonl and /verif/MANIFEST.json.

    python3 tools/catalog.py            (run in /verif)
"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, V, B = 'inc/ptl/string.hpp', 'inc/ptl/vector.hpp', 'inc/ptl/bitset.hpp'
O, OR = 'inc/ptl/optional.hpp', 'inc/ptl/optional_ref.hpp'
VA, VR = 'inc/ptl/variant.hpp', 'inc/ptl/variant_ref.hpp'
A, AR, SR = 'inc/ptl/array.hpp', 'inc/ptl/array_ref.hpp', 'inc/ptl/string_ref.hpp'
T, F = 'inc/ptl/tuple.hpp', 'inc/ptl/function_ref.hpp'
ASSUME = {
    'C10': ['forward iterators throw on being read, not on being advanced (libstdc++ 13 std::uninitialized_copy leaks the newest element in that case)'],
}
ALL = [A, AR, B, F, O, OR, S, SR, T, VA, VR, V]

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), tech=None, level='exploration', note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, state=state, observe=observe, tech=tech, level=level, note=note))

# ------------------------------------------------------------------------------------------------ string
prop('C01', 'String histories behave like a plain sequence of characters',
  'After any sequence of constructions, assignments, appends, insertions, erasures, replacements, resizes, concatenations and substring extractions, the content and size of a string, and the position or reference each operation returns, are exactly what the same sequence of operations yields on a plain sequence of characters. This holds for every length, short or long, for every byte value including embedded zero bytes, and whichever overload (view, iterator range, single-pass iterator, initializer list, repeated character) supplies the new characters. The character just past the end is always a terminating zero.',
  ['histories', 'inputs'], 'all operation histories over all overloads, all byte values, lengths crossing the inline/heap and every capacity boundary',
  'The tests run one hand-written history per operation, with printable text, at a handful of lengths; inline/heap transitions, exact-capacity fits and embedded zeros are hardly touched.',
  [S], [('inline/heap storage with size and terminator maintenance', S+': storage_t, set_size'), ('in-place versus reallocating branches of append/assign/insert/replace', S+': append, assign, insert, replace')],
  [('inline buffer / heap block', 'characters, size, capacity', S+': storage_t')], ['size, c_str, data, begin/end, returned iterators and references'],
  'model-based property testing: generated operation histories against a std::string reference model')
prop('C02', 'String operations accept arguments taken from the same string',
  'An operation on a string whose argument refers into that very string (a view of it, a pair of its iterators, one of its characters, or the string itself) has the same effect as if the argument had first been copied elsewhere. This covers assignment, append, insert, replace and concatenation, for every position of the argument relative to the modified range, and whether or not the operation has to move to a larger buffer.',
  ['inputs', 'histories'], 'all (string, operation, aliased range, position, spare capacity) combinations',
  'No test passes a string a piece of itself except one whole-string append; overlap and reallocation interact in ways only a search over positions and capacities exposes.',
  [S], [('new characters staged behind the end then rotated into place', S+': append/assign/insert/replace (ForwardIterator)'), ('old buffer kept alive until the new one is filled', S+': append/insert/replace reallocating branch')],
  [], ['size, data'], 'metamorphic property testing: aliased argument versus copied argument, against a std::string model')
prop('C03', 'String comparison, hash, view and output depend only on the content',
  'Two strings compare (six relational operators, in every mix of string and view operands) exactly as their byte sequences compare lexicographically as unsigned characters, so equal content means equal, with equal hashes, however differently the two were built, moved, shrunk or over-allocated. Converting to a view and writing to a stream produce exactly the content, embedded zeros and stream field formatting included. A string literal with the library suffix yields every character of the literal.',
  ['inputs', 'histories'], 'all pairs of strings with all histories leading to the same or different content',
  'Tests compare a few ASCII literals; agreement of all operators, of hash with equality, and independence from storage mode quantify over pairs of histories.',
  [S], [('comparison, hash and output delegated to a view of the content', S+': operator std::string_view, operators, std::hash')],
  [], ['relational operators, std::hash, operator<<, string_view conversion'], 'property testing: differential against std::string_view over pairs of generated histories')
prop('C04', 'String capacity: inline when short, reserved space honoured',
  'A string that never exceeds the inline capacity (three pointers less two bytes) never allocates memory. Capacity is never below size, reserving guarantees at least the requested capacity, and as long as the result fits the capacity, push_back, append, insert, resize, erase, pop_back and clear leave the buffer where it is and the capacity unchanged. Shrinking never alters the content and brings a string that fits back to inline storage, without allocating and without leaking the old buffer.',
  ['histories'], 'all histories mixing reserve, growth, shrinking and in-capacity modification',
  'One test grows a string by one past the inline limit and shrinks it; pointer stability, absence of allocation and leaks are never observed.',
  [S], [('inline storage', S+': storage_t::sso_size'), ('reserve only grows', S+': reserve'), ('heap to inline on shrink', S+': storage_t::shrink_to_fit')],
  [('capacity', 'characters storable without reallocation', S)], ['capacity, data, allocation count'],
  'stateful property testing with allocation accounting and buffer-address monitoring')
# ------------------------------------------------------------------------------------------------ vector
prop('C05', 'Vector histories behave like a plain sequence of elements',
  'After any sequence of constructions, assignments, insertions, emplacements, erasures (empty ranges included), resizes, reserves and shrinks, the elements and size of a vector, and the position or reference each operation returns, are exactly what the same sequence yields on a plain sequence of values. This holds for every element type the vector admits, trivial or not, and whichever overload (range, single-pass iterator, initializer list, repeated value, forwarded arguments) supplies the elements.',
  ['histories', 'inputs'], 'all operation histories, element types, ranges and positions, with and without spare capacity',
  'Tests use int elements and one fixed history per operation; non-trivial elements, empty ranges, growth boundaries and combinations are unreached.',
  [V], [('append at end and rotate when capacity suffices, single reallocation otherwise', V+': insert_impl, assign_impl, resize_impl'), ('shift down and destroy the tail', V+': erase')],
  [('block', 'elements, size, capacity', V+': storage_t')], ['size, data, begin/end, returned iterators and references'],
  'model-based property testing: generated operation histories against a std::vector reference model')
prop('C06', 'Vector operations accept arguments taken from the same vector',
  'Inserting, appending, resizing with, or assigning a value or range that lives inside the vector being modified has the same effect as if the argument had first been copied elsewhere, whether or not the operation has to move to a larger block. A moved-in element of the same vector is transferred with its value.',
  ['inputs', 'histories'], 'all (vector, operation, aliased element or range, position, spare capacity) combinations',
  'No test passes a vector one of its own elements.',
  [V], [('new elements constructed before old ones move', V+': insert_impl, resize_impl, assign_impl')],
  [], ['size, data'], 'metamorphic property testing: aliased argument versus copied argument, against a std::vector model')
prop('C07', 'Every vector element is constructed and destroyed exactly once',
  'Over any history, every element a vector holds was constructed exactly once, at a suitably aligned address, and is destroyed exactly once, no later than the end of the vector; no operation reads, assigns or destroys memory that holds no element, and no memory is leaked. Elements are relocated by moving, never by copying.',
  ['histories'], 'all histories over element types with observable lifetimes, including over-aligned types',
  'The tests use int, whose lifetime is unobservable, and never run with leak or lifetime instrumentation.',
  [V], [('destroy on shrink/clear/assign/destruction', V+': storage_t, erase, clear, pop_back, assign_impl'), ('uninitialized_* construction into fresh storage', V+': insert_impl, resize_impl, reserve')],
  [], ['element constructor/destructor calls, allocations'], 'stateful property testing with lifetime-tracking elements and allocation accounting')
prop('C08', 'Vector capacity and element stability',
  'Capacity is never below size and reserving guarantees at least the requested capacity without changing the elements. While the result fits the capacity, push_back, emplace, insert, erase, pop_back and clear keep the block where it is, so references to elements in front of the affected position stay valid; appending one by one reallocates only logarithmically often. Moving or swapping vectors hands over the very elements without copying, moving or allocating anything, and a default-constructed or moved-from vector owns no memory.',
  ['histories'], 'all histories mixing reserve, growth, move, swap and in-capacity modification',
  'No test looks at capacity, addresses or allocations of vectors.',
  [V], [('capacity test before reallocation', V+': insert_impl, reserve'), ('pointer exchange on move/swap', V+': storage_t')],
  [('capacity', 'elements storable without reallocation', V)], ['capacity, data, allocation count, element operation counts'],
  'stateful property testing with allocation accounting and element-address monitoring')
# ------------------------------------------------------------------------------------------------ faults
prop('C09', 'A failing string operation changes nothing',
  'When an operation on a string fails because memory is exhausted or because reading a supplied iterator throws, the exception reaches the caller and the string keeps its content, size and terminating zero exactly as before the call; nothing is leaked. Operations declared unable to fail do not fail when memory is exhausted.',
  ['fault_sequences', 'histories'], 'every allocation and every iterator step of every generated operation made to fail in turn',
  'No test injects a failure.',
  [S], [('allocate and fill before touching the current buffer', S+': reserve, append, insert, replace, assign')],
  [], ['content before/after, outstanding allocations'], 'fault injection at every allocation and iterator step of generated operations', 'fault_enumeration')
prop('C10', 'A failing vector operation changes nothing',
  'When an operation on a vector fails because memory is exhausted, because copying or constructing an element throws, or because reading a supplied iterator throws, the exception reaches the caller and the vector keeps exactly the elements it had; nothing is leaked and no element is lost or destroyed twice. Operations declared unable to fail do not fail, and do not end the program, when memory is exhausted.',
  ['fault_sequences', 'histories'], 'every allocation, element copy/construction and iterator step of every generated operation made to fail in turn',
  'No test injects a failure.',
  [V], [('construct new elements before moving or destroying old ones', V+': insert_impl, assign_impl, resize_impl, emplace')],
  [], ['elements before/after, lifetimes, outstanding allocations'], 'fault injection at every allocation, element copy and iterator step of generated operations', 'fault_enumeration')
prop('C11', 'Optional and variant survive throwing constructors and assignments',
  'A variant always holds exactly one live alternative: if constructing the replacement in an assignment or emplacement throws, the variant still holds its previous alternative with its previous value. An optional whose replacement value fails to construct keeps its previous state (still empty, or still holding a live value, unchanged when the failure happened before the value was assigned to). No value is leaked or destroyed twice.',
  ['fault_sequences', 'histories'], 'every throwing point of every generated assignment, construction and emplacement',
  'No test uses an alternative whose construction fails.',
  [VA, O], [('construct into a temporary, then move without failure', VA+': operator=, emplace'), ('flag set after successful construction', O+': operator=, emplace')],
  [], ['holds/get/has_value after the failure, lifetimes'], 'fault injection at every construction/assignment of generated operations, lifetime tracking', 'fault_enumeration')
prop('C12', 'Impossible sizes are refused, never wrapped around',
  'A request that would make a string or vector larger than its maximum size (by construction, resize, reserve, assign, append or insert with a huge count) throws a length or allocation error and leaves the object untouched. No such request overruns memory, wraps around to a small size or is silently truncated; requests that do fit are never refused on account of their size.',
  ['inputs'], 'all counts up to the maximum of the size type, against all current sizes and capacities',
  'Tests never request more than a few dozen elements.',
  [S, V], [('max_size checks', S+': reserve, storage_t; '+V+': storage_t, insert_impl')],
  [], ['exception type, content before/after'], 'property testing with boundary-biased counts against an exact size oracle')
# ------------------------------------------------------------------------------------------------ ABI
prop('C13', 'Objects can be shared between separately compiled modules',
  'An object created by one binary module may be read, modified, moved from, reassigned, swapped and destroyed by another module built with a different compiler, language standard or optimisation level, in any interleaving, with the same results as within one module. Memory is always given back to the module that allocated it, exactly once, and callables passed as references run in the module that created them.',
  ['histories', 'configurations'], 'all interleavings of operations by modules built by different compilers, standards and optimisation levels',
  'The tests are one program built by one compiler with one allocator.',
  ALL, [('recorded release function', S+', '+V+': dealloc'), ('fixed layouts', 'all headers')],
  [('release function', 'how the owner frees the block', S+', '+V)], ['values read by other modules, per-module allocation ledgers'],
  'model-based property testing across separately built shared libraries with per-module allocation ledgers')
prop('C14', 'The binary representation of every type is fixed',
  'The size, alignment and byte-level meaning of every type is a fixed function of its parameters and value: string is release routine, then inline (length byte, characters) or heap (pointer, capacity, size) form; vector is release routine, pointer, capacity, size; optional is value then one flag byte and variant is value then one index byte, both unpadded; bitset stores bit i as bit i mod 8 of byte i div 8 with unused bits zero; arrays are contiguous; the reference types are two pointers/words (optional_ref one). It is identical for every compiler and build mode.',
  ['inputs', 'configurations'], 'all values and instantiations, under each compiler and standard available',
  'Tests check sizeof of a few instantiations under one compiler; the bytes are never looked at.',
  ALL, [('packed standard-layout members in fixed order', 'all headers: #pragma pack, storage members')],
  [], ['sizeof, alignof, object bytes'], 'property testing: object bytes against an independent encoder/decoder, on several compilers')
prop('C15', 'Memory is released by the routine recorded in the object',
  'A string or vector whose storage was supplied by foreign code (with its own release routine recorded in the object) behaves like any other, and the recorded routine is called with the original block exactly once, when the block is given up by growth, assignment, shrinking or destruction, wherever the object or its content has been moved or swapped to in the meantime. The block of an object is never released by any other routine.',
  ['histories'], 'all histories starting from foreign-allocated objects mixed with native ones',
  'Tests only contain objects allocated and freed by the same code.',
  [S, V], [('release through the recorded routine on every path that gives up a block', S+', '+V+': storage_t')],
  [('release function', 'how the owner frees the block', S+', '+V)], ['calls of the foreign release routine'],
  'stateful property testing with forged foreign objects and a release ledger')
# ------------------------------------------------------------------------------------------------ optional/variant
prop('C16', 'Optional histories behave like a value that may be absent',
  'Over any sequence of construction, assignment (values, other optionals, nothing), emplacement, reset, swap, copy and move, an optional is engaged or empty and holds exactly the value a reference optional would; each contained value is constructed and destroyed exactly once. Checked access, defaulted access and pointer-like access deliver that value, from lvalues and from rvalues.',
  ['histories', 'inputs'], 'all operation histories over trivial, owning and lifetime-tracked value types',
  'Tests run single steps on int and one string; transitions engaged/empty in sequence and lifetimes are unobserved.',
  [O], [('engaged flag in step with the union member', O+': constructors, operator=, reset, emplace, swap')],
  [('flag', 'value present', O)], ['has_value, value, value_or, *, ->'], 'model-based property testing against std::optional with lifetime tracking')
prop('C17', 'Optional comparisons follow the empty-is-least order',
  'All comparisons between two optionals, an optional and a value, and an optional and the empty marker, in both operand orders, give exactly the result of the standard optional: empty equals empty, empty is less than any value, two engaged optionals compare as their values do with the same operator. This includes value types whose order is partial or whose operators are unrelated to each other.',
  ['inputs'], 'all operand kinds, orders and six operators, including partially ordered values',
  'Tests compare five int optionals with three of the six operators.',
  [O], [('eighteen relational operators', O+': friend operators')], [], ['relational operators'],
  'property testing: differential against std::optional over generated operands')
prop('C18', 'Variant histories hold exactly the last stored alternative',
  'Over any sequence of construction, converting assignment, emplacement by type or index, copy, move, copy/move assignment and swap, a variant holds exactly one alternative, namely the one stored last, with the value a reference variant would hold, for any number of alternatives up to the supported maximum. Alternatives are constructed and destroyed exactly once and swapping exchanges both alternative and value.',
  ['histories', 'inputs'], 'all operation histories over variants of few and of many alternatives',
  'Tests use int/double pairs and a couple of steps; index handling beyond two alternatives and lifetimes are untested.',
  [VA], [('index byte in step with the live union member', VA+': operator=, emplace, swap, dispatch tables')],
  [('index', 'live alternative', VA)], ['holds, get, get_if, visit'], 'model-based property testing against std::variant with lifetime tracking')
prop('C19', 'Visiting and access reach exactly the held alternative',
  'Visiting a variant or a variant reference calls the visitor exactly once, with the held alternative itself (same object, same constness and value category as the expression visited), chooses among several visitors as overload resolution would, and returns whatever the visitor returned. Type queries, pointer access and checked access agree with each other and with visiting; checked access to another alternative throws.',
  ['inputs', 'programs'], 'all held alternatives of variants of all sizes, all value categories, single and multiple visitors',
  'Tests visit two-alternative variants with int and double.',
  [VA, VR], [('dispatch table indexed by the alternative', VA+', '+VR+': visit, get, get_if, holds')], [], ['visitor calls, returned addresses and values'],
  'property testing: generated alternatives, visitors and value categories against identity oracles')
prop('C20', 'Variant comparison orders by alternative, then by value',
  'For any two variants of one type, each of the six relational operators gives the result of the standard variant: different alternatives compare by position, equal alternatives compare by their values with the same operator, including partially ordered values.',
  ['inputs'], 'all pairs of alternatives and values for all six operators',
  'Tests check a few pairs over int/double and not all operators.',
  [VA], [('index comparison then dispatch', VA+': relational operators')], [], ['relational operators'],
  'property testing: differential against std::variant over generated pairs')
# ------------------------------------------------------------------------------------------------ bitset
prop('C21', 'Bitset histories match the mathematical bit sequence',
  'For every size, over any sequence of setting, resetting, flipping (single bits or all), and/or/xor, complement and left/right shifts by any amount, every bit, the count and the all/any/none/test answers equal those of a reference bit sequence, and two bitsets are equal, with equal hashes, exactly when all their bits agree, however each was produced. Construction from an integer takes its low bits. Every operation completes in time independent of the shift amount.',
  ['histories', 'inputs'], 'all histories for sizes 0 to hundreds, including every size modulo 8, all shift counts of the size type',
  'Tests use sizes 10, 4 and a few; bits beyond the end, word boundaries and large shifts are unreached.',
  [B], [('unused bits kept clear', B+': clear_trailing_bits'), ('bytewise shift with carry', B+': operator<<=, operator>>=')],
  [('bytes', 'bit i in byte i/8', B)], ['operator[], test, count, all, any, none, ==, hash'],
  'model-based property testing against std::bitset for many sizes')
prop('C22', 'Bitset stream output and input agree with the standard format',
  'Writing a bitset produces its bits, highest first, as one formatted field, honouring width, fill and alignment. Reading takes leading whitespace and then at most size digits 0/1, stops in front of the first other character without consuming it, and leaves the stream in the same state and position as a standard bitset of that size would; it fails, leaving the value alone, only if no digit could be read. What was written is read back unchanged.',
  ['inputs'], 'all bit patterns, sizes, stream texts, formats and stream positions, including end of input',
  'Tests write and read back one 5-bit and two 1-bit values.',
  [B], [('character loop', B+': operator<<, operator>>')], [], ['stream text, stream state, stream position, value'],
  'property testing: differential against std::bitset over generated texts and formats, round trip')
prop('C23', 'Bit references and indexed access touch exactly one bit',
  'Reading, assigning, flipping, complementing, copying or swapping through bit references, in the same or different bitsets, and setting, resetting or flipping by index, affect exactly the designated bits and leave every other bit of every bitset alone. Index-checked operations throw for every index at or beyond the size and then change nothing; structured bindings deliver the bits in index order.',
  ['inputs', 'histories'], 'all index pairs, sizes and pairs of bitsets',
  'Tests never use references to bits of two bitsets nor out-of-range indexes.',
  [B], [('reference proxy', B+': reference'), ('index checks', B+': set, reset, flip, at, test')], [], ['all bits after each step'],
  'model-based property testing of reference operations over pairs of bitsets')
# ------------------------------------------------------------------------------------------------ array / tuple / refs
prop('C24', 'Array is a value sequence of fixed length',
  'An array initialised from any list of values (named objects or temporaries) holds them in order followed by value-initialised elements; filling, element and tuple-like access, copying, swapping and the six comparisons act exactly as on a standard array of the same length, for every length including zero. Elements of rvalue arrays are handed out as rvalues.',
  ['inputs', 'histories'], 'all lengths from 0, element types, contents and operation sequences',
  'Tests use int arrays of length 3 and 10 initialised from literals.',
  [A], [('aggregate-like storage and algorithms', A+': array')], [], ['elements, comparisons'],
  'model-based property testing against std::array for many lengths and types')
prop('C25', 'Tuple is a value collection compared lexicographically',
  'A tuple of any arity and any mix of admissible types holds the given values, delivers each by index with the constness and value category of the tuple, copies, moves and swaps as a whole, binds structurally in order, and compares (six operators) lexicographically, exactly as the standard tuple.',
  ['inputs'], 'all arities 0..8, type mixes and values',
  'Tests use arities 0, 2 and 3 with a few values; single-element tuples are not copied, and ties in earlier elements are tried once.',
  [T], [('recursive storage', T+': storage_t')], [], ['get, comparisons'],
  'property testing: differential against std::tuple over generated values and arities')
prop('C26', 'Array references are exact windows onto the referenced storage',
  'A reference to an array denotes exactly the given elements: whatever container, pointer pair or pointer and count it was made from, its elements are the original objects in order, writes go through to them and nothing else, and any chain of first/last/sub-range operations denotes exactly the window obtained by the same index arithmetic. Copies denote the same window.',
  ['inputs', 'histories'], 'all sources, sizes and chains of sub-range operations',
  'Tests take four sub-ranges of one 10-element array.',
  [AR], [('pointer pair', AR+': array_ref')], [], ['data, size, element addresses'],
  'model-based property testing: chains of windows against an (offset,length) model with address identity')
prop('C27', 'String references behave like standard views',
  'A string reference made from a C string, pointer and length, or view denotes exactly those characters; element access, prefix/suffix removal and chains of sub-strings denote exactly the same window as on a standard view. The six comparisons, the hash and stream output depend only on the characters (as unsigned bytes, embedded zeros included) and agree with those of standard views and of owning strings; literals yield every character.',
  ['inputs', 'histories'], 'all texts, windows, chains of operations and pairs',
  'Tests use two literals and single steps; comparisons other than == and != and the hash are untested.',
  [SR], [('pointer pair', SR+': string_ref')], [], ['data, size, comparisons, hash, output'],
  'model-based property testing against std::string_view')
prop('C28', 'Optional and variant references denote exactly the bound object',
  'A reference made from an object, an optional-like or a pointer denotes exactly that object (or nothing, if the source is empty): reads see and writes change that object only. Copying duplicates the binding and assigning rebinds, never writing through to the object. A variant reference records precisely the type and constness it was bound with; access agrees with the binding and throws otherwise.',
  ['histories', 'inputs'], 'all sequences of binding, rebinding, copying, reading and writing over several objects and source kinds',
  'Tests bind once or twice and read the value.',
  [OR, VR], [('stored address', OR+', '+VR)], [], ['addresses, values of all objects'],
  'model-based property testing over a pool of objects with address identity')
prop('C29', 'Function references call their target faithfully',
  'Calling a function reference calls exactly the referenced function or functor, exactly once, with the same arguments (same objects for reference parameters, same values and no copies of move-only values) and yields its result: same value, or the same object when a reference is returned. Exceptions pass through, copies and reassignments refer to the same target with its current state, and a const signature invokes the functor as const.',
  ['inputs', 'histories', 'programs'], 'all signatures (value/reference/move-only/void), target kinds, argument values and sequences of calls, copies and rebinds',
  'Tests call argument-less functions returning an int.',
  [F], [('stored address and generated trampoline', F+': invoker, storage_t')], [], ['call log, argument and result addresses'],
  'model-based property testing over a pool of targets with call logs and address identity')
prop('C30', 'Iterators of all containers obey random-access arithmetic',
  'For string, vector, array, array reference and string reference, any sequence of iterator moves, differences, comparisons, indexing and dereferencing, forwards or in reverse, mutable or const, addresses exactly the element that index arithmetic predicts; begin to end enumerates every element once, conversions to const iterators keep the position, and writes through mutable iterators change that element only.',
  ['histories', 'inputs'], 'all containers, sizes, positions and sequences of iterator operations',
  'Tests only increment iterators or add a constant to begin.',
  [S, V, A, AR, SR], [('pointer-based iterator classes', 'contiguous_iterator in each container')], [], ['element addresses'],
  'model-based property testing: iterator expression sequences against index arithmetic')
prop('C31', 'Checked access throws exactly when there is nothing to access',
  'Index-checked element access on string, vector, array, array reference, string reference and bitset returns exactly the element of that index when it is below the size and throws an out-of-range error otherwise, for every index up to the maximum; checked value access on optionals, variants and their references throws the matching access error exactly when the value or alternative is absent. A throwing access changes nothing.',
  ['inputs', 'histories'], 'all indexes of the size type and all states of each type, const and mutable',
  'Tests check only optional and optional_ref for throwing; no out-of-range index is ever tried.',
  [S, V, A, AR, SR, B, O, OR, VA, VR], [('bounds and presence checks', 'at/value/get/test')], [], ['returned addresses, exception types'],
  'property testing with boundary-biased indexes against exact bounds oracles')
prop('C32', 'Borrowing never discards constness or exception guarantees',
  'A mutable reference type can be made only from something mutable of a matching type: array, optional and variant references refuse const sources, temporaries of alternatives bind only as const, and array references refuse element types of different size or layout. A const-qualified function reference refuses functors that cannot be called as const and a noexcept one refuses targets that may throw; everything compatible is accepted.',
  ['programs', 'configurations'], 'all combinations of reference type and source type from a generated matrix of element types, constness, value categories and signatures',
  'Tests assert two negative cases for function_ref and none for the others.',
  [AR, OR, VR, F], [('constructor constraints', 'enable_if conditions of the reference types')], [], ['constructibility and conversions'],
  'generated matrix of source/target types checked against a rule-based oracle')
prop('C33', 'Every header works alone, in any order, in every build mode',
  'Each public header can be included on its own, in any order and combination with the others and in several translation units of one program, and its class templates can be used, with the same behaviour, under every available conforming compiler and every language standard from C++17 on, whether or not optimized or built with NDEBUG, without the user having to include anything else first.',
  ['configurations', 'programs'], 'all include subsets and orders, compilers, standards',
  'The test files all include the test framework (which drags in most of the standard library) first, and are built by one compiler in one mode.',
  ALL, [('include lists', 'all headers')], [], ['compiler and linker exit status, program output'],
  'generated programs: random include orders and uses compiled, linked and run under several compilers/standards')
prop('C34', 'Moving and swapping strings and vectors transfers the exact content',
  'Moving a string or vector gives the target exactly the content the source had, for every combination of inline, heap and empty storage on both sides; a source that owned heap storage is left empty, and every moved-from object can be used again like a new one. Swapping exchanges contents exactly, self-move-assignment and self-swap change nothing, and none of these operations allocates or fails.',
  ['histories', 'inputs'], 'all pairs of storage states and lengths, all sequences of moves and swaps',
  'Tests move and swap one fixed pair per storage kind and never reuse the moved-from object.',
  [S, V], [('storage move/swap by storage kind', S+', '+V+': storage_t')], [], ['content of all objects after every step, allocation count'],
  'model-based property testing over a pool of objects')
prop('C35', 'Distinct objects and concurrent readers do not interfere',
  'Operations on distinct objects from different threads, and any number of concurrent read-only operations on one object, never race with each other and give the same results as when run one after the other; the library keeps no hidden shared state.',
  ['schedules', 'histories'], 'all interleavings of operations on distinct objects and of const operations on shared ones',
  'The tests are single-threaded.',
  ALL, [('no static or mutable state', 'all headers')], [], ['thread sanitizer reports, results of each thread'],
  'generated multi-threaded histories under ThreadSanitizer (happens-before race detection) with per-thread models')
prop('C36', 'Copies are independent, also of nested library types',
  'Copying any owning library object, including arbitrarily nested ones (vectors of optionals of variants of strings and so on), yields an equal object that shares nothing with the original: any later modification or destruction of either leaves the other unchanged. Comparisons of nested objects compare the nested values.',
  ['histories', 'inputs'], 'all nested values from a generated type grammar and all later modification sequences',
  'Tests copy flat objects and do not modify copies.',
  [A, O, S, T, VA, V], [('copy constructors and assignments', 'all owning types')], [], ['values of both objects after each modification'],
  'stateful property testing of nested values against a value-tree model')
prop('C37', 'Compile-time evaluation agrees with run time',
  'Expressions over arrays, array references, string references, optional references, variant references, function references and bitset queries that are usable in constant expressions yield the same values when evaluated at compile time as when evaluated at run time and as their standard counterparts.',
  ['programs', 'inputs'], 'all generated constant expressions over the constexpr interface',
  'No test evaluates anything at compile time beyond sizes and types.',
  [A, AR, SR, OR, VR, F, B], [('constexpr member functions', 'headers listed')], [], ['values of constant expressions and of the same expressions at run time'],
  'generated programs: random expressions evaluated in constant expressions and at run time, compared with a Python-side oracle')
prop('C38', 'What cannot fail is declared not to throw, and owning types keep that',
  'Observers, element access without check, iteration, swap, moving, relational operators, clear, pop_back, erase, shrink_to_fit and the construction of references are declared noexcept for every element type for which they cannot fail, so that owning types stay nothrow movable, nothrow swappable and destructible and nest in each other; what reports an error by throwing (at, value, get of a variant, indexed bitset modifiers, whatever allocates) is not; single-value conversions that are implicit stay implicit, those to bool and from a size or a view into an owner stay explicit, iterators convert to constant iterators and never back.',
  ['programs', 'inputs'], 'all instantiations of the class templates over nothrow-movable elements, including nested ones',
  'The tests name no noexcept-specification except as a side effect of static_asserts for a few element types; whether a nested type still nests depends on all of them at once.',
  ALL, [('noexcept-specifications, explicit specifiers and constraints', 'all headers')], [], ['noexcept operator, type traits of generated instantiations'],
  'generated programs: random nested instantiations and a table of operations, decided by the compiler in six build modes')
prop('C39', 'Arguments arrive as given: forwarded, made once, moved only if allowed',
  'Emplacing into a vector, optional or variant, constructing one in place, and filling a tuple or an array makes every element exactly once from exactly the arguments given: the same objects, in order, each with the value category and constness it was passed with; no copy is made, and nothing is moved where the element is built in place (on construction, in an empty optional, at the end of a vector with room). An element given by name is copied exactly once and left alone, one given as a temporary is never copied; value_or converts its default only when there is no value.',
  ['inputs', 'histories'], 'all numbers, orders and value categories of arguments, all positions, and all states of the object they are put into',
  'The tests emplace ints; a forwarding slip (an lvalue moved from, an rvalue copied, a second construction) changes nothing they look at.',
  [V, O, OR, VA, T, A], [('perfect forwarding of constructor arguments', 'emplace, emplace_back, in_place constructors, variadic constructors of tuple and array, value_or')], [], ['addresses and value categories seen by element constructors, counts of constructions, copies and moves'],
  'property testing with argument-recording elements over generated argument lists and object states')

CLAIMED_FILE = os.path.join(ROOT, 'tools', 'claimed.json')

def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            o = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'],
                                  state=[dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                                  mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                  observe_at=list(p['observe']), hook_needed=None))
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(o, ensure_ascii=False) + '\n')
    claimed = json.load(open(CLAIMED_FILE))  # id -> {level_note}
    checks, na = [], []
    for p in P:
        c = claimed.get(p['id'])
        if c and 'not_applicable' not in c:
            checks.append(dict(property=p['id'],
                quick_cmd='python3 run.py %s quick' % p['id'],
                thorough_cmd='python3 run.py %s thorough' % p['id'],
                evidence_file='evidence/%s.json' % p['id'],
                technique=p['tech'], level=p['level'], level_note=c['note']))
        else:
            na.append(dict(property=p['id'], reason=(c or {}).get('not_applicable', 'check not built yet')))
    m = dict(version=1, setup_cmd='python3 run.py setup', checks=checks, not_applicable=na,
             notes='All checks are generated-input searches driven by engine/pbt.hpp (choice-sequence generation, shrinking, replay) or by run.py program generators. No hooks are compiled into /repo; harnesses use only the public interface. known findings: known_findings.txt.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write('\n')
    import collections
    print(len(P), 'properties', len(checks), 'claimed', collections.Counter(len(p['statement'].split('. ')) for p in P))

if __name__ == '__main__':
    main()
