#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for its text is here)."""
import json, os
I='sources/include/utils/'
SR=I+'memory/simple_resource.h'; MB=I+'memory/monotonic_buffer_resource.h'; ME=I+'memory/memory.h'; AL=I+'memory/allocator.h'
CO=I+'common.h'; CL=I+'clz.h'; CT=I+'ctz.h'; CX=I+'details/cxz.h'; TL=I+'type_list.h'; VL=I+'value_list.h'; CP=I+'cartesian_product.h'
FT=I+'function_traits.h'; DE=I+'detector.h'; PC=I+'padding_checker.h'; FP=I+'fast_pimpl.h'; TI=I+'timer.h'; UT=I+'utils.h'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=None
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('M01','Pool allocations are disjoint, in bounds, aligned and keep their data',
 'Under any history of allocations, deallocations and releases on a fixed-buffer block pool, every live allocation lies wholly inside the usable part of the caller\'s buffer (or was obtained from the fallback resource), satisfies the requested alignment, and is disjoint from every other live allocation. The pool never reads back or writes into the caller\'s buffer itself, so bytes a client stored stay unchanged until that allocation is freed and bytes outside live allocations are not touched.',
 ['histories','inputs','configurations'],
 'all block sizes and block-count limits, all buffer addresses and sizes, all finite sequences of allocate(size, alignment)/deallocate/release',
 'The pool tests replay a few hand-picked placements on tiny pools (and are not built in the baseline); overlap depends on the exact history, block-boundary sizes and alignment gaps.',
 [SR,CO],[('allocate/first-fit walk',SR+': allocate_impl, apply'),('block range of a request',SR+': allocate_blocks'),('usable range of a buffer',SR+': origin_and_block_count'),('alignment arithmetic',CO+': skip_to_align, max_alignment_inside_block')],
 ['returned pointers','contents of the buffer'])
p('M02','Pool bookkeeping mirrors exactly the set of live allocations',
 'After every operation the pool\'s published region map, in-use flags, region sizes, free and busy counts describe exactly one partition of all its blocks: one in-use region per live allocation, spanning the minimum number of whole blocks that holds it, and maximal free regions in between, with forward and backward links agreeing. Adjacent free regions are always merged, so no two neighbouring regions are both free, and the number of blocks equals what fits in the aligned part of the buffer up to the configured maximum.',
 ['histories','inputs','configurations'],
 'all histories and configurations as for the pool; every observable state after every step',
 'Tests compare the map for a handful of constructed layouts; merge and split cases depend on neighbours on both sides and on position at either end of the pool.',
 [SR],[('split on allocate',SR+': details::allocate_*'),('merge on free',SR+': merge_adjacent_blocks'),('link updates',SR+': set_prev, set_next, set_prev_next')],
 ['at()/infos()','in_use()','block_size()','free_count()','busy_count()','size()','data()'],
 [('infos','prev/next links of region heads',SR+': infos_'),('in use bits','which region heads are allocated',SR+': in_use_'),('counters','number of free and busy regions',SR+': free_count_, busy_count_')])
p('M03','Pool serves every request that fits and regains all space once freed',
 'A request is served from the pool whenever some free region can hold it at the requested alignment (for alignments that every buffer of that base alignment and size is guaranteed to contain), and is never served from a region too small for it, even for sizes near the maximum representable value. Every operation terminates, and after all allocations are freed in any order, or after a release, the whole pool is one free region again that serves a request for its full size.',
 ['histories','inputs','configurations'],
 'all histories; all request sizes 1..SIZE_MAX and power-of-two alignments',
 'A missed region, a leaked block or a non-terminating walk appears only after particular fragmentations or at exact-fit and overflow boundaries, which the sampled tests do not contain.',
 [SR,CO],[('region walk',SR+': apply, allocate_impl'),('fit test',SR+': allocate_impl'),('release',SR+': release'),('alignment limit',CO+': max_alignment_inside_block')],
 ['returned pointer is inside / outside the pool','success of a full-size request'])
p('M04','Pool uses its fallback only for what it cannot serve, and returns it once',
 'When the pool cannot serve a request it asks its fallback resource once for at least the requested size and alignment and passes on the answer, including failure; memory obtained that way is returned to the same fallback exactly once when the client frees it and stays usable until then, including across a release of the pool. Memory served from the pool is never handed to the fallback, and with no fallback the request simply fails; the same holds for chains of pools.',
 ['histories','inputs','fault_sequences'],
 'all histories with fallbacks that succeed or fail at any request; chains of pools; fallbacks whose memory touches the pool\'s buffer',
 'Tests use a default fallback and never make it fail, never mix its pointers with pool pointers, and never check what it receives.',
 [SR,ME],[('fallback on no fit',SR+': allocate_impl'),('owner test on free',SR+': deallocate_impl')],
 ['calls received by the fallback','returned pointers'])
p('M05','Pool misuse is stopped with a diagnostic and harmless calls stay harmless',
 'Freeing a pointer that is not the start of a live pool allocation (freed before, pointing inside an allocation or a free region, misaligned, or foreign while there is no fallback), or destroying a pool while allocations are live, ends the process with a diagnostic message instead of continuing. Freeing null, requesting zero bytes (which yields null), releasing an empty or unusable pool and destroying a fully freed pool never abort and change nothing.',
 ['histories','inputs'],
 'all histories followed by any one misuse or harmless call, with assertions compiled in or out',
 'Tests contain no misuse after a non-trivial history; whether a stale or interior pointer is caught depends on the history before it.',
 [SR,CO],[('abort on bad free',SR+': deallocate_blocks, deallocate_impl'),('abort on destruction',SR+': ~simple_resource'),('diagnostics',CO+': UTILS_ABORT_IF, abort_if')],
 ['exit by abort','standard error'])
p('M06','Monotonic buffer hands out packed, aligned, disjoint memory until exhausted',
 'A monotonic buffer serves requests from its buffer in increasing address order, consuming only the size plus the minimal alignment padding, and serves from the buffer exactly when the request fits behind what has been handed out since construction or the last release; a request that does not fit (of any size up to the maximum representable) consumes nothing and goes once to the fallback with its size and alignment. Zero-size requests yield null, deallocation never changes state, and release makes the whole buffer available again.',
 ['histories','inputs','fault_sequences'],
 'all buffers including null and empty, all request sequences, all sizes and power-of-two alignments, fallbacks that are absent or fail',
 'The single existing test checks a few allocations; exact-fit, padding at the end, overflow and release interplay are not covered.',
 [MB,CO],[('bump allocation',MB+': allocate_impl'),('release',MB+': release'),('constructors normalising null/empty buffers',MB)],
 ['returned pointers','calls received by the fallback','data()/size()'],[('next','first byte not handed out',MB+': next_')])
p('M07','System, null and default resources are program-wide and report failure honestly',
 'The system resource returns storage of at least the requested size and alignment (whatever power of two, also below pointer size) or null when the operating system refuses, and gives back exactly the pointers it handed out; the null resource always fails. Each is one object for the whole program across translation units, resources compare equal only if they are the same object, and replacing the default resource atomically returns the previous one, so that concurrent replacements form one chain and whoever obtains a resource from the default sees what was written to it before it was set; first uses by several threads at once are safe and get the same objects; resources and allocators constructed without an explicit resource use the default of that moment.',
 ['inputs','fault_sequences','schedules','configurations'],
 'all sizes/alignments, every pattern of system allocation failures, sets of translation units, concurrent replacement, publication and first use by several threads',
 'Tests never make the system allocator fail, use one translation unit and one thread, and do not compare resources of different kinds.',
 [ME],[('system allocation',ME+': aligned_malloc, aligned_free'),('default resource slot',ME+': default_resource, set_default_resource, get_default_resource'),('equality',ME+': memory_resource::is_equal, operator==')],
 ['returned pointers','calls to the system allocation functions','returned previous default'],[('default resource','process-wide atomic pointer',ME+': details::default_resource')])
p('M08','Typed allocator manages lifetimes exactly and forwards arguments faithfully',
 'For every value type, an allocator requests exactly count times the object size with the type\'s alignment, fails with null when that product overflows or its resource fails, and creating an object runs one constructor with the arguments in their original type and value category (or none when memory is missing). Deleting an object runs its destructor once and returns its memory to the same resource, deleting null does nothing, copies and conversions to other value types share the resource, and allocators compare equal exactly when their resources do.',
 ['histories','inputs','fault_sequences'],
 'all object types (also with their own allocation operators), counts and argument lists, all histories of create/delete/allocate/deallocate with resource failures at any point',
 'The existing test only constructs an allocator; forwarding, overflow, failure and cross-type use are not exercised.',
 [AL,ME],[('allocation size',AL+': allocate, allocate_object'),('construct/new_object/delete_object',AL),('comparison and conversion',AL)],
 ['constructor/destructor counts and value categories','calls received by the resource'])
p('M09','Memory wipe, move, copy and uniformity test have exact byte-wise semantics',
 'For all buffers, lengths and overlaps, moving and copying bytes yield the source\'s original bytes, wiping sets exactly the given range to zero even if the memory is released right afterwards in optimised builds, its checked form rejects null and empty ranges with distinct error codes without writing, and the uniformity test is true exactly for non-empty ranges whose bytes all equal the value. Results are the same when evaluated at compile time, and nothing outside the destination range is written.',
 ['inputs','configurations'],
 'all buffer contents, offsets, lengths, overlaps and optimisation levels; run time and constant evaluation',
 'Tests use fixed small buffers without overlap at compile time and in debug builds only.',
 [ME,CO],[('wipe',ME+': secure_zero_memory, secure_zero_memory_safe'),('move/copy',ME+': memmove, memcpy'),('uniformity test',CO+': memvcmp'),('alignment of a pointer',ME+': get_alignment')],
 ['buffer contents','return values'])
p('A01','Leading and trailing zero counts are exact for every unsigned value and type',
 'For every non-zero value of every supported unsigned integer type of any width, the number of leading and trailing zero bits reported equals the position of the highest and lowest set bit counted in that type\'s own width, for the intrinsic-backed and the portable variants alike, at run time and in constant evaluation.',
 ['inputs','programs'],
 'all non-zero values of all unsigned integer types up to 64 bits',
 'Tests probe selected values; width adjustment errors show only for some type/value pairs.',
 [CL,CT,CX],[('type dispatch and width correction',CL+': clz; '+CT+': ctz'),('portable variants',CL+': crafted_clz; '+CT+': crafted_ctz')],['return values'])
p('A02','Alignment and power-of-two arithmetic is exact',
 'For all values and powers of two, rounding up gives the least multiple not below the value, the distance to alignment is the least offset making an address aligned, alignment tests agree with divisibility, the power-of-two test accepts exactly the powers of two, the greatest power-of-two divisor is the largest such divisor (the type\'s top bit for zero), the alignment reported for an address is the largest power of two dividing it, and the alignment guaranteed inside a block is the largest power of two that every block of that base alignment and size contains.',
 ['inputs','programs'],
 'all 64-bit values and addresses and all powers of two (results representable), all unsigned types for the typed forms; run time and constant evaluation',
 'Tests use a few small values; boundaries near powers of two, exact multiples and wide shifts are not covered.',
 [CO,ME],[('rounding',CO+': next_multiple_of, skip_to_align'),('predicates',CO+': is_power_of_2, is_aligned, greatest_divisor_that_is_power_of_2'),('block alignment',CO+': max_alignment_inside_block'),('pointer alignment',ME+': get_alignment')],['return values'])
p('A03','Bit counting, width selection and serialised size are minimal and sufficient',
 'For every value the reported number of occupied bits is the least width that represents it, the bit-population table equals the population count of every byte, an unsigned type selected for n bits or bytes is the narrowest standard one that can hold n bits, none being selected when there is no such type (its fast variant the corresponding fast type), an enumeration\'s width is that of its count enumerator, and the byte size of a field list is the sum of its field widths, with booleans taking one bit, rounded up to whole bytes.',
 ['inputs','programs'],
 'all 64-bit values, all widths 1..64, all enumerations with a count enumerator, all lists of fundamental types',
 'Tests check some widths and lists; off-by-one errors at type boundaries need the whole range.',
 [CO],[('bit counting',CO+': bits_count, nbits_occupied, num_bits, kNumBitsTable'),('type selection',CO+': uint_from_nbits, fast_uint_from_nbits, uint_from_nbytes, UInt, FastUInt'),('enum width',CO+': enum_properties'),('field list size',CO+': sum_size')],['return values and selected types'])
p('A04','Integer division yields the exact quotient and remainder in the common type',
 'For all pairs of integer types and all operands whose quotient is representable, dividing yields the truncated quotient and the remainder of the operands converted to their common type (or to an explicitly requested type), so that quotient times divisor plus remainder gives back the dividend; the result is identical at run time and in constant evaluation. A result object written from two integers deduces that same common type and keeps both values.',
 ['inputs','programs'],
 'all ordered pairs of integer types up to 64 bits, signed and unsigned, all operands with non-zero divisor',
 'Tests sample a few pairs with small operands; conversions between signedness and the upper half of unsigned ranges are not covered.',
 [CO],[('division',CO+': div, div_as, div_t')],['returned quotient, remainder and their type'])
p('A05','Array builders keep every element, its order, value and type',
 'Building an array from values, from a repeated value, from a string view prefix or from an ascending range, and concatenating any number of arrays, gives exactly the expected length, element type and element values in order, copying from lvalue sources without changing them and moving from rvalue sources; comparing arrays (or their prefixes) is true exactly when the compared elements are equal. A range counts as valid exactly when it is a single value or its begin is below its end and below begin plus step.',
 ['inputs','programs'],
 'all element types including non-trivial and move-only ones, lengths including zero, ranges with any positive step, prefixes and mixtures of lvalue and rvalue sources',
 'Tests use short arrays of trivial types; order, zero lengths, and copy/move distinctions are not exercised.',
 [CO],[('builders',CO+': make_array, make_zero_array, make_array_from_range, sv_to_array'),('concatenation',CO+': concatenate_arrays'),('comparison',CO+': is_equal')],['resulting arrays','copies and moves made'])
p('A06','Shifts, reinterpretation and iteration preserve values, types and order',
 'Shifting any integer by less than its width gives the mathematically shifted value truncated to the same type, reinterpreting an object as another type of equal size keeps every byte (and back again is the identity), the numeric value of an enumerator is its underlying value, and iterating over arguments or a tuple applies the callable once to each element in order with its original type and value category.',
 ['inputs','programs'],
 'all integer types, values and shift distances below the width; all trivially copyable types of equal size; all argument packs and tuples',
 'Tests sample a few values and types only.',
 [CO],[('shifts',CO+': shift_left, shift_right'),('reinterpretation',CO+': bit_cast, to_underlying'),('iteration',CO+': for_each_arg, for_each_in_tuple')],['return values and types','calls made'])
p('T01','Type list queries agree with the list as an ordered sequence',
 'For every list of types, its size, element access (also the n-th element satisfying a predicate), first position of a type or of a type satisfying a predicate (the list size when there is none), number of occurrences, membership of a type or of all types of another list, predicate counts, presence of duplicates and of a single repeated type, and the positions of the first smallest and first largest type equal what the same query gives on the plain sequence of types.',
 ['programs','inputs'],
 'all type lists, including empty ones, with duplicates and cv/ref variants; all query arguments; all predicates',
 'Tests instantiate a few short lists; each answer must hold for every list and position.',
 [TL],[('queries',TL+': type_list, details::type_list_impl'),('extremes',TL+': min_sizeof_index, max_sizeof_index')],['compile-time constants and types'])
p('T02','Type list transformations preserve order, multiplicity and exact content',
 'For every list of types, taking a sublist, excluding a position, keeping the types that satisfy a predicate, concatenating lists and sorting by size in either direction give exactly the elements a sequence model gives, in the same order (sorting is stable and a permutation), and requests out of range (a position, or a first position of a sublist, which the list does not have, or more elements than follow it) are rejected at compile time rather than answered. The cartesian product of any number of type or value lists is the list of all combinations in lexicographic order, empty if any list is empty.',
 ['programs','inputs'],
 'all lists (empty, single, duplicates, equal sizes), all in- and out-of-range arguments, products of two or more lists',
 'Tests instantiate a few lists; stability, edge positions and products of three or more lists are hardly covered.',
 [TL,CP],[('sublist/exclude/filter/sort',TL+': sublist, exclude_at, list_of_predicate_compliant, sort_sizeof_*'),('concatenate and product',CP)],['resulting types','substitution failure'])
p('T03','Value list queries agree with the list as an ordered sequence of typed values',
 'For every list of compile-time values, size, element access with its exact type, first position, occurrence count, membership, duplicates, whether all values are the same, presence of a type, the sublist of values of one type, and the minimum and maximum among the values of one type equal what the same query gives on the sequence of (type, value) pairs: values of different types are never equal. The list of values in a range contains every value from the first to the last inclusive, in order and with the common type.',
 ['programs','inputs'],
 'all value lists, also empty and of mixed integer, character, boolean, enumeration and pointer types; all query arguments',
 'Tests instantiate a few lists with few types.',
 [VL,CO],[('queries',VL+': value_list, details::value_list_impl'),('ranges',CO+': values_in_range')],['compile-time constants and types'])
p('T04','Function signature traits report and strip qualifiers exactly',
 'For every function signature, functor and member function with any combination of const, volatile, reference and noexcept qualifiers, the reported qualifiers, return type and parameter list are exactly those written, removing one kind of qualifier changes nothing else, removing all leaves the bare signature, and the signature extracted from a functor or member pointer equals the written one. Callability is reported true exactly for functions, function pointers, member function pointers and types with one unambiguous call operator, not for references to these.',
 ['programs','inputs'],
 'all combinations of qualifiers with any return and parameter types; functors, lambdas, function and member pointers, and non-callables',
 'Tests cover selected combinations out of 24 qualifier sets for one signature.',
 [FT,DE],[('qualifier traits',FT+': has_*_qualifier, remove_*_qualifier'),('signature extraction',FT+': signature, member_signature, functor_signature, return_type, params_list, is_invocable')],['compile-time constants and types'])
p('T05','Generated member, method and function checkers match the class as declared',
 'For every class or set of free functions, the generated checkers answer true exactly when the named member type, data member, static data member, method, static method or free function exists, is accessible, and has the requested kind: exact or convertible type, exact return type, parameters, qualifiers and noexcept, or callability with the given arguments. The generic detection utilities report the detected type, the supplied default, exactness and convertibility consistently.',
 ['programs','inputs'],
 'all classes with any mixture of nested types, data, static data, methods with qualifiers and overloads, private or missing members; all checker arguments',
 'Tests use a few fixed classes per checker.',
 [FT,DE],[('checker generators',FT+': CREATE_*_CHECKERS'),('detection idiom',DE)],['compile-time constants'])
p('T06','Padding detection agrees with the real object layout',
 'For every trivially copyable aggregate built from fundamental, enumeration and pointer members, empty classes and nested aggregates of these, padding is reported exactly when the object is larger than the sum of its scalar members, at any nesting depth; types that are not trivially copyable are always reported as possibly padded, and scalars never.',
 ['programs','inputs'],
 'all aggregates with up to dozens of members in any order and nesting, with const members, member initializers, defaulted or deleted copies',
 'Tests check a few structs; layout depends on member order, nesting and tail padding.',
 [PC],[('recursive member size sum',PC+': details::sum_size_of_all_members'),('verdict',PC+': has_padding')],['compile-time constant'])
p('T07','Small type predicates and transformations classify every type correctly',
 'For every type, the predicates for unsigned integers, byte-like unsigned integers, standard arrays (through cv and reference), tuples, reference wrappers and lists accept exactly their class, equal-size tests hold exactly when all sizes are equal, and stripping references and qualifiers, unwrapping reference wrappers, array element type, array sizes and their sums, and shifting an integer sequence yield exactly the expected type or number.',
 ['programs','inputs'],
 'all fundamental, class, array, pointer and reference types with any cv-qualification, and templates applied to them',
 'Tests instantiate few types, cv and reference variants mostly not.',
 [CO,TL,VL],[('predicates',CO+': is_uint, is_uint_or_byte, is_std_array, is_tuple, is_ref_wrapper, is_equal_sizes'),('transformations',CO+': remove_cvref, unwrap_reference, std_array_*, shifted_sequence')],['compile-time constants and types'])
p('O01','In-place private implementation manages exactly one object with value semantics',
 'Any history of default, forwarding, copying and moving constructions, assignments (also from the wrapped type itself) and destructions leaves each holder with exactly one live wrapped object, equal in value to what the same operations on plain objects give, created and destroyed exactly once, with copies never changing their source and moves being moves. The object lives inside the holder at the holder\'s address and alignment, exceptions and non-throwing guarantees of the wrapped type are passed through, and access through the holder reaches that same object, read-only for read-only holders.',
 ['histories','inputs','fault_sequences'],
 'all histories over several holders with argument lists of any value category, wrapped operations that throw, wrapped types of any size and alignment, also with their own address-of and allocation operators',
 'The single existing test default-constructs one holder.',
 [FP],[('constructors/assignments/destructor',FP+': fast_pimpl'),('access',FP+': get, operator->')],['constructor/destructor/assignment counts','values and addresses'])
p('O02','Scope timer runs its finish callback exactly once with the right elapsed time',
 'A timer started with any callable (function, function pointer, functor, lvalue or rvalue) invokes it exactly once, when the last timer it was moved to is destroyed, passing that timer; moved-from timers invoke nothing, moving keeps the start time, and a callback replaced by move assignment is dropped without being invoked. Elapsed time is always clock time now minus the start time, restarted by a reset and truncated to the unit asked for, and what the callable captured is released exactly once. Timers move but do not copy, and a callable which does not fit the timer\'s storage or cannot be called with a timer is rejected at compile time.',
 ['histories','inputs'],
 'all histories of creating, moving, move-assigning, resetting, querying and destroying timers under any progress of the clock',
 'Tests create and move single timers and check no callback count and no elapsed time.',
 [TI],[('callback storage and transfer',TI+': details::timer'),('elapsed time',TI+': leaked, leaked_*_sec, reset, start_tp')],['callback invocations and arguments','elapsed values'])
p('O03','Conditional abort fires exactly when its condition holds, with the full message',
 'A conditional abort terminates the process with the abort signal exactly when its condition is true, after writing the formatted message, and for the located form the error tag, file, line and function, to standard error; when the condition is false nothing is written and execution continues, and the condition is evaluated once. The debug-only form does the same in debug builds and evaluates nothing in release builds.',
 ['inputs','configurations'],
 'all conditions, formats and argument lists, with assertions compiled in or out',
 'No test makes it fire.',
 [CO],[('abort',CO+': abort_if'),('located form',CO+': UTILS_ABORT_IF, UTILS_DEBUG_ABORT_IF, UTILS_FUNC, UTILS_FILE_LINE')],['exit status','standard error'])
p('O04','Calls outside the domain of a function are stopped in checked builds and never constants',
 'In builds with assertions a call whose arguments violate the stated precondition ends the process by abort with a message instead of returning: an alignment or multiple which is no power of two (rounding, distance to alignment, alignment test, alignment inside a block, allocation of one or more bytes from a buffer resource), an empty block, a shift by the width of the type or more, division by zero, comparing more elements than the arrays have, building an array from a shorter view, a null pointer to a byte copy or to the alignment of a pointer, a block index beyond the end of a pool, and a fallback which hands a pool storage not aligned to its blocks. In constant evaluation such a call is not a constant expression, and unsupported kinds of argument (shifting booleans or floating point values, dividing floating point values, byte copies of wider elements, rounding to a template argument which is no power of two, counting zeros of signed values, ranges which do not advance, pools of blocks which are no power of two) do not compile. Arguments inside the domain never stop anything, with assertions compiled in or out.',
 ['inputs','configurations','programs'],
 'all values and pointers inside and outside the domains, with assertions compiled in or out; run time and constant evaluation',
 'Tests never leave the domain, and cannot observe an abort or a program that does not compile.',
 [CO,ME,MB,SR,CL,CT],[('arithmetic',CO+': next_multiple_of, skip_to_align, is_aligned, max_alignment_inside_block, shift_left, shift_right, div'),('arrays',CO+': is_equal, make_array, make_array_from_range'),('bytes',ME+': memcpy, get_alignment'),('resources',MB+': allocate_impl; '+SR+': allocate_impl, at, in_use')],
 ['exit by abort','standard error','what compiles'])
p('H01','Headers can be included alone, in any order and in many translation units',
 'Every public header compiles on its own as the first include, any sequence of headers (repeated or not) compiles in any order, and several translation units that include any of them link into one program without duplicate or missing definitions, where facilities documented as program-wide are shared and can be used while static objects are initialized.',
 ['programs','configurations'],
 'all subsets and orders of the headers, all sets of translation units',
 'The build includes each header in one fixed order in one translation unit per test, most after the test framework\'s own includes.',
 [UT,CO,CL,CT,CP,DE,FP,FT,PC,TI,TL,VL,ME,AL,MB,SR],[('include guards, own includes, inline/internal linkage','all headers under '+I)],['compiler and linker verdict'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
try:
    import jsonschema
    sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x,sch)
except ImportError: pass
print(len(P))
