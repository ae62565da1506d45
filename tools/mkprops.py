#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
T = "The unit tests (which need an absent submodule and do not run here) use a handful of hand-picked values on one compiled implementation; "

p('C01', 'Vector arithmetic equals the scalar operation in every lane',
  "For every vector type of every implementation (scalar, SSE, AVX, AVX2), x+y, x-y, x*y, x/y, x%y, -x, +x, ++/-- and their compound-assignment and vector/scalar mixed forms give in every lane exactly the result of the scalar operation on that lane's operands: IEEE for float and double, modulo 2^n for integers, truncating division. Mixed signed/unsigned operands are computed in the documented common type.",
  ['inputs', 'configurations'], "every operand value, in every lane, next to every neighbour lane value, for every element type and implementation; integer division by zero and INT_MIN/-1 excluded",
  T + "carries between lanes, sign/zero extension and emulated multiply/divide only fail for particular operand bit patterns in particular lanes.",
  ['Vc/common/operators.h', 'Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'Vc/sse/detail.h', 'Vc/avx/detail.h', 'Vc/sse/vectorhelper.h', 'Vc/scalar/vector.h'],
  [('generic binary operator', 'Vc/common/operators.h Vc_GENERIC_OPERATOR'), ('integer division via float/double', 'Vc/sse/vector.tcc operator/, Vc/avx/vector.tcc operator/'), ('mul emulation', 'Vc/sse/detail.h mul')])
p('C02', 'Bitwise operators and shifts act per lane like on the scalar type',
  "For every integer vector type, &, |, ^, ~, << and >> (by a run-time scalar, by a compile-time constant, or by a vector of per-lane amounts, and the compound forms) give in every lane the result of the scalar operation, with logical right shift for unsigned and arithmetic right shift for signed types. No bit leaves its lane.",
  ['inputs', 'configurations'], "every value, every shift amount in [0, number of bits), every lane",
  T + "shift amounts, sign bits and lane boundaries multiply to more combinations than examples cover.",
  ['Vc/common/operators.h', 'Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'Vc/sse/vectorhelper.h', 'Vc/avx/detail.h'],
  [('scalar-amount shifts', 'Vc/sse/vectorhelper.h shiftLeft/shiftRight'), ('vector-amount shifts', 'Vc/avx/vector.tcc operator<<')])
p('C03', 'Comparisons give per lane the scalar comparison, including NaN and unsigned',
  "==, !=, <, <=, >, >= between vectors (and between a vector and a scalar), as well as !x, x&&y and x||y, yield a mask whose entry i is exactly the scalar comparison of lane i: every ordered comparison with a NaN is false and != is true, unsigned types compare as unsigned, -0 equals +0.",
  ['inputs', 'configurations'], "every pair of lane values for every type, operator and implementation",
  T + "the unsigned compares are emulated with sign flips and the float compares depend on the predicate chosen; NaN and boundary pairs are needed.",
  ['Vc/common/operators.h', 'Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'Vc/sse/intrinsics.h', 'Vc/avx/intrinsics.h'],
  [('compare operators', 'Vc/sse/vector.tcc, Vc/avx/vector.tcc Detail::operator<'), ('unsigned compare emulation', 'Vc/sse/intrinsics.h cmpgt_epu32')])
p('C04', 'Masks are exact per-lane booleans under every query and combination',
  "A mask behaves as an array of N booleans under construction, element read and write, !, &&, ||, &, |, ^, compound forms, == and !=, shifted, load/store from bool arrays, generation and conversion to other mask types. isFull, isEmpty, isNotEmpty, isMix, all_of, any_of, none_of, some_of, count, firstOne, toInt and the index iteration where(mask) agree with that array for every one of the 2^N values, whatever sequence of operations produced it.",
  ['inputs', 'histories', 'configurations'], "all 2^N mask values, all pairs, all shift amounts, and all short sequences of mask operations",
  T + "masks have several internal representations (register of all-ones lanes, bit patterns, split masks), and a query may be right for examples and wrong for one bit pattern.",
  ['Vc/sse/mask.h', 'Vc/sse/mask.tcc', 'Vc/avx/mask.h', 'Vc/avx/mask.tcc', 'Vc/scalar/mask.h', 'Vc/common/simdmaskarray.h', 'Vc/common/bitscanintrinsics.h', 'Vc/common/maskbool.h', 'Vc/common/where.h'],
  [('mask queries', 'Vc/sse/mask.h, Vc/avx/mask.h'), ('mask count / firstOne', 'Vc/sse/mask.tcc, Vc/avx/mask.tcc')])
p('C05', 'Masked writes change exactly the selected lanes',
  "v(mask) op= x, where(mask) | v op= x, conditional_assign, masked ++/--, iif, setZero/setZeroInverted/setQnan with a mask write the result of the unmasked operation to the lanes whose mask entry is true and leave every other lane bit-for-bit unchanged. This holds for every mask, operator, and sequence of masked writes.",
  ['inputs', 'histories', 'configurations'], "all 2^N masks, all assignment operators, boundary values, sequences of masked writes",
  T + "blend emulations differ per type and instruction set; an error needs a specific mask/lane/type combination.",
  ['Vc/common/writemaskedvector.h', 'Vc/common/where.h', 'Vc/common/iif.h', 'Vc/sse/vectorhelper.h', 'Vc/avx/vectorhelper.h', 'Vc/scalar/vector.h'],
  [('write-masked proxy', 'Vc/common/writemaskedvector.h'), ('blend', 'Vc/sse/intrinsics.h blendv_epi8')])
p('C06', 'Loads and stores move exactly the addressed elements with exact conversion',
  "Loading from memory of any supported element type, and storing to memory of the vector's own element type, with aligned, unaligned, streaming and prefetch flags, transfers element i to/from lane i with the value of the scalar conversion. Neither reads nor writes any byte outside the addressed elements, and a masked store changes only the elements selected by the mask.",
  ['inputs', 'configurations'], "every source/destination element type, every flag, every alignment, every mask, at the edge of accessible memory",
  T + "out-of-bounds accesses are only visible at a page edge and only for particular type conversions; conversion errors only for particular values.",
  ['Vc/common/loadinterface.h', 'Vc/common/storeinterface.h', 'Vc/sse/detail.h', 'Vc/avx/detail.h', 'Vc/sse/vectorhelper.h', 'Vc/avx/vectorhelper.h', 'Vc/common/loadstoreflags.h', 'Vc/scalar/vector.tcc'],
  [('converting loads', 'Vc/sse/detail.h load, Vc/avx/detail.h load'), ('masked stores', 'Vc/sse/vectorhelper.h store, Vc/avx/vectorhelper.h store')])
p('C07', 'Gathers and scatters access exactly the selected addresses',
  "A gather puts into lane i the (converted) element at base[index[i]], and a scatter writes lane i there, for every kind of index argument (index vector, array, pointer) and every memory element type. With a mask only selected lanes take part: their index alone is dereferenced, unselected lanes keep their value (or are zero when constructing), unselected memory is untouched and unselected indexes may be invalid.",
  ['inputs', 'configurations'], "all masks, all small index vectors incl. duplicates, invalid indexes in inactive lanes, every element type and gather strategy",
  T + "the implementations loop over mask bits or use hardware gathers of wider elements; only invalid inactive indexes or page edges expose stray accesses.",
  ['Vc/common/gatherinterface.h', 'Vc/common/scatterinterface.h', 'Vc/common/gatherimplementation.h', 'Vc/common/scatterimplementation.h', 'Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'Vc/avx/vector.h', 'Vc/sse/vector.h'],
  [('masked gather strategies', 'Vc/common/gatherimplementation.h executeGather'), ('hardware gathers', 'Vc/avx/vector.h gatherImplementation')])
p('C08', 'Interleaved access de-/re-interleaves structures exactly',
  "Reading k vectors from an array of structures through the interleaved memory interface (index vector or contiguous start) gives vector j, lane i = member j of the i-th addressed structure for every supported number of members and any subset of leading members, and writing stores them back to exactly those places, leaving all other memory unchanged. deinterleave of two vectors splits even and odd elements.",
  ['inputs', 'configurations'], "every structure size and member count, every starting index / index vector in small scope, every element type",
  T + "each member count and register width has its own hand-written shuffle network.",
  ['Vc/common/interleavedmemory.h', 'Vc/common/deinterleave.h', 'Vc/sse/deinterleave.tcc', 'Vc/avx/deinterleave.tcc', 'Vc/sse/detail.h', 'Vc/avx/detail.h', 'Vc/common/vectortuple.h'],
  [('interleave implementations', 'Vc/sse/detail.h InterleaveImpl, Vc/avx/detail.h InterleaveImpl')])
p('C09', 'Horizontal reductions combine all and only the selected lanes',
  "min(), max(), sum(), product() combine every lane exactly once (modulo 2^n for integers; order of float additions unspecified), their masked forms combine exactly the lanes selected by the mask, and partialSum() lane i is the combination of lanes 0..i. minIndex()/maxIndex() return the extremum together with the index of a lane holding it.",
  ['inputs', 'configurations'], "all positions of the extremum incl. ties, all masks, sign and boundary values, every type and implementation",
  T + "reduction trees fail for one lane position or for neutral elements (e.g. all-negative lanes).",
  ['Vc/sse/vectorhelper.h', 'Vc/avx/vectorhelper.h', 'Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'Vc/common/simdarray.h', 'Vc/scalar/vector.h'],
  [('reduction trees', 'Vc/sse/vectorhelper.h min/max/mul/add'), ('masked reductions', 'Vc/sse/vector.tcc min(MaskArg)')])
p('C10', 'Permutations move values to exactly the specified lanes',
  "shifted(n), shifted(n, shiftIn), rotated(n), reversed(), broadcast, interleaveLow/High, interleave and transpose place each value in the documented lane and introduce zeros only where documented, for every amount; sorted() returns the ascending rearrangement of the input. None of them loses, duplicates or alters a value otherwise.",
  ['inputs', 'configurations'], "all shift/rotate amounts in a range around +/-N, run-time and constant; all orderings of lanes (0/1 principle) for sorting",
  T + "each amount has its own shuffle code and the sorting networks need all orderings to be validated.",
  ['Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'Vc/avx/shuffle.h', 'Vc/sse/shuffle.h', 'src/sse_sorthelper.cpp', 'src/avx_sorthelper.cpp', 'Vc/common/transpose.h', 'Vc/common/interleave.h'],
  [('shifted/rotated', 'Vc/sse/vector.tcc, Vc/avx/vector.tcc'), ('sorting networks', 'src/sse_sorthelper.cpp, src/avx_sorthelper.cpp')])
p('C11', 'Casts between vector types convert every lane as the scalar cast does',
  "simd_cast and the implicit vector conversions, between all pairs of element types, vector widths and implementations (including splitting one vector into several and concatenating several into one), give in lane i static_cast of the source lane i for all representable values and zero in lanes without a source. Mask casts preserve every boolean, and reinterpret_components_cast preserves every bit.",
  ['inputs', 'configurations'], "every value representable in the target (all 2^16 for 16-bit sources), every pair of types, every offset",
  T + "the casts are dozens of hand-written pack/unpack sequences, each with its own saturation and ordering hazards.",
  ['Vc/sse/simd_cast.h', 'Vc/avx/simd_cast.h', 'Vc/scalar/simd_cast.h', 'Vc/sse/casts.h', 'Vc/avx/casts.h', 'Vc/common/simdarray.h', 'Vc/common/simd_cast.h'],
  [('simd_cast overloads', 'Vc/sse/simd_cast.h, Vc/avx/simd_cast.h'), ('implicit conversions', 'Vc/sse/casts.h convert')])
p('C12', 'Exact math functions match the C library bit for bit in every lane',
  "abs, sqrt, floor, ceil, trunc, round, copysign, frexp, ldexp, isnan, isinf, isfinite, isnegative, min, max, exponent and fma equal the correctly defined scalar function for every input, including zeros of both signs, denormals, infinities and NaN where the function defines them. rsqrt and reciprocal are accurate to the documented relative precision.",
  ['inputs', 'configurations'], "every float/double input class: exponents x mantissa patterns x signs (all 2^32 floats in the thorough tier)",
  T + "bit-twiddling implementations (magic-number rounding, exponent extraction) fail for isolated exponents or for 2^23/2^52 boundaries.",
  ['Vc/common/math.h', 'Vc/sse/math.h', 'Vc/avx/math.h', 'Vc/scalar/math.h', 'Vc/sse/vectorhelper.h', 'Vc/avx/vectorhelper.h', 'Vc/avx/vector.tcc'],
  [('frexp/ldexp', 'Vc/sse/math.h, Vc/avx/math.h'), ('round/floor/ceil emulation', 'Vc/sse/vectorhelper.h, Vc/sse/math.h')])
p('C13', 'Transcendental functions keep their documented accuracy in every lane',
  "exp, log, log2, log10, sin, cos, sincos, asin, atan and atan2 give in every lane the mathematical value of that lane's argument within the documented (or, if none is documented, a few) units in the last place over the documented range, for all implementations. Special arguments (zero, infinities, NaN, out-of-domain) give the values the C library gives, and the result of a lane never depends on the other lanes.",
  ['inputs', 'configurations'], "a dense grid over all exponents and quadrants/branches, each value in each lane with special and ordinary neighbours (all floats in the thorough tier)",
  T + "range reduction and branch selection are data dependent; errors appear in narrow intervals or when lanes take different branches.",
  ['src/trigonometric.cpp', 'src/const.cpp', 'Vc/common/logarithm.h', 'Vc/common/exponential.h', 'Vc/common/trigonometric.h', 'Vc/avx/math.h', 'Vc/sse/math.h', 'Vc/scalar/math.h'],
  [('range reduction', 'src/trigonometric.cpp'), ('polynomials and constants', 'src/const.cpp'), ('log', 'Vc/common/logarithm.h')])
p('C14', 'SimdArray<T, N> behaves as N independent scalars for every N',
  "For every element type and every N, whatever the underlying split into registers, all operations of SimdArray and its masks (arithmetic, comparison, assignment masks, load/store, gather/scatter, shifted/rotated, reductions, math, casts, element access) act on element i as the scalar operation does. No element is lost, duplicated, or mixed up at a register boundary, and memory outside the N elements is never touched.",
  ['inputs', 'configurations'], "N = 1..17 and larger powers of two, every element type, boundary values, all mask positions, implementations",
  T + "the recursive split makes every N a different program; odd remainders and type-dependent register widths are where elements get lost.",
  ['Vc/common/simdarray.h', 'Vc/common/simdmaskarray.h', 'Vc/common/simdarrayhelper.h', 'Vc/common/simdarrayfwd.h', 'Vc/common/simd_cast_caller.tcc'],
  [('recursive split', 'Vc/common/simdarray.h data0/data1'), ('argument splitting', 'Vc/common/simdarrayhelper.h Split')])
p('C15', 'Memory containers give coherent scalar and vector views of the same elements',
  "Vc::Memory (fixed 1D, fixed 2D, dynamic) holds exactly its entries: a value written through any view (scalar, aligned vector, vector with scalar shift, gather/scatter, pointer) is read back through every other view and no other entry changes, padding included vectors cover all entries, copies are independent and complete, and whole-container operators and comparisons act on all entries.",
  ['histories', 'inputs', 'configurations'], "all sizes in a small range, all sequences of view writes up to a depth, every element type",
  T + "padding and remainder handling depends on size modulo vector width and on unrolled copy loops.",
  ['Vc/common/memory.h', 'Vc/common/memorybase.h', 'Vc/common/memoryfwd.h', 'Vc/common/data.h'],
  [('views', 'Vc/common/memorybase.h'), ('copyVectors', 'Vc/common/memory.h')])
p('C16', 'Allocations are aligned, large enough, disjoint and usable to the last byte',
  "Vc::malloc, the allocator for standard containers and the aligned base classes' new operators return memory that satisfies the requested alignment, holds at least the requested number of objects, does not overlap any other live allocation, and can be freed in any order. Container operations through the allocator preserve the stored values.",
  ['histories', 'inputs'], "all sizes and alignments in a range, all allocate/free sequences up to a depth",
  T + "padding arithmetic fails for specific sizes only.",
  ['Vc/common/malloc.h', 'Vc/common/memory.h', 'Vc/Allocator', 'Vc/common/alignedbase.h'],
  [('aligned malloc', 'Vc/common/malloc.h'), ('Allocator', 'Vc/Allocator')])
p('C17', 'simdize maps structures and containers member-wise and lane-wise',
  "A simdized structure holds, for every member, a vector of the member values of the N source structures; assigning, extracting, inserting and copying a lane, loading and storing through simdized iterators, shifting and swapping transfer exactly that lane's members and no other.",
  ['inputs', 'histories', 'configurations'], "every lane, every member position, nested structures, sequences of insert/extract",
  T + "the member recursion and lane indexing are template programs instantiated differently for each structure.",
  ['Vc/common/simdize.h', 'Vc/Utils'], [('assign/extract', 'Vc/common/simdize.h')])
p('C18', 'Vectorised algorithms visit every element exactly once and keep order',
  "simd_for_each and simd_for_each_n apply the functor to every element of the range exactly once, in order, whatever the length and alignment of the range, write back results for functors taking their argument by reference, and touch nothing outside the range.",
  ['inputs', 'histories', 'configurations'], "all lengths 0..several vector widths, all misalignments, mutable and immutable functors, every element type",
  T + "prologue/epilogue handling depends on length and alignment modulo the vector width.",
  ['Vc/common/algorithms.h', 'Vc/traits/is_functor_argument_immutable.h'], [('simd_for_each', 'Vc/common/algorithms.h')])
p('C19', 'Run-time CPU detection reports exactly what the CPU and OS provide',
  "For every combination of CPU feature bits, vendor and operating-system state reported by the processor, the feature queries, isImplementationSupported, bestImplementationSupported, extraInstructionsSupported and currentImplementationSupported report an instruction set as usable if and only if the processor announces it (and, for AVX, the operating system enabled its state). Cache sizes, line sizes, associativities, family and model are decoded as the vendor documents.",
  ['configurations', 'fault_sequences'], "every CPUID/XGETBV environment in a bounded family (all subsets of feature bits, every cache descriptor, both vendors)",
  "A test can only see the CPU it runs on; the property quantifies over all CPUs.",
  ['src/cpuid.cpp', 'src/support_x86.cpp', 'Vc/cpuid.h', 'Vc/support.h'], [('feature decoding', 'src/cpuid.cpp CpuId::init'), ('dispatch', 'src/support_x86.cpp isImplementationSupported')])
p('C20', 'Random vectors stay in range and follow deterministically from generator state',
  "Random() returns floating-point values in [0, 1) and integers over the full range, advances the shared generator state in the documented deterministic way so that equal states give equal sequences, updates every part of the state it consumes, and never returns a value outside the range for any reachable or arbitrary state.",
  ['histories', 'inputs', 'configurations'], "arbitrary states incl. boundary words, all short sequences of draws of different types",
  T + "range violations need specific state words; sequence properties quantify over histories.",
  ['Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'Vc/scalar/vector.tcc', 'src/const.cpp'], [('Random', 'Vc/sse/vector.tcc _doRandomStep')])
p('C21', 'Container helpers keep size, order and zero padding',
  "makeContainer builds from any initializer list a container whose flattened entries are the listed values in order followed by zeros; Vc::array, Vc::vector and Vc::span provide standard container behaviour: size, order, iteration, element access, sub-views and conversions agree with the underlying elements.",
  ['inputs', 'histories'], "all lengths up to several vector widths, every sub-span offset/count",
  T + "tail handling depends on length modulo vector width.",
  ['Vc/common/makeContainer.h', 'Vc/common/array.h', 'Vc/common/span.h', 'Vc/vector'], [('make_container_helper', 'Vc/common/makeContainer.h')])
p('C22', 'Element access, iteration and per-entry functions visit each lane exactly once',
  "v[i] reads and writes lane i only (also through compound assignment, swap and conversions), iterating a vector or mask yields lanes 0..N-1 once each in order (forwards and backwards), and apply, call, fill, generate and for-each style helpers invoke the function once per (selected) lane in lane order with that lane's value; callWithValuesSorted invokes it once per run of equal values.",
  ['inputs', 'histories', 'configurations'], "every lane, every mask, sequences of element writes, every type and implementation",
  T + "element access goes through type-punning storage that differs per type and compiler.",
  ['Vc/common/elementreference.h', 'Vc/common/iterators.h', 'Vc/common/storage.h', 'Vc/sse/vector.h', 'Vc/avx/vector.h', 'Vc/scalar/vector.h', 'Vc/common/simdarray.h'],
  [('element reference', 'Vc/common/elementreference.h'), ('storage element access', 'Vc/common/storage.h')])
p('C23', 'Subscripting containers with index vectors accesses exactly those elements',
  "Indexing Vc::array / Vc::vector (and pointers to members of the elements, and nested containers) with an index vector yields a proxy that reads exactly the addressed elements and whose (masked) assignment writes exactly them, through every nesting depth of array members and structure members.",
  ['inputs', 'configurations'], "all small index vectors, nesting depths 1..3, masks, element types",
  T + "scale and offset arithmetic is computed at compile time per nesting; wrong strides only show for specific member layouts.",
  ['Vc/common/subscript.h', 'Vc/common/array.h', 'Vc/vector', 'Vc/common/gatherinterface.h', 'Vc/common/scatterinterface.h'], [('SubscriptOperation', 'Vc/common/subscript.h')])
p('C24', 'Streaming a vector or mask prints every lane in order',
  "operator<< on vectors, masks, SimdArray and Memory prints all entries in lane order with their exact value as the scalar stream operator would print it, small integers as numbers rather than characters, and leaves the stream usable with its formatting state unchanged.",
  ['inputs', 'configurations'], "boundary values in every lane, every mask, every type",
  T + "output is not tested by value at all.",
  ['Vc/IO'], [('operator<<', 'Vc/IO')])
p('C25', 'A library built with a different ABI version is rejected at program start',
  "A program whose headers disagree with the linked library in the library ABI version terminates at start-up with a diagnostic, for every disagreeing version number, while every agreeing (or compatible) combination starts normally; version numbers are encoded so that newer versions compare greater.",
  ['configurations'], "all version numbers and ABI numbers in a bounded neighbourhood",
  "A unit test links one consistent pair only.",
  ['src/const.cpp', 'Vc/version.h'], [('checkLibraryAbi', 'src/const.cpp'), ('runLibraryAbiCheck', 'Vc/version.h')])
p('C26', 'Construction, broadcast, constants and numeric_limits',
  "Every default-constructed vector and mask is zero (false) in every lane, Zero/One/IndexesFromZero and the mask constants have exactly their value in every lane, construction or assignment from an entry, an int or an initializer list puts exactly that value (converted to the entry type) in every lane, converting construction between vector types converts each lane like static_cast, and std::numeric_limits, sizes, alignment and type traits of a vector type agree with those of its entry type.",
  ['inputs', 'configurations'], "every scalar (all 65536 values of the 16-bit types, boundary alphabets otherwise), every vector type incl. SimdArray widths, prior contents of the memory of a constructed object",
  T + "default construction only fails for specific prior memory contents, conversions for specific values.",
  ['Vc/common/generalinterface.h', 'Vc/common/vector.h', 'Vc/common/mask.h', 'Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'Vc/scalar/vector.h', 'Vc/scalar/mask.h', 'Vc/common/simdarray.h', 'Vc/common/simdmaskarray.h', 'Vc/limits', 'Vc/avx/limits.h', 'Vc/sse/limits.h', 'Vc/common/set.h', 'Vc/traits/type_traits.h'],
  [('broadcast constructors', 'Vc/sse/vector.h Vector(EntryType)'), ('default construction', 'Vc/scalar/mask.h Mask()'), ('numeric_limits', 'Vc/limits')])
p('C27', 'Operators on operands of different types act lane by lane in the common type',
  "For every pair of a vector (or SimdArray) and another vector, SimdArray or scalar of a different arithmetic type for which an operator exists, the result has the documented common entry type and each lane equals the scalar operator applied to both operands converted to that type, in both operand orders; compound assignment stores exactly that value converted back, and comparisons and logical operators give the mask of the scalar results.",
  ['inputs', 'configurations'], "every pair of operand types x operator x form x product of boundary value alphabets",
  T + "existing tests check the result types of mixed operators with all-zero operands only, never their values.",
  ['Vc/common/operators.h', 'Vc/common/simdarray.h', 'Vc/traits/is_implicit_cast_allowed.h', 'Vc/sse/vector.h', 'Vc/avx/vector.h', 'Vc/scalar/vector.h', 'Vc/avx/simd_cast.h', 'Vc/sse/simd_cast.h'],
  [('Vc_GENERIC_OPERATOR', 'Vc/common/operators.h'), ('result_vector_type', 'Vc/common/simdarray.h')])
p('C28', 'Memory operations touch only the addressed elements, under every interleaving',
  "Storing, masked storing, scattering, masked memory assignment, Vc::Memory entry access and interleaved stores write exactly the bytes of the selected, addressed elements: unselected lanes, neighbouring elements, other struct members and padding are never written, not even with the value they had, so another thread may update those bytes at any time without losing an update. Loads, gathers, interleaved loads and read-only algorithms write nothing at all to the memory they read.",
  ['schedules', 'inputs', 'configurations'], "every interleaving, at machine-instruction granularity, of one operation with a second thread writing all the other bytes; every mask; every type and implementation",
  T + "a test that only looks at memory before and after an operation cannot see a read-modify-write of neighbouring bytes, and a test with real threads hits the window of a few instructions by luck.",
  ['Vc/common/simdarray.h', 'Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'Vc/scalar/vector.tcc', 'Vc/sse/vectorhelper.h', 'Vc/avx/vectorhelper.h', 'Vc/common/scatterimplementation.h', 'Vc/common/interleavedmemory.h', 'Vc/sse/detail.h', 'Vc/avx/detail.h', 'Vc/common/memory.h'],
  [('masked store', 'Vc/sse/vector.tcc, Vc/avx/vector.tcc store(mem, mask)'), ('scatter loops', 'Vc/common/scatterimplementation.h'), ('partial vectors', 'Vc/common/memorybase.h')])
p('C29', 'Operations respect and preserve the floating-point environment',
  "No operation of the library changes the floating-point environment of the calling thread: afterwards the rounding mode, flush-to-zero, denormals-are-zero and exception masks (MXCSR control bits), the x87 control word and the (empty) x87 register stack are as before. In whatever rounding and flushing mode the thread runs, +, -, *, / and sqrt of floating-point vectors yield in every lane what the scalar operation yields in that mode. Operations with an exact result yield the same values in every rounding mode: floor, ceil, trunc, abs, frexp, ldexp (normal results), exponent, copysign, min, max, negation, sorting, comparisons and classifications, the truncating conversions to integers, conversions of values that the destination can represent, and integer division and remainder.",
  ['inputs', 'configurations'], "all 4 rounding modes x flush-to-zero x denormals-are-zero; every operation; every floating-point value class (exponent x mantissa-pattern alphabet); every type, ABI and instruction set",
  T + "every test runs in the default environment only.",
  ['Vc/sse/math.h', 'Vc/avx/math.h', 'Vc/sse/vectorhelper.h', 'Vc/avx/vectorhelper.h', 'Vc/sse/detail.h', 'Vc/avx/detail.h', 'Vc/common/math.h', 'Vc/sse/casts.h', 'Vc/avx/casts.h', 'Vc/sse/vector.tcc', 'Vc/avx/vector.tcc', 'src/trigonometric.cpp'],
  [('SSE2 trunc/floor/ceil', 'Vc/sse/math.h'), ('integer division through floating point', 'Vc/sse/vector.tcc, Vc/avx/detail.h'), ('MMX stores', 'Vc/sse/detail.h InterleaveImpl')])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
import jsonschema
S = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x, S)
print(len(P), 'properties')
