#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and known_findings.json's fixed entries from one table (run by hand)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "crates/traits/src/"; B = "crates/bits/src/"; I = "crates/ints/src/"; U = "crates/utils/src/"
R = "crates/reals/src/"; K = "crates/compounds/src/"; S = "crates/static-iter/src/"

P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

IN = ["inputs"]
p("C01", "Primitive checked, overflowing, wrapping and saturating operations are exact",
  "For every primitive integer type and every pair of operands, the checked, overflowing, wrapping and saturating arithmetic, negation and shift traits return exactly what integer arithmetic gives: the in-range result when there is one, and otherwise None, the wrapped value with the flag set, the wrapped value, or the nearest bound. None of them panics, except division by zero in forms that cannot report it.",
  IN, "all operand pairs of all twelve primitive integer types, in builds with and without overflow checks",
  "The tests call a few of these traits with one or two small values; the interesting values (minimum, wrap-around, shift amounts past the width) are never sampled.",
  [T+"ops/checked.rs", T+"ops/overflowing.rs", T+"ops/wrapping.rs", T+"ops/saturating.rs"],
  [("macro generated trait impls over the primitives", T+"__impl.rs")])
p("C02", "Primitive conversions preserve the value or report that they cannot",
  "Between every two primitive integer types, checked conversion returns the same number exactly when the target can hold it and None otherwise, truncating conversion keeps the low bits, and saturating conversion gives the nearest representable number. The From-style and Into-style directions agree.",
  IN, "every value of every ordered pair of primitive integer types", "Twelve types give 144 pairs and three conversions each; the tests touch a handful with small values.",
  [T+"cast.rs", T+"__impl.rs"], [("cast macros", T+"cast.rs")])
p("C03", "gcd, integer powers and factorial agree with their mathematical definition",
  "gcd returns the non-negative greatest common divisor of its arguments for signed and unsigned types alike (gcd(0, 0) is 0), power by an unsigned exponent is repeated multiplication, and factorial is the product of the integers up to its argument. Where the exact result does not fit the type, overflow behaves as it does for the type's own operators.",
  IN, "operand values within stated widths, every candidate divisor", "The tests check a few pairs of small positive numbers.",
  [T+"ops.rs", T+"__impl.rs"], [("gcd, factorial, pow", T+"__impl.rs")])
p("C04", "Widening multiply-add loses nothing",
  "For every unsigned primitive type, widening and carrying multiplication return a low and a high half which together are exactly the product plus the carry.",
  IN, "all operand triples of u8 to u128", "Only a few products are sampled by the tests; carries between the halves depend on specific bit patterns.",
  [T+"ops/widening.rs"], [("widening / carrying multiplication", T+"ops/widening.rs")])
p("C05", "Identities, bounds and sign predicates of primitives are consistent",
  "For every primitive, non-zero and float type the zero and one values and predicates identify exactly 0 and 1, the bounds are the smallest and largest value of the type, and is_positive / is_negative / abs / signum agree with comparison against zero as documented. No value is both positive and negative.",
  IN, "every value of every supported primitive type", "A predicate that is wrong for one value (zero, the minimum, a non-one non-zero) passes tests that do not use that value.",
  [T+"identity.rs", T+"class.rs", T+"__impl.rs", T+"__impl/nz.rs"], [("identity, sign and bound impls", T+"identity.rs")])
p("C06", "Byte-order conversions round-trip",
  "Converting any number to big, little or native endian bytes and back gives the same number, and the little-endian bytes are the big-endian bytes reversed, with byte i of the little-endian form holding bits 8i to 8i+7.",
  IN, "every value of every primitive type and of the library's fixed-size integer and float types at several sizes", "A conversion that permutes bytes wrongly at one width goes unnoticed on palindromic or small samples.",
  [T+"bytes.rs", I+"u.rs", R+"f.rs"], [("to/from bytes impls", T+"bytes.rs")])
p("C07", "Bit and element accessors address exactly the named bit or element",
  "Reading bit or element i of a slice, array or vector returns that bit or element or reports that it is absent; writing changes exactly that bit or element; growing writes extend the container with zeroes just far enough; iterators yield every bit or element once, in order, with a correct length. No index causes an out-of-bounds access.",
  IN, "all contents and indices within the stated container sizes", "Index arithmetic errors show at element boundaries and for indices near usize::MAX only.",
  [B+"bit_slice.rs", B+"bit_slice/iter.rs", B+"utils.rs"], [("BitSlice / BitSliceExt accessors", B+"bit_slice.rs")])
p("C08", "Slice addition and subtraction are exact",
  "Adding or subtracting two little-endian element sequences of any lengths, allocating or in place, element-wise or bit-wise, gives exactly the sum, or the magnitude of the difference together with its sign; overflow of a fixed-size result is reported, never lost.",
  IN, "all contents of sequences within the stated lengths", "Carries that ripple across several elements and operands of unequal length need specific values.",
  [B+"algos/element", B+"algos/bitwise"], [("ElementAdd/ElementSub, BitwiseAdd/BitwiseSub", B+"algos.rs")])
p("C09", "Slice multiplication is exact",
  "Multiplying two little-endian element sequences of any lengths gives exactly the product; the fixed-size forms give its low part and report overflow exactly when the product does not fit.",
  IN, "all contents of sequences within the stated lengths", "Column carries above one element and products past the end of the target need specific large values.",
  [B+"algos/element", B+"algos/bitwise"], [("ElementMul, BitwiseMul", B+"algos.rs")])
p("C10", "Slice division satisfies the division identity",
  "Dividing two little-endian element sequences gives a quotient and remainder with dividend = quotient * divisor + remainder and remainder < divisor; dividing by zero panics instead of returning a value; operand lengths may differ in either direction.",
  IN, "contents within the stated widths", "Quotient digits depend on all bits of both operands; the tests divide two or three small pairs.",
  [B+"algos/element", B+"algos/bitwise"], [("ElementDiv, BitwiseDiv", B+"algos.rs")])
p("C11", "Slice shifts move every bit by exactly the shift amount",
  "Left and right shift of an element sequence multiply or divide (rounding down) by a power of two for every amount, whether or not it is a multiple of the element width, in place or allocating; the checked, overflowing and wrapping forms report or reduce amounts of at least the bit length as documented.",
  IN, "all contents and shift amounts within the stated sizes", "Each combination of whole-element and sub-element shift is a separate code path; tests use a few amounts on one-element data.",
  [B+"algos.rs", B+"algos/element", B+"algos/bitwise"], [("ElementShl/Shr, in-place forms", B+"algos.rs")])
p("C12", "Slice comparison, bit logic, shrinking and conversion follow the value",
  "Comparing two element sequences orders them as numbers regardless of trailing zero elements; and, or, xor and not act bit by bit with missing elements read as zero; shrinking removes only trailing zero elements; converting between integers and element arrays preserves the value.",
  IN, "all contents of sequences within the stated lengths", "Unequal lengths combined with particular high elements are needed to expose a wrong order or a lost element.",
  [B+"algos/element", B+"utils.rs"], [("ElementCmp, Element bit ops, shrink, IntSlice conversion", B+"algos.rs")])
p("C13", "U<N> addition, subtraction and multiplication match unsigned arithmetic",
  "For every N and all operands the operators, checked, wrapping and saturating forms of + - * on U<N> agree with unsigned integer arithmetic on 8N bits: exact when the result fits, otherwise panic (builds with overflow checks), wrap, None or the bound.",
  IN, "all operand pairs of U<1>..U<4>, U<8>, U<16>", "N-byte carries and overflow at the top byte need specific operands; the tests use one-digit values.",
  [I+"u.rs", B+"algos/element"], [("operator impls on U over slice algorithms", I+"u.rs")])
p("C14", "U<N> division, remainder and power match unsigned arithmetic",
  "For every N, quotient and remainder on U<N> satisfy the division identity with remainder below the divisor, division by zero panics or gives None in the checked form, and power is repeated multiplication (with x^0 = 1).",
  IN, "operands within the stated widths", "A long division that goes wrong for particular bit patterns passes on sampled quotients.",
  [I+"u.rs", B+"algos/bitwise"], [("Div/Rem/Pow on U", I+"u.rs")])
p("C15", "U<N> bit logic and shifts match unsigned arithmetic",
  "! & | ^ act on the 8N bits of a U<N>; shifting left or right by fewer than 8N bits multiplies or divides by the power of two within 8N bits; amounts past the bit length panic in builds with overflow checks and are reduced modulo the bit length otherwise.",
  IN, "all values, shift amounts up to past the width", "Sub-byte and whole-byte parts of a shift interact only for particular amounts.",
  [I+"u.rs", B+"algos.rs"], [("Shl/Shr/Bit* on U", I+"u.rs")])
p("C16", "U<N> order, conversions and decimal text follow the numeric value",
  "U<N> values compare as the unsigned numbers they hold, zero, one, minimum and maximum are what they claim, conversion to and from every primitive unsigned type keeps the value or reports that it does not fit (the truncating form keeps the low bits), and Display prints the decimal digits of the value.",
  IN, "all values within the stated sizes", "Conversions between sizes index past an array or drop high bytes only when the sizes differ in one particular direction.",
  [I+"u.rs"], [("Ord/From*/Display on U", I+"u.rs")])
p("C17", "I<N> behaves as 8N-bit two's complement",
  "Addition, subtraction, multiplication, negation, absolute value, truncating division and remainder, bit logic, order, equality, sign predicates and bounds of I<N> agree with two's complement arithmetic on 8N bits, with the remainder taking the sign of the dividend.",
  IN, "all operand pairs within the stated sizes", "Sign handling interacts with carries between bytes; the tests use a few small numbers.",
  [I+"i.rs"], [("operator impls on I", I+"i.rs")])
p("C19", "BigInt conversions to and from primitives preserve the value",
  "Every primitive integer converts into a BigInt of the same value; a BigInt converts back exactly when the target can hold it (an error otherwise), saturates to the nearest bound in the saturating form and keeps the low bits of the two's complement value in the truncating form.",
  IN, "all primitives, BigInts of up to three limbs", "Inline and interned representations meet at 2^62 and limb boundaries at multiples of 2^64, values no test samples around.",
  [I+"big_int.rs"], [("From / TryFrom / cast impls on BigInt", I+"big_int.rs")])
p("C20", "BigInt addition, subtraction and negation are exact",
  "Sums, differences and negations of BigInts are exact whatever the signs, sizes and representations (inline or interned) of operands and result, and every by-value, by-reference, assigning and primitive-operand form gives the same result. Zero has one representation and no sign.",
  IN, "all signed 128-bit magnitudes", "Sign cases times representation changes times carries give far more combinations than the sampled ones.",
  [I+"big_int.rs", I+"big_int/macros.rs"], [("Add/Sub/Neg on BigInt", I+"big_int.rs")])
p("C21", "BigInt multiplication and powers are exact",
  "Products of BigInts are exact for every sign, size and representation, non-negative powers are repeated products, and every operand form agrees.",
  IN, "magnitudes within the stated sizes", "Carries between limbs need specific large operands.",
  [I+"big_int.rs"], [("Mul/Pow on BigInt", I+"big_int.rs")])
p("C22", "BigInt division truncates and satisfies the division identity",
  "For every non-zero divisor, a = (a / b) * b + a % b, |a % b| < |b| and the remainder is zero or has the sign of a; division and remainder by zero panic; every operand form agrees.",
  IN, "magnitudes and divisors within the stated sizes", "The sign combinations and operands of different length are barely touched by tests.",
  [I+"big_int.rs"], [("Div/Rem on BigInt", I+"big_int.rs")])
p("C23", "BigInt order and equality follow the numeric value",
  "BigInts compare and test equal as the integers they denote, among themselves and against every primitive integer type, however they are stored.",
  IN, "all pairs of sign and 128-bit magnitude, three-limb values, every primitive", "Order errors show when limbs disagree in particular ways, or at the extreme values of a primitive.",
  [I+"big_int.rs"], [("Ord/PartialEq on BigInt", I+"big_int.rs")])
p("C24", "BigInt shifts and bit operations match integer arithmetic",
  "Left shift multiplies by a power of two, right shift of a non-negative BigInt divides by it rounding down, and and/or/xor of non-negative BigInts act bit by bit, for every amount and size, in every operand form.",
  IN, "values of up to two limbs, shift amounts past two limbs", "Amounts at and around the limb width and the inline boundary are separate code paths.",
  [I+"big_int.rs"], [("Shl/Shr/Bit* on BigInt", I+"big_int.rs")])
p("C25", "BigInt text output and parsing agree with the value",
  "Formatting a BigInt prints its sign and digits in the requested radix without leading zeros, and parsing returns the value of a well-formed digit string (optionally signed) and an error for anything else; parsing what was printed gives back the value.",
  IN, "values and strings within the stated lengths", "Malformed strings, negative values and radix edges are an unbounded family of which tests sample a few.",
  [I+"big_int.rs"], [("Display/Hex/Binary, FromStrRadix, FromStr", I+"big_int.rs")])
p("C26", "Interned values live exactly as long as they are referenced",
  "Over any history of adding, referencing, looking up and releasing, an interner never hands out two live entries for equal values, a live handle always reads back its own value, a released slot is reused without disturbing others, and every value is dropped exactly once. Cloning and dropping BigInts never changes the value of another BigInt.",
  ["histories", "inputs"], "every history of the stated length over the stated values", "The defects are in histories (release then re-add, growth while entries are live) which sampled call sequences do not reach.",
  [U+"intern.rs", U+"linked.rs", I+"big_int.rs"], [("Interner add/incr/decr, chunked list", U+"intern.rs")])
p("C27", "Interning is safe under concurrent use",
  "When several threads add, reference, look up and release values of one interner, or compute with BigInts, in any interleaving, no operation tears, races on memory, deadlocks or returns another value's contents, a live handle keeps reading its own value, an entry is shared only by equal values, equal values added concurrently share one entry while nothing is being released, and every value is dropped exactly once.",
  ["schedules", "inputs"], "every interleaving within the stated context-switch bound", "Interleavings inside the interner's atomic operations practically never occur in unit tests.",
  [U+"intern.rs", U+"linked.rs"], [("atomic slot states, compare-and-swap list append", U+"intern.rs")])

RL = "crates/reals/src/"
p("C28", "Fixed-point numbers compute exactly at their scale",
  "For every backing integer and scale, Fixed addition, subtraction, remainder, negation and absolute value are exact, multiplication and division of representable intermediate results are within one unit of the last place of the exact product or quotient (and exact when it is representable), comparison and equality follow the represented values, from_val/from_raw, zero, one and the extreme values denote what they say, and results outside the type panic as the backing type does in a checked build.",
  ["inputs"], "every pair of raw values within the stated widths", "Scale errors only show for particular combinations of operands and number of fractional bits.",
  [RL+"fixed.rs"], [("Fixed", RL+"fixed.rs")])
p("C29", "Fixed-point rounding and text denote the same value",
  "For every raw value whose result is representable, floor is the largest whole number not above it, ceil the smallest not below it, trunc drops the fraction towards zero, trunc + fract gives the number back, round yields a nearest whole number, and the Debug text is the exact decimal expansion of the value, sign and zeros included, for every format that leaves at least five bits to the whole part; the Binary text is the raw value in binary (two's complement if negative) with the point before its last N digits.",
  ["inputs"], "every raw value within the stated widths", "Negative fractions, exact halves and fractions with leading zeros are rare corner inputs.",
  [RL+"fixed.rs"], [("Real for Fixed, Debug, Binary", RL+"fixed.rs")])
p("C30", "Rationals are kept reduced and form a field",
  "Rat::new(n, d) is None exactly for d = 0, otherwise it denotes n/d with a positive denominator and no common divisor; sums, differences, products and quotients whose intermediate products fit the type equal the exact rational result in that same reduced form, division by zero panics, equality is equality of the rational values, and sign, zero and one queries agree with the value.",
  ["inputs"], "every numerator and denominator within the stated bounds", "Equality on the derived representation is only right if every operation reduces, for every pair of operands.",
  [RL+"rat.rs"], [("Rat::new, reduce, arithmetic", RL+"rat.rs")])
p("C31", "Rounding a rational gives the right whole number",
  "For every rational in bounds round yields a nearest whole number, and for non-negative rationals and whole numbers floor yields the largest whole number not above and ceil the smallest not below it; the result has denominator one.",
  ["inputs"], "every numerator and denominator within the stated bounds", "Off-by-one rounding errors depend on the remainder and the parity of the denominator.",
  [RL+"rat.rs"], [("Real for Rat", RL+"rat.rs")])

CP = "crates/compounds/src/"
p("C32", "Complex arithmetic obeys the complex field laws",
  "Complex sums, differences, products and scalings equal the defining formulas on real and imaginary parts for every operand; over an exact field the product is commutative, associative, distributive, and division inverts it for every non-zero divisor and panics for zero; the squared modulus is re*re + im*im and is multiplicative; zero/one queries and constructors agree with the parts.",
  ["inputs"], "all operand parts within the stated bounds", "Sign and cross-term mistakes cancel for most sampled operands (zero or equal parts).",
  [CP+"complex.rs"], [("Complex", CP+"complex.rs")])
p("C33", "Vector operations act component-wise on every component",
  "For every vector and every form (by value, by reference, scalar, assigning) arithmetic applies the scalar operation to each component in place, panicking exactly when a component does; checked operations are None exactly when a component overflows; sum, product, dot and cross product and squared distance equal their formulas; accessors and indices address exactly their component and an out-of-range index panics.",
  ["inputs"], "all components and indices within the stated bounds", "Twenty macro-generated operator forms times every overflow position.",
  [CP+"vector.rs"], [("Vector", CP+"vector.rs")])
p("C34", "Matrix algebra is exact for every shape",
  "For every shape in bounds matrix sums, differences and products, transposition, construction from rows and columns, row swaps, the diagonal, identity and zero matrices and their queries, equality and the conversion to DynMatrix are entry-wise what they denote; products are associative and distributive and the transpose reverses them.",
  ["inputs"], "all entries within the stated bounds, rectangular shapes included", "Row/column mix-ups are invisible on square or symmetric samples.",
  [CP+"matrix/static.rs", CP+"matrix/dynamic.rs"], [("Matrix", CP+"matrix/static.rs"), ("DynMatrix", CP+"matrix/dynamic.rs")])
p("C35", "Row reduction keeps the row space; determinants are exact",
  "Over an exact field, row_reduce of any matrix (static or dynamic, square or not) is in row echelon form and has the same solutions of A x = 0, and determinant equals the Leibniz formula, zero and permuted pivots included. Over floats too the entries below each pivot are exactly zero.",
  ["inputs"], "all matrices within the stated bounds", "Pivot selection depends on which entries are zero and on their order: thousands of cases already for 3x3.",
  [CP+"matrix/macros.rs", CP+"matrix/static.rs", CP+"matrix/dynamic.rs"], [("gauss_elim", CP+"matrix/macros.rs")])
p("C36", "Matrix indexing never leaves the matrix",
  "For every row and column index, indexing a matrix, dynamic matrix or a view of one addresses exactly that entry if it exists and panics otherwise, for reading and writing, in checked and release builds; a DynMatrix is only constructed if its data has exactly rows times columns entries. No memory outside the matrix is touched.",
  ["inputs"], "every index pair and size", "The views use raw pointers: one-past-the-end indices silently read foreign memory.",
  [CP+"matrix/refs.rs", CP+"matrix/dynamic.rs", CP+"matrix/static.rs"], [("MatrixRef, MatrixMut", CP+"matrix/refs.rs"), ("Index for DynMatrix", CP+"matrix/dynamic.rs")])
SI = "crates/static-iter/src/"
p("C37", "Static iterators yield every element once, in order, memory-safely",
  "For every array length in bounds, map, zip, enumerate, fold, zip_all and collect visit each element exactly once in index order; try_fold, any, all and collecting Options or Results stop at the first break and report it; owned elements are moved, never duplicated, dropped twice or read after a drop, and all are dropped when fully consumed.",
  ["inputs"], "all element values and every early-exit position for the stated lengths", "The iterators move values out of MaybeUninit storage with unsafe code: double drops do not fail a test.",
  [SI+"lib.rs", SI+"array.rs", SI+"adapter.rs", SI+"zip_all.rs"], [("StaticIter, FromStaticIter", SI+"lib.rs"), ("IntoIter", SI+"array.rs")])

p("C38", "Float casts and float rounding are right for every value",
  "FromSaturating from every primitive integer to f32 and f64 gives a float nearest to it; from every f32 and f64 to every primitive integer it gives 0 for NaN, the nearer bound of the integer type when the value is beyond it, and otherwise a whole value less than one away (the value itself if whole). Real::floor, ceil, round and trunc of finite floats are whole, leave whole values alone and are less than one away; for non-negative values floor and trunc go down, ceil up, fract is in [0, 1) and zero exactly for whole values, and round goes to the nearest whole value. BigInt::approx_float has the value's sign, is exact for values that f64 represents, within one part in 2^52 otherwise, infinite with the value's sign beyond f64's range, and never NaN.",
  ["inputs"], "every integer and every float bit pattern (approx_float: the stated shapes)", "Casts and rounding go wrong at single bit patterns (the largest value below a half, odd values near 2^52, bounds of the target type) that a test does not hit.",
  [T+"__impl.rs", T+"cast.rs", T+"class.rs", I+"big_int.rs"], [("saturating_as!, impl_float!", T+"__impl.rs"), ("FromSaturating", T+"cast.rs"), ("Real", T+"class.rs"), ("BigInt::approx_float", I+"big_int.rs")])
p("C39", "Float functions are the named functions, and lengths are Euclidean",
  "For f32 and f64, TrigOps::sin, cos and tan, Pow::pow, Real::log and Real::sqrt agree with the standard library's function of that name; csc, sec and cot are one over the sine, cosine and tangent; Real::root(x, n) is x to the power 1/n and cbrt that with n = 3. sqrt of a perfect square is exact, and Complex::abs and Vector::distance give the exact hypotenuse of scaled Pythagorean triangles in any orientation and position.",
  ["inputs"], "all mantissas of arguments in the stated ranges; all scales of the stated triangles", "A swapped or inverted function agrees with the right one at the few angles and bases a test tries.",
  [T+"__impl.rs", T+"ops.rs", T+"class.rs", CP+"complex.rs", CP+"vector.rs"], [("impl_float!", T+"__impl.rs"), ("TrigOps", T+"ops.rs"), ("Real::root, cbrt", T+"class.rs"), ("Complex::abs", CP+"complex.rs"), ("Vector::distance", CP+"vector.rs")])

p("C40", "The shared list loses nothing, duplicates nothing and is free of races",
  "For every history of pushes and reads of the append-only list behind the interner, from one thread or several, and for every interleaving: each push returns the list's length right after it, so that no two pushes get the same one; what was pushed stays at its position for good; len, is_empty, get, indexing and iteration all describe the same sequence, which only grows; get past the end is None; dropping the list drops every value exactly once; no two accesses of different threads race.",
  ["inputs", "schedules"], "every interleaving within the stated number of threads, operations and switches; every pushed value", "A lost or duplicated push needs another thread between two particular atomic operations; a data race on a weakly ordered load shows on no x86 test run.",
  [U+"linked.rs"], [("UnsyncLinked::push, tail, len, get, iter, Drop", U+"linked.rs")])
p("C41", "The wedge product of vectors is the bivector of their 2x2 minors",
  "For vectors a and b of n dimensions the wedge product has exactly n(n-1)/2 components, one for each pair of axes i < j in lexicographic order, and the component is a_i b_j - a_j b_i; the binomial coefficients that size it are exact.",
  ["inputs"], "every vector within the stated dimensions over the stated fields", "A swapped sign or an index off by one in the third or fourth dimension vanishes on the axis vectors a test uses.",
  [CP+"bivec.rs", CP+"vector.rs"], [("BiVector, choose_n", CP+"bivec.rs"), ("Vector::wedge", CP+"vector.rs")])
p("C42", "A random integer uses the generator's bytes, each once",
  "For every generator, the bytes of a random U or I drawn from the standard distribution or filled into a slice are bytes that the generator delivered for it, no two of them the same one and none of them fixed: over uniform bytes every value of the type is therefore equally likely.",
  ["inputs"], "every output of the generator; widths of 1 to 32 bytes", "A byte that is repeated, fixed or left over from before looks as random as any other in a test.",
  [I+"u/rand_impl.rs", I+"i/rand_impl.rs"], [("StandardUniform, Fill for U", I+"u/rand_impl.rs"), ("StandardUniform, Fill for I", I+"i/rand_impl.rs")])


FIX = [  # /repo commit subject (after "fix: ") -> property
 ("WrappingAdd for primitive", "C01"), ("checked shifts truncated", "C01"), ("gcd of signed", "C03"), ("Signed::is_positive", "C05"),
 ("saturating isize", "C02"), ("NonZero is_one", "C05"), ("slice comparison started", "C12"), ("element subtraction with a borrow", "C08"),
 ("bitwise subtraction with a borrow", "C08"), ("right shift by a whole element", "C11"), ("in-place right shift kept", "C11"),
 ("in-place right shift by the full", "C11"), ("wrapping shifts altered", "C11"), ("overflowing slice multiplication", "C09"),
 ("overflowing slice addition", "C08"), ("bitwise in-place addition", "C08"), ("BitIter length", "C07"), ("set_push dropped", "C07"),
 ("bitwise division panicked", "C10"), ("bitwise division by zero", "C10"), ("element division panicked", "C10"), ("element division by zero", "C10"),
 ("checked U to primitive", "C16"), ("truncating U to primitive", "C16"), ("checked primitive to U", "C16"), ("U zero to the power", "C14"),
 ("I::abs cleared", "C17"), ("I ordering", "C17"), ("I remainder", "C17"), ("BigInt ordering", "C23"), ("negating a zero BigInt", "C20"),
 ("BigInt remainder", "C22"), ("negative BigInts were all", "C25"), ("BigInt could not parse", "C25"), ("BigInt to signed", "C19"),
 ("comparing a BigInt with the minimum", "C23"), ("a negative BigInt compared", "C23"), ("truncating BigInt casts", "C19"),
 ("BigInt::approx_float", "C38"), ("reading a list's length", "C40"), ("binary text of fixed-point", "C29"), ("Debug of fixed-point", "C29"), ("row reduction of float", "C35"), ("list push returned", "C27"), ("interner added a second", "C26"), ("concurrent interner additions", "C27"),
 ("Fixed multiplication and", "C28"), ("Fixed::round always", "C29"), ("Rat was not reduced", "C30"), ("Rat with a negative", "C30"), ("Rat::ceil of", "C31"), ("Rat::round trunc", "C31"),
 ("Fixed Debug", "C29"), ("Fixed::round took", "C29"),
 ("row reduction of non-square", "C35"), ("matrix views could", "C36"), ("DynMatrix index accepted", "C36"), ("DynMatrix::new accepted", "C36"),
]
LEVEL = "model_checking"
TECH = "symbolic execution of the compiled code's LLVM IR, every assertion, panic and memory access decided by SMT (z3) over all inputs in bounds"
NOTE = ("Bounded: every execution of the real (compiled) code within the bounds in evidence is decided by the solver, counterexamples are replayed natively. "
        "Trusted: rustc's lowering to LLVM IR, the executor /verif/symex (cross-checked natively on sampled paths each run), z3. Outside the bounds nothing is claimed.")
CONC = {"C27": "symbolic execution of LLVM IR with the thread schedule as part of the search; assertions, races, deadlocks decided by SMT and happens-before per schedule"}
CONC["C40"] = CONC["C27"]
NA = []

def hook_commits():
    import subprocess
    o = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
    return [l.split()[0] for l in o.splitlines() if l.split(" ", 1)[1].startswith("hook: ")]

def main():
    ids = [x["id"] for x in P]
    have = [i for i in ids if os.path.exists(os.path.join(V, "harness/src", i.lower() + ".rs"))]
    missing = [f for x in P for f in x["anchors"]["files"] if not os.path.exists(os.path.join("/repo", f))]
    assert not missing, missing
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            if x["id"] in have or x["id"] in [n["property"] for n in NA]:
                f.write(json.dumps(x) + "\n")
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[
        dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
             evidence_file=f"evidence/{i}.json", technique=CONC.get(i, TECH), level=LEVEL, level_note=NOTE) for i in have],
        not_applicable=NA,
        hooks=dict(guard="--cfg verif_hooks", enable="check.py builds the IR of C40 and C41 with RUSTFLAGS=--cfg verif_hooks; everything else uses the public API only", source_commits=hook_commits()),
        notes="Two properties (C40, C41) reach private items through a guarded hook. See DESIGN.md.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
    kf = os.path.join(V, "known_findings.json")
    old = json.load(open(kf))["findings"] if os.path.exists(kf) else []
    out = [e for e in old if e.get("status") == "known"]
    for l in log:
        h, s = l.split(" ", 1)
        if s.startswith("fix: "):
            q = [pr for pre, pr in FIX if s[5:].startswith(pre)]
            assert len(q) == 1, (s, q)
            out.append(dict(property=q[0], status="fixed", commit=h, what=s[5:], line=f"fixed: property={q[0]} {h} {s[5:]}"))
    json.dump(dict(findings=out), open(kf, "w"), indent=1)
    print(len(have), "properties", len(out), "findings")
main()

def design():
    import re
    p_ = os.path.join(V, "DESIGN.md")
    s = open(p_).read()
    rows = []
    for x in P:
        f = os.path.join(V, "harness/src", x["id"].lower() + ".rs")
        if os.path.exists(f):
            doc = " ".join(l[3:].strip() for l in open(f) if l.startswith("//!"))
            doc = re.sub(r"^C\d+\.\s*(Bounds:\s*)?", "", doc)
            rows.append(f"- **{x['id']} {x['title']}**. Bounds and oracle: {doc}")
    sd = os.path.join(V, "seeded")
    res = json.load(open(os.path.join(V, "tools/seeded_results.json"))) if os.path.exists(os.path.join(V, "tools/seeded_results.json")) else {}
    bugs = []
    for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        bugs.append(f"- `{d}` ({m['property']}): {m['what_it_breaks']} {res.get(d, '')}")
    def put(s, tag, lines):
        a, b = f"<!--{tag}-->", f"<!--/{tag}-->"
        body = a + "\n" + "\n".join(lines) + "\n" + b
        if a in s:
            return s[:s.index(a)] + body + s[s.index(b) + len(b):]
        return s.replace("@" + tag + "@", body)
    s = put(s, "TABLE", rows)
    s = put(s, "SEEDED", bugs)
    open(p_, "w").write(s)
design()
