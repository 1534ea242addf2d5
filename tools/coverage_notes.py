#!/usr/bin/env python3
"""Writes tools/coverage_notes.json: technique, bounds and assumptions of every check"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
REF = "the reference integers (harness/src/refint.rs), which share no code with the library"
OUT = "values outside the stated alphabets are not covered"
ENUM = "exhaustive bounded enumeration of inputs on the real code against a reference model"
HIST = "explicit-state exploration of every operation history to a depth, on the real code against a reference model"
N = {}
def add(i, technique, bounds, *assume):
    N[i] = {"technique": technique, "bounds": bounds, "assumptions": list(assume)}

add("C01", ENUM + "; breadth-first exploration of operation chains",
    "Every ordered pair of ~650 (thorough ~2400) signed values: all one- and two-word sequences over 16 boundary words, three- and four-word sequences over 3-7, patterns up to 17 (33) words; every operand form on the small set, every primitive type's edges on the right; every chain of up to 3 (4) of 30 operations. Every word count 1-40 and boundaries to 257 in four patterns, paired with each other count; values of 512 to 1100 (2049) words, past 2^16 bits. Small values that equal store indices against stored ones. Debug-assertion and release builds.", REF, OUT)
add("C02", ENUM,
    "Every ordered pair of the division alphabet (all relative lengths 0-17 words), dividends around multiples of divisors, every pair of small values, powers of two, every operand form, primitive divisors, division by zero panics. Every word count 1-40 and boundaries to 257 in four patterns, paired with each other count; values of 512 to 1100 (2049) words, past 2^16 bits. Small values that equal store indices against stored ones. Both builds.", REF, OUT)
add("C03", ENUM, "Every ordered pair of the operand alphabet by == < <= > >= cmp min max; pairs that differ in one word at every position; the same value made by different operations and after storage reuse; zero from every operation; every primitive type's edges. Every word count 1-40 and boundaries to 257 in four patterns, paired with each other count; values of 512 to 1100 (2049) words, past 2^16 bits. Small values that equal store indices against stored ones. Both builds.", REF, OUT)
add("C04", ENUM, "Display, Debug, {:b}, {:x}, {:X} and parsing back over the alphabet, every value up to a bound, powers of ten; every radix 2-36; every string up to length 3 (4) over a mixed alphabet; every character; radix above 36. Numerals of every length to 260 (1000) characters in 12 radices, a wrong character at every place of numerals of up to 70 (140) and 200 characters. Word counts to 40 in four patterns. Both builds.", REF, OUT)
add("C05", ENUM, "Every 8- and 16-bit primitive value, edges of the wide ones; every BigInt within a distance of every bound of every type; all conversions (TryFrom, checked, saturating, truncating); float approximation by exact rational comparison. Every word count to 40 and boundaries to 66. Both builds.", REF, OUT)
add("C06", ENUM, "Every value of the alphabet shifted by every distance to 200 (400) and large ones, in every distance type and form; every pair under & | ^, every pair of small values; powers with exponents to a bound; every power to 300 and larger ones of every base from -12 to 12, to 2^16 of 2 and to 2^20 of -1, 0 and 1. Every word count 1-40 and boundaries to 257 in four patterns, paired with each other count; values of 512 to 1100 (2049) words, past 2^16 bits. Small values that equal store indices against stored ones. Both builds.", REF, OUT)
add("C07", HIST, "Every history of create/clone/move/negate/overwrite/drop on two and three handles to a depth over multi-word values that share storage; up to 70 live values with every one and every pair replaced; thousands of live values (8225) with slots all over the store replaced; storage growth after repeated churn, measured through a counting allocator. Small values that equal store indices against stored ones. Both builds.", "the storage shared by all BigInts is process-wide, so histories run after each other on one store", OUT)
add("C08", HIST, "Every history of add/incr/decr/get/try_get/refcount over 3 values to a depth, breadth-first over reachable model states to a deeper one, the same on a store prefilled past one and two blocks, all slots reused, everything dead then refilled. Values are dropped exactly once. Stores of up to 8225 (16385) entries; counts to thousands. Both builds.", "one thread (threads are C09)", OUT)
add("C11", ENUM, "U<1>: every pair of values; U<2>: every value with an alphabet; U<3..33>: every pair of a byte-pattern alphabet (runs of ones, single bits, powers of ten, dense); checked, saturating, wrapping, plain operators, pow and iterator products; panics as stated per build. Fewer values of 21 more widths to 65 bytes and of some to 257. Both builds.", REF, OUT)
add("C12", ENUM, "As C11, with every shift distance from 0 to beyond the width, as usize and as U<N> (also beyond usize). Fewer values of 21 more widths to 65 bytes and of some to 257. Both builds.", REF, OUT)
add("C13", ENUM, "Every one- and two-byte value and the byte-pattern alphabet of 1-33 bytes against every unsigned primitive; every primitive edge into every width; bytes in all orders; decimal text. Fewer values of 21 more widths to 65 bytes and of some to 257. Both builds.", REF, OUT)
add("C14", ENUM, "As C11 for I<N>, in two's complement, including MIN / -1. Fewer values of 21 more widths to 65 bytes and of some to 257. Both builds.", REF, "an I<N> is laid out as N bytes, which is how the harness builds and reads one", OUT)
add("C15", ENUM, "u8, u16, u32, u64, u128, usize digits; lengths 1-5 against 1-5 (unequal included), digits over a boundary alphabet, every pair of single u8 digits and every two-digit u8 slice; growing, overflowing, checked and wrapping variants, element-wise and bit-wise; every shift distance in range. Every length 1-20 and boundaries to 66 paired; lengths to 300 and past 2^16 bits. Both builds.", REF, OUT)
add("C16", HIST, "Every slice over an alphabet to length 4, every index inside and past the end, every history of two sets, growing setters at every index to a bound, every interleaving of front iteration with len; digit splitting and joining between every pair of types. Slices to 257 digits and far growth. Both builds.", REF, OUT)
add("C17", ENUM, "Fixed over i8/u8 with every precision and every pair of raw values; edges for i16 to i128, U<N> of 1 to 33 bytes, and BigInt. Both builds.", REF, OUT)
add("C18", ENUM + "; histories of operations", "Every numerator/denominator of Rat<i8> and pairs of small ones, edges of wider types, every chain of operations to a depth. Identities and bounds of every type. Both builds.", REF, OUT)
add("C19", ENUM, "Every pair of 8-bit values, and edges of the other ten integer types; every triple of u8 for the widening multiply-add; pow and factorial to overflow; gcd; NonZero and float identities. Both builds.", REF, OUT)
add("C20", ENUM, "Every 8- and 16-bit value into every other integer type; every bound of every type to within a distance; float edges and neighbours of every integer bound. Thorough: every f32. Both builds.", REF, OUT)
add("C21", HIST, "Arrays of length 0-8 of plain, owned-and-counted and zero-sized elements through every chain of up to two adapters and every consumer, with every stopping point; each element is tracked through yield and drop. Fewer chains for 23 lengths to 257. Both builds.", "elements left in an iterator that is abandoned early may leak; only double yields and drops are violations", OUT)
add("C22", ENUM, "Every 2x2 pair over GF(3), every matrix over GF(2)/GF(3)/GF(5) of small shapes, larger shapes over structured entries, exact rationals; row space compared through the unique reduced form; determinant against cofactor expansion. Shapes to 17x17 and 2x257 over GF(10007). Both builds.", "the exact fields of harness/src/field.rs", OUT)
add("C23", ENUM, "Every shape to 4x4, some longer, and some of up to 17x16, 1x257 and 257x1, every index inside, just outside, and those whose flat position wraps around; static, dynamic and both kinds of view. Both builds.", OUT)
add("C24", "symbolic-free-algebra enumeration of operator forms; exhaustive enumeration over finite fields", "Each of the 40 operator forms in dimensions 0-17, 32, 33, 65, 128, 257 over free expressions (so for all component values at once); every pair of vectors over GF(11)^2, GF(5)^3, GF(3)^5, rationals, floats; unit vectors, ramps and constants of dimensions to 65 (257); every i8/u8 pair for the checked forms; every pair of complex numbers over GF(3), GF(7), GF(11). Both builds.", "the exact fields of harness/src/field.rs", "components are used only through their trait operations (generic code)", OUT)
add("C25", ENUM, "Every one- and two-byte pattern; for wider types every pattern that differs from a filler in up to two (three) bytes; F<N> for 26 widths to 257, all 14 primitive types, methods the trait provides. Both builds.", "the target is the little-endian one of this sandbox", OUT)
add("C26", ENUM, "f32 and f64: every sign and exponent with boundary mantissas, every multiple of 1/16 in [-600, 600] and its neighbours; release build (thorough: both): every one of the 2^32 f32 patterns for rounding and sign; roots decided by exact integer powers; whole degrees and every exponent for trigonometry; powers, logarithms and roots over a base grid times 54 exponents; complex magnitudes and vector distances over a grid; the provided roots on a type that defines only pow. Both builds.", "transcendental functions are compared with the system's f64 ones (1e-12 for f64, 2e-5 for f32, relative)", "NaN and infinite arguments are not covered")
add("C27", "exhaustive bounded enumeration of generator outputs on the real code; what is drawn must be an affine function of them of full rank over GF(2)", "U<N> and I<N> for 18 (thorough 24) widths to 65 (129) bytes, drawn and filled, once and twice in a row, from a scripted generator: every output with one bit set, every pair of bits (every fifth with ten others where more than 512 bits are used), dense outputs; one-byte values from every pair of bytes at every pair of places, counted; filling over every constant old content. Both builds.", "that every generator output beyond those enumerated follows the same affine map", OUT)
SCHED = "systematic exploration of thread interleavings and weak-memory reads of the real code (stateless search with replay, bounded preemptions and stale reads)"
MEM = "the memory model of mcharness/src/mc.rs: C++20 release/acquire/fences/release sequences with per-location store histories, modification order in execution order, no load buffering, SeqCst taken as stronger than it is; validated on every run by 24 litmus programs"
add("C09", SCHED,
    "Every program of 2 threads x 1-2 (thorough 3) operations, 3 against 1, 3 threads x 1 (2), 4 threads x 1, out of add A, add B, incr, decr (first or last handle), get with the reference kept, refcount, surplus decr (mixed with adds, against every serial order), incr of a dead entry, looking at an entry while it is added; from 11 starting states (empty, preallocated, held by each or by main, dead slot, 31/32/33 live entries); the block list alone likewise. All schedules with up to 2-6 preemptions and 1-3 stale reads or spurious failures; switches at blocking or ending threads are free. Data races (vector clocks on slot values and on allocation), use after free, deadlock, non-termination are violations.", MEM, "scheduling points are the atomic operations on locations that more than one thread uses and one writes, found by fixpoint", "more threads, operations or preemptions are not covered")
add("C10", SCHED,
    "Every program of 2 threads x 1-2 (thorough 3 against 1) operations and 3 threads x 1 out of 15 BigInt operations (create, clone, drop, overwrite, add, subtract, multiply, negate, compare, read; shared or own), from 5 starting states; all schedules with up to 2-4 (6) preemptions and 1-3 stale reads. Each thread must see exactly what the same program sees alone.", MEM, "a value is read through approx_float, which looks at the store once; the values used are told apart by it", "more threads, operations or preemptions are not covered")
json.dump(N, open(H + "/coverage_notes.json", "w"), indent=1)
