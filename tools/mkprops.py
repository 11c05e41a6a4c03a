#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the list stays readable)."""
import json, os

B = "succinct_neo/src/bit_vec/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a))


p("C01", "A bit reads back what was last written, and no write touches another bit",
  "Every bit of a bit vector, word slice or primitive integer reads as the value last set (or toggled) at that position, and as its initial value (zero for a new bit vector) if it was never written. Setting or flipping one position changes that position only, in this object only. The length never changes.",
  ["histories", "inputs"],
  "every length (in particular around multiples of the word size), every position, every sequence of sets, flips and reads, for every kind of bit storage",
  "Existing tests use two fixed lengths and one write pattern (every third bit), written once and read once; they never interleave overwrites, clears and toggles and never look at untouched neighbours.",
  [B + "mod.rs", B + "backing.rs", B + "slice/trait_impls.rs"],
  [("bit addressing in word slices", B + "backing.rs"), ("primitive bit operations", B + "backing.rs")],
  ["bits of the vector", "length"], ["get/set/flip on the public types"])

p("C02", "A view is exactly the chosen range of its parent, at any nesting",
  "A slice, a half of a split, or an explicitly constructed view shows exactly the bits of the chosen range: index i of the view is index start+i of its parent, and its length is the length of the range. This holds for all forms of range bounds and for views of views of views. Writes through a mutable view appear at exactly the corresponding position of the root object and nowhere else.",
  ["histories", "inputs", "programs"],
  "all valid ranges in all bound forms (inclusive, exclusive, unbounded on either side), all split points, all compositions of slicing and splitting, all writes in between",
  "Tests open one view of a fixed vector at a time with hand-picked ranges and never compose views on views with writes at each level.",
  [B + "slice/slicing.rs", B + "slice/mod.rs", B + "slice/trait_impls.rs"],
  [("range to window translation", B + "slice/slicing.rs"), ("split", B + "slice/mod.rs")],
  ["start and end of the view", "bits of the root object"], ["reads through the view and through the root"])

p("C03", "Invalid bit accesses and ranges panic and change nothing; valid ones never panic",
  "Through the safe interface, reading, setting or flipping a position outside a bit vector, view, word slice or primitive integer panics, as does creating a slice, split or view with reversed, overflowing or out-of-range bounds. A rejected call leaves every bit and every length as it was, and memory outside the object is never read or written. Every call with valid arguments succeeds; all of this holds with and without debug assertions and overflow checks.",
  ["inputs", "histories", "configurations"],
  "all positions and bounds including those near the maximum machine integer, on roots and on nested views, in development and optimised builds",
  "Tests check a handful of out-of-range positions in the debug profile only, never arithmetic overflow in bounds, never that a rejected call has no effect, never the optimised build.",
  [B + "mod.rs", B + "backing.rs", B + "slice/mod.rs", B + "slice/slicing.rs", B + "slice/trait_impls.rs"],
  [("bounds checks", B + "slice/trait_impls.rs"), ("range validation", B + "slice/slicing.rs"), ("view construction", B + "slice/mod.rs")],
  ["bits and lengths before and after the rejected call"], ["panic or return of each call"])

p("C04", "Iterators yield every element once, in order, and report what is left exactly",
  "Every iterator over a bit vector, view or integer vector yields the elements in index order, each exactly once, and then keeps returning nothing. At every moment its reported length and both size-hint bounds equal the number of elements still to come. Skipping, counting, taking the last element and collecting agree with calling next repeatedly, for borrowing and consuming iterators alike.",
  ["histories", "inputs"],
  "all contents, all windows, all integer widths, every partial consumption by any mix of iterator methods before the query",
  "Tests run each iterator from start to end once and check its length only before the first element; size hints of partially consumed iterators and calls after the end are not checked.",
  [B + "slice/trait_impls.rs", B + "slice/mod.rs", B + "mod.rs", "succinct_neo/src/int_vec/mod.rs"],
  [("bit iterator", B + "slice/trait_impls.rs"), ("integer iterators", "succinct_neo/src/int_vec/mod.rs")],
  ["iterator position and end"], ["results of iterator methods"])

p("C05", "Views are equal exactly when they hold the same bits in the same order",
  "Two views compare equal if and only if they have the same length and the same bit at each index. Where they start, what surrounds them, how their storage is typed and whether they are mutable plays no role. Equality is reflexive and symmetric and inequality is its negation.",
  ["inputs", "programs"],
  "all pairs of views with any offsets and lengths over any pair of storage types",
  "One test compares a few slices of the same offset; unaligned offsets, differing lengths with a common prefix, last-bit differences and mixed storage are not covered.",
  [B + "slice/trait_impls.rs"], [("equality of views", B + "slice/trait_impls.rs")],
  ["both views"], ["==, != in both directions"])

p("C06", "Bits lie in words from the lowest bit upwards and padding stays zero",
  "The exposed words of a bit vector are exactly as many as its length needs, bit i of the vector is bit i mod 64 (counted from the least significant) of word i div 64, and bits beyond the length are zero whatever has been done to the vector. The same order holds for word slices and for primitive integers, so that their numeric value is determined by their bits. All ways to obtain the words agree.",
  ["histories", "inputs"],
  "all lengths, contents and histories of writes (through vector and views, checked and unchecked within contract)",
  "Tests never look at the numeric value of the words after writes; a storage order that is consistently wrong for both reading and writing passes all of them.",
  [B + "mod.rs", B + "backing.rs"], [("word addressing", B + "backing.rs"), ("allocation", B + "mod.rs")],
  ["exposed words"], ["raw words, reference conversions, numeric value of primitives"])

p("C07", "An integer vector is a sequence: what is pushed or set is what is read back",
  "For every width from 1 to 64 bits, an integer vector behaves as a growable sequence: pushing appends, setting replaces exactly one element, and reading returns what was last stored at that index. No operation changes any other element, whether or not elements cross word boundaries. The initial capacity, including zero, and growth past it have no observable effect.",
  ["histories", "inputs", "configurations"],
  "all widths, all capacities, all values of the width including all-ones and zero, all sequences of pushes and sets",
  "Tests use widths 4, 7, 8, 12, 23 with small increasing values and at most 50 elements; few elements straddle words with high bits set, and overwriting with smaller values is hardly covered.",
  ["succinct_neo/src/int_vec/mod.rs", "succinct_neo/src/int_vec/traits.rs"],
  [("packing of elements across words", "succinct_neo/src/int_vec/mod.rs")],
  ["elements", "number of elements"], ["get, iterators"])

p("C08", "Integer vectors reject bad widths, indices and values without any effect",
  "Pushing or setting a value that needs more bits than the width panics, as does reading or setting at an index not below the number of elements, and creating a vector with width zero or above 64. The vector is unchanged afterwards: same elements, same count, same words. Every value that fits the width and every existing index is accepted, in every build profile.",
  ["inputs", "histories", "configurations"],
  "all widths, the largest fitting and the smallest non-fitting value, indices at and past the end up to the machine maximum, at any fill level",
  "Tests try one huge value at width 7 and index 10 of an empty vector; the boundary value 2^w, indices near the end and the state after the rejected call are not checked.",
  ["succinct_neo/src/int_vec/mod.rs"], [("value and index checks", "succinct_neo/src/int_vec/mod.rs")],
  ["elements before and after"], ["panic or return of push, set, get, constructors"])

p("C09", "Integers are packed without gaps, lowest bits first",
  "Element i of an integer vector of width w occupies the bits i*w up to (i+1)*w of the exposed words read as one little-endian bit string, least significant bit first. Bits beyond the last element are zero. The number of words is one more than the number of words completely filled.",
  ["histories", "inputs"],
  "all widths, values and histories of pushes and sets",
  "One assertion looks at a single word of a width-4 vector; straddling elements, overwritten elements and trailing bits are never inspected.",
  ["succinct_neo/src/int_vec/mod.rs"], [("packing", "succinct_neo/src/int_vec/mod.rs")],
  ["exposed words"], ["raw words"])

p("C10", "Rank counts the ones (or zeros) strictly before a position, at every position",
  "For every bit vector and every position from 0 to its length inclusive, the rank query returns the exact number of one-bits, respectively zero-bits, at smaller positions, and positions beyond the length are rejected by a panic. Static and dynamic choice of the counted bit agree, every selection strategy parameter gives the same ranks, and the structure reports the vector's length. Queries never read memory outside the vector and the index.",
  ["inputs"],
  "all vectors: every length relative to the word, 512-bit and 4096-bit block sizes, every density up to all ones, every position",
  "One test on a single periodic vector of 10000 bits that never has an all-ones block nor a length that is a multiple of a block size, and never queries the position equal to the length.",
  ["succinct_neo/src/rank_select/flat_popcount/mod.rs", "succinct_neo/src/rank_select/traits.rs"],
  [("two-level counts", "succinct_neo/src/rank_select/flat_popcount/mod.rs")],
  ["the indexed bit vector"], ["rank, rank_dyn, len, is_empty"])

p("C11", "Select finds the position of every one-bit and nothing else",
  "Selecting k (counted from zero) returns the position of the one-bit that has exactly k one-bits before it, and nothing if the vector has at most k one-bits. Selecting and ranking are inverse to each other. This holds for every vector and every selection strategy, and no query reads outside the vector and the index.",
  ["inputs", "configurations"],
  "all vectors: sparse ones thousands of blocks apart, dense runs, ones only at block boundaries, more than 8192 ones per sample; all k up to the machine maximum; all strategies",
  "Select was neither exported nor working at the end of the vector; its test uses one alternating vector with one strategy and skips k=0.",
  ["succinct_neo/src/rank_select/flat_popcount/mod.rs", "succinct_neo/src/rank_select/flat_popcount/strats.rs"],
  [("sampled ones and block search", "succinct_neo/src/rank_select/flat_popcount/mod.rs")],
  ["the indexed bit vector"], ["select"])

p("C12", "All block search strategies give the same, correct block for every index entry",
  "Given seven non-decreasing 12-bit prefix counts and a searched rank below 4096, every search strategy returns the number of prefix counts that do not exceed the rank, together with the last such count (zero if there is none). The upper bits of the entry have no influence. The linear, binary and vectorised strategies therefore always agree.",
  ["inputs", "configurations"],
  "all non-decreasing entries including repeated and all-ones counts, all ranks from 0 to 4095, any upper bits, builds with and without vector instructions",
  "Three fixed entries are tested; the vectorised strategy is not even compiled in the default test build.",
  ["succinct_neo/src/rank_select/flat_popcount/strats.rs"],
  [("linear, binary and vectorised search", "succinct_neo/src/rank_select/flat_popcount/strats.rs")],
  ["index entry"], ["find_l2 of each strategy"])

p("C13", "Memory use stays succinct",
  "A bit vector of n bits holds one heap allocation of exactly ceil(n/64) words. An integer vector never exposes more words than needed for its elements plus one, the memory it holds is at most about twice what its elements or its requested capacity need, and filling it up to the requested capacity reallocates at most once. The rank/select structure adds less than 4 percent of the vector's size plus a small constant.",
  ["inputs", "histories"],
  "all lengths, widths, capacities and densities",
  "No test measures memory.",
  [B + "mod.rs", "succinct_neo/src/int_vec/mod.rs", "succinct_neo/src/rank_select/flat_popcount/mod.rs"],
  [("allocation sizes", B + "mod.rs"), ("index size", "succinct_neo/src/rank_select/flat_popcount/mod.rs")],
  ["bytes allocated"], ["a counting allocator"])

p("C14", "The two mutable halves of a split never disturb each other",
  "After splitting mutably, any interleaving of reads and writes on the two halves, in one thread or in two, gives the same result as performing them on two separate copies and joining these: each half sees only its own writes, and afterwards the parent holds both halves' writes. Positions outside the two halves are untouched.",
  ["schedules", "histories"],
  "all split points including those inside a word, all interleavings of operations of both halves, sequentially and on two threads",
  "Tests only read the halves and compare them, they never write through both; no test uses threads.",
  [B + "slice/mod.rs", B + "backing.rs"], [("mutable split", B + "slice/mod.rs"), ("read-modify-write of words", B + "backing.rs")],
  ["bits of the parent"], ["reads through halves and parent"])

p("C15", "A clone is equal to its original and independent of it",
  "A cloned bit vector has the same length, bits and words as the original at the time of cloning. Writes to either one, through any view, never show in the other. Clones of clones and clones that outlive the original behave alike.",
  ["histories"],
  "all sequences of clones, writes on any copy and drops",
  "One test clones a vector and compares views once, without writing to either afterwards.",
  [B + "mod.rs", B + "slice/mod.rs"], [("derived clone", B + "mod.rs")],
  ["bits of all copies"], ["reads, words and equality of all copies"])

p("C16", "References, boxes, shared pointers and trait objects act like what they wrap",
  "Reading, setting and flipping bits through shared and mutable references, boxes, reference-counted pointers and trait objects, nested in any way, has exactly the result and effect of the same operation on the wrapped object, including rejection of invalid positions. This also holds for views whose storage is such a wrapper.",
  ["programs", "inputs"],
  "all wrapper types and their compositions over all storage types, all operations, valid and invalid positions",
  "No test goes through a reference, box, shared pointer or trait object explicitly.",
  [B + "traits.rs"], [("forwarding implementations", B + "traits.rs")],
  ["bits of the wrapped object"], ["operations through the wrappers"])

p("C17", "Unchecked operations equal the checked ones wherever their contract holds",
  "Within their documented contract (position in bounds, range valid, value fitting) the unchecked variants of reading, setting, flipping and slicing return the same and have the same effect as the checked ones, on bit vectors, views, word slices, primitive integers and integer vectors. They never panic or abort there, in any build profile.",
  ["inputs", "histories", "configurations"],
  "all in-contract arguments on every type, any mix of checked and unchecked calls",
  "Unchecked variants are only exercised indirectly through the checked ones; unchecked slicing is never called.",
  [B + "traits.rs", B + "backing.rs", B + "slice/mod.rs", B + "slice/slicing.rs", "succinct_neo/src/int_vec/mod.rs"],
  [("unchecked accessors", B + "slice/mod.rs"), ("unchecked slicing", B + "slice/slicing.rs"), ("unchecked integer access", "succinct_neo/src/int_vec/mod.rs")],
  ["bits, elements"], ["unchecked and checked calls side by side"])

p("C18", "Queries are pure: any number of readers, in any order, get the same answers",
  "Rank, select, reads, iteration, comparison and formatting never change what they are asked about, so repeating or reordering queries or issuing them from several threads at once on shared objects gives the same answers as a single reader. Building a rank/select structure does not modify the vector, and two structures built from equal vectors answer equally whatever history produced the vectors.",
  ["schedules", "histories"],
  "all query sequences, all interleavings of up to several concurrent readers, all histories leading to the same contents",
  "Tests are single threaded and ask every query once in ascending order.",
  [B + "mod.rs", "succinct_neo/src/rank_select/flat_popcount/mod.rs", "succinct_neo/src/int_vec/mod.rs"],
  [("shared queries", "succinct_neo/src/rank_select/flat_popcount/mod.rs")],
  ["contents before and after queries"], ["answers of several readers"])

p("C19", "The debug rendering of a bit vector lists its bits in index order",
  "Formatting a bit vector for debugging gives an opening brace, the bits as 0 or 1 in index order separated by a comma and a space, and a closing brace. Exactly as many bits are shown as the vector has, an empty vector gives an empty pair of braces.",
  ["inputs", "histories"],
  "all lengths, contents and histories",
  "A test prints the rendering without checking it.",
  [B + "mod.rs"], [("debug formatting", B + "mod.rs")], ["bits"], ["formatted text"])

p("C20", "The coverage task runs stages in order, stops on failure, deletes only profiles",
  "The coverage task runs the instrumented tests, then produces the report in the requested format, then cleans up; if a stage fails, later stages do not run and the task fails. The single-stage tasks run just their stage and unknown tasks do nothing. Cleaning deletes all raw profile files below the current directory and no other file.",
  ["fault_sequences", "inputs"],
  "every stage failing or succeeding, every task and format argument, any directory contents",
  "The task runner has no tests.",
  ["xtask/src/main.rs"], [("stage sequence", "xtask/src/main.rs"), ("profile clean-up", "xtask/src/main.rs")],
  ["files below the working directory"], ["invoked programs, exit status, remaining files"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
