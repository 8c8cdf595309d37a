"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json (tools/gen.py writes both)."""
P = {}
NA = {}
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level="proof"):
    P[id] = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, level=level)
AI = "static analysis: interprocedural abstract interpretation (linear-inequality/polyhedral domain with symbolic memory blocks) of the clang-resolved LLVM IR of the current sources, on arbitrary inputs"
prop("S01", "String views stay inside the viewed text and search results are correct",
 "Every operation of the string view class on a text of any length reads only characters of the views it was given, and every view or position it returns denotes a part of (or position in) that text; a sub-view starts at the requested position and has the requested length clipped to the end. Searches return the first (reverse searches: the last) position with the requested character or character-set property, and \"not found\" only if there is none; comparisons report a difference between texts that differ in any character or in length. Positions beyond the end are reported by an out_of_range exception where documented and never terminate the program.",
 ["inputs"], "all texts, lengths up to the address space, positions, counts (including npos) and needle sets",
 "Tests sample a few literal texts and positions; wrap-around of pos+n, empty views, positions at the end and needles longer than the text need all values.",
 ["include/gul14/string_view.h"], [{"name": "basic_string_view members", "where": "include/gul14/string_view.h"}], AI,
 "All members on a view of symbolic length; one arbitrary tracked character per direction of each search claim.")
prop("S02", "Trimming returns exactly the text without outer whitespace",
 "Trimming a text on the left, on the right or on both sides, with any set of whitespace characters, returns a contiguous part of the original text. The result neither starts (left) nor ends (right) with a whitespace character, and no non-whitespace character of the text is ever removed.",
 ["inputs"], "all texts and all whitespace sets, for views and for owning copies",
 "Tests use a dozen literals; all-whitespace texts, NUL bytes, bytes above 127 and arbitrary lengths are not reached.",
 ["include/gul14/trim.h", "src/trim.cc"], [{"name": "trim family", "where": "include/gul14/trim.h"}], AI,
 "Part-of-input, clean ends and keeps-non-whitespace for an arbitrary tracked character, any length.")
prop("S03", "ASCII case conversion maps letters only, independent of locale",
 "Converting a text to lower or upper case, by copy or in place, keeps its length and maps every character independently of all others and of the locale: letters A-Z/a-z to their counterpart, every other byte (including bytes above 127) to itself.",
 ["inputs"], "all texts of any length, every position, all 256 byte values",
 "256 byte values times every position times every length cannot be sampled; tests check a few sentences.",
 ["include/gul14/case_ascii.h", "src/case_ascii.cc"], [{"name": "case conversion", "where": "src/case_ascii.cc"}], AI,
 "Exact mapping of an arbitrary tracked character at an arbitrary position.")
prop("S04", "Containment, prefix and suffix predicates are decided by every character",
 "The contains, starts-with, ends-with and equality predicates and their case-insensitive variants read only the two texts and never throw. A longer text is never a part of a shorter one, the empty text is a part of every text, a single differing character at any compared position makes prefix, suffix and equality predicates false, a character is contained exactly if it occurs, and case-insensitive variants identify exactly the ASCII letters of different case.",
 ["inputs"], "all pairs of texts and characters, all positions of a difference",
 "Tests compare a handful of literals; a mismatch ignored at one position or length would pass.",
 ["include/gul14/substring_checks.h", "include/gul14/case_ascii.h", "src/case_ascii.cc"], [{"name": "substring predicates", "where": "include/gul14/substring_checks.h"}], AI,
 "Decisive-difference claims for arbitrary positions; exact results for one-character texts over all byte pairs.")
prop("S05", "Concatenating, joining, repeating and replacing keep every character in place",
 "Concatenating or joining texts yields a text whose length is the sum of the pieces (plus glue) and in which every character of every piece and of the glue appears at its proper position; repeating yields the text n times. Replacing an empty needle or one that does not occur changes nothing, replacing one character by another changes exactly its occurrences, and building a string from a possibly null pointer with a length limit never reads beyond the limit, stops at the first NUL and copies everything before it. None of these operations accesses memory outside its arguments or leaks memory, whatever the lengths and even if allocation fails.",
 ["inputs", "fault_sequences"], "all texts, counts and limits; allocation failure at every allocation",
 "Tests use short literals; empty pieces, long pieces, counts near overflow, missing NUL terminators and allocation failures are not exercised.",
 ["include/gul14/cat.h", "src/cat.cc", "include/gul14/join_split.h", "include/gul14/replace.h", "src/replace.cc", "src/string_util.cc"], [{"name": "cat/join/repeat/replace/safe_string", "where": "src/cat.cc, src/replace.cc, src/string_util.cc, include/gul14/join_split.h"}], AI,
 "Length and one arbitrary tracked character of each piece; 1 to 4 pieces for concatenation, 1 to 2 for exact join contents, any number for memory safety.")
prop("C01", "SmallVector never corrupts memory or element lifetimes",
 "Whatever the current size and capacity of a SmallVector, and whether its elements live inside the object or on the heap, every operation (construction, assignment, push/emplace/insert/erase/resize/reserve/shrink/swap/clear, element access) touches only the vector's current storage; every element is constructed exactly once before use, never used or overwritten by construction while alive or after destruction, and destroyed exactly once; allocated storage is released exactly once, with nothing left behind. After each operation the size is exactly what was requested and never exceeds the capacity, the position returned by insert, emplace and erase is right, and checked access reports out-of-range indices by an exception. This also holds when an argument refers to one of the vector's own elements, and when memory allocation fails (except in copying of nothrow-copyable elements, which terminates by declaration).",
 ["inputs", "histories", "fault_sequences"], "all vector sizes and capacities (inline or allocated), all positions, counts and ranges, any allocation failing",
 "Tests use small fixed sizes; growth boundaries, element counts near the 32-bit limit, self-referencing arguments and allocation failures are not enumerated.",
 ["include/gul14/SmallVector.h"], [{"name": "SmallVector", "where": "include/gul14/SmallVector.h"}], AI + "; typestate of an arbitrary element position",
 "Every public operation from an arbitrary state, one operation at a time (states are built by reserve and emplace_back); inner capacity 4; lifetimes tracked at one arbitrary position per storage block.")
prop("C02", "SmallVector survives exceptions thrown by its elements",
 "If constructing, copying, moving or assigning an element throws at any point during any SmallVector operation, no element or storage is leaked, destroyed twice or used while not alive: the exception propagates, the vector remains in a consistent state (size within capacity, exactly its elements alive), and it can be destroyed normally.",
 ["fault_sequences", "inputs"], "every element operation of every container operation may throw, for all sizes, positions and counts",
 "Tests never make an element throw in the middle of an operation; there are as many fault points as element operations.",
 ["include/gul14/SmallVector.h"], [{"name": "SmallVector", "where": "include/gul14/SmallVector.h"}], AI + "; typestate of an arbitrary element position along all exceptional paths",
 "Construction, copying, assignment and (in a second and third instantiation, one of them move-only) moving throw nondeterministically at every occurrence.")
prop("C03", "SmallVector keeps every element at its place",
 "After any SmallVector operation the vector contains exactly the elements that the corresponding operation of a standard sequence would produce, in the same order: elements before the affected position are unchanged, elements behind it are shifted by exactly the number of elements inserted or removed, new elements have the requested values, copies and moved-to vectors contain the elements of the source, swapping exchanges the contents, and two vectors that differ in any element compare unequal. This holds for every size, position and count, for elements stored inside the object or on the heap, across growth and shrinking, even when moved-from elements take arbitrary values.",
 ["inputs", "histories"], "all vector sizes, positions, counts and element values; every pairing of inline and allocated storage",
 "Tests check short literal sequences; an element lost, duplicated or overwritten only at a particular growth boundary, position or size passes them.",
 ["include/gul14/SmallVector.h"], [{"name": "SmallVector", "where": "include/gul14/SmallVector.h"}], AI + "; one remembered element at an arbitrary position",
 "One remembered element at an arbitrary position per claim; for insertions of n elements into allocated storage the old size is 5 (full or with room), otherwise every size.")
