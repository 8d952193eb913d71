INTS="I8, I16, I32, I64, ISize, U8, U16, U32, U64, USize"
p("C01","Checked integer arithmetic is exact or None",
  "For every pair of operands of each fixed-width and pointer-sized integer type, CheckedAdd, CheckedSub and CheckedMul return Some(exact mathematical result) exactly when that result is representable in the type, and None otherwise. CheckedDiv and CheckedRem return None when the divisor is zero (and for MIN by -1), and otherwise Some of the quotient truncated toward zero and of the remainder with the sign of the dividend.",
  ["inputs"],"all pairs of operands of the ten primitive-width integer types","the tests try one or two operand pairs per method and type, almost all positive and far from the boundaries; the guarantee is about every boundary crossing",
  ["ops.go"],[("CheckedAdd/CheckedSub/CheckedMul/CheckedDiv/CheckedRem and their overflow predicates","ops.go")])
p("C02","Saturating integer arithmetic clamps to the true bound",
  "For every pair of operands of each primitive-width integer type, SaturatingAdd, SaturatingSub and SaturatingMul return the exact result when it is representable and otherwise the nearest bound (MIN or MAX) of the type. SaturatingDiv with a non-zero divisor returns the truncated quotient, clamped to MAX for MIN / -1.",
  ["inputs"],"all pairs of operands","the sign of the clamp and the boundary operands are not in the handful of test pairs",
  ["ops.go"],[("SaturatingAdd/SaturatingSub/SaturatingMul/SaturatingDiv","ops.go")])
p("C03","Wrapping integer arithmetic is arithmetic modulo 2^N",
  "For every pair of operands of each primitive-width integer type, WrappingAdd, WrappingSub and WrappingMul return the exact result reduced modulo 2^N into the range of the type. WrappingDiv with a non-zero divisor returns the truncated quotient, with MIN / -1 wrapping to MIN.",
  ["inputs"],"all pairs of operands","tests exercise a single wrap per method",
  ["ops.go"],[("WrappingAdd/WrappingSub/WrappingMul/WrappingDiv","ops.go")])
p("C04","Operator methods and assigning forms agree with the language operators",
  "For every numeric scalar type of primitive width (integers, floats, complex, Byte, Char), Add, Sub, Mul, Div, Rem and Neg compute what the corresponding operator of the language computes on the underlying values, and String Add concatenates. Each *Assign form stores in its receiver exactly the value that the plain method returns for the old receiver and the same argument (128-bit types included).",
  ["inputs"],"all operand pairs (non-zero divisors for integer division); strings up to the stated length","tests use one pair per method; a swapped operand or wrong-type conversion only shows at particular values",
  ["ops.go"],[("Add/Sub/Mul/Div/Rem/Neg and *Assign methods","ops.go")])
p("C05","Abs, AbsDiff, sign predicates and Pow are exact",
  "For every value of each signed primitive-width type, Abs is the magnitude modulo 2^N, and IsPositive and IsNegative hold exactly for values above and below zero; for every pair of values of a type, AbsDiff is the exact distance between them. Pow(e) is the e-fold product modulo 2^N for every exponent.",
  ["inputs"],"all values; exponents up to the stated bound","the distance between far-apart signed values and odd exponents are not in the tests",
  ["ops.go"],[("Abs/AbsDiff/IsPositive/IsNegative/Pow","ops.go")])
p("C06","Shifts move the bits of the receiver by the given count",
  "For every value and every shift count from zero to beyond the width of the type, Shl multiplies by 2^count modulo 2^N, and Shr divides by 2^count rounding down, filling with zeros for unsigned types and with the sign for signed types. This holds for all integer widths including the 128-bit types.",
  ["inputs"],"all values and all non-negative shift counts","tests shift a single small value by one",
  ["bitwise.go"],[("Shl/Shr","bitwise.go")])
p("C07","128-bit add, subtract, negate, sign and conversions",
  "For every pair of 128-bit values, signed or unsigned, Add and Sub return the exact result modulo 2^128, Neg is the two's-complement negation, and Abs, IsPositive and IsNegative agree with the two's-complement value. Building a 128-bit value from a 64-bit one preserves its numeric value.",
  ["inputs"],"all 2^256 operand pairs","tests never carry across the 64-bit halves in most methods",
  ["ops.go","primitive.go"],[("U128/I128 Add, Sub, Neg, Abs, conversions","ops.go, primitive.go")],
  [("high, low","two 64-bit halves of a 128-bit value","primitive.go")])
p("C08","128-bit multiply, divide and remainder",
  "For 128-bit operands, Mul returns the exact product modulo 2^128; for a non-zero divisor, Div truncates toward zero and Rem has a magnitude below the divisor's with |lhs| = |Div|*|rhs| + |Rem|. Unsigned Div and Rem satisfy lhs = Div*rhs + Rem with Rem < rhs.",
  ["inputs"],"operand pairs within the stated magnitude windows anywhere in the 128-bit range","128-bit division is a 128-step loop; tests use operands below 2^8",
  ["ops.go"],[("U128/I128 Mul, Div, Rem","ops.go")])
p("C09","Comparison methods are total orders consistent with equality",
  "For every pair of values of each ordered scalar type (all integers, the 128-bit types, floats without NaN, Bool, Byte, Char, String) Cmp returns Less, Equal or Greater according to the numeric (for String: bytewise lexicographic) order, and Eq is true exactly when Cmp returns Equal. Pair compares by key first and then by value, and is equal only when both parts are.",
  ["inputs"],"all pairs of values; strings up to the stated length","tests do not cover comparison methods at all",
  ["cmp.go","pair.go"],[("Cmp and Eq methods","cmp.go, pair.go")])
p("C10","Integers convert to decimal text exactly and parse back",
  "For every value of every integer type, including the 128-bit types, ToString (and Display) yields the canonical decimal representation of that value. ParseI64 and ParseU64 return Ok(v) for the decimal text of every in-range v and Err for every text that is not a decimal integer in range.",
  ["inputs"],"all integer values; all texts up to the stated length","tests print a few small values; values above 2^63 and malformed texts are not tried",
  ["to_string.go","string.go","fmt.go"],[("ToString methods, ParseI64, ParseU64","to_string.go, string.go")])
p("C11","Floating-point methods follow IEEE-754 and the math library",
  "For every float value, Floor, Ceil, Round (half away from zero), Trunc, Abs, Sqrt and Frac return the mathematically defined result of the same type (Trunc + Frac gives back the value for finite values). Powi, Powf, Exp, Exp2, Ln, Log2, Log10 and Log evaluate the corresponding function of the standard math library on the receiver, in double precision, rounded once to the type.",
  ["inputs"],"all float bit patterns, including infinities, NaN, signed zeros and subnormals","tests use six values",
  ["float.go"],[("F32/F64 methods","float.go")])
p("C12","Vec behaves as a growable sequence",
  "After any history of Push, Pop, Insert, Set, Swap, Append, Clear, Reverse, Fill, FillWith and Reserve on a vector of any starting contents and capacity, its length and contents equal those of the same history on a mathematical sequence, and Get, Pop and Set report None (or the documented outcome) exactly when the index or element does not exist. Capacity is never below the length, and reserving never changes the contents.",
  ["histories","inputs"],"operation sequences up to the stated length over symbolic elements and indices","no test exercises Vec directly beyond being a return value",
  ["vec.go"],[("Vec methods","vec.go")],[("data","backing slice","vec.go")])
p("C13","Vec sorting, searching, filtering and deduplication",
  "For every vector, Sort, SortBy, SortUnstable and SortUnstableBy leave a permutation of the input ordered by the comparator (or the elements' own Cmp), the stable forms keeping equal elements in input order. On a sorted vector BinarySearch finds an index holding the value exactly when it occurs, Contains is membership, Retain keeps exactly the accepted elements in order, and Dedup and DedupByKey drop exactly the elements equal (by key) to their predecessor. Contains and Dedup compare elements by their own Eq where they have one.",
  ["inputs"],"all contents up to the stated lengths","no tests; stability and duplicate runs need particular arrangements",
  ["vec.go"],[("Sort*, BinarySearch*, Contains, Retain, Dedup*","vec.go")])
p("C14","VecDeque behaves as a double-ended sequence",
  "After any history of pushes and pops at both ends, Get, Set, Swap, Append, Clear, Reserve, Fill and Retain - including histories in which the ring wraps and grows - the deque's length, front, back and every indexed element equal those of the same history on a mathematical sequence. No operation loses, duplicates or reorders elements when the buffer is reallocated.",
  ["histories","inputs"],"operation sequences up to the stated length from every ring capacity, head position and fill level within bounds","no tests; head/len/capacity combinations at growth time are what matters",
  ["vec_deque.go"],[("ring arithmetic and growth","vec_deque.go")],[("head, len, buffer","ring start, element count, storage","vec_deque.go")])
p("C15","VecDeque whole-sequence operations are independent of ring layout",
  "Sort (all four forms), BinarySearch, Contains, AsSlice, Dedup, Clone, Eq and Display depend only on the logical sequence of the deque, never on where the ring starts: they return for a wrapped deque what they return for the same elements freshly pushed. Sorting leaves an ordered permutation and searching finds exactly the present values.",
  ["histories","inputs"],"every head position and fill level within bounds, symbolic elements","no tests",
  ["vec_deque.go"],[("AsSlice, Sort*, BinarySearch*, Dedup, Clone, Eq","vec_deque.go")])
p("C16","LinkedList behaves as a double-ended sequence",
  "After any history of PushFront, PushBack, PopFront, PopBack, Append and Clear, a linked list's length, front, back and iteration order equal those of the same history on a mathematical sequence. Appending moves every element of the other list to the end and leaves the other list empty.",
  ["histories","inputs"],"operation sequences up to the stated length, symbolic elements","no tests",
  ["linked_list.go"],[("node relinking","linked_list.go")],[("head, tail, prev, next","doubly linked nodes","linked_list.go")])
p("C17","BinaryHeap pops elements in descending order",
  "After any history of Push, Pop, Append, Clear and Reserve, Pop returns a maximum of the multiset of elements present (None when empty) and Len is the size of that multiset. IntoSortedVec returns all elements in ascending order, and IntoVec and AsSlice expose exactly the elements present.",
  ["histories","inputs"],"operation sequences up to the stated length, symbolic elements","no tests; sift-down paths depend on element order and heap size parity",
  ["binary_heap.go"],[("_SiftUp, _SiftDownToBottom","binary_heap.go")],[("data","heap-ordered vector","binary_heap.go")])
p("C18","BTreeMap is a map",
  "After any history of Insert, Remove, Get, ContainsKey and Clear, a BTreeMap holds exactly the last value inserted for each key not since removed: Get, ContainsKey and Len agree with that, Insert returns the replaced value (or None), keeping the key already there as it is, and Remove returns the removed value (or None, changing nothing). This holds for histories large enough to split, borrow and merge nodes.",
  ["histories","inputs"],"histories of concrete bulk inserts of chosen size and order followed by symbolic operations, within the stated sizes","the map has no direct tests; the set tests insert at most a few elements so no node is ever split",
  ["btree_map.go"],[("insertion, splitting, borrowing, merging","btree_map.go")],[("keys, values, childs, n","B-tree node","btree_map.go")])
p("C19","BTreeMap and BTreeSet iterate in ascending key order",
  "At any point of any history, iterating a BTreeMap (entries, keys or values) or a BTreeSet yields every entry exactly once, in strictly ascending key order. Keys and values come in the same order as the entries.",
  ["histories","inputs"],"as for C18","needs trees with more than one level",
  ["btree_map.go","btree_set.go"],[("_ToVec, _ToKeyVec, _ToValueVec","btree_map.go")])
p("C20","BTreeSet is a set with exact set algebra",
  "After any history of Insert, Remove and Clear, membership and length agree with the mathematical set, and Insert and Remove report whether they changed it; inserting a value equal to one already there leaves that one. Union, Intersection, SymmetricDifference, IsSubset, IsSuperset, IsDisjoint and Eq return the mathematical result for every pair of sets, including empty ones, and leave their operands unchanged.",
  ["histories","inputs"],"pairs of sets up to the stated size with symbolic elements","tests use one pair of three-element sets per operation",
  ["btree_set.go"],[("set operations","btree_set.go")])
p("C21","HashMap is a map",
  "After any history of Insert, Remove, Get, ContainsKey and Clear, a HashMap holds exactly the last value inserted for each key not since removed; Insert and Remove return the previous value or None. Iteration yields every entry exactly once, keys and values likewise, whatever order the runtime enumerates in.",
  ["histories","inputs"],"operation sequences up to the stated length over symbolic keys and values","no direct tests",
  ["hash_map.go"],[("HashMap methods","hash_map.go")])
p("C22","HashSet is a set with exact set algebra",
  "After any history of Insert, Remove and Clear, membership and length agree with the mathematical set, and Insert and Remove report whether they changed it. Union, Intersection, SymmetricDifference, IsSubset, IsSuperset, IsDisjoint and Eq return the mathematical result for every pair of sets and leave their operands unchanged.",
  ["histories","inputs"],"pairs of sets up to the stated size with symbolic elements","tests use one pair per operation",
  ["hash_set.go"],[("set operations","hash_set.go")])
p("C23","Clones are equal and independent; equality is by contents",
  "Cloning any scalar, pair, collection, Option or Result yields an equal value, and later changes to either do not affect the other. AsRef refers to an equal value, on a scalar or pair one of its own. Eq on pairs, collections, Option and Result is true exactly when both hold equal contents, by the elements' own Eq (in the same order, for sequences).",
  ["histories","inputs"],"contents up to the stated size, one mutation of either side","no tests; sharing shows only after a later mutation",
  ["vec.go","vec_deque.go","linked_list.go","hash_map.go","hash_set.go","btree_map.go","btree_set.go","option.go","result.go","clone.go","convert.go","pair.go"],[("Clone and Eq","each collection file")])
p("C24","Iterators yield each remaining element once; adaptors follow them",
  "For every collection, an iterator yields the collection's elements in order, then None forever. At any point of the iteration Map, Filter, Fold, Rev, CollectToVec and CollectToLinkedList act on exactly the elements not yet yielded, in order (in reverse order for Rev). What is collected is apart from the collection: changing one does not show in the other.",
  ["histories","inputs"],"collections up to the stated size, every number of elements already consumed","tests never use adaptors after consuming part of an iterator",
  ["vec.go","vec_deque.go","linked_list.go","hash_map.go","hash_set.go","btree_map.go","btree_set.go","iter.go"],[("iterator types","each collection file")])
p("C25","Option combinators obey their algebra",
  "For every Option and argument, the combinators (Map, MapOr, MapOrElse, And, AndThen, Or, OrElse, Xor, Filter, UnwrapOr, UnwrapOrElse, IsSomeAnd, Insert, GetOrInsert, GetOrInsertWith, Take, Replace) return and store what their definition by cases on Some and None says, and call a supplied function exactly when that case requires it. Unwrap and Expect return the value of Some and panic on None, Expect with its message. What is stored in an option does not show in copies of it made before.",
  ["inputs"],"all cases and values, all function behaviours as arbitrary values","no tests",
  ["option.go"],[("Option methods","option.go")])
p("C26","Result combinators obey their algebra",
  "For every Result and argument, the combinators (Map, MapOr, MapOrElse, MapErr, And, AndThen, Or, OrElse, UnwrapOr, UnwrapOrElse, IsOkAnd, IsErrAnd, Ok, Err) return what their definition by cases on Ok and Err says, and call a supplied function exactly when that case requires it. Unwrap, Expect, UnwrapErr and ExpectErr return the matching payload and panic on the other case, Expect and ExpectErr with their message and Unwrap with the error.",
  ["inputs"],"all cases and values","no tests",
  ["result.go"],[("Result methods","result.go")])
p("C27","If/ElseIf/Else selects the first true branch; assertions decide",
  "An If/ElseIf/.../Else chain evaluates and returns exactly the expression of the first true condition, or the Else expression when none holds, and evaluates no other expression. Assert, AssertEq and AssertNe panic exactly when the condition is false, the values are unequal, or equal, respectively; Panic, Todo, Unimplemented and Unreachable always do. The panic carries the given message, with its placeholders filled by the arguments after it; AssertEq and AssertNe also show both values, as they are.",
  ["inputs"],"all truth assignments of chains up to the stated length; all values","no test uses a chain whose earlier branch already matched",
  ["syntax.go","panic.go"],[("If/ElseIf/Else, Assert*","syntax.go, panic.go")])
p("C28","Format substitutes placeholders in order and copies other text",
  "For every well-formed template (valid UTF-8 text, {} placeholders, {{ and }} escapes), Format copies literal text unchanged, replaces the i-th {} by the display form of the i-th argument, and turns {{ and }} into single braces; inserted text is not interpreted again. It panics when an argument is missing or cannot be displayed rather than producing other output. Print writes exactly the text Format gives to standard output, and Println that text followed by one newline.",
  ["inputs"],"all templates up to the stated length, symbolic bytes, up to three arguments","tests do not call Format",
  ["io.go","fmt.go"],[("Format, Print, Println","io.go")])
p("C29","Duration conversions are exact",
  "For every duration built from any count of seconds, milliseconds, microseconds or nanoseconds, AsSecs, AsMillis, AsMicros, AsNanos and the Subsec accessors return the exact total or the exact sub-second part of the represented time, truncated to the unit, and IsZero holds exactly for zero durations. No conversion loses precision or overflows for representable durations.",
  ["inputs"],"all constructor arguments","no tests",
  ["time.go"],[("Duration constructors and accessors","time.go")])
p("C30","String operations follow the byte/character sequence semantics",
  "For all strings within bounds, Len, IsEmpty, Contains, Find, Split, Trim, Replace, Repeat and concatenation return what their definition on the byte sequence says (Find is the first match; joining Split's pieces with the separator restores the string). Push appends one character and Pop removes and returns the last one, so that Pop undoes Push. ToLowercase and ToUppercase change exactly the letters of the other case, in ASCII and in other alphabets whose letters have one counterpart each.",
  ["inputs"],"strings up to the stated length with symbolic bytes","no tests",
  ["string.go"],[("String methods","string.go")])
p("C31","UTF-8 and UTF-16 conversions round-trip",
  "Decoding the bytes of any string gives the string back, and Chars yields its characters in order. StringFromUTF16 decodes every well-formed UTF-16 sequence to the string it encodes, and reports Err for every sequence containing an unpaired surrogate.",
  ["inputs"],"all unit sequences up to the stated length","no tests",
  ["string.go"],[("StringFromUTF8, StringFromUTF16, IntoBytes, Chars","string.go")])
p("C32","File operations transfer exactly the bytes and report every failure",
  "Under any sequence of operating-system outcomes (errors, short reads and writes), a file operation either returns Err or has taken full effect: Write leaves the file holding exactly the given bytes, Read and ReadToString return the whole content, Rename moves it, Copy gives the target its own copy, with the permission bits of the source, that does not change when the source is written later. ReadDir lists every entry exactly once with its correct kind, RemoveFile removes only files and RemoveDir only empty directories. An operation the system allows succeeds, and none leaves a file open.",
  ["fault_sequences","inputs","histories"],"contents up to the stated size; every system-call failure point within a call","tests do not touch the file system and cannot inject failures",
  ["fs.go"],[("file functions","fs.go")])
p("C33","Mutex gives exclusive access",
  "Under every schedule, at most one thread is between Lock (or a successful TryLock) and Unlock of a Mutex at any time, updates made under the lock are never lost, and a blocked Lock proceeds once the lock is free. TryLock returns Err exactly when the lock is held and never blocks.",
  ["schedules"],"all interleavings at synchronisation points of up to three threads","tests do not use threads",
  ["sync.go"],[("Mutex","sync.go")])
p("C34","Spawned threads run once and joining reports their end",
  "Under every schedule, Spawn runs the function exactly once; Join returns only after the function has ended and always returns once it has, with Ok. IsFinished returns true only after the end, eventually does so, and asking it any number of times does not disturb a later Join.",
  ["schedules","histories"],"all interleavings at synchronisation points of up to two threads and sequences of Join/IsFinished calls","tests do not use threads",
  ["thread.go"],[("Spawn, JoinHandle","thread.go")])
p("C35","Asynchronous tasks deliver their result",
  "Under every schedule, awaiting a spawned task returns the value computed by its function, after it ran exactly once, and awaiting again returns the same value. The asynchronous file operations deliver the same results as their synchronous counterparts.",
  ["schedules","inputs"],"all interleavings at synchronisation points; up to two awaits","no tests",
  ["gokio/gokio.go","gokio/fs.go"],[("gokioFuture","gokio/gokio.go")])
p("C36","Standard input lines are read whole",
  "Stdin.ReadLine appends to the buffer the next line of standard input without its line terminator (a newline, or a carriage return and a newline), whatever characters the line contains and however the input arrives in pieces, and leaves the following lines for later calls. At the end of the input it appends what is left and returns. Threads reading through one handle get whole lines each, and none reads while another holds the lock of the handle.",
  ["inputs","fault_sequences","schedules"],"all input lines up to the stated length, every way of splitting the input into reads; two threads","needs process-level input and control over short reads",
  ["io.go"],[("Stdin.ReadLine","io.go")])
p("C37","Sleep suspends for the whole duration",
  "Sleep suspends the calling thread for at least the given duration, and asks the clock for at most a second more than that, for every Duration that can be built; for durations beyond what the clock can express it suspends for the longest expressible time, and it never panics or returns early.",
  ["inputs"],"all durations","a test cannot wait for long durations, and the overflow is at 292 years",
  ["thread.go"],[("Sleep","thread.go")])
p("C38","Collections, options and results display exactly their contents",
  "Display of every collection renders the collection's name and, between its brackets, exactly the elements present (for maps key: value), each in its own display form, separated by a comma and a blank: sequences in order, B-tree collections in ascending order, hash collections in any order. Display of an Option or Result renders None, Some(value), Ok(value) or the error's text, and of a Pair Pair[key, value]; displaying changes nothing, and Debug and ToString agree with Display. Debug of a scalar puts the type's name around its text, as in I32(5).",
  ["inputs","histories"],"contents up to the stated size","tests display at most one small value per type",
  ["vec.go","vec_deque.go","linked_list.go","hash_map.go","hash_set.go","btree_map.go","btree_set.go","option.go","result.go","pair.go"],[("Display/Debug/ToString","each collection file")])
p("C39","Floats and complex numbers have their exact shortest text",
  "Display and ToString of a float or complex number, including infinities, NaN and signed zeros, give its plain shortest decimal text (without exponent), which reads back as the same value at the type's precision. ParseF64 reads every decimal number as the nearest F64, gives back the value whose text it reads, and reports Err for texts that are no number or out of range.",
  ["inputs"],"every float for Display and ParseF64 of its text; every short decimal text","the tests display no floats",
  ["to_string.go","fmt.go","string.go"],[("ToString/Display/Debug of F32, F64, Complex64, Complex128; ParseF64","to_string.go, fmt.go, string.go")])
p("C40","A missing ability of the elements is reported, never passed over",
  "An operation which needs the elements (or keys, values) to implement Clone, Display, Eq or Ord panics whenever it has to handle one that does not, instead of returning a result: Clone (except of a VecDeque, which copies such elements), Display, Debug, Eq, Sort, SortUnstable and BinarySearch of collections, VecDeque.Contains, and Clone, Display, Eq and Cmp of options, results and pairs. The panic of Display names the type and what it lacks; without such elements the operation succeeds, and after the panic the collection is as it was.",
  ["inputs"],"collections of up to two arbitrary elements","tests use elements that have every ability",
  ["vec.go","vec_deque.go","linked_list.go","hash_map.go","hash_set.go","btree_map.go","btree_set.go","option.go","result.go","pair.go","utils.go"],[("getTypeName","utils.go"),("castTo...","clone.go, cmp.go, fmt.go")])
p("C41","Reading does not modify: concurrent readers do not disturb each other",
  "Operations that only read a collection (length and capacity, Get, Front, Back, Contains, ContainsKey, BinarySearch, iteration and its adaptors, AsSlice, Clone, Eq, Display and set algebra) leave it as it was at every moment, not only at their end. So under every schedule, several threads reading one collection at once each get what they would get alone.",
  ["inputs","schedules"],"every operation on collections of three arbitrary elements (B-trees also of 12 and 20); every schedule of two readers, by the absence of writes","needs an interleaving inside an operation",
  ["vec.go","vec_deque.go","linked_list.go","binary_heap.go","hash_map.go","hash_set.go","btree_map.go","btree_set.go"],[("every method that reads","each collection file")])
p("C42","Searching, sorting and growing keep their promised cost",
  "For every contents the number of comparisons is of the promised order: BinarySearch of a Vec or VecDeque, lookup, insertion and removal in a BTreeMap, and Push and Pop of a BinaryHeap take a number logarithmic in the size, and every form of Sort O(n log n). Pushing n elements onto a Vec, VecDeque or BinaryHeap changes its capacity only O(log n) times.",
  ["inputs","histories"],"collections of some hundred elements in several arrangements with an arbitrary element or key","results stay right when the cost degenerates, so tests pass",
  ["vec.go","vec_deque.go","binary_heap.go","btree_map.go"],[("BinarySearch, Sort, Push, Pop, Insert, Remove, Get","vec.go, vec_deque.go, binary_heap.go, btree_map.go")])
