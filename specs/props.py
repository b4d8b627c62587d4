"""The properties: statement, what is analysed, which report kinds count.  gen.py writes properties.jsonl and
MANIFEST.json from this table."""

MEM = {'read_dead', 'uaf', 'double_free', 'bad_free', 'construct_live', 'leak_elem', 'lifetime', 'bitcopy', 'overlap', 'null', 'oob',
       'undef_ptr', 'branch_undef', 'const_write', 'bad_alloc_size', 'capacity', 'shared', 'leak', 'build', 'terminate'}
KIND_SETS = {'mem': MEM, 'str': MEM | {'terminator'},
             'lock': {'race', 'deadlock', 'unlock', 'held', 'order', 'wait'} | MEM}

TB = ["the analyser in /verif/engine (LLVM IR reader, abstract domain, loop summariser) is correct",
      "clang 18 -O1 with passes disabled and SROA translates the headers faithfully",
      "the element type is opaque and its special members do not throw",
      "allocation succeeds"]
AI = ("Abstract interpretation of the LLVM IR of the library's own code, instantiated with opaque element classes whose special "
      "members are declared and never defined. Each public operation starts from an arbitrary well-formed abstract state (symbolic "
      "size and capacity, uninterpreted element values); memory is a list of typed segments with symbolic bounds; loops are "
      "summarised by inductive parametric invariants; the outcome states are compared with the specification. "
      "Nothing is executed. ")

PROPS = {}


def P(id, title, statement, over, qtext, why, files, mech, modules, rule, technique, level_note, explanation=AI, kinds=None, all=None,
      state='', observe='', assumptions=TB, floor=1):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                     modules=modules, rule=rule, technique=technique, level_note=level_note, explanation=explanation, kinds=kinds,
                     all=all, state=state, observe=observe, assumptions=assumptions, floor=floor)


SEQ = ['include/efp/sequence.hpp', 'include/efp/meta.hpp']
CYC = ['include/efp/cyclic.hpp']

P('C01', "Every container element is constructed once, destroyed once, never used dead",
  "For every sequence of operations on the owning containers (fixed arrays, inline vectors, heap vectors, ring buffers, ring queues), every "
  "element is constructed exactly once before it is read, assigned or moved, and destroyed exactly once. No operation touches "
  "storage outside the container, reads an element that was never constructed or already destroyed, overwrites a live element by "
  "construction, or forgets one.",
  ['inputs', 'histories'], "all sizes, capacities, positions and element values; every operation from every well-formed state",
  "A test sees a fixed size and element type; a missing destructor or a read of a dead slot is invisible for trivially destructible elements "
  "and depends on which slots were used before.",
  SEQ + CYC, [('element construction and destruction', 'include/efp/sequence.hpp: ArrVec, detail::VectorBase'),
              ('ring slots', 'include/efp/cyclic.hpp: Vcb, Vcq')],
  ['seq', 'cyc', 'hof', 'join', 'conc'], "typestate of every storage slot (raw/live with content): construct only on raw, read/assign/destroy only on live, release only "
  "with no live element, every slot beyond the size raw after the operation",
  "abstract interpretation of LLVM IR with a per-slot lifetime typestate",
  "Sound for all sizes where the loop summariser succeeds (reported per instance); assumes non-throwing element operations and successful allocation.",
  kinds='mem', all=['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08', 'C09', 'C10', 'C16', 'C17', 'C18'],
  state='live elements of each container', observe='element special member calls')

P('C02', "Sequence mutators have exactly their sequence meaning",
  "Append, emplace, insert at a position, erase at a position, remove last, clear, resize, reserve and shrink turn the contents "
  "of an inline or heap vector into exactly the expected sequence: other elements keep their values and order, resizing up adds default values. "
  "Size, emptiness, indexing and iteration always describe that same sequence.",
  ['inputs', 'histories'], "all contents, sizes, capacities and positions",
  "Off-by-one errors in shifting loops and growth thresholds show only at particular size, capacity and position combinations.",
  SEQ, [('mutators', 'include/efp/sequence.hpp: ArrVec, detail::VectorBase'), ('accessors', 'include/efp/sequence.hpp: operator[], begin, end, size')],
  ['seq'], "after each operation the live prefix of the storage equals the specified concatenation of symbolic runs of the old contents",
  "abstract interpretation with symbolic sequence contents",
  "For all sizes and positions where the loop summariser succeeds; otherwise sizes up to a small bound, reported as such.",
  state='contents of the container', observe='size(), operator[], iteration')

P('C03', "Copy, move, assignment and equality have value semantics",
  "A copy, conversion or assignment of a fixed array, inline vector or heap vector yields a container equal to the source, leaves a copied-from source unchanged and shares no "
  "storage with it; assigning a container to itself changes nothing. A moved-from container can still be used and destroyed. Equality holds "
  "exactly when the sizes are the same and all corresponding elements are equal.",
  ['inputs'], "all pairs of source and target states, including empty and storage-less ones, and self-assignment",
  "The combinations of source size, target size, target capacity and missing storage are not sampled by tests.",
  SEQ, [('special members', 'include/efp/sequence.hpp: Array, ArrVec, detail::VectorBase'), ('equality', 'include/efp/sequence.hpp: operator==')],
  ['seq'], "contents of target = contents of source, source unchanged, disjoint storage, comparison trace justifies the verdict of ==",
  "abstract interpretation with symbolic sequence contents",
  "For all sizes; equality is judged from the comparisons made, assuming element equality is arbitrary.",
  state='contents of source and target', observe='element values after copy, move, assignment; result of ==')

P('C04', "Operations beyond capacity or range are refused and change nothing",
  "A fixed-capacity sequence never holds more elements than its capacity: construction, append, insertion, reserve or resize beyond it raises an "
  "error, as do insertion and erasure beyond the end and removal from an empty container. A refused operation leaves the container exactly as it was, and "
  "no operation within capacity and range is refused.",
  ['inputs'], "all sizes, positions and requested capacities",
  "The boundary is one value among many, and the test must also look at the state after the exception.",
  SEQ, [('capacity checks', 'include/efp/sequence.hpp: ArrVec, Array'), ('range checks', 'include/efp/sequence.hpp: insert, erase, pop_back')],
  ['seq'], "refused exactly when the request exceeds capacity or range; on a refusing path all storage is unchanged",
  "abstract interpretation with path-sensitive refusal conditions",
  "Exact arithmetic condition compared on every path; for all sizes.",
  state='contents and capacity', observe='exception raised or not; contents afterwards')

P('C05', "Heap storage of sequences is released exactly once",
  "Every heap block a heap vector obtains is owned by exactly one container at a time and returned exactly once, by the matching release function, when it is "
  "replaced or the container dies. No history of growth, copy, move, assignment and destruction leaks, doubly releases or uses released storage.",
  ['inputs', 'histories'], "all operations from all well-formed states, including storage-less ones",
  "Leaks and double releases arise from rare combinations (moved-from target, empty source, growth during self-insertion).",
  SEQ, [('allocation', 'include/efp/sequence.hpp: detail::VectorBase')],
  ['seq'], "after each operation every live heap block is the buffer of exactly one container; release only of live blocks of the same family",
  "abstract interpretation with heap ownership tracking",
  "Inductive over histories: every operation preserves unique ownership from every well-formed state.",
  kinds='mem', state='heap blocks', observe='allocator calls')

P('C06', "Arguments that alias the container's own elements are handled",
  "Appending, emplacing or inserting an element that lives inside the same container stores the value it had before the call, even when the operation "
  "reallocates, shifts or overwrites that element. The same holds for text passed to a string that is part of the string's own text.",
  ['inputs'], "all sizes, capacities, positions and choices of the element; ring buffers and queues in every reachable state; own text at any position",
  "It fails only when the call happens to reallocate or shift exactly that element.",
  SEQ + CYC + ['include/efp/string.hpp'], [('growth before copy', 'include/efp/sequence.hpp: push_back, emplace_back, insert'), ('slot reuse', 'include/efp/cyclic.hpp: push_back'),
                                          ('own text', 'include/efp/string.hpp: append, assign, insert, operator+=')],
  ['seq', 'cyc', 'strs'], "the argument pointer is an arbitrary slot of the container itself; contents afterwards as for a separate argument",
  "abstract interpretation with an aliased argument",
  "For all sizes and positions (vectors; append and assign of own text); insertion of own text into a 3 character string at enumerated positions, with and "
  "without reallocation; for every reachable state of capacities 1, 2, 3, 5 (rings).",
  state='contents', observe='contents after the call')

RING = (" For the rings the capacity is a constant, so the representation has finitely many states up to renaming of the opaque elements: "
        "they are collected to a fixpoint (least fixed point of the abstract transformers of push and pop) and every operation is checked in each.")
P('C08', "A ring buffer always shows its last N pushed elements in order",
  "After any number of pushes a ring buffer of capacity N has exactly N elements, the last N of the default values it started with followed by the pushed "
  "ones, oldest first. Indexing, iteration and raw data access agree on that order and stay inside the buffer; an element assigned in place keeps its new value until it is dropped.",
  ['histories'], "every push history; capacities 1, 2, 3 and 5",
  "A mirrored buffer has wrap-around cases that only specific push counts reach; memory and order errors depend on the slot.",
  CYC, [('mirrored slots', 'include/efp/cyclic.hpp: Vcb::push_back'), ('accessors', 'include/efp/cyclic.hpp: Vcb::operator[], data, begin, end')],
  ['cyc'], "for every reachable ring state: size, indexing, nth, data and iteration agree with the model sequence; destruction leaves no live element",
  "collecting semantics (abstract interpretation fixpoint) over ring states", "Complete for the listed capacities, any history and any element values.",
  explanation=AI + RING, state='ring contents', observe='operator[], iteration, data()')
P('C09', "A ring queue is a bounded FIFO that drops the oldest element when full",
  "Popping yields exactly the pushed elements in push order, except that pushing into a full queue of capacity N first discards the oldest one. Size, emptiness, indexing and iteration "
  "describe exactly the elements still queued, in order, after any history of pushes and pops; an element assigned in place keeps its new value until it leaves.",
  ['histories'], "every history of pushes and pops; capacities 1, 2, 3 and 5",
  "Wrap-around combined with pops creates read/write offset combinations no fixed script covers.",
  CYC, [('mirrored slots', 'include/efp/cyclic.hpp: Vcq::push_back, pop_front'), ('accessors', 'include/efp/cyclic.hpp: Vcq::operator[], begin, end')],
  ['cyc'], "for every reachable ring state: pop result and all accessors agree with the FIFO model; destruction leaves no live element",
  "collecting semantics (abstract interpretation fixpoint) over ring states", "Complete for the listed capacities, any history and any element values.",
  explanation=AI + RING, state='queue contents', observe='pop_front(), operator[], iteration')
P('C10', "Copies and moves of ring buffers and queues preserve their contents",
  "Copying, moving or assigning a ring buffer or ring queue in any state yields the same element sequence in the target, leaves a copied source unchanged, and the "
  "target keeps working as an independent ring. Self-assignment changes nothing.",
  ['histories'], "every pair of reachable source and target states; capacities 1, 2, 3 (5 for copies)",
  "Only states in which the ring has wrapped expose an index that is taken from the wrong side.",
  CYC, [('special members', 'include/efp/cyclic.hpp: Vcb, Vcq')],
  ['cyc'], "contents of target = model of source in every reachable pair of states; both destructible without live elements",
  "collecting semantics (abstract interpretation fixpoint) over ring states", "Complete for the listed capacities.",
  explanation=AI + RING, state='ring contents', observe='contents after copy, move, assignment')

ENU = ['include/efp/enum.hpp', 'include/efp/maybe.hpp']
PRE = ['include/efp/prelude.hpp', 'include/efp/meta.hpp']
P('C11', "A sum type holds exactly one live value of its current alternative",
  "A tagged union (Enum) always holds exactly one live value, of the alternative its index names. Construction, copy, move, assignment and destruction "
  "destroy the old value exactly once and construct the new one exactly once, with the value and alternative of the source; self-assignment changes nothing.",
  ['inputs', 'histories'], "every alternative, every pair of alternatives under assignment, alternative counts from 2 to 130 (255 in the thorough tier)",
  "Dispatch is a generated tree of index comparisons; a wrong branch for one alternative count and index is not sampled by tests.",
  ENU, [('special members', 'include/efp/enum.hpp: detail::EnumBase'), ('destructor dispatch', 'include/efp/enum.hpp: detail::_destroy_impl')],
  ['enu', 'enub', 'triv'], "typestate of the union storage: after every operation exactly one live value of the class named by index(), with the expected content",
  "abstract interpretation of LLVM IR with a per-slot lifetime typestate",
  "All alternatives of each listed alternative count, arbitrary values.", kinds=None,
  state='the value held', observe='index(), get<T>(), special member calls')
P('C12', "Matching and access reach exactly the alternative that is held",
  "match calls exactly one handler, the one written for the alternative held, with that very value, and returns its result; wildcards get "
  "every alternative without a handler of its own. get<T>/get<i> return the held value when T is held and are refused "
  "otherwise. Two sum values are equal exactly when they hold the same alternative and equal values.",
  ['inputs'], "every alternative held, for alternative counts from 2 to 130 (255 in the thorough tier)",
  "The dispatch tree has different shapes around powers of two; a single wrong leaf stays unnoticed unless that alternative is held.",
  ENU, [('dispatch', 'include/efp/enum.hpp: detail::_match_impl'), ('access', 'include/efp/enum.hpp: EnumBase::get'), ('equality', 'include/efp/enum.hpp: operator==')],
  ['enu', 'enub', 'triv'], "for every held alternative: exactly one callback event, of that alternative's handler, with the stored value; get returns the stored address or raises",
  "abstract interpretation of LLVM IR; call trace compared with the specification",
  "All alternatives of each listed alternative count, arbitrary values.",
  state='the value held', observe='handler calls and results')
P('C14', "An optional value is either empty or holds one live value",
  "A Maybe is empty or holds exactly one live value. Copies, moves, assignments (from a Maybe, a value or nothing) produce the expected state and destroy and "
  "construct values exactly once, value() and move() refuse an empty one, and match, bind-like access and comparison see the held value.",
  ['inputs', 'histories'], "every pair of states under construction, assignment, comparison and access",
  "Tests use trivially destructible values, for which a missed destruction or a doubled construction is invisible.",
  ENU, [('Maybe', 'include/efp/maybe.hpp')],
  ['enu', 'triv'], "typestate of the value storage against the emptiness the accessors report; refusal exactly when empty",
  "abstract interpretation of LLVM IR with a per-slot lifetime typestate", "All states, arbitrary values.",
  state='the value held', observe='has_value(), value(), match')
P('C16', "Traversals call the function once per element, in order, with the right elements",
  "for_each, map, folds, indexed and mutable traversals, traversals over several sequences at once, cartesian traversals and from_function call the function exactly once per position, in "
  "order (right folds in reverse), with the elements at that position of every argument, up to the length of the shortest argument (cartesian traversals: every combination once, last argument fastest). Results are collected in "
  "the same order, a fold threads its accumulator through all calls, and arguments are not modified unless passed for mutation.",
  ['inputs'], "all sequence kinds (fixed, inline, heap, views, standard containers), all lengths, arbitrary functions",
  "The function and the lengths are arbitrary; mixed argument kinds select different code.",
  PRE, [('traversals', 'include/efp/prelude.hpp: for_each, map, foldl, foldr, from_function'), ('shared bound', 'include/efp/prelude.hpp: min_length')],
  ['hof', 'join', 'hofi', 'joini', 'stdt'], "the callback is an undefined function; the sequence of calls and arguments on every path equals the specified one, and results hold its return values in order",
  "abstract interpretation with a symbolic event trace and inductive loop summaries",
  "For all lengths (parametric loop summaries); cartesian traversals for lengths up to 2 or 3 per argument.", state='argument sequences', observe='calls of the function, result contents')
P('C17', "Searches find the first match and selections keep exactly the matches",
  "find, find_index, elem and elem_index examine elements in order and report the first match, or absence only after examining all. filter, find_indices and elem_indices "
  "return exactly the matching elements or positions in order; take_while and drop_while split a sequence at the first element that fails the predicate.",
  ['inputs'], "all sequence kinds and lengths, arbitrary predicates (selections: lengths up to 4)",
  "The predicate is arbitrary; boundary cases (no match, match at the end, empty) multiply with sequence kinds.",
  PRE, [('searches', 'include/efp/prelude.hpp: find, find_index, elem, elem_index'), ('selections', 'include/efp/prelude.hpp: filter, find_indices, elem_indices, take_while, drop_while')],
  ['hof', 'hofi'], "the predicate is an undefined function whose outcomes are enumerated; verdict and result are compared with the trace of examined elements",
  "abstract interpretation with a symbolic event trace", "Searches for all lengths; selections (data-dependent size) for lengths up to 4.",
  state='argument sequence', observe='verdict, index or selected elements')
P('C18', "Joining sequences keeps every element, in argument order",
  "append yields the elements of its arguments one after the other, in argument order, for every mix of fixed, inline, heap and viewed sequences and every number of arguments; concat does the same for "
  "a sequence of sequences, and intercalate puts the delimiter between (and only between) them. The arguments are left unchanged.",
  ['inputs'], "all lengths, all kinds",
  "Order and offsets matter for every combination of argument kinds and lengths, and depend on evaluation order.",
  PRE, [('joins', 'include/efp/prelude.hpp: append, concat, intercalate')],
  ['hof', 'join', 'hofi', 'joini'], "contents of the result = concatenation of the symbolic runs of the arguments",
  "abstract interpretation with symbolic sequence contents", "append for all lengths (parametric loop summaries); concat and intercalate for up to 3 inner sequences of up to 2 elements.",
  state='argument sequences', observe='result contents')
P('C19', "A view covers exactly the requested part of its source",
  "take, drop, slice, tail and init yield a view of exactly the requested elements of the source, in place and without copying; requests beyond the end are cut to the elements that exist, so a "
  "view never reaches outside its source. head and last give the first and last element; tail, init, head and last refuse an empty sequence. A copy or conversion of a view covers the same elements.",
  ['inputs'], "all sequence and view kinds, lengths, run-time bounds (any size_t) and a set of compile-time bounds",
  "Out-of-range bounds produce views that read foreign memory silently; each sequence kind and bound kind selects other code.",
  PRE[:1] + SEQ[:1], [('slicing', 'include/efp/prelude.hpp: take, drop, slice, tail, init, head, last'), ('views', 'include/efp/sequence.hpp: ArrayView, ArrVecView, detail::VectorViewBase')],
  ['views', 'viewsi'], "data, begin, end, size, length and capacity of the returned view equal base+lo, base+lo, base+hi, hi-lo, hi-lo, at least hi-lo for the clamped bounds lo, hi",
  "abstract interpretation of LLVM IR with symbolic pointers", "For all lengths and all run-time bounds.",
  state='source sequence and view', observe='data(), size(), begin(), end() of the view')
CON = ['include/efp/concurrency.hpp', 'include/efp/cyclic.hpp']
P('C21', "The concurrent queues are free of data races and always release their lock",
  "Any number of threads may call enqueue, dequeue and the emptiness test of one BlockingQ or NonBlockingQ at the same time: every access to the queue's shared state, in any two operations that can overlap, happens under one common lock. "
  "Every operation releases its lock on every path, also when copying an element throws, never takes a lock it already holds, and the queue destroys its remaining elements once.",
  ['schedules', 'histories'], "every pair of operations, in every reachable queue state, on every path",
  "A missing or early-released lock fails only under a specific interleaving that a test almost never produces.",
  CON, [('queues', 'include/efp/concurrency.hpp: BlockingQ, NonBlockingQ')],
  ['conc', 'conct'], "lockset rule: two accesses of overlapping operations to the same bytes, at least one a write, share a held lock; typestate of the lock on every path",
  "abstract interpretation of LLVM IR with a lockset and lock typestate", "Capacities 2 and 3 and unbounded; std::queue and the primitives are taken as specified.",
  state='queue contents, lock', observe='memory accesses with the locks held', kinds='lock')
P('C22', "A queue hands over every element once, in order, and wakes its waiters",
  "Elements leave a BlockingQ or NonBlockingQ in the order they were enqueued, each exactly once (a full bounded queue drops its oldest element), whatever other threads do in between. BlockingQ::dequeue returns only an element that was present "
  "when it was removed: it waits while the queue is empty, releasing the lock, and re-examines the queue after every wake-up; every enqueue after which a waiting consumer could proceed notifies one. NonBlockingQ::dequeue returns nothing exactly when "
  "the queue is empty at that moment.",
  ['schedules', 'histories'], "every reachable state, with arbitrary operations of other threads wherever the lock is not held, including spurious wake-ups",
  "Lost wake-ups and check-then-act gaps need a precise interleaving of three threads.",
  CON, [('hand-off', 'include/efp/concurrency.hpp: BlockingQ::enqueue, BlockingQ::dequeue, NonBlockingQ::dequeue')],
  ['conc'], "for every operation, state and interference: result and remaining contents equal those of some order of the operations; notify follows the insertion's lock acquisition on every path that needs it",
  "abstract interpretation of LLVM IR with interference at lock boundaries", "Capacities 2 and 3 and unbounded; interference of up to two operations per boundary, up to two waits.",
  state='queue contents', observe='results of dequeue, waits, notifications')
P('C23', "A double buffer isolates its consumer from its producers",
  "With any number of threads in DoubleBuffer::enqueue and one consumer thread calling swap_buffer, dequeue and empty, no two threads touch the same memory without the spinlock in common; the lock is taken with acquire and released with release ordering "
  "and always released, also when copying an element throws. Elements enqueued before a swap are read after it in order (up to the capacity); enqueue never disturbs the buffer being read. Both buffers are released exactly once and the buffers are never shared between objects.",
  ['schedules', 'histories'], "every reachable pair of buffer states, on every path",
  "Races and ordering mistakes are invisible on x86 and to single-threaded tests.",
  CON, [('double buffer', 'include/efp/concurrency.hpp: DoubleBuffer, Spinlock')],
  ['conc', 'conct'], "lockset rule over producer/consumer pairs with acquire/release lock semantics; sequence model of both buffers; lifetime typestate of the buffers",
  "abstract interpretation of LLVM IR with a lockset and lock typestate", "Capacities 2 and 3, single consumer.",
  state='both buffers, lock flag', observe='memory accesses with the locks held, dequeued elements')
P('C24', "A File owns one stream, closes it once, and transfers exactly the text",
  "Every stream File::open obtains is closed exactly once, by close() or when the File that owns it dies or is assigned over, and is never used after that, whatever moves happen and even when closing reports an error; open gives nothing exactly when the "
  "file cannot be opened, close reports whether closing succeeded, and on a File without a stream every operation fails without touching any stream. write delivers exactly the given characters, NUL and newlines included, in order, "
  "and reports success exactly when the stream accepted all of them; seek, tell and flush pass their offset and result on unchanged. read_line gives the characters up to the next newline, without it, and nothing exactly when the input is exhausted; read_lines gives all lines.",
  ['inputs', 'fault_sequences', 'histories'], "all data lengths, a failure of every stream operation at every character, all moves between open, closed and moved-from Files; inputs of up to 2 (thorough: 3) arbitrary characters including 0xFF and NUL, and lines of 300 (1100) characters",
  "Failures of fclose and short writes, and moves over an open file, hardly occur in tests.",
  ['include/efp/io.hpp'], [('stream ownership', 'include/efp/io.hpp: File'), ('transfer', 'include/efp/io.hpp: File::write, read_line, read_lines')],
  ['fil'], "stream typestate (open, closed) on every path of every operation, including every failure outcome of the C stream functions; trace of characters handed to the stream = the data",
  "abstract interpretation of LLVM IR with a stream typestate and failure outcomes", "Writes for all lengths; reads for enumerated inputs.",
  assumptions=TB + ["the C stream functions behave as the C standard says"],
  state='stream of each File', observe='calls of the C stream functions, results, lines read')
STR = ['include/efp/string.hpp', 'include/efp/sequence.hpp']
P('C25', "A string always has room for its terminator and c_str is NUL-terminated",
  "For every String of any character type and every history of construction, assignment, growth, insertion, removal, shrinking and moving, c_str() returns the text followed by NUL without "
  "writing outside the string's own storage: whenever a string has storage its capacity exceeds its length. No string operation reads or writes outside the text, the buffer or the argument it was given.",
  ['inputs', 'histories'], "all lengths, capacities, positions and characters, strings with and without storage",
  "A missing terminator slot shows only when the length meets the capacity, and then usually as a silent overflow.",
  STR, [('strings', 'include/efp/string.hpp: Vector<Char> specialisation'), ('storage', 'include/efp/sequence.hpp: detail::VectorBase')],
  ['strs'], "inductive invariant capacity >= size + 1 (or no storage) established by every operation; c_str returns the symbolic contents followed by NUL; every access within its object",
  "abstract interpretation of LLVM IR with an inductive representation invariant",
  "char and char16_t in quick, wchar_t and char32_t in thorough; repeated appends and inserts of symbolic length are decided for enumerated small sizes.",
  kinds='str', state='string buffer, size, capacity', observe='c_str()')
P('C26', "String operations yield exactly the specified text",
  "Construction from text, a counted text, a repeated character or a range, copying, appending (also a string to itself), assigning, inserting, erasing, substr and copy produce exactly the specified "
  "characters in order; positions beyond the end are refused and leave the string unchanged, lengths beyond the end are cut. compare is the lexicographic order of the two character sequences and == holds exactly for equal text, "
  "for strings and views, with or without storage; a view of a text or string covers exactly its characters.",
  ['inputs'], "all lengths, positions and characters (comparisons: lengths up to 3)",
  "Length and position arithmetic has boundary cases in each operand; ordering must hold for every pair of texts.",
  STR, [('operations', 'include/efp/string.hpp: append, assign, insert, substr, copy, compare, ==')],
  ['strs'], "final contents equal the specified symbolic character runs; for comparisons the returned sign agrees with the lexicographic order for every choice of characters consistent with the comparisons made on that path",
  "abstract interpretation of LLVM IR with symbolic sequence contents", "As C25; comparisons for all pairs of lengths up to 3.",
  state='string contents', observe='contents, compare, ==')
P('C29', "Every kind of sequence answers the common queries consistently",
  "length, nth, data and is_null give, for every kind of sequence and view, the number of elements, the element at that position, the first element's address and emptiness, all describing the "
  "same storage the container's own size and indexing describe.",
  ['inputs'], "all sequence kinds (also std::array, std::vector, std::basic_string), lengths and positions",
  "Generic code relies on the trait implementations of every kind; tests sample few of them.",
  PRE + SEQ[:1], [('trait', 'include/efp/trait.hpp'), ('implementations', 'include/efp/sequence.hpp: SequenceImpl, length, nth, data')],
  ['hof', 'hofi', 'stdt'], "results of the trait functions equal the representation's size, base address and element address",
  "abstract interpretation of LLVM IR", "For all lengths and positions.",
  state='argument sequence', observe='length, nth, data, is_null')

TC = ("Type-level encoding decided by the compiler's type checker: every obligation is a static assertion about /repo's headers, or a pair of programs "
      "that differ in one violating construct, of which the first must be accepted and the second rejected. The programs are type-checked, never run. ")
TCB = ["clang 18's type checker is correct"]
P('C13', "An ill-typed match or access of a sum type is a compile error",
  "A match on an Enum or Maybe compiles only if every alternative has a branch or the last branch is a wild card; branches for types that are no alternative, branches after a wild card, get or move of a type that is no alternative, and construction "
  "from a type that is no alternative (also by narrowing or widening conversion) are rejected by the compiler, while the complete programs are accepted.",
  ['programs'], "sum types of 2 to 5 alternatives (thorough: up to 17), every position of the missing branch, every language standard",
  "Tests can only contain programs that compile; that a wrong program is refused is outside their reach.",
  ['include/efp/enum.hpp', 'include/efp/maybe.hpp', 'include/efp/meta.hpp'], [('exhaustiveness', 'include/efp/enum.hpp: Match, IsExhaustive, IsWellFormed')],
  ['typ'], "accepted/rejected pairs: the complete program type-checks, the program with one violating construct does not",
  "compile-fail witnesses decided by the type checker", "Enumerated numbers of alternatives.", explanation=TC, assumptions=TCB, kinds=None,
  state='program text', observe='acceptance by the compiler')
P('C15', "Result types have the right static size, or a sufficient capacity",
  "For every combination of sequence kinds the type of the result follows the static information: operations on sequences of static size give an Array of exactly the right static size; on sequences of static capacity an ArrVec whose capacity suffices for "
  "every run-time size; otherwise a Vector. The element type is the one the function or operands give. Sums and products of sizes are computed without overflow in size_t.",
  ['programs', 'configurations'], "every sequence kind, every pair of kinds, triples of representative kinds, every result-producing function",
  "The result type depends on the combination of argument kinds; tests instantiate few, and a capacity that is one too small only fails for full operands.",
  ['include/efp/prelude.hpp', 'include/efp/meta.hpp', 'include/efp/sequence.hpp', 'include/efp/trait.hpp'],
  [('result types', 'include/efp/prelude.hpp: MapReturn, FilterReturn, AppendReturn, ...'), ('size computation', 'include/efp/prelude.hpp, meta.hpp: StaticSize, StaticCapacity, _sum, _product')],
  ['typ'], "static assertions: decltype of each call equals the Array of the computed size, an ArrVec of at least the computed capacity, or a Vector",
  "type-level assertions decided by the type checker", "Argument kinds enumerated; sizes representative.", explanation=TC, assumptions=TCB,
  state='types', observe='decltype of each call')
P('C20', "Read-only access cannot be turned into write access, and owners cannot be copied",
  "Through a const container, through any view, through a const Enum or Maybe and through the element references handed to the callbacks of the non-_mut functions, no element can be assigned: element access, iteration, data, slices and traits give read-only references "
  "and pointers only, while mutable containers stay writable. A File, queue or double buffer cannot be copied.",
  ['programs'], "every container and view kind, every accessor, every slicing function",
  "A program that writes through a view must not compile; tests cannot contain it.",
  ['include/efp/sequence.hpp', 'include/efp/prelude.hpp', 'include/efp/cyclic.hpp', 'include/efp/string.hpp', 'include/efp/enum.hpp', 'include/efp/maybe.hpp', 'include/efp/io.hpp', 'include/efp/concurrency.hpp'],
  [('accessors', 'include/efp/sequence.hpp: operator[], data, begin, end, nth'), ('callbacks', 'include/efp/prelude.hpp: for_each, map, filter, foldl')],
  ['typ'], "static assertions on the type of every accessor; accepted/rejected program pairs for callbacks",
  "type-level assertions and compile-fail witnesses", "Kinds and accessors enumerated.", explanation=TC, assumptions=TCB,
  state='types', observe='acceptance by the compiler')
P('C27', "Sorting permutes the elements into order, stably where promised",
  "For every vector and every strict weak order, sort, sort_by, sort_unstable, sort_unstable_by and the named algorithms leave exactly the same elements, each non-descending with respect to its predecessor; sort, sort_by, timsort and timsort_by keep equal elements "
  "in their original order. The range forms change nothing outside the range. No element is lost, duplicated or read after it was moved away, and nothing outside the vector is touched.",
  ['inputs'], "every order (including ties) of up to 4 elements (thorough: 5), and given orders of 33, 40, 67 and 100 elements (thorough: twelve sizes up to 129), one element left free in some",
  "Order depends on the permutation and on thresholds (runs of 32) that small tests never cross.",
  ['include/efp/sort.hpp'], [('algorithms', 'include/efp/sort.hpp: timsort_by, timsort_merge, quicksort_by, heapsort_by, insertion_sort_by_, merge')],
  ['srt'], "opaque elements with a comparison-fact closure: on every path the order of the result follows from the comparisons made on it; lifetime typestate of every element",
  "abstract interpretation of LLVM IR with an order domain over opaque elements", "Sizes are enumerated; element orders are exhaustive for small sizes.",
  assumptions=TB + ["the comparison is a strict weak order"], state='vector contents', observe='order and identity of the elements')
P('C30', "Inline storage is large enough and aligned for whatever it holds",
  "Array, ArrVec, ring buffers and queues of any element type, and Enum and Maybe of any alternatives, are aligned at least as strictly as every type they can hold and large enough for their full capacity (for sum types: the largest alternative and the tag), "
  "over-aligned types included.",
  ['programs', 'configurations'], "alignments 1 to 64, capacities 1, 3, 4, every position of the largest or strictest alternative",
  "Misaligned storage usually works on the test machine; it fails for other types and targets.",
  ['include/efp/sequence.hpp', 'include/efp/cyclic.hpp', 'include/efp/enum.hpp', 'include/efp/maybe.hpp'], [('storage', 'include/efp: _storage, _buffer, _data members and their alignas')],
  ['typ'], "static assertions on alignof and sizeof of each container for each element alignment",
  "type-level assertions decided by the type checker", "Alignments and capacities enumerated.", explanation=TC, assumptions=TCB,
  state='storage members', observe='alignof, sizeof')

P('C07', "Operations on fixed-size sequences never allocate dynamically",
  "No operation whose arguments are all of static size or static capacity (Array, ArrVec, their views, ring buffers and queues, Enum, Maybe, Tuple, and every sequence function applied to them) reaches a dynamic allocation on any path on which it returns normally, "
  "as long as the element type and the function arguments themselves do not allocate.",
  ['inputs', 'programs'], "every public operation of the fixed-capacity containers and sum types and every sequence function over them; every call path",
  "Allocation is invisible to a test that checks results; on the embedded targets this library is for, it is a failure.",
  ['include/efp/sequence.hpp', 'include/efp/prelude.hpp', 'include/efp/cyclic.hpp', 'include/efp/enum.hpp', 'include/efp/maybe.hpp', 'include/efp/meta.hpp'],
  [('containers', 'include/efp/sequence.hpp: Array, ArrVec, ArrayView, ArrVecView'), ('functions', 'include/efp/prelude.hpp')],
  ['noalloc'], "call-graph reachability from each operation to an allocation function, through basic blocks from which a return is reachable (blocks that only throw or abort are excluded)",
  "effect analysis: call-graph reachability over LLVM IR", "Every call path of each enumerated instantiation; argument kinds enumerated.",
  explanation="Effect analysis over the call graph of the LLVM IR of each operation's instantiation; nothing is executed. ",
  assumptions=["clang 18 -O1 with passes disabled translates the headers faithfully", "element operations and callbacks are opaque and do not allocate"],
  state='call graph', observe='calls of operator new, malloc, calloc, realloc')
NUMA = TB + ["arithmetic is that of the real numbers: rounding and NaN are not considered; integer results are exact where they fit the type"]
P('C28', "Numeric reductions compute the sum, product and extrema of the elements",
  "sum and product of a sequence are the sum and product of all its elements (0 and 1 for an empty one); max_elem and min_elem give an element that is at least, respectively at most, every other element, for negative values too; max_min is their difference. "
  "abs, square, min, max, sqrt, sin, cos and tan have their mathematical meaning; is_approx is true exactly when the arguments differ by at most the machine epsilon of their common type; complex_cast adds a zero imaginary part, drops it or keeps the value.",
  ['inputs'], "every element value and order; lengths 0 to 4 (sum and product also 40 and 300), every sequence kind",
  "The extrema depend on the sign and order of all elements; tests sample a few values.",
  ['include/efp/numeric.hpp', 'include/efp/meta.hpp', 'include/efp/prelude.hpp'], [('reductions', 'include/efp/numeric.hpp: max_elem, min_elem, max_min, sum, product'), ('scalars', 'include/efp/numeric.hpp: abs, square, is_approx, sqrt, sin, cos, tan, complex_cast; meta.hpp: min, max')],
  ['num'], "results are terms over symbolic elements: extrema must follow from the comparisons made on each path; sums and products must be the same polynomial",
  "abstract interpretation of LLVM IR with symbolic terms and an order domain", "Lengths enumerated, element values unrestricted.", assumptions=NUMA,
  state='elements', observe='returned value')
P('C31', "A tuple keeps each component as itself",
  "A Tuple holds one live object per component, in order: construction copies or moves each argument into its own component, get, p, fst and snd refer to exactly that component inside the tuple, copies and assignments copy each component from the same component of the source, "
  "match passes all components in order, two tuples are equal exactly if all components are, and destruction destroys each component once.",
  ['inputs', 'programs'], "every component value; one to four components of equal and different types",
  "A component mix-up is invisible when the components compare equal or have the same type; tests use few shapes.",
  ['include/efp/meta.hpp'], [('tuple', 'include/efp/meta.hpp: Tuple, TupleImpl, TupleLeaf, get, p, fst, snd, tuple')],
  ['tup', 'triv'], "component-wise typestate and contents of the tuple's storage for opaque component types; addresses of the accessors",
  "abstract interpretation of LLVM IR with per-component lifetime typestate", "Shapes enumerated, component values unrestricted.",
  state='components', observe='get, match, ==')
P('C33', "Operators, swap and compile-time values mean what their names say",
  "The operator functions (op_add, op_sub, op_mul, op_div, op_mod, op_neg, op_eq, op_neq, op_lt, op_gt, op_leq, op_geq, op_and, op_or, op_not) give the result of the operator they name, clamp limits its argument to the interval, all Units are equal, swap exchanges two objects without losing or duplicating either (also with itself). "
  "Arithmetic and comparison of compile-time constants, All, Any, Minimum, Maximum, the compile-time folds, PackAt, TupleAt, Find, Arguments, the invocability traits and the type functions denote the value or type they name, in every supported language standard.",
  ['inputs', 'programs', 'configurations'], "every argument value of the run-time functions; enumerated constants, packs and callables; C++11 and C++17 (thorough: also C++14 and C++20)",
  "Sizes and result types of every other part are computed with these; a wrong one shows only for particular constants or standards.",
  ['include/efp/meta.hpp'], [('operators', 'include/efp/meta.hpp: op_*, clamp, swap, Unit'), ('constants', 'include/efp/meta.hpp: CtConst, All, Any, Mininum, Maximum, _foldl'), ('type functions', 'include/efp/meta.hpp: PackAt, Find, Arguments, IsInvocable, InvokeResult, FuncToFuncPtr, TypeList')],
  ['typ', 'num', 'tup'], "static assertions for the compile-time part; terms over symbolic arguments for the operators, per-path, compared with the operator; lifetime typestate and contents for swap",
  "type-level assertions and abstract interpretation of LLVM IR", "Constants, packs and callables enumerated; run-time arguments unrestricted.", assumptions=NUMA,
  state='arguments', observe='returned value, type')
P('C32', "Statistics compute their mathematical definition",
  "mean, rms, sse, mse, rmse, the normalised errors, variance, standard deviation and covariance (with and without Bessel correction), correlation, autocovariance and autocorrelation at every lag, remove_dc, detrend and both linear regressions are, as functions over the real numbers, their textbook definitions "
  "for every sequence long enough for the definition to be defined, whatever the kind of sequence and also for integer elements.",
  ['inputs'], "every element value; lengths 1 to 4 (regression on the index also 1300), every lag; heap vectors, arrays and views of double, float and int",
  "A wrong divisor or index shows only for particular lengths and lags and hides behind tolerances in tests.",
  ['include/efp/scientific.hpp', 'include/efp/numeric.hpp'], [('statistics', 'include/efp/scientific.hpp')],
  ['num'], "the result is a rational (or square-root) term over symbolic elements; it must denote the same function as the definition (identity decided by evaluating both terms at fixed points in 80-digit arithmetic; paths by the comparisons they imply)",
  "abstract interpretation of LLVM IR with symbolic real terms and term identity testing", "Lengths and lags enumerated.", assumptions=NUMA + ["two terms that agree at the chosen points are the same function"],
  state='elements', observe='returned value')

P('C34', "The library's own allocator gives storage of the right size and gives it back",
  "Allocator (the default allocator of builds without a standard library) and AllocatorTraits give, for every element type and count n, storage for at least n elements that starts at the returned pointer, and deallocate releases exactly that storage; construct makes one live element with the given value "
  "at the given place and touches nothing else, destroy ends its lifetime and nothing else; max_size() elements fit the size type.",
  ['inputs', 'programs'], "every count and position; three element sizes; directly and through AllocatorTraits",
  "An allocation that is too small works until the neighbouring storage matters; these headers are not compiled in the test build at all.",
  ['include/efp/allocator.hpp'], [('allocator', 'include/efp/allocator.hpp: Allocator, AllocatorTraits')],
  ['alc'], "size of the allocated region against n * sizeof(element) as linear forms in n; lifetime typestate of storage and element",
  "abstract interpretation of LLVM IR with region sizes and lifetime typestate", "Element sizes enumerated, counts and positions unrestricted.",
  assumptions=TB + ["counts whose size in bytes does not overflow the size type", "element types with at most the alignment operator new guarantees"],
  state='storage', observe='returned pointer, lifetime of elements')
P('C35', "func_ptr and compose give functions that behave like what they are made from",
  "The function pointer obtained from func_ptr(f) calls f, the callable it was made from most recently for that type, exactly once per call, with the same arguments in the same order (references stay references), and gives f's result; it uses the captured state of f and does not disturb callables of other types. A composed function calls each of its functions exactly once, the last with the arguments and each other with the result of the next, also when the functions were temporaries or the composition is copied, and gives the first one's result; id gives its argument.",
  ['inputs', 'programs'], "every argument and captured value; const, mutable and capturing callables, lambdas, by value, by reference and without result",
  "A mix-up of arguments, captured state or storage shared between callables does not show with the capture-free lambdas of a test.",
  ['include/efp/c_utility.hpp', 'include/efp/prelude.hpp'], [('func_ptr', 'include/efp/c_utility.hpp'), ('compose', 'include/efp/prelude.hpp: Composed, compose, id')],
  ['fpt'], "opaque callables: the trace of calls with the identity of each argument, the content of the result, the lifetime of arguments",
  "abstract interpretation of LLVM IR with opaque callables", "Signatures enumerated, values unrestricted; callables without rvalue-reference parameters.",
  state='callable and arguments', observe='call trace, result')

P('C36', "Formatting shows every element, in order, and nothing else",
  "A fixed array, inline vector, heap vector, ring buffer or ring queue of any formattable element type is formatted as '[', the elements from first to last each formatted once and separated by ', ', and ']', whatever its size and internal position. "
  "format uses the given format with exactly the given arguments in order (a String stands for exactly its characters) and returns exactly the text produced; print writes that text once, println adds a newline.",
  ['inputs', 'histories'], "every size and element value of the vectors; every reachable state of rings of capacity 3; every length of the formatted text, in and beyond the inline buffer",
  "An off-by-one at the ends of the range shows only for particular sizes and ring positions; tests format a few short sequences.",
  ['include/efp/format.hpp', 'include/efp/fmt/core.h', 'include/efp/fmt/format.h', 'include/efp/fmt/format-inl.h'], [('formatters', 'include/efp/format.hpp: formatter<Array>, <ArrVec>, <Vector>, <Vcb>, <Vcq>'), ('format', 'include/efp/format.hpp: format; fmt/format-inl.h: vformat; fmt/format.h: to_string')],
  ['fmts'], "the formatting engine's entry points are interpreted as appending a literal, an element or a range with a separator; the appended items are compared with the expected text, the range with the elements of the sequence",
  "abstract interpretation of LLVM IR with an abstract output text", "Ring capacity enumerated; how one element, number or specifier is rendered by the embedded engine is not analysed.",
  assumptions=TB + ["the embedded formatting engine (vformat_to, format_to, join) renders what it is given"], state='sequence', observe='formatted text')


P('C39', "Operations ask of their elements only what they need",
  "Sequences, rings, sum types, optional values, tuples, queues and the functions on them work with every element type that offers what the operation needs: moving operations with elements that can only be moved, operations that neither create, compare nor assign elements with types that can not be default-constructed, compared or assigned. "
  "Elements are copied and moved only by their copy and move constructors and assignments: an initializer-list constructor, a constructor from anything, an overloaded address-of or comma operator of the element is never used.",
  ['inputs'], "every element type that has exactly the needed operations; the compiler instantiates each operation with the most demanding ones",
  "Whether an operation asks for more than it needs, or picks another constructor, depends on the element type; tests instantiate a few well-behaved ones.",
  SEQ + CYC + ['include/efp/prelude.hpp', 'include/efp/enum.hpp', 'include/efp/maybe.hpp', 'include/efp/concurrency.hpp', 'include/efp/sort.hpp'], [('element construction', 'include/efp/sequence.hpp: Array, ArrVec, detail::VectorBase; include/efp/cyclic.hpp; include/efp/enum.hpp: CopyCase, MoveCase'), ('traversals', 'include/efp/prelude.hpp')],
  ['own'], "each operation is instantiated with element types whose every unneeded member is deleted or missing; the program must be accepted by g++ and clang",
  "type-level witnesses decided by the compilers' type checkers", "The element types are archetypes: a dependence on something none of them lacks is not seen.",
  explanation="Programs that instantiate every operation with archetype elements (declared, never defined; everything unneeded deleted) are type-checked by g++ and clang against /repo's headers; nothing is executed. ",
  assumptions=["the compilers' type checkers are correct"], state='element type', observe='acceptance by the compiler')


def rec(id, title, statement, over, qtext, why, files):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [{'name': 'code', 'where': ', '.join(files)}], 'state': [{'name': 'values', 'meaning': 'values', 'where': files[0]}],
                        'observe_at': ['returned value'], 'hook_needed': None}}


NA = [
    {'record': rec('C37', "Statistics are accurate to rounding error",
                   "The floating-point results of the statistics and numeric functions differ from the exact value by no more than the rounding error of a textbook evaluation, also for large offsets and mixed magnitudes.",
                   ['inputs'], "every floating-point input", "Accuracy depends on magnitudes and cancellation in the data; tests compare a few values with a tolerance.",
                   ['include/efp/scientific.hpp', 'include/efp/numeric.hpp']),
     'reason': "a bound on accumulated rounding quantifies over the magnitudes of run-time values and the length; no sound static argument in reach bounds it (C32 decides the functions over the real numbers instead)"},
    {'record': rec('C38', "Values are rendered as the format specification says",
                   "Every number, character and text is rendered by the embedded formatting engine according to its format specification (width, precision, sign, base, shortest round-trip digits).",
                   ['inputs'], "every value and every specification", "The engine's digit generation depends on all bits of the value; tests sample a few.",
                   ['include/efp/fmt/format.h', 'include/efp/fmt/core.h', 'include/efp/fmt/format-inl.h']),
     'reason': "digit generation and specification parsing are computations over run-time values (big-number arithmetic, tables) whose correctness is not visible in the shape of the code; C36 decides the library's own part, what is handed to the engine and what is returned"},
]
