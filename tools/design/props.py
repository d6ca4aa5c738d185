D={}
D["C01"]="Oracle: `std::map<string,Value>` with tagged values, compared through every accessor (contains, keys, empty, all typed reads, const and non-const) after each step. Why beyond tests: a test fixes one history; replacing a value of another type, removing while iterating, hash growth, look-alike keys and stale copies need specific histories. `shrink` was added after a planted bug (`dict-remove-takes-neighbour`) survived: removal damage that only shows with many entries. Keys include look-alikes of every kind, histories insert and assign the dictionary's own entries, and bulk construction includes entries without content."
D["C02"]="Oracle: a tree of maps with value semantics; references obtained from the parent are kept and used later. Aliasing and snapshots are compared after each step through parent, child and copy. The operations include assigning a dictionary one of its own parts (a genuine defect found and fixed, see findings) and levels up to 60 deep and 1025 entries wide."
D["C03"]="Oracle: the expected outcome (value or the documented error type) of each access, and a deep comparison of the container and its reading position before and after a failing access. Covers Dictionary, TokenList, Input, Collection, Database, StencilDataBase. Content-less entries (`std::any{}`) are included since a planted bug (`dict-failed-lookup-inserts`) left one behind. `missing_shapes` asks for absent keys that look like paths, defaults or abbreviations of present ones."
D["C04"]="Oracle: a vector of tagged values plus a cursor. Copies taken mid-read are compared with their source. `own_tokens` inserts and assigns a list's own parts (a genuine defect found and fixed); `large` reads lists of up to 70000 tokens to the end."
D["C05"]="Oracle: the options written down once, spelled keyed and positional; a probe class reads them through `Input`. Every form (temporaries, named, re-read) must give the same settings and leave the caller's objects unchanged. A second build (`C05k`) drives the classes that are configured this way (interpolation, face gradient, divergence, laplacian, and operators built from sets of schemes) from both forms; schemes of its own, registered by the harness, read options from the input they are handed, so the chosen entry and the delivered values show; absent, mistyped and unknown options must be rejected, re-configuring takes the last input, and the caller's schemes stay as they were."
D["C06"]="Real `std::thread`s run document construction under the controlled scheduler of `mc/sched.cpp`: a switch is possible at every atomic access, at one-time initialisations and locks; all schedules within the preemption bound are run, each on fresh program statics, and every plain access is checked for races by vector clocks. Oracle: pairwise different ids. Tests can only run the host's schedule."
D["C07"]="Oracle: the validator itself applied to a mirrored map of the data. Validators include state-dependent ones (accept only if two entries agree), so copying a wrong validator or caching a verdict shows."
D["C08"]="Oracle: map id->content and insertion order; collections held directly, type-erased in `Collection` and inside a database; addresses of stored documents recorded and re-read."
D["C09"]="Oracle: map name->(type, content); addresses recorded. Names include the empty name and names that are prefixes of each other. Typed recovery is tried for every type through mutable and const access."
D["C10"]="Static registration happens at program start, in an order the linker chooses: the harness is five translation units linked in all 120 orders, each program then explores selections and lifetimes. Oracle: the list of classes written in the harness. One base has a single class, another more than twenty."
D["C11"]="As C10: catalogue (`BaseClassDocumentation`), per base tables and what can be created are compared for all 120 start-up orders. Some classes publish empty texts."
D["C12"]="Oracle: map with first-wins insertion; references are kept and edited. Sizes up to 1025 entries."
D["C13"]="Each macro is used as a single statement in 7 control-flow positions (unbraced if/else, loops, switch, lambda, ternary condition, …); conditions with side effects count evaluations. Five builds: release, debug, debug-info, and the MPI variants, where termination calls are stand-ins that record what was called. `view_empty` covers spans without elements; code that does not compile against a tree falls back to a reduced harness."
D["C14"]="Oracle: counters per index (each exactly once, none outside), a fold with a non-commutative trace to see joins, and prefix sums. Iteration orders and chunkings are enumerated completely for up to 4 iterations."
D["C15"]="Oracle: vector of values + executor per field; block accounting in the memory-space stand-in (each block freed exactly once, on its own executor; nothing left at the end); device blocks are poisoned for host accesses."
D["C16"]="Oracle: elementwise loop over copies taken beforehand; all entries distinct, so index mix-ups show; operand may be the target."
D["C17"]="Oracle: prefix sums of the lengths; every subview is written through and the whole storage re-read."
D["C18"]="Oracle: patch layout tables; every copy and transfer is compared componentwise and then edited to show independence."
D["C19"]="Every face of every generated mesh is walked: closure, owner<neighbour, volumes, centres, distances, reciprocal distances, patch membership."
D["C20"]="Oracle: independent weights from the mesh geometry; linear profiles must be exact; upwind for both signs and zero flux."
D["C21"]="All graphs on up to 4 cells with every orientation and face order, so every possible row shape occurs; the same structure code is also run with one controlled thread per iteration and every interleaving of its atomics within the delay bound. Meshes in which two cells share several faces are excluded: they have no unique matrix position per face."
D["C22"]="Oracle: face-by-face sums in long double, written independently of the library; results start from garbage, targets from known content."
D["C23"]="The assembled system is made dense and applied to the current field; the difference to the volume-weighted explicit evaluation (and to the reference of C22) must vanish. Calculated and empty patches give no implicit contribution by design and are excluded."
D["C24"]="Oracle: per-patch formulae; all other faces and all cells must stay bitwise the same; conditions are also made through the selection by name."
D["C25"]="Oracle: the algebra on coefficient vectors. Product of two coefficient fields may be refused (and is), it must never be silently wrong."
D["C26"]="Oracle: dense matrices assembled from the reference operators; answers of implicit systems come from a stand-in solver. Implicit steps are restricted to fixed-value and fixed-gradient conditions, since an extrapolated condition is lagged by design. Two known findings (below)."
D["C27"]="Oracle: map key->(name, indices, values) per collection; failing look-ups must change nothing."
D["C28"]="Oracle: per field a chain of levels. Namesakes in other collections, databases and of other value types are part of every history."
D["C29"]="Ranks are fibres on the MPI stand-in. Oracle: the value sent is a function of (sender, receiver, exchange, index); completion may be reported only if the stand-in has completed every transfer of the exchange. `large` and `tags_many` cover message sizes and tag counts beyond the usual limits."
D["C30"]="Oracle as C29 on field entries named by send/receive maps; entries outside the halo must not change. Programs of different ranks may start and finish exchanges in different orders; those that cannot terminate under MPI rules are pruned. Copying a communicator while exchanges are in flight is excluded."
D["C31"]="Oracle: fold of the contributions in the operation's own arithmetic; Maxloc/Minloc (pair types) and reductions of `char` (not an MPI arithmetic type) are excluded."
D["C32"]="Oracle: dense matrix. Rows carry their columns in every order, since the library's own sparsity patterns are not sorted. `huge_` covers systems with more entries than 16-bit offsets reach."
D["C33"]="A stand-in solver registered under its own name records matrix, right-hand side and settings; the system is applied to unit vectors and compared with the reference operators."
D["C34"]="Every kernel the finite-volume part runs in parallel is run in turn with one controlled thread per iteration, all interleavings of atomics within the delay bound, plus happens-before race detection on every plain access. Results are compared with the serial run up to the order of sums and the order in which atomics hand out matrix columns."
D["C35"]="Oracle: maximum of the ratios in long double; every face in turn dominates."

D["C36"]="Three builds, one per external library, each with a stand-in that keeps the library's documented ownership, memory-space and ordering rules (counted objects, host or device arrays, row index before column index) and a direct solver whose answer may be scaled so that it is the solver's own. Oracle: dense matrix and right-hand side row by row, the written-back answer bit for bit, settings as a tree; for steps the reference operators. Empty rows and singular systems are pruned. The stand-ins were written from the documentation; what they assume about the real libraries is listed in their headers."

D["C37"]="The faults are a value class whose n-th copy throws (every n), collection and factory classes whose constructor throws, validators, predicates and readers that throw: the container is compared with its state before, and the call is repeated. `own_branches` writes every branch of a three-level dictionary into every level of it. Oracle: the tree model of C02 and tagged values. Both parts found a genuine defect of `Dictionary::insert` (the entry was created before the value was copied), repaired."
D["C38"]="The repository's sources are compiled with thread instrumentation and linked against mc/sched.cpp instead of the sanitizer's run time: one thread runs at a time, the explorer decides who continues at every synchronising operation, and vector clocks report any conflict that is not ordered, so every pair of operations is decided for all timings. Oracle: the same operation alone on an equal object, and the readers' objects afterwards. Found one genuine race: destroying selected objects wrote a flag shared by all objects of the class; repaired."
