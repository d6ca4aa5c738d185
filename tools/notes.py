T0="exhaustive bounded exploration of the real code (stateless model checking of all operation sequences against a reference model)"
BASE="Every execution within the stated bounds runs the repository's own code (compiled from /repo, AddressSanitizer on) and is compared with an independent reference model; nothing is sampled. Trusted: the reference model in harness/, the explorer in mc/, the compiler. "
def n(i,t): NOTE[i]=BASE+t
n("C01","Histories up to 4 operations from empty (5 thorough), up to 2 from large contents, all pairs of 49 tricky keys and of 18 value kinds, sizes to 48 and 7 more up to 70000; entries written back from the dictionary itself.")
n("C02","Histories up to 4 over parent, child and grandchild plus snapshots, nesting to depth 60, 1025 entries per level.")
n("C03","Every container x requested type x access form, failing accesses mixed into histories up to length 3; 12 types with long or unusual names.")
n("C04","Histories up to 4 over two lists, every reading position and removal on lists up to 9, growth to 40, 12 sizes up to 70000.")
n("C05","Option lists up to 3 out of 17 types in both forms; the four configurable finite volume classes and operators built from scheme sets run on the Kokkos stand-in with harness-registered schemes; factory selection itself is C10.")
n("C07","All edit histories up to 3 over 8 validators; documents to 30 keys.")
n("C08","Histories up to 4 of 14 operations on three ways of holding a collection; growth to 60.")
n("C09","Histories up to 4 of 18 operations, sizes to 40 and 9 more up to 1025, names chosen to collide.")
n("C10","Registration is observed under all 120 link (program start-up) orders of five translation units.")
n("C11","As C10, over all 120 start-up orders.")
n("C12","Histories up to 4 of 16 operations on two caches; growth to 60 and 11 sizes up to 1025.")
n("C13","Five build configurations; cpptrace, Kokkos::abort and MPI_Abort are stand-ins that record the call.")
NA={}
n("C06","Threads: every schedule of the synchronising operations (atomics, one-time initialisation, locks) within the preemption bound, plus happens-before race detection on every access, over fresh program statics; no AddressSanitizer here.")
TECH["C06"]="stateless model checking of real threads under a controlled scheduler (all interleavings within a preemption bound) plus exhaustive operation histories"
KOK=BASE+"Kokkos itself is not installed: the repository's executors and kernels run on a stand-in (shim/kokkos) whose memory spaces are checked and whose iteration orders, chunkings and joins are enumerated. "
def k(i,t): NOTE[i]=KOK+t
TK="exhaustive bounded exploration of the real code: executors, iteration orders/chunkings of parallel kernels and input spaces are enumerated against a reference model"
for _i in range(14,29): TECH["C%02d"%_i]=TK
for _i in (32,33,35): TECH["C%02d"%_i]=TK
k("C14","All permutations and chunkings for ranges up to 4 iterations, fixed adversarial orders beyond (34 sizes up to 4097, thorough 65537); ranges, offsets, kernels and executors enumerated.")
k("C15","Histories up to 3 operations over three fields on three executors; block accounting and address poisoning of the wrong memory space; 34 larger sizes.")
k("C16","Every operation x value type x sizes 0..4 x executors x orders, aliased operands, special values and 34 larger sizes; release and debug builds.")
k("C17","All interval lists with up to 5 segments of length 0..3, all orders; caller-given offsets that do not cover the storage; 34 larger sizes.")
k("C18","13 meshes' worth of patch layouts, all copies and transfers between executors, histories up to 3.")
k("C19","All uniform meshes to 24 cells and 34 larger ones up to 65537, hand-made meshes; topology walked face by face.")
k("C20","13 meshes (plus a skewed one) in six length scales, all histories of meshes made, copied, moved and destroyed in two places, x flux sign patterns x value types x schemes x executors x orders.")
k("C21","All graphs on up to 4 cells with every orientation and face order, larger rings and stars, all histories of meshes made, copied, moved and destroyed in two places; the concurrent variant runs the iterations of one kernel at a time as controlled threads and explores every interleaving of their atomics up to the delay bound. Meshes in which two cells share several faces are excluded (they have no unique matrix position per face).")
TECH["C21"]="exhaustive enumeration of small mesh graphs plus stateless model checking of the concurrent kernels under a controlled scheduler"
k("C22","13 meshes (plus a skewed one) x face flux sign patterns x four coefficient kinds x schemes x value types x executors x orders, results with earlier content, several terms into one target.")
k("C23","The assembled matrix is made dense and applied; 10 meshes x boundary condition assignments x flux signs x coefficients x schemes; several operators into one pre-filled system. Calculated and empty patches give no implicit contribution and are excluded.")

k("C24","10 meshes x boundary condition assignments x value types x executors x orders; configurations that must be refused; copies and re-corrections.")
k("C25","8 terms x 8 scalings; all pairs, triples and quadruples of the form (a op b) op (c op d), histories up to 2 (3 thorough) on two expressions including an expression combined with itself; coefficient algebra over six coefficients. A product of two fields may be refused but must never be wrong.")
k("C28","Histories of time steps and old-time requests to depth 3 levels on registered fields, over value types and executors.")
k("C27","Histories of registrations, look-ups and edits on field collections in a database, over executors; wrong requests must be refused.")

k("C26","Three explicit and two implicit steps on up to 7 meshes x boundary conditions x all term sets; histories of 4 (5 thorough) steps on two unknowns; a stand-in linear solver (elimination, registered by name) answers implicit systems. Two known findings: the explicit scheme drops implicit terms and ignores a factor of the time derivative.")
k("C32","All matrices of up to 2 rows (a third of / all 3-row ones in quick / thorough) with every ordered selection of columns per row, larger shapes to 7 rows; release and debug builds.")
k("C33","A stand-in linear solver registered by name records the system it is given, which is applied to every unit vector; 4 (9 thorough) meshes x conditions x all sets of up to 3 (4) of 7 terms.")
k("C35","14 meshes, every face dominating, all patterns of flux values on the first faces, all orders and chunkings of one kernel at a time.")
k("C34","Each iteration of one kernel at a time is a controlled thread; every interleaving of its atomics up to the preemption bound, with happens-before race detection on every access, on meshes with colliding faces. Results are compared with the serial run up to the order of sums and of matrix columns.")
TECH["C34"]="stateless model checking of the real kernels: iterations as threads under a controlled scheduler, all interleavings within a preemption bound, plus race detection"
MPI=BASE+"No MPI is installed: the repository's message layer runs on a stand-in (shim/fakempi) whose ranks are fibres and whose rank switches, poll answers and completion times are enumerated. "
def m(i,t): NOTE[i]=MPI+t; TECH[i]="stateless model checking of real message-passing code: all rank schedules, completion orders and poll answers within bounds on a stand-in message layer"
m("C29","All message size matrices on up to 3 ranks, eager and rendezvous transfers, reuse histories over value types; release and debug builds.")
m("C30","All histories of up to three named exchanges on up to 3 ranks, in every start/complete/finalise order. One known finding: names whose hashed tags collide. Copying a communicator with exchanges in flight is excluded.")
m("C31","All operations and value types supported, contributions on up to 3 ranks, all provided thread levels; three build configurations. Maxloc/Minloc and char reductions are excluded.")
k("C36","SUNDIALS, PETSc and Ginkgo are not installed: the library's adapters are compiled against stand-ins (shim/sundials, shim/petsc, shim/ginkgo) that record what they are given and answer something only they know. All matrices of up to 2 rows (a quarter of / all 3-row ones) with every ordered selection of columns, histories of 4 (5) solves, steps, copies, moves and destructions. Ginkgo on a device is excluded (not mapped by the library).")
TECH["C36"]="stateless model checking of the real adapters: all small systems, settings and histories of solver and integrator objects against recording stand-ins"

n("C37","Every copy of a value (up to the sixth) and every constructor, validator and predicate call can be the one that fails; lists to 5 tokens, three-level dictionaries, collections to 3 documents. Memory exhaustion inside the standard library is not injected.")
TECH["C37"]="stateless model checking with fault injection: every failure point of every operation that stores or reads values, against a reference model"
n("C38","All pairs of 12 dictionary reads, 22 reads of the other containers, 16 changes of separate copies and 10 selection operations over 12 pairs of bases by two threads (thorough: triples of dictionary reads); deviations bounded to 2-3 (4-5) preemptions at synchronising operations. Happens-before race detection covers what GCC instruments; writes inside the shared C++ library are not seen. Reading positions of token lists (next) count as changes. std::cerr and std::cout are exempt.")
TECH["C38"]="stateless model checking of real threads under a controlled scheduler with happens-before race detection on every schedule"
