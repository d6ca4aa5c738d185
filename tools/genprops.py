#!/usr/bin/env python3
"""Single source of the property list; writes /verif/properties.jsonl."""
import json, os
P=[]
I="include/NeoFOAM/"
def p(id,title,stmt,over,q,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","A dictionary behaves as a typed key-value map under every history",
"After any sequence of insertions, overwrites, removals, element assignments, copies, moves and bulk construction, a dictionary holds exactly the keys and typed values that the same sequence leaves in a plain map: membership, key listing, emptiness and every typed read agree with it. A later insertion replaces the value (and its type) of an earlier one under the same key, removing an absent key changes nothing, and reading never changes the content. Copies are independent of their source.",
["histories","inputs"],"all operation histories over colliding keys and several value types, from every reachable state",
"dictionary tests run one fixed insert/get/remove script per feature; they do not chain overwrite-with-other-type, remove, copy and reinsertion.",
[I+"core/dictionary.hpp","src/core/dictionary.cpp"],[("key to type-erased value map","src/core/dictionary.cpp"),("typed access through any_cast",I+"core/dictionary.hpp")],["contains","get","keys","empty","remove","operator[]"])
p("C02","Nested dictionaries alias in place and copy by value",
"A sub-dictionary obtained from a dictionary is the stored one: edits through it are seen by every later read of the parent, at any nesting depth. A copy of the parent, or of the sub-dictionary, taken at any moment is a snapshot: no later edit on one side is visible on the other. A key is reported as a dictionary exactly when it is present and holds one.",
["histories"],"all histories of nested edits, snapshots, replacements and removals up to a depth over two nesting levels",
"tests build one nested dictionary and read it; they never edit after copying or snapshot between edits.",
[I+"core/dictionary.hpp","src/core/dictionary.cpp"],[("subDict returns the stored object by reference","src/core/dictionary.cpp"),("isDict","src/core/dictionary.cpp")],["subDict","isDict","copy construction and assignment"])
p("C03","A failed access is always reported and changes nothing",
"Reading a missing key, index, document or collection, or reading a present one as another type, always raises an error of the documented kind and never returns a value. The failing call leaves the container, including any read cursor, exactly as it was, so that the program can recover and continue. No successful access is ever reported as failed.",
["histories","inputs"],"every container, every reachable content, every missing/mistyped request, followed by continued use",
"tests check a few throws, never the state after the throw, nor each container with each wrong type.",
[I+"core/dictionary.hpp","src/core/dictionary.cpp",I+"core/tokenList.hpp","src/core/tokenList.cpp",I+"core/database/database.hpp","src/core/database/database.cpp",I+"core/database/collection.hpp",I+"finiteVolume/cellCentred/stencil/stencilDataBase.hpp"],
[("out_of_range on a missing entry","src/core/dictionary.cpp"),("bad_any_cast with diagnostics on a wrong type",I+"core/tokenList.hpp"),("at()/as() checks","src/core/database/database.cpp")],["get","next","popFront","at","as","subDict","operator[]"])
p("C04","Token lists deliver their tokens in order exactly once",
"A token list yields its tokens in insertion order with their original types: the sequential reader returns each token once, in order, and fails once the list is exhausted; taking from the front removes and returns exactly the first token; removal deletes exactly the addressed token and keeps the order of the rest. A failed typed read consumes nothing. Copies, including the reading position, evolve independently of the original.",
["histories","inputs"],"all histories of construction, append, remove, sequential read, front removal, indexed read and copy over short lists of mixed types",
"no test of token lists is in the suite that runs; the ones in other suites use one list and one read order.",
[I+"core/tokenList.hpp","src/core/tokenList.cpp"],[("cursor advanced only after a successful cast",I+"core/tokenList.hpp"),("erase-based removal","src/core/tokenList.cpp")],["next","popFront","get","remove","size","empty","tokens"])
p("C05","Options read the same from keyed and positional input",
"An object configured from user input gets the same settings whether the input is keyed or positional, as long as both spell the same options; the form chosen never changes which factory entry is selected or which values it receives. Input that lacks an option is rejected rather than defaulted, and reading keyed input leaves the caller's dictionary unchanged.",
["inputs","configurations"],"all option assignments and both input forms, and each missing/mistyped option",
"a single example of each form is tested, independently.",
[I+"core/input.hpp",I+"core/tokenList.hpp",I+"core/dictionary.hpp",I+"finiteVolume/cellCentred/operators/divOperator.hpp",I+"finiteVolume/cellCentred/operators/laplacianOperator.hpp",I+"finiteVolume/cellCentred/interpolation/surfaceInterpolation.hpp",I+"finiteVolume/cellCentred/faceNormalGradient/faceNormalGradient.hpp"],[("variant dispatch of read",I+"core/input.hpp"),("scheme selected from either form",I+"finiteVolume/cellCentred/operators/divOperator.hpp"),("operator built from its scheme entry",I+"finiteVolume/cellCentred/operators/laplacianOperator.hpp")],["read<T>(input)","Factory::create(exec, mesh, input)","build(input)"])
p("C06","Every document has its own identity",
"Documents created without an explicit id receive pairwise different ids, no matter how many are created, destroyed or created concurrently from several threads. Copying or moving a document, or changing its data, keeps its id, and an id supplied by the user is kept verbatim.",
["schedules","histories"],"all interleavings of two or three threads creating documents, and all create/copy/assign/move/edit histories",
"tests create a handful of documents in one thread.",
[I+"core/database/document.hpp","src/core/database/document.cpp"],[("atomic id counter",I+"core/database/document.hpp"),("id inserted on construction","src/core/database/document.cpp")],["id","keys","get"],[("doc counter","source of fresh ids",I+"core/database/document.hpp")])
p("C07","A document is only ever accepted if its validator accepts it",
"Constructing a document from data that its validator rejects fails, so no invalid document comes into being that way. After any edit, explicit validation succeeds exactly when the document's own validator accepts its current content, and reports failure by an error. Copies carry the validator with them.",
["histories","inputs"],"all subsets of required keys at construction, times edit histories, times copies, for default and custom validators",
"one accepting and one rejecting validator are tested on fixed data.",
[I+"core/database/document.hpp","src/core/database/document.cpp"],[("validate in constructor","src/core/database/document.cpp"),("stored validator function",I+"core/database/document.hpp")],["Document constructors","validate"])
p("C08","A collection stores each document under its id and finds all matches",
"At any point of any history, a collection holds exactly the documents inserted, each retrievable unchanged by its id; a second insertion under an existing id is refused and leaves the first in place. A search returns exactly the ids whose documents satisfy the predicate, each once; size and the sorted key list agree with the content. References to stored documents stay valid while further documents are added.",
["histories","inputs"],"all insert/find/edit/lookup histories over colliding ids, and all predicates over the content",
"tests insert a few distinct documents and search one key.",
[I+"core/database/collection.hpp","src/core/database/collection.cpp"],[("id-indexed node map",I+"core/database/collection.hpp"),("predicate scan",I+"core/database/collection.hpp")],["insert","find","doc","docs","size","sortedKeys"])
p("C09","The database keeps one stable, correctly typed collection per name",
"At any point of any history the database holds exactly one collection per inserted and not removed name; inserting under an existing name keeps and returns the existing collection with its content. A collection can be recovered only as the type it was stored as, stays at a stable address while other collections come and go, and knows its own name, type and database. Removal reports whether something was removed.",
["histories"],"all insert/re-insert/remove/lookup/typed-recovery histories over colliding names and several collection types",
"tests use one or two names and no re-insertion or removal interplay.",
[I+"core/database/database.hpp","src/core/database/database.cpp",I+"core/database/collection.hpp","src/core/database/collection.cpp"],[("try_emplace","src/core/database/database.cpp"),("type erasure with checked cast",I+"core/database/collection.hpp")],["insert","at","remove","contains","size","as"])
p("C10","Runtime selection builds exactly the requested class",
"Every class registered with a selectable base can be created by its published name through that base, yields an object of exactly that class, and receives the creation arguments unchanged and in order. This holds whatever the order in which registrations happen during program start and however many bases, signatures and template instances coexist; a name of one base never resolves in another. Requesting an unknown name never returns an object and names the available alternatives.",
["configurations","programs","inputs"],"all registration orders, bases, signatures, names and argument values",
"one link order, two derived classes and valid names only are exercised.",
[I+"core/runtimeSelectionFactory.hpp"],[("static registration through a function-local table",I+"core/runtimeSelectionFactory.hpp"),("keyExistsOrError",I+"core/runtimeSelectionFactory.hpp")],["create","entries","size","keyExistsOrError"])
p("C11","The catalogue of selectable classes is complete and accurate",
"For every selectable base the published catalogue lists exactly the registered classes, each once, with the documentation and schema text that the class itself publishes, under the base's own name. The catalogue agrees with what can be created and is the same for every registration order.",
["configurations","programs"],"all registration orders and sets of bases and classes",
"tests read documentation for a fixed pair of classes in the one link order built.",
[I+"core/runtimeSelectionFactory.hpp"],[("documentation table filled at registration",I+"core/runtimeSelectionFactory.hpp")],["BaseClassDocumentation::doc","schema","entries","size","docTable"])
p("C12","A mesh's stencil cache returns the first cached object for a name",
"Whatever the history of insertions and lookups, a cached entry is returned for its name with its original type and content, a later insertion under the same name does not replace it, and edits through a returned reference are seen by all later lookups. Names that were never inserted are reported as absent.",
["histories"],"all insert/contains/get/edit histories over colliding names and types",
"no running test touches the cache.",
[I+"finiteVolume/cellCentred/stencil/stencilDataBase.hpp","src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"],[("emplace into name map",I+"finiteVolume/cellCentred/stencil/stencilDataBase.hpp")],["insert","contains","get","operator[]"])
p("C13","Assertions and bounds checks fire exactly on violations",
"Each assertion, comparison check and error report stops or throws if and only if its condition is violated, evaluates its condition once, carries the caller's message and location, and behaves as a single statement in any control flow. Debug-only checks have no effect in release builds, and in debug builds every out-of-range view access, and no in-range one, is detected with the first offending index.",
["inputs","configurations"],"all conditions, operand pairs, enclosing control flow shapes, debug/release builds, view sizes and indices",
"tests never build the debug configuration and do not execute failing checks.",
[I+"core/error.hpp",I+"core/view.hpp",I+"core/info.hpp"],[("assert and throw macros",I+"core/error.hpp"),("checked subscript",I+"core/view.hpp")],["NF_ASSERT*","NF_THROW","NF_ERROR_EXIT","View::operator[]"])
p("C14","Parallel algorithms equal their sequential meaning on every executor",
"For every executor, range and kernel, a parallel loop applies the kernel to each index of the range exactly once and to no other index; a parallel reduction returns the fold of all contributions; a parallel scan delivers every prefix and the correct total. The result does not depend on the executor, on how iterations are split and interleaved, or on an empty or offset range.",
["schedules","inputs","configurations"],"all executors, ranges up to a size, all chunkings, iteration orders and combination orders",
"tests run one size with the backend's fixed schedule.",
[I+"core/parallelAlgorithms.hpp",I+"fields/fieldFreeFunctions.hpp"],[("serial loop or range policy dispatch",I+"core/parallelAlgorithms.hpp")],["parallelFor","parallelReduce","parallelScan","map","fill","setField"])
p("C15","Fields own their data: copies, resizes and transfers are faithful",
"Any history of constructing, copying, assigning, moving, resizing, filling and transferring fields between executors leaves every live field with exactly the size, values and executor that the history defines, and no field ever shares storage with another. All storage is allocated and released exactly once on the executor that owns it, and device storage is never touched from the host directly.",
["histories","configurations"],"all histories over up to three fields, sizes 0..3 and executor pairs",
"tests perform isolated copies for a few sizes and cannot see leaks, aliasing or host access to device memory.",
[I+"fields/field.hpp",I+"core/executor/serialExecutor.hpp",I+"core/executor/CPUExecutor.hpp",I+"core/executor/GPUExecutor.hpp"],[("alloc/realloc/free per executor",I+"fields/field.hpp"),("cross-executor deep copy",I+"fields/field.hpp")],["copyToHost","copyToExecutor","resize","operator=","view"])
p("C16","Field arithmetic is elementwise, complete and executor independent",
"Every arithmetic field operation, compound or binary, with fields, scalars or mixed value types, yields at each index the operation applied to the operands at that index, leaves its read-only operands unchanged and agrees between executors. Operands of different size are rejected; an operand may be the target itself.",
["inputs","configurations","schedules"],"all operations, operand aliasings, value types, sizes and executor kinds",
"tests use one uniform field value so index mix-ups are invisible, and no self-operands.",
[I+"fields/field.hpp",I+"fields/fieldFreeFunctions.hpp",I+"fields/operations/sum.hpp",I+"core/primitives/vector.hpp"],[("elementwise kernels",I+"fields/fieldFreeFunctions.hpp")],["operator+=,-=,*=","add/sub/mul","sum","equal"])
p("C17","Segmented fields partition their storage without gap or overlap",
"A segmented field built from interval lengths has segments that are contiguous, disjoint, in order and of exactly the requested lengths, and together cover the whole value storage; empty segments are allowed anywhere. Each segment view and bound refers to exactly that part of the storage, on every executor and for every execution order.",
["inputs","schedules"],"all length vectors up to a bound, all executors and scan schedules",
"one length vector is tested.",
[I+"fields/segmentedField.hpp"],[("prefix sum of lengths",I+"fields/segmentedField.hpp")],["segmentsFromIntervals","SegmentedFieldView::view/bounds/range","size","numSegments"])
p("C18","Boundary and domain fields copy and describe themselves consistently",
"Boundary data laid out by patch offsets has one entry per boundary face in every component, and the range of each patch is the slice its offsets describe. Copies, including copies to another executor, hold equal data, report the executor they live on, and are independent of their source.",
["inputs","configurations","histories"],"all offset layouts up to a bound, executor pairs, and edit-after-copy histories",
"tests use one layout and compare sizes mostly.",
[I+"fields/boundaryFields.hpp",I+"fields/domainField.hpp",I+"finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp"],[("offset table",I+"fields/boundaryFields.hpp"),("executor converting copy",I+"fields/boundaryFields.hpp")],["value/refValue/...","exec","range","patchStart/patchEnd"])
p("C19","Generated meshes are geometrically and topologically consistent",
"Every mesh the library generates is closed: for each cell the outward face areas sum to zero, volumes are positive and add up to the domain, every internal face has an owner lower than its neighbour, and every boundary face belongs to exactly one patch and to the cell it touches. Face centres, areas, cell-to-face distances and their reciprocals agree with each other, for every mesh size and executor.",
["inputs","configurations"],"all cell counts up to a bound on every executor",
"tests use one cell count and check sizes.",
[I+"mesh/unstructured/unstructuredMesh.hpp","src/mesh/unstructured/unstructuredMesh.cpp",I+"mesh/unstructured/boundaryMesh.hpp","src/mesh/unstructured/boundaryMesh.cpp"],[("mesh generators","src/mesh/unstructured/unstructuredMesh.cpp")],["UnstructuredMesh and BoundaryMesh accessors"])
p("C20","Interpolation to faces is bounded, exact and direction-correct",
"Interpolation weights lie between zero and one, reproduce constants, and on any consistent mesh reproduce linear profiles exactly; the upwind scheme always takes the value of the upstream cell for either flow direction and zero flow. Boundary faces take the boundary value. The result covers every face and does not depend on executor or execution order.",
["inputs","schedules","configurations"],"all small meshes (non-uniform included), field alphabets, flux signs and schedules",
"one uniform mesh with a uniform field cannot distinguish owner from neighbour.",
["src/finiteVolume/cellCentred/interpolation/linear.cpp","src/finiteVolume/cellCentred/interpolation/upwind.cpp","src/finiteVolume/cellCentred/stencil/basicGeometryScheme.cpp","src/finiteVolume/cellCentred/stencil/geometryScheme.cpp","src/finiteVolume/cellCentred/faceNormalGradient/uncorrected.cpp"],[("distance weights","src/finiteVolume/cellCentred/stencil/basicGeometryScheme.cpp"),("face kernels","src/finiteVolume/cellCentred/interpolation/linear.cpp")],["interpolate","weights","deltaCoeffs","faceNormalGrad"])
p("C21","Matrix sparsity and cell-face stencils describe the mesh exactly",
"For every mesh connectivity, the matrix structure has one diagonal entry per cell and exactly one entry for each ordered pair of adjacent cells, each addressable from its face without collision; the cell-to-face stencil lists for each cell exactly its faces. This holds for every order and interleaving in which faces are processed in parallel, and the structure is cached per mesh.",
["inputs","schedules"],"all small face lists (connectivities) and all iteration interleavings",
"tests use one 1D mesh in face order.",
["src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp",I+"finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp","src/finiteVolume/cellCentred/stencil/cellToFaceStencil.cpp"],[("atomic slot allocation per row","src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp")],["rowPtrs","colIdxs","ownerOffset","neighbourOffset","diagOffset","computeStencil"])
p("C22","Explicit finite-volume operators are conservative and consistent",
"Divergence, gradient, Laplacian, surface integral and source terms deliver in each cell the (scaled) net face contribution per volume: what leaves one cell through an internal face enters its neighbour, constants have zero gradient and Laplacian, and diffusivity and scaling coefficients enter proportionally. A term added to a given target adds exactly its own contribution; a direct evaluation returns a result that owes nothing to earlier content. The outcome is the same on every executor.",
["inputs","configurations","schedules"],"all small meshes, flux/field/coefficient alphabets and executors",
"tests check uniform fields whose result is zero, which hides missing factors.",
["src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp","src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp","src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp","src/finiteVolume/cellCentred/operators/surfaceIntegrate.cpp","src/finiteVolume/cellCentred/operators/sourceTerm.cpp"],[("owner add / neighbour subtract","src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp")],["explicitOperation","div","grad","laplacian"])
p("C23","Implicit and explicit forms of an operator agree",
"For each operator offered in both forms, the assembled linear system applied to the current field minus its right-hand side equals the volume-weighted explicit evaluation, for every mesh, coefficient and scaling and every boundary condition that prescribes a value or gradient or extrapolates. Assembling several operators into one system adds their contributions and never disturbs what was there.",
["inputs","configurations"],"all small meshes, boundary type combinations, flux signs, scalings and operator sets",
"tests never compare the two forms on non-trivial data.",
["src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp","src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp","src/finiteVolume/cellCentred/operators/sourceTerm.cpp","src/finiteVolume/cellCentred/operators/ddtOperator.cpp"],[("matrix assembly kernels","src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp")],["implicitOperation","explicitOperation"])
p("C24","Boundary conditions set exactly their own patch",
"Applying boundary conditions gives every face of a fixed-value patch its value, of a fixed-gradient patch the adjacent cell value plus gradient times distance, of an extrapolated patch the adjacent cell value, and leaves calculated and empty patches, all other patches and all cell values untouched. Reapplying changes nothing, copies of a field keep their conditions, and conditions are selected by name from the settings.",
["inputs","configurations","schedules"],"all assignments of condition types to patches, patch sizes, field data and executors",
"tests use one type on all patches at a time with uniform data.",
[I+"finiteVolume/cellCentred/boundary/volume/fixedValue.hpp",I+"finiteVolume/cellCentred/boundary/volume/fixedGradient.hpp",I+"finiteVolume/cellCentred/boundary/volume/extrapolated.hpp",I+"finiteVolume/cellCentred/boundary/surface/fixedValue.hpp",I+"finiteVolume/cellCentred/fields/volumeField.hpp",I+"finiteVolume/cellCentred/fields/surfaceField.hpp"],[("patch range kernels",I+"finiteVolume/cellCentred/boundary/volume/fixedValue.hpp")],["correctBoundaryConditions"])
p("C25","Equation expressions evaluate as the algebra they spell",
"An expression built by any combination of adding, subtracting, scaling by numbers, fields or expressions of them, and copying operator terms evaluates, explicitly and implicitly, to the same combination of the terms' own results; each term is counted once, in the role (explicit, implicit, temporal) it was created in. Building and evaluating an expression does not alter the terms, and copies evaluate identically.",
["programs","inputs"],"all expression trees up to a depth over the term kinds and coefficient kinds",
"tests check a handful of hand-written expressions.",
[I+"dsl/expression.hpp",I+"dsl/coeff.hpp","src/dsl/coeff.cpp",I+"dsl/spatialOperator.hpp",I+"dsl/temporalOperator.hpp",I+"dsl/operator.hpp"],[("operator lists per role",I+"dsl/expression.hpp"),("coefficient product",I+"dsl/coeff.hpp")],["operator+,-,*","explicitOperation","implicitOperation"])
p("C26","A time step applies the selected scheme to all terms exactly once",
"Advancing by one step with the explicit scheme adds the step size times the negated sum of all terms to the previous solution, and with the implicit scheme solves the system that the scheme defines for all terms, explicit sources included; then the boundary values are consistent with the new solution. Repeating steps equals composing them, whichever registered scheme the settings select, and the solution kept as previous for the next step is the one this step produced.",
["histories","configurations","inputs"],"all schemes, step histories up to a bound and term sets",
"tests perform a single step with one trivial source.",
[I+"timeIntegration/forwardEuler.hpp",I+"timeIntegration/backwardEuler.hpp",I+"timeIntegration/timeIntegration.hpp",I+"dsl/solver.hpp"],[("scheme selection by name",I+"timeIntegration/timeIntegration.hpp"),("step kernels",I+"timeIntegration/forwardEuler.hpp")],["solve"])
p("C27","Registered fields are found under exactly one key with their metadata",
"A field registered with a database collection is stored once with its name and time, iteration and sub-cycle indices, can be retrieved from the database by its key, and knows its own key, collection and database; collections of fields obtained by name are created once and shared. Registering under an existing key is refused without changing what is stored.",
["histories"],"all register/insert/lookup histories over colliding names and collections",
"tests register one or two fields.",
[I+"core/database/fieldCollection.hpp","src/core/database/fieldCollection.cpp"],[("instance/registerField",I+"core/database/fieldCollection.hpp")],["registerField","insert","doc","instance"])
p("C28","Old-time fields form one chain per field",
"Asking for the previous-time level of a registered field returns the same stored field every time, creates it on first use as a copy of the current field with the previous time index, and repeats for older levels; levels of different fields never mix. Read-only requests never create levels, and a level's data changes only when explicitly assigned.",
["histories"],"all histories of old-time requests, assignments and registrations over two fields and three levels",
"tests walk one chain once.",
[I+"core/database/oldTimeCollection.hpp","src/core/database/oldTimeCollection.cpp"],[("previous/next links per document","src/core/database/oldTimeCollection.cpp")],["oldTime","OldTimeCollection lookups"])
p("C29","Point-to-point buffers deliver every value once, whatever completes when",
"For every pattern of messages between ranks and every order and delay in which transfers complete, after completion each rank's receive buffer for each peer holds exactly the values that peer loaded for it, with the type and count announced, and no value is lost, duplicated or misrouted. Completion is reported only when all transfers of the exchange are complete, a buffer can be reused for other names, types and sizes after release, and debug builds refuse misuse of a buffer that is communicating.",
["schedules","histories","configurations"],"all small message-size matrices, completion orders, poll answers, type sequences and reuse histories",
"the MPI tests cannot run here; where they do, completion order is whatever the machine produced.",
[I+"core/mpi/halfDuplexCommBuffer.hpp","src/core/mpi/halfDuplexCommBuffer.cpp",I+"core/mpi/fullDuplexCommBuffer.hpp",I+"core/mpi/operators.hpp"],[("request set polled for completion","src/core/mpi/halfDuplexCommBuffer.cpp")],["initComm","get","send","receive","isComplete","waitComplete","finaliseComm"])
p("C30","Halo exchange updates exactly the halo, for all concurrent exchanges",
"After a field exchange is finalised, every halo entry of the field holds the value its owning rank had when the exchange started and all other entries are unchanged. Any number of named exchanges may be in flight at once and may complete and be finalised in any order; they never affect each other, and their buffers are reused afterwards.",
["schedules","histories"],"all start/finalise histories of up to three named exchanges, completion orders, rank counts up to three",
"at most one exchange is in flight in the tests, which cannot run here.",
[I+"mesh/unstructured/communicator.hpp","src/mesh/unstructured/communicator.cpp"],[("buffer pool with stable addresses",I+"mesh/unstructured/communicator.hpp")],["startComm","isComplete","finaliseComm"])
p("C31","Collective reductions and the parallel environment agree on all ranks",
"A reduction over ranks leaves on every rank the mathematically reduced value of all contributions, component by component for vectors, for each supported value type and operation. The parallel environment initialises and finalises the message layer exactly once, demands adequate thread support, and reports a rank and size consistent with its communicator.",
["configurations","inputs"],"all operations, value types, rank counts up to three, contribution vectors and provided thread levels",
"needs a message layer, which the running suite lacks.",
[I+"core/mpi/operators.hpp",I+"core/mpi/environment.hpp"],[("type and operation mapping",I+"core/mpi/operators.hpp"),("RAII environment",I+"core/mpi/environment.hpp")],["reduceAllScalar","MPIInit","MPIEnvironment"])
p("C32","Sparse matrices and linear systems keep structure and values together",
"A sparse matrix returns for each stored position exactly the stored value and lets it be updated in place; copies and transfers to another executor preserve structure, values and right-hand side and report the executor they live on. Products and residuals computed from a system equal those of the dense matrix it represents, and a system converted to another value or index type represents the same equations.",
["inputs","configurations","histories"],"all small sparsity structures, access histories and executor pairs",
"tests read one fixed matrix.",
[I+"linearAlgebra/CSRMatrix.hpp",I+"linearAlgebra/linearSystem.hpp",I+"finiteVolume/cellCentred/dsl/expression.hpp"],[("row offset and column index arrays",I+"linearAlgebra/CSRMatrix.hpp")],["entry","copyToExecutor","copyToHost","view","convert"])
p("C33","Steady problems are solved through the selected solver on the full system",
"Solving a steady equation hands the selected linear solver the complete system, implicit contributions as matrix and explicit contributions as right-hand side with the documented sign and volume weighting, together with the caller's solver settings, and stores the solver's answer in the solution field, whose boundary values are then consistent with it. The solver named in the settings is the one used; empty equations and unknown solver names are rejected.",
["configurations","inputs"],"all term sets, coefficient signs and registered solvers",
"tests need an external solver and one equation.",
[I+"dsl/solver.hpp",I+"linearAlgebra/solver.hpp",I+"dsl/expression.hpp"],[("solver selection by name",I+"linearAlgebra/solver.hpp"),("system assembly",I+"dsl/solver.hpp")],["solve"])
p("C34","No parallel kernel loses or duplicates an update under any interleaving",
"Whatever the interleaving of the iterations of any kernel the library runs in parallel, the outcome equals that of running them one after the other, up to reordering of commutative sums: two iterations that contribute to the same cell, row or matrix entry both take effect. No iteration reads a location while another iteration of the same kernel may be writing it without atomicity.",
["schedules"],"all interleavings (to a preemption bound) of the iterations of each kernel on meshes that force collisions",
"data races need a specific interleaving; tests run tiny meshes without colliding boundary faces and on the host's lucky schedule.",
["src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp","src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp","src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp","src/finiteVolume/cellCentred/operators/surfaceIntegrate.cpp","src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp","src/finiteVolume/cellCentred/stencil/cellToFaceStencil.cpp","src/finiteVolume/cellCentred/auxiliary/coNum.cpp"],[("atomic accumulation","src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp")],["results of the kernels"])
p("C35","The reported Courant number is the true maximum over all cells",
"The Courant number reported for a face flux and time step is half the step size times the largest ratio of summed absolute face flux to cell volume over all cells, boundary faces included; it is never negative and is independent of flux direction, executor and execution order.",
["inputs","configurations","schedules"],"all flux sign/magnitude patterns on small meshes, executors and reduction orders",
"one flux field is tested.",
["src/finiteVolume/cellCentred/auxiliary/coNum.cpp"],[("flux accumulation and max reduction","src/finiteVolume/cellCentred/auxiliary/coNum.cpp")],["computeCoNum"])
p("C36","External integrator and solver back ends see the library's data faithfully",
"Data handed to an external time integrator or linear solver represents exactly the library's equation and solution, element by element and row by row, and the external result is written back to the solution unchanged. Solver and integrator objects can be copied and reused for further steps without touching released resources.",
["histories","configurations"],"all small systems and step histories, for every supported back end",
"the back ends are not available in this build; their tests use symmetric systems.",
[I+"timeIntegration/sundials.hpp",I+"timeIntegration/rungeKutta.hpp","src/timeIntegration/rungeKutta.cpp",I+"linearAlgebra/petscSolverContext.hpp",I+"linearAlgebra/petsc.hpp",I+"linearAlgebra/ginkgo.hpp","src/linearAlgebra/ginkgo.cpp"],[("vector conversion",I+"timeIntegration/sundials.hpp"),("coordinate export",I+"linearAlgebra/petscSolverContext.hpp")],["solve"])
p("C37","Writes and constructions take full effect or none, and take their value first",
"An insertion, assignment, removal from the front, copy, bulk construction, document insertion, collection creation or object creation that fails part way, because copying a value, a validator, a predicate or a constructor fails, reports that failure and leaves every container, reading position, registry and cache exactly as it was, so that the same call can simply be repeated. A value that is a part of the container it is written to, or that contains that container, is stored as it was when the call was made.",
["fault_sequences","histories"],"every point at which copying a value or constructing an object can fail, in every operation that stores or reads values; every branch of a nested dictionary written into every level of it",
"tests store values whose copies never fail and never write a container's own content back into it.",
["src/core/dictionary.cpp",I+"core/dictionary.hpp","src/core/tokenList.cpp",I+"core/tokenList.hpp","src/core/database/document.cpp","src/core/database/database.cpp",I+"core/database/collection.hpp",I+"core/runtimeSelectionFactory.hpp",I+"core/input.hpp",I+"finiteVolume/cellCentred/stencil/stencilDataBase.hpp"],
[("copy before the entry is created","src/core/dictionary.cpp"),("copy, then swap",I+"core/dictionary.hpp"),("copy before removal in popFront",I+"core/tokenList.hpp"),("emplacement of documents and collections","src/core/database/database.cpp")],["insert","operator=","copy construction","popFront","next","Document","Database::insert","create","read"])
p("C38","Concurrent reading and changes of separate objects do not interfere",
"Any number of threads may read the same dictionary, token list, document, database, collection or stencil cache at once, list, describe and construct run-time selectable classes at once, and change separate objects (also copies of one another) at once. Each gets exactly what it would get alone, whether the objects were used before or not, and no thread touches memory another one is changing without synchronisation.",
["schedules","histories"],"all pairs of reading, changing and selecting operations by two threads, in every order of their synchronising steps, on fresh and on used objects",
"the tests are single threaded, and a data race shows only under particular timings.",
["src/core/dictionary.cpp",I+"core/dictionary.hpp",I+"core/tokenList.hpp","src/core/tokenList.cpp","src/core/demangle.cpp","src/core/database/document.cpp","src/core/database/database.cpp",I+"core/database/collection.hpp",I+"core/runtimeSelectionFactory.hpp",I+"finiteVolume/cellCentred/stencil/stencilDataBase.hpp"],
[("const look-ups","src/core/dictionary.cpp"),("type names in messages","src/core/demangle.cpp"),("class tables and registration flags",I+"core/runtimeSelectionFactory.hpp"),("searches and sorted ids",I+"core/database/collection.hpp")],["get","contains","keys","subDict","find","sortedKeys","doc","at","create","entries","copies"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        for fl in x["anchors"]["files"]:
            assert os.path.exists(os.path.join("/repo",fl)),fl
        f.write(json.dumps(x)+"\n")
print(len(P),"properties")
