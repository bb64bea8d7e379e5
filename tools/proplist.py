IS = "include/phasar/DataFlow/IfdsIde/Solver/"
I = "include/phasar/DataFlow/IfdsIde/"

prop("P01", "IDE tabulation reaches every fact over every supergraph edge",
     "Phase I of the IDE/IFDS solver schedules, for every processed path edge, "
     "exactly the edges that the exploded supergraph derives from it: over every "
     "intra-procedural successor, into every start point of every callee, over "
     "every call-to-return edge, and back to every return site of every known "
     "caller, independent of the order in which calls and summaries are "
     "discovered. Every scheduled edge carries the composition of the jump "
     "function so far with the edge function of the edge taken, and an edge is "
     "re-processed whenever, and only when, the join with its stored jump "
     "function changes it.",
     ["programs", "histories"],
     "every program, flow problem and order in which the worklist is processed",
     "The tests solve a few dozen small programs with one worklist order each; "
     "a missing incoming/summary re-injection or a skipped return site only "
     "shows for particular call structures and orders.",
     [IS + "IDESolver.h", IS + "JumpFunctions.h", IS + "PathAwareIDESolver.h"],
     [("normal, call, exit and propagate steps", "IDESolver::processNormalFlow, processCall, processExit, propagate"),
      ("incoming and end-summary tables", "IDESolver::addIncoming, incoming, addEndSummary, endSummary")],
     technique="dataflow path obligations over the typed syntax tree")

prop("P02", "IDE values join every jump function applied to its source value",
     "After solving, the value of a fact at a statement is the join of the "
     "values of all source facts at the start points of its function, each "
     "transformed by the jump function to that statement; start-point values "
     "join the seeds and the values at every call site transformed by the call "
     "edge function. A missing table entry always stands for the lattice top, "
     "and a changed start value is always propagated further.",
     ["programs", "histories"],
     "every program, IDE problem and set of seeds",
     "Tests compare final values for small programs in which most call sites "
     "contribute the same value, so dropped joins and missed re-propagation "
     "stay invisible.",
     [IS + "IDESolver.h"],
     [("value propagation and final value computation", "IDESolver::computeValues, valuePropagationTask, valueComputationTask, setVal, val")],
     technique="dataflow path obligations over the typed syntax tree")

prop("P25", "Interrupting and continuing the solver never changes its result",
     "A solve that is interrupted at any step by a timeout, a cancellation "
     "token or a step budget and later continued performs exactly the steps of "
     "an uninterrupted solve: no work item is lost or processed after "
     "completion, each phase runs once, and results are handed out only after "
     "finalisation. Every request for steps makes progress for every interval, "
     "including the shortest.",
     ["schedules", "histories"],
     "every interruption point and every sequence of continue/step calls",
     "Tests interrupt at a handful of points decided by wall-clock time.",
     [IS + "IDESolverAPIMixin.h", IS + "IDESolver.h"],
     [("step API", "IDESolverAPIMixin::solveUntil/continueUntil/next/nextN"),
      ("step implementation", "IDESolver::doInitialize, doNext, doFinalize")],
     technique="typestate analysis of the step protocol, progress rule")

prop("P03", "The jump-function tables describe one partial map",
     "The forward, reverse and per-statement indices of the jump-function store "
     "always describe the same set of jump functions: what is added is found "
     "through every index with its latest edge function, what is removed is "
     "found through none, and nothing else changes. The table container below "
     "them behaves like a partial map from (row, column) to a value: insert, "
     "get, contains, row, column, cell enumeration, remove, size and clear "
     "agree with each other after every sequence of operations.",
     ["histories"],
     "every sequence of table and jump-function operations",
     "Unit tests insert a few entries; stale entries left in one of several "
     "indices only matter for later queries through exactly that index.",
     [IS + "JumpFunctions.h", "include/phasar/Utils/Table.h"],
     [("jump-function indices", "JumpFunctions::addFunction, removeFunction, reverseLookup, forwardLookup, lookupByTarget"),
      ("table container", "Table::insert, get, remove, cellSet, row, column")],
     technique="effect analysis of mutators against the indices read by lookups")

prop("P04", "Caching flow and edge functions never changes what the problem returns",
     "The solver's flow/edge-function cache is transparent: for every query it "
     "hands out what the analysis problem's factory returns for exactly these "
     "arguments, in this order; a cached answer is reused only for a query "
     "whose every argument that the factory sees is equal, each kind of "
     "function has a cache of its own, and automatically adding the zero fact "
     "only adds zero to flow functions applied to zero.",
     ["histories", "inputs"],
     "every sequence of flow- and edge-function queries",
     "A cache-key collision needs two queries that differ in just the dropped "
     "component, e.g. two call sites with the same return site.",
     [IS + "FlowEdgeFunctionCache.h"],
     [("cached factories", "FlowEdgeFunctionCache::get*FlowFunction, get*EdgeFunction")],
     technique="key-completeness dataflow analysis over the typed syntax tree")

prop("P05", "Recorded path edges and the exploded super graph mirror the tabulation",
     "When path edges are recorded, every flow-function application of the "
     "solver is recorded completely: source statement, source fact, target "
     "statement, every generated target fact and the kind of the edge. The "
     "exploded super graph built from it has one node per (statement, fact), "
     "connects each node to a predecessor from which it is really derived, "
     "keeps further predecessors as neighbours without losing or duplicating "
     "any, and compresses only identity steps, so that following predecessor "
     "links from any node yields a realisable chain back to a seed.",
     ["programs", "histories"],
     "every program and order of edge discovery",
     "Tests inspect a few traced paths; lost neighbours or wrongly merged "
     "nodes depend on join points and discovery order.",
     [IS + "IDESolver.h", IS + "PathAwareIDESolver.h",
      "include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h"],
     [("recording", "IDESolver::saveEdges, PathAwareIDESolver::saveEdges"),
      ("graph construction", "ExplodedSuperGraph::saveEdge, addNode, getNodeOrNull")],
     technique="path obligations and transition tables over the typed syntax tree")

prop("P06", "Edge functions obey the algebra of composition, join and evaluation",
     "Composing two edge functions and evaluating the result gives the value "
     "of the second function at the value of the first; the identity is "
     "neutral for composition, constant functions absorb what precedes them. "
     "Joining is commutative and over-approximating: top is neutral, bottom "
     "absorbs, equal functions join to themselves, and no join result lies "
     "above one of its operands. This holds for the generic edge functions "
     "(identity, top, bottom, constants, composers, joins), for the value "
     "lattices below them, and for the edge functions of the shipped analyses "
     "(linear constants, generalized linear constants, typestate, instruction "
     "interaction, extended taint). Two documented exceptions: the "
     "instruction interaction analysis under-approximates joins with the "
     "identity, and composing into the extended taint analysis' "
     "all-sanitized function may conservatively forget a sanitizer.",
     ["inputs"],
     "every combination of edge functions and values",
     "Tests exercise a few pairs; a wrong case needs a particular pairing of "
     "function kinds.",
     [I + "EdgeFunctions.h", I + "EdgeFunctionUtils.h",
      "include/phasar/Domain/LatticeDomain.h",
      "include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/"],
     [("generic edge functions", "EdgeIdentity, AllTop, AllBottom, ConstantEdgeFunction, EdgeFunctionComposer, JoinEdgeFunction"),
      ("value lattices", "LatticeDomain, BinaryDomain, JoinLatticeTraits"),
      ("clients", "LCAEdgeFunctionComposer, TSEdgeFunction, IIAAKillOrReplaceEF, XTaint::EdgeFunctionBase")],
     technique="decision-table equivalence of abstract path summaries")

# ---------------------------------------------------------------- not claimed
prop("P07", "Edge-function handles own their payload and dispatch to it faithfully",
     "The type-erased, reference-counted EdgeFunction handle never leaks, "
     "double-frees or uses a payload after its destruction: every copy counts, "
     "every destruction or assignment releases exactly once, moves transfer, "
     "and the last reference destroys the payload (after removing it from its "
     "cache if it is cached). Small payloads are stored in place only if they "
     "are trivially copyable and fit. Every operation, cast, comparison and "
     "cache lookup reaches exactly the payload (and function) it names.",
     ["histories"],
     "every sequence of copies, moves, assignments and destructions of handles "
     "to empty, small, heap-allocated and cached payloads",
     "Leaks, double frees and stale cache entries need particular orders of "
     "handle lifetimes.",
     [I + "EdgeFunction.h", I + "EdgeFunctionSingletonCache.h",
      I + "DefaultEdgeFunctionSingletonCache.h"],
     [("handle", "EdgeFunction constructors, assignment, destructor, VTableFor"),
      ("references and casts", "EdgeFunctionRef, EdgeFunction::isa/cast/dyn_cast"),
      ("caches", "DefaultEdgeFunctionSingletonCache")],
     technique="ownership/typestate rules over dataflow summaries; compile-fail witnesses")

prop("P08", "Equality, hashing and ordering of the value types agree",
     "Values that compare equal hash equally, for every type that is used as "
     "a hash key or edge-function payload (boxed pointers, bit-vector sets, "
     "lattice values, exploded-graph nodes, call strings, abstract memory "
     "locations, linear-constant and instruction-interaction edge functions, "
     "generalized-LCA values, flow facts, access paths, type-erased edge "
     "functions). Equality is reflexive and symmetric and compares every "
     "component that distinguishes values; sets of bits are equal iff they "
     "have the same members, independent of their capacity. The orders used "
     "as keys (lattice values, table cells, call strings, graph nodes and "
     "edges, flow facts, memory locations, bit-vector sets) are strict weak "
     "orders. Not included: the documented arbitrary partial orders of edge "
     "functions and of generalized-LCA value sets.",
     ["inputs"],
     "every pair of values of the types above",
     "A disagreement only shows as a lost or duplicated table entry for a "
     "particular pair of values.",
     ["include/phasar/Utils/BitVectorSet.h", "include/phasar/Utils/BoxedPointer.h",
      "include/phasar/Domain/LatticeDomain.h", I + "EdgeFunction.h",
      "lib/Utils/DOTGraph.cpp", "lib/Pointer/PointsToInfo.cpp"],
     [("hashes", "hash_value, std::hash, DenseMapInfo specialisations"),
      ("equality", "operator== of the value types"),
      ("orders", "operator< of the value types")],
     technique="hash subset of equality (congruence closure), field "
     "completeness, decision tables of strict weak orders")

prop("P09", "The call graph is consistent and misses no resolvable edge",
     "The call graph registers every edge exactly once among the callees of "
     "the call site and once among the callers of the function; lookups of "
     "unknown vertices are empty. Construction visits every function "
     "reachable from the entry points, gives every call site a vertex, adds "
     "an edge for every target (direct callees, also behind casts and "
     "aliases, and the resolver's targets for indirect calls) and, unless "
     "unsound results are requested, reconsiders indirect calls until no new "
     "target appears whenever the resolver learns while the graph is built. "
     "Each resolver (none, CHA, RTA, DTA, OTF) is created for its own kind, "
     "yields exactly those candidates its strategy names that can be called "
     "with the signature of the call (address-taken functions, vtable "
     "entries of all subtypes, of allocated subtypes, of types that flow to "
     "the receiver, aliases of the called pointer including functions in "
     "constant aggregates), never a null or pure virtual entry, and OTF "
     "aliases actual with formal pointers and returned pointers with the "
     "call. A call graph that is serialized and read back has the same "
     "edges; unknown functions and instruction ids are skipped, not "
     "dereferenced, and do not stop the restoration. Entry points are the "
     "defined functions that were named, or for __ALL__ those with external "
     "linkage and main.",
     ["inputs"],
     "every module, call site, resolver kind and serialized call graph",
     "A missing edge silently removes code from every client analysis; tests "
     "check a few modules only.",
     ["include/phasar/ControlFlow/CallGraph.h",
      "lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp",
      "lib/PhasarLLVM/ControlFlow/LLVMBasedICFG.cpp",
      "lib/PhasarLLVM/ControlFlow/EntryFunctionUtils.cpp",
      "lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp",
      "lib/PhasarLLVM/ControlFlow/Resolver/OTFResolver.cpp"],
     [("container", "CallGraph / CallGraphBuilder"),
      ("construction", "Builder::buildCallGraph, processFunction, "
       "constructDynamicCall"),
      ("resolution", "*Resolver::resolveVirtualCall / "
       "resolveFunctionPointer")],
     technique="path obligations and allowed-effect rules over inlined path "
     "summaries, decision tables for signature/receiver/slot, loop-carried "
     "fixpoint flag analysis")

prop("P10", "The forward and backward CFGs describe the control flow",
     "For every function and instruction: the successors of an instruction "
     "are the next instruction or, for a terminator, the first instruction "
     "of every successor block (for the branch that guards a lazily "
     "initialised static variable: of the initialising block only), the "
     "predecessors are the previous instruction or the terminators of all "
     "predecessor blocks, debug instructions being skipped exactly if asked "
     "for; start points are the first instruction of a definition and exit "
     "points all returns (and resumes), with the corresponding predicates "
     "agreeing; all control-flow edges, all nodes that are neither call nor "
     "start and all branch targets are reported, and nothing else; the "
     "backward CFG swaps successors with predecessors and start with exit "
     "points and, if given a project, ends every function definition in its "
     "own artificial return.",
     ["programs"],
     "every module, instruction and both directions, with and without debug "
     "instructions", "Tests look at a few instructions of a few modules.",
     ["include/phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h",
      "lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp",
      "lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp",
      "lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.cpp",
      "lib/PhasarLLVM/ControlFlow/LLVMBasedICFG.cpp",
      "lib/PhasarLLVM/Utils/LLVMShorthands.cpp"],
     [("forward CFG", "LLVMBasedCFGImpl::get{Succs,Preds}Of, "
       "get{Start,Exit}PointsOf, is*"),
      ("backward CFG", "LLVMBasedBackwardCFG"),
      ("node enumeration", "allNonCallStartNodes")],
     technique="decision tables over path summaries, path obligations, "
     "call-target identity, loop-progress analysis")

prop("P11", "Ids of the project IR are a bijection and resolve again",
     "For every module: the IR database gives every global variable and then "
     "every instruction of every function its own id, consecutively from 0, "
     "with or without preprocessing, functions inserted later continue the "
     "numbering; the id in the metadata, the id reported for an instruction "
     "and the position under which it is found agree, ids that belong to no "
     "instruction (value) resolve to null, and the id string of any "
     "instruction, global or argument is resolved to exactly that value; "
     "lookups by name return definitions only where promised; input that "
     "cannot be read or is invalid yields an invalid database; every "
     "database releases exactly the slot tracker it registered.",
     ["programs"], "every module, id and id string",
     "Tests use a few modules whose functions have simple names.",
     ["include/phasar/PhasarLLVM/DB/LLVMProjectIRDB.h",
      "lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp",
      "lib/PhasarLLVM/Passes/ValueAnnotationPass.cpp",
      "lib/PhasarLLVM/Utils/LLVMShorthands.cpp"],
     [("numbering", "LLVMProjectIRDB::initInstructionIds, "
       "preprocessModule, insertFunction"),
      ("resolution", "getInstruction, getInstructionId, getValueFromId, "
       "fromMetaDataId, getMetaDataID"),
      ("slot trackers", "ModulesToSlotTracker")],
     technique="loop-carried counter analysis, decision tables over path "
     "summaries")

prop("P12", "Serialised results are read back unchanged",
     "Whatever is written as JSON is what is read back: for alias sets, call "
     "graphs, both type hierarchies and virtual function tables every field "
     "of the serialised form is written, is read again from exactly the key "
     "it was written to with the same element structure, for every element "
     "and also when there are none; the values are named so that loading "
     "them against the same module restores every alias set, analysed "
     "function, type, subtype, position and virtual function (null entries "
     "stay null and keep their position), and names unknown to the module "
     "are skipped, not entered as null.",
     ["programs", "histories"], "every result and every document written",
     "Tests reload a few non-empty results and compare parts of them.",
     ["lib/ControlFlow/CallGraphData.cpp",
      "lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp",
      "lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp",
      "lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchyData.cpp",
      "lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.cpp",
      "lib/PhasarLLVM/TypeHierarchy/LLVMVFTableData.cpp",
      "lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp",
      "lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp"],
     [("documents", "{LLVMAliasSet,CallGraph,DIBasedTypeHierarchy,"
       "LLVMTypeHierarchy,LLVMVFTable}Data"),
      ("producers and consumers", "printAsJson and the constructors that "
       "take serialised data")],
     technique="access-path flow analysis of writers and readers, "
     "composition check")

prop("P20", "Type hierarchies are exactly the subtype relation of the program",
     "Both type hierarchies contain every class/struct/union type of the "
     "module (numbered, and found by its name), an inheritance edge from "
     "every direct base (typedefs stripped, resp. named by the type's "
     "typeinfo) to the derived type and no other, and answer subtype queries "
     "with the reflexive transitive closure of these edges; unknown types "
     "have no subtypes. A vtable holds every function at its slot: entries "
     "that are no functions are null and keep their slot, functions of the "
     "module are entered at their virtual index, and vtable lookups by "
     "index or function are inverse and safe for every index.",
     ["programs"], "every module and every queried type",
     "Tests query a few types of small hierarchies.",
     ["lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp",
      "include/phasar/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.h",
      "lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp",
      "include/phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h",
      "lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp"],
     [("debug-info hierarchy", "DIBasedTypeHierarchy::DIBasedTypeHierarchy, "
       "subTypesOf"),
      ("IR hierarchy", "LLVMTypeHierarchy::constructHierarchy, "
       "buildLLVMTypeHierarchy, getSubTypes, getVirtualFunctions"),
      ("vtables", "LLVMVFTable::getVFVectorFromIRVTable, getFunction, "
       "getIndex")],
     technique="effect and guard analysis of path summaries, decision tables")

prop("P17", "Flow-function building blocks map facts exactly as documented",
     "Every flow function made by the library's factories maps every fact to "
     "exactly the documented set and does not change when it is applied: "
     "identity, generate (plain, conditional, many, killing all others), kill "
     "(one, many, conditional, all), transfer, union, lambda, strong update "
     "of a store (the pointer and the object it casts are killed, and "
     "generated from the selected facts), and the zero-preserving wrapper. "
     "The default call, return and call-to-return mappings keep the zero "
     "value and constants exactly as their flags say, pair the i-th argument "
     "with the i-th parameter for every parameter (sret excepted in the "
     "callee), send facts of variadic arguments into and out of the callee's "
     "va_list, return the fact of the returned value to the call, let nothing "
     "into declarations, and post-process the finished set once.",
     ["programs"], "every fact, call site, callee, flag and predicate",
     "Tests apply the factories to a few facts of a few call sites.",
     ["include/phasar/DataFlow/IfdsIde/FlowFunctions.h",
      "include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h"],
     [("factories", "FlowFunctionTemplates::*"),
      ("zero-preserving wrapper", "ZeroedFlowFunction::computeTargets"),
      ("call mappings", "mapFactsToCallee, mapFactsToCaller, "
       "mapFactsAlongsideCallSite, strongUpdateStore")],
     technique="denotational dataflow evaluation of flow-function objects, "
     "truth-table equivalence, structural loop judgement")

prop("P16", "Taint analysis: flow, sources, sinks, sanitizers and configuration",
     "IFDSTaintAnalysis and LLVMTaintConfig implement the documented taint semantics for every program and configuration. Stores transfer taint from the stored value to the pointer operand and to every may-alias of it that is valid at the store (same function, not only defined later in the same block, not constant data) and kill the old content fact; loads, GEPs, extract/insert-value and casts transfer taint from their operand(s) to the result; a value that still has other uses keeps its taint. Calls of sources and sinks are not entered; other calls map tainted actuals to formals, returns map tainted pointer formals and the return value back (with their aliases, zero and globals), and what bypasses a call is exactly what is not passed to it, non-pointer arguments, and arguments of declaration-only callees, never what all callees sanitize. At every call the configured source, sink and sanitizer parameters, return values and registered callbacks of exactly the right category are applied: each source value is generated, each tainted sink argument is reported as a leak, each sanitized argument is killed. The configuration tags exactly the parameters, call results, variables, struct members and annotated values it names, index errors never affect other entries, the isX/forAllX/xValuesAt/getCategory queries and initial seeds agree with the tagged sets, category names convert back and forth, and JSON keys are read into the fields of the same meaning.",
     ["flow"],
     "all LLVM programs, taint configurations and callbacks", "unit tests run a few dozen small programs; which facts survive at each instruction kind, callee kind and configuration entry is quantified over all programs",
     ["lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp", "lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp", "lib/PhasarLLVM/TaintConfig/TaintConfigBase.cpp", "include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h"],
     [("IFDSTaintAnalysis", "getNormalFlowFunction, getCallFlowFunction, getRetFlowFunction, getCallToRetFlowFunction, getSummaryFlowFunction, populateWithMayAliases, initialSeeds"), ("LLVMTaintConfig", "constructors, addTaintCategory, *Impl queries, makeInitialSeedsImpl"), ("collect*Facts", "TaintConfigUtilities.h"), ("JSON", "loadFunc, loadVariables, toTaintCategory, to_string")],
     technique="flow-function denotations computed from path summaries and compared with a decision table per instruction kind; effect whitelists and iff-obligations over tagging sites; table agreement for names and keys")

prop("P21", "Containers of the library behave like the abstract containers they implement",
 "BitVectorSet, EquivalenceClassMap and StableVector implement the operations of the "
 "set, map and vector they stand for, for every content and every sequence of operations. "
 "BitVectorSet: insert adds exactly the given elements (an element gets one index of its "
 "own, shared by all sets, and the bit vector is large enough for it), erase removes "
 "exactly them, union, intersection, difference, inclusion, membership, size, emptiness, "
 "==, <, printing and the hash depend only on the elements (not on the lengths of the bit "
 "vectors), and iteration visits exactly the elements of the set, also when other sets "
 "learn new elements meanwhile. EquivalenceClassMap: a key joins the class of the equal "
 "value, a new class is created only without one; find, findValue and count find a key in "
 "whichever class holds it. StableVector: size, block index, current block and insertion "
 "point stay consistent under emplace_back/push_back, pop_back, pop_back_val, pop_back_n, "
 "clear, shrink_to_fit, copy, move, swap; elements are constructed right behind the last "
 "one and destroyed exactly once, v[i] and the iterators reach the i-th element, every "
 "block is allocated, compared, copied and freed with its own size, and no pointer to a "
 "freed block is kept.",
 ["program_text"],
 "all contents, sizes and operation sequences (inductive invariant over classes of states)",
 "The defects appear at block boundaries (32, 64, 128, ... elements), after shrinking, or "
 "when bit vectors have different lengths; the unit tests of StableVector use one sequence "
 "per operation.",
 ["include/phasar/Utils/BitVectorSet.h", "include/phasar/Utils/EquivalenceClassMap.h",
  "include/phasar/Utils/StableVector.h"],
 [("sets", "BitVectorSet and its iterators"),
  ("classes", "EquivalenceClassMap::try_emplace/insert/find/findValue/count"),
  ("vector", "StableVector, StableVector::Iterator")],
 technique="abstract interpretation of the container operations: difference constraints on "
 "bit indices, an affine domain (block, offset, size) with an inductive representation "
 "invariant for StableVector, decision tables for ==, < and hash")

prop("P14", "Typestate automata and the typestate and secure-heap analyses report API misuse",
 "Each type-state description (C file I/O, OpenSSL EVP KDF and KDF_CTX, OpenSSL secure heap and "
 "secure memory) is a deterministic automaton over its own states: the API functions it knows "
 "(factories, consuming functions, with exactly the consumed parameter positions) agree between "
 "its tables, every pair of token and state has one successor, the error state is left by no "
 "ordinary call, the documented protocol holds (open-use-close and its counterparts; use before "
 "init, use after close, double close are errors), every state has its own name, and the "
 "value lattice has top, bottom and the states with the documented join. The type-state "
 "analysis tracks exactly objects of the described type: allocas start uninitialised, factories "
 "generate the call with the state after the factory, consuming calls advance the state of the "
 "object and all aliases it must follow (loads, allocas) with the state function of that call, "
 "facts are mapped into callees and back over parameters, returned values, their aliases and "
 "variadic arguments, calls are skipped only for declarations of API functions, stores keep the "
 "state on the stored-to pointer, edge functions compose by applying the automaton in program "
 "order, and a report names an object as soon as its state at an exit, or at a use, is the error state. "
 "The secure-heap propagation tells INITIALIZED and not from the initialising and shutdown calls.",
 ["program_text"],
 "all (token, state) pairs, all paths of the flow and edge function factories",
 "A wrong cell in one of five transition tables or a missed alias shows only in the program "
 "that uses that call in that state; the tests cover a few dozen programs of one or two of the automata.",
 ["lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp",
  "include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h",
  "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/",
  "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDESecureHeapPropagation.cpp"],
 [("automaton", "TypeStateDescriptions/*.cpp: getNextState, delta tables"),
  ("interface", "isFactoryFunction, isConsumingFunction, isAPIFunction, getConsumerParamIdx, getFactoryParamIdx"),
  ("flows", "IDETypeStateAnalysisBase::get*FlowFunction"),
  ("edges", "IDETypeStateAnalysis::get*EdgeFunction, TSEdgeFunction, TSConstant, TSEdgeFunctionComposer"),
  ("report", "IDETypeStateAnalysis::emitTextReport"),
  ("secure heap", "IDESecureHeapPropagation")],
 technique="constant folding of the automata over their whole alphabets, flow-function "
 "denotations, path obligations on edge-function factories")

prop("P13", "Names, flags and command-line options select exactly what they name",
 "Enumerations with names (Soundness, CallGraphAnalysisType, SpecialMemberFunctionType, "
 "AliasAnalysisType, AliasResult, DataFlowAnalysisType, AnalysisStrategy): toString gives "
 "every value its own name, the parser maps that name (and the documented command-line flag) "
 "back to the same value, and anything else to the documented fallback. IFDSIDESolverConfig: "
 "every option is a bit of its own, each setter changes only its option and each getter reads "
 "only its option, in every combination. phasar-cli: every --emit-* option requests its "
 "artefact and nothing else does; the solver options, the module, entry points (default "
 "main), alias and call-graph analysis, soundness, precomputed JSON files, output directory "
 "and the list of analyses reach the helper analyses and the controller; the helper analyses "
 "are emitted before the run; invalid modules and arguments are rejected without an analysis. "
 "AnalysisController: every requested data-flow analysis is run, in order, as the problem "
 "class it names, with the solver of its kind, on the requested module, entry points, ICFG, "
 "solver configuration and taint configuration, and its results are emitted afterwards; "
 "each requested artefact is printed once, to its file if there is an output directory and "
 "to standard output otherwise. HelperAnalyses: constructors take over every field, every "
 "helper is built once from the configured inputs and then reused; precomputed alias sets "
 "and call graphs are used exactly when given.",
 ["program_text"],
 "all enumerators, names, flags and option combinations",
 "The command-line driver has no unit tests at all, and the options are independent "
 "switches whose combinations tests do not enumerate.",
 ["lib/Utils/Soundness.cpp", "lib/ControlFlow/CallGraphAnalysisType.cpp",
  "lib/Pointer/AliasAnalysisType.cpp", "lib/Pointer/AliasResult.cpp",
  "lib/PhasarLLVM/Utils/DataFlowAnalysisType.cpp", "lib/AnalysisStrategy/Strategies.cpp",
  "lib/PhasarLLVM/DataFlow/IfdsIde/IFDSIDESolverConfig.cpp",
  "tools/phasar-cli/phasar-cli.cpp",
  "tools/phasar-cli/Controller/AnalysisController.cpp",
  "lib/PhasarLLVM/HelperAnalyses.cpp"],
 [("names", "toString/to* of the named enumerations"),
  ("config", "IFDSIDESolverConfig, EnumFlags"),
  ("driver", "main of phasar-cli"),
  ("dispatch", "AnalysisController::run, controller::execute*, makeTaintConfig"),
  ("artifacts", "emitRequestedHelperAnalysisResults, emitRequestedDataFlowResults"),
  ("helper", "HelperAnalyses")],
 technique="constant folding of the name tables, bitwise evaluation of the option functions "
 "over all option sets, guarded-effect summaries (path merging) of the driver and controller")

prop("P18", "Monotone framework solvers compute a fixed point",
 "IntraMonoSolver computes the fixed point of the problem's flow functions over the "
 "control-flow edges of every entry point: it starts with allTop at every instruction plus "
 "the initial seeds, ends only when no edge is left, for every edge compares "
 "flow(source facts) - merged with the out-sets of all other predecessors at a branch "
 "target - with the facts stored for the target, stores them and enqueues the edges to all "
 "successors exactly if they differ, and reports for each statement the facts behind it. "
 "A call string keeps the K most recent call sites (push_back drops the oldest only when "
 "K are there, pop_back yields the most recent). InterMonoSolver dispatches call, return and "
 "other edges to their flow functions with the facts of every context at the source, enters "
 "all callees (edges enqueued, statements initialised) the first time they are seen, enters "
 "a callee under the context extended by the call site, returns to the call site the context "
 "names (to all callers without one), stores changed facts under that context and enqueues "
 "the intra-procedural, call and return edges behind the changed statement; the result at a "
 "statement is the union over all contexts.",
 ["program_text"],
 "all problems, programs and work-list orders (per-iteration effects of the solver loops)",
 "Programs with loops, several predecessors, recursion and several calling contexts matter; "
 "the unit tests of the monotone framework check few programs and partly none of the facts.",
 ["include/phasar/DataFlow/Mono/Solver/IntraMonoSolver.h",
  "include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h",
  "include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h"],
 [("intra", "IntraMonoSolver::initialize/solve/getResultsAt"),
  ("inter", "InterMonoSolver: solve, process*, add*ToWorklist, initialize"),
  ("context", "CallStringCTX::push_back/pop_back")],
 technique="guarded-effect summaries of the instantiated solver loops compared with the "
 "chaotic iteration they implement")

prop("P24", "Result queries return the computed values and seeds start the solver as given",
 "resultAt(n, d) returns the value computed for (n, d); resultsAt(n) returns the whole row of "
 "the statement, without exactly the zero fact if and only if the caller asks for that; "
 "ifdsResultsAt returns exactly the facts of the row; getAllResultEntries and dumpResults "
 "cover every entry. The InLLVMSSA variants answer at the instruction itself if it yields no "
 "value, otherwise at the next instruction, for a terminator at the first real instruction of "
 "a successor with a single predecessor, and otherwise, only if the caller allows an "
 "approximation, with the join over all successors. The queries of the solver forward their "
 "arguments in the same roles, borrowing and owning results hold the solver's table and zero "
 "value, solveIDEProblem/solveIFDSProblem take the results after solving. InitialSeeds "
 "records every added seed with its value (the last one wins, BOTTOM for IFDS), and the "
 "default seeds put the zero fact with the bottom value at every starting point of every "
 "entry-point function, or of all functions for the single entry point __ALL__.",
 ["program_text"],
 "all statements, facts, result tables, seed sets and entry points",
 "The unit tests query few statements and rarely strip zero, look behind an invoke or a "
 "terminator, or use several entry points.",
 ["include/phasar/DataFlow/IfdsIde/SolverResults.h",
  "include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h",
  "include/phasar/DataFlow/IfdsIde/InitialSeeds.h",
  "include/phasar/DataFlow/IfdsIde/EntryPointUtils.h",
  "include/phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h",
  "include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h"],
 [("queries", "SolverResultsBase, LLVMSolverResults.h, IDESolver/IFDSSolver result queries"),
  ("seeds", "InitialSeeds, addSeedsForStartingPoints, IDETabulationProblem::createDefaultSeeds")],
 technique="summaries of the instantiated queries: the table entry each path reads, the edits of "
 "the returned copy and the role of every forwarded argument against the documented query")

prop("P23", "Linear constant propagation folds constants correctly",
 "For two integer constants the linear constant analysis computes the result of add, sub, mul, "
 "udiv, sdiv, urem, srem, and, or and xor of the operands in their order, and gives no constant "
 "for any other operation, for division by zero, for MIN / -1, for unsigned division of a "
 "sign-extended negative value, for results that do not fit the operands' type and for operands "
 "that are not constant. Facts flow from zero to integer allocas, from a stored value (or zero, "
 "for a constant) to the location with the old value killed, from pointers to loads and element "
 "pointers, from operands to results; at calls an actual carries a fact to its formal, constants "
 "from zero, results and pointer arguments flow back, and a pointer argument survives a call "
 "only through callees with a body. The edge functions are the constant stored, passed or "
 "returned, the operation for a linear binary operation, bottom for a non-linear one and for an "
 "alloca, identity for everything else, in particular for facts that just stay. Analysis starts "
 "with zero at bottom and every integer-initialised global at its value.",
 ["program_text"],
 "all instructions, facts, operand kinds and constant values",
 "Tests sample a few operators with small positive constants; negative, unsigned, wrapping and "
 "non-linear cases and arithmetic intrinsics are hardly covered.",
 ["lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp"],
 [("arithmetic", "lca::executeBinOperation, BinOp::computeTarget"),
  ("flows", "IDELinearConstantAnalysis::get*FlowFunction"),
  ("edges", "IDELinearConstantAnalysis::get*EdgeFunction"),
  ("seeds", "IDELinearConstantAnalysis::initialSeeds")],
 technique="decision tables over all paths of the folding and edge functions, and denotational "
 "evaluation of the flow functions on a symbolic fact")

prop("N01", "Solving terminates for every monotone problem of finite height",
     "Every solver run over a problem with monotone, distributive functions "
     "over a lattice of finite height terminates.",
     ["programs"], "every program and every such problem",
     "Tests only run problems that terminate.",
     [IS + "IDESolver.h"], [("fixpoint iteration", "IDESolver::propagate")],
     na="Termination rests on the monotonicity and finite height of "
        "user-supplied functions and on a ranking argument over run-time "
        "tables; no static rule in reach bounds it. The ingredients that are "
        "visible in the source (re-enqueue only on change, progress of every "
        "step request) are claimed in P01 and P25.")

prop("N02", "Analysis results over-approximate concrete executions",
     "The facts computed by the shipped client analyses over-approximate "
     "every concrete execution of the analysed program.",
     ["programs", "inputs"], "every program and execution",
     "Tests compare with hand-written expectations.",
     ["include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/"],
     [("transfer functions", "get*FlowFunction of all problems")],
     na="Quantifies over the concrete LLVM semantics including memory and "
        "undefined behaviour, and the analyses are documented to be unsound "
        "in places (alias analysis, missing bodies); static rules over the "
        "source cannot relate the two. Local transfer tables are claimed in "
        "the properties of the individual analyses.")

prop("N03", "Path constraints are satisfiable exactly for feasible paths",
     "The Z3 constraints collected along a path are satisfiable if and only "
     "if the path can be executed.",
     ["programs", "inputs"], "every path", "Few hand-picked paths are tested.",
     ["include/phasar/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitivityManager.h"],
     [("constraints", "LLVMPathConstraints")],
     na="Needs the semantics of the generated formulas, i.e. a solver, and "
        "PhASAR's Z3 support is switched off in this build, so that code is "
        "not compiled.")

prop("N04", "Alias information over-approximates all run-time aliases",
     "Two pointers that may refer to the same object are never reported "
     "as NoAlias.", ["programs", "inputs"], "every program",
     "Tests sample few pointers.",
     ["include/phasar/PhasarLLVM/Pointer/"],
     [("alias queries", "LLVMAliasSet::alias")],
     na="The verdicts come from LLVM's (external) CFL and basic alias "
        "analyses; their soundness is not decided by this repository's "
        "source. What PhASAR adds on top, the closure into alias sets, is "
        "the subject of P19.")

prop("N05", "Results are independent of iteration order and addresses",
     "Two runs over the same module give byte-identical reports.",
     ["schedules"], "every run", "Tests run once.",
     ["lib/PhasarLLVM"], [("hash containers", "std::unordered_map keyed by pointers")],
     na="Not a guarantee of the system: results are sets in pointer-hashed "
        "containers and printed in hash order by design.")
