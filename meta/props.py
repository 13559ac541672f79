# The properties: one entry per property. gen.py writes properties.jsonl and MANIFEST.json from this.
P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, level="other"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, state=state, level=level))

def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, reason=reason, state=None))

I, S, H, PR, C, F = "inputs", "schedules", "histories", "programs", "configurations", "fault_sequences"

# ------------------------------------------------------------------ query engine
prop("D01", "Snapshot execution of a pipeline uses only snapshot operators",
 "Converting an operator graph to snapshot mode replaces every operator that works on deltas (and every incremental join, integrator, differentiator and delay) by one that computes the same function of complete states, for every operator kind a pipeline can contain. Parameters of the operator (inputs, predicates, extractors) survive the conversion and no operator is left out or added.",
 [PR, H], "every pipeline program, hence every operator kind and nesting the compiler and the optimizer can produce",
 "Tests convert a handful of pipelines; a missing case for one operator kind only shows up when state-of-the-world synchronization follows incremental evaluation of a pipeline that uses it.",
 ["pkg/dbsp/graph_converter.go", "pkg/dbsp/chain.go"],
 [("graph conversion", "pkg/dbsp: ToSnapshotGraph"), ("operator conversion", "pkg/dbsp: conversion of nodes")],
 "type-driven abstract interpretation: every path of the conversion explored once per operator type reachable from the compiler",
 "Decides which operator each kind is converted to and where its parameters come from; that snapshot operators compute the same function of states is D07, and numerical equality of the two modes is not decided.")

prop("D02", "Z-sets never hold zero multiplicities or documents without a count",
 "After any operation a Z-set holds a document exactly if its multiplicity is nonzero, the stored document is the one the multiplicity belongs to, and copies of a Z-set share no mutable structure with the original. Inserting a document adds the given multiplicity to the one already there.",
 [I, H], "every sequence of Z-set operations on every document and multiplicity",
 "Unit tests exercise a few sequences; the representation invariant has to hold after every interleaving of insertions and cancellations.",
 ["pkg/dbsp/zset.go"], [("single-document mutator", "pkg/dbsp: DocumentZSet.AddDocumentMutate"), ("copies", "pkg/dbsp: DocumentZSet.ShallowCopy / DeepCopy")],
 "typestate analysis of the mutator plus a who-may-write rule for the two maps of a Z-set",
 "All writes to the representation are enumerated over the whole package; the arithmetic of the two maps is decided on every path of the mutator.")

prop("D03", "Operators never modify their inputs or alias their state with results",
 "Evaluating an operator leaves its input Z-sets and documents unmodified, and what it returns shares no mutable Z-set with its inputs or with its internal state. Functions that modify documents (transformers, evaluators) only ever get private copies.",
 [I, H], "every operator kind on every input and every history of deltas",
 "Aliasing shows only when a later delta modifies a Z-set that a previous result or another operator still holds; tests compare results right after they are produced.",
 ["pkg/dbsp/op_linear.go", "pkg/dbsp/op_bilinear.go", "pkg/dbsp/op_nonlinear.go", "pkg/dbsp/zset.go"],
 [("copying operations", "pkg/dbsp: DocumentZSet copies"), ("operators", "pkg/dbsp: Process methods")],
 "ownership analysis of every Z-set an operator returns, stores or mutates (path-sensitive, helpers inlined)",
 "Decided for all operator types found by interface implementation; deep aliasing inside documents returned by user-supplied evaluators is decided for the pipeline's own evaluators only.")

prop("D04", "Graph execution feeds every operator the right inputs",
 "Executing an operator graph feeds every input of the graph to the operators connected to it, passes the result of each stage to the next in order, and returns the result of the last stage; a failure of any stage fails the execution. Resetting an executor and executing a single node have the same wiring.",
 [PR, I], "every operator graph and every input map",
 "Tests execute small graphs in which a skipped or reordered stage often gives the same answer.",
 ["pkg/dbsp/executor.go", "pkg/dbsp/chain.go"], [("executor", "pkg/dbsp: Executor.Process")],
 "loop-completeness obligations and dataflow terms over every path of the executor",
 "Decides wiring and completeness, not the values the operators compute.")

prop("D05", "No failure inside the query engine is lost",
 "If evaluating an expression, extracting a key, comparing or copying a document fails while a delta is processed, the evaluation as a whole fails with an error: no partial result is returned as if it were complete.",
 [F, I], "every call that can fail, at every point of the evaluation",
 "Failures of inner operations are hard to provoke from tests: each call site needs its own malformed input.",
 ["pkg/dbsp"], [("error returns", "pkg/dbsp: every function returning an error")],
 "abstract fault injection: each fallible call site is assumed to fail, every continuation path must return a non-nil error",
 "Exact for the module's own call sites; comparison functions and renderings for humans, which cannot report errors, are excluded.")

prop("D06", "Resetting an executor clears the state of every stateful operator",
 "After a reset, an incremental executor behaves as if it had never processed a delta: every piece of state any of its operators keeps between deltas is cleared. Operators considered stateless keep none.",
 [H, PR], "every pipeline and every history of deltas before the reset",
 "A field or operator kind forgotten by the reset is visible only when a history after the reset interacts with leftovers of that kind.",
 ["pkg/dbsp/executor.go", "pkg/dbsp/op_bilinear.go", "pkg/dbsp/op_nonlinear.go", "pkg/dbsp/op_misc.go"],
 [("reset", "pkg/dbsp: Executor.Reset and Reset of operators")],
 "effect analysis: fields written by processing must be reinitialised by the reset that is reached for that operator type",
 "Operator types and their state fields are discovered from the code.")

prop("D07", "Operators combine multiplicities as their algebra prescribes",
 "Linear operators give every result document the multiplicity of the input document it was made from, joins the product of one multiplicity per input, and no linear or bilinear operator decides on the value of a multiplicity; every input document contributes. Integration, differentiation and delay combine exactly the current delta and the stored state and update the state after using it, and the delta form of a join sums one term for every nonempty set of changed inputs.",
 [I, H], "every document, multiplicity and delta history",
 "The algebra has to hold for all multiplicities (negative ones and those above one included) and all histories; tests sample unit multiplicities and two-input joins.",
 ["pkg/dbsp/op_linear.go", "pkg/dbsp/op_bilinear.go", "pkg/dbsp/op_nonlinear.go", "pkg/dbsp/op_misc.go"],
 [("operators", "pkg/dbsp: Process methods")],
 "symbolic terms of every multiplicity inserted on every path, parametricity of branches in multiplicities, loop completeness",
 "Decides the shape of the algebra on every path; which documents a join pairs is left to its evaluator.")

prop("D08", "Optimizing an operator graph preserves its meaning",
 "Rewriting a graph into incremental form lifts every operator that is not linear between an integrator and a differentiator, keeps linear operators as they are, turns joins into their incremental form, and never drops, duplicates or reorders the stages of the chain. Simplifications remove only operators that cancel or have no effect, and fused stages run in the original order.",
 [PR], "every operator chain a pipeline can compile to",
 "Tests optimize a few chains; rules interact and a rule applied to a wrong neighbourhood changes results only for chains that contain that neighbourhood.",
 ["pkg/dbsp/rewrite_engine.go", "pkg/dbsp/chain.go"], [("rewrite rules", "pkg/dbsp: rule types and the rewrite engine")],
 "per-rule obligations on every path: type guards of the removed nodes, provenance and order of the inserted ones, fixpoint driver",
 "Rules are discovered by the interface they implement; the algebraic soundness of the rule set itself was argued by hand in DESIGN.md.")

prop("D09", "Results of evaluation do not depend on map iteration order",
 "Evaluating a pipeline on the same history always gives the same documents: no operator lets the unspecified iteration order of its internal tables choose a representative, an order of list elements, or which of several values wins.",
 [S, I], "every iteration order of every map traversed during evaluation",
 "Go randomizes map iteration; a dependence shows up as rare nondeterminism that tests tolerate or do not hit.",
 ["pkg/dbsp"], [("map loops", "pkg/dbsp: every range over a map reachable from an operator")],
 "classification of every map loop in the call graph below the operators by its effects (commutative, keyed by the loop key, or sorted afterwards)",
 "Every map loop reachable from evaluation is classified; loops whose effect is not in one of the order-free classes are violations.")

# ------------------------------------------------------------------ pipelines
prop("P01", "Pipeline state is only touched under the pipeline's lock",
 "A pipeline's caches, graphs and executors are read and written only while its lock is held, so evaluations, synchronizations and inspections started concurrently behave as if run one after the other. The lock is released on every path.",
 [S], "every interleaving of concurrent calls",
 "Interleavings cannot be enumerated by tests; the race detector sees only those that happened.",
 ["pkg/pipeline/pipeline.go"], [("pipeline lock", "pkg/pipeline: Pipeline.mu")],
 "lockset analysis over all paths of all entry points, helpers inlined",
 "Construction before publication is exempt; what happens inside the locked region is covered by the other properties.")

prop("P02", "Source events enter a pipeline as exact differences of the source state",
 "An added object is inserted once and remembered; an updated, replaced or upserted object retracts the remembered version if there is one and inserts and remembers the new one, unless nothing changed; a deleted object retracts the remembered version and is forgotten, and deleting an object that is not remembered, or an event of unknown type, is an error. UIDs are removed before an object is compared, inserted or remembered.",
 [H, I], "every history of source events and every object content",
 "Correctness of every later result depends on the remembered state after arbitrary event sequences; tests run a few sequences with one or two objects.",
 ["pkg/pipeline/zset_adaptor.go"], [("conversion of an event to a Z-set", "pkg/pipeline: Pipeline.ConvertDeltaToZSet")],
 "typestate analysis over every path split by event type, with provenance of each inserted document and cache operation",
 "Decided for every path of the conversion; equality of objects itself is trusted.")

prop("P03", "Inserts and deletes of one result object resolve to the right operation",
 "For every result object of an evaluation the emitted operation depends only on whether it was inserted, deleted and known before: inserted only, or inserted and deleted while known, gives one upsert with the inserted version; deleted only while known gives one delete; anything else gives nothing. The set of known objects is updated with exactly the emitted operation, deletes are emitted before upserts, and no operation is dropped.",
 [I, H], "every combination of inserted and deleted versions over all result objects and previous states",
 "The decision table has to be right in every row and for every mixture of objects in one evaluation.",
 ["pkg/pipeline/zset_adaptor.go"], [("resolution", "pkg/pipeline: Pipeline.Reconcile")],
 "decision-table check: every path of the resolution loop compared with the specified table; provenance of the emitted object and cache operations",
 "If the code builds its result in a way the analysis does not recognise, the order of operations is not judged (noted in the evidence).")

prop("P04", "Only valid, correctly addressed objects leave a pipeline",
 "Every result document with positive multiplicity becomes one addition and every one with negative multiplicity one deletion of an object of the target kind carrying the name and namespace found in the document. A result without metadata, with a missing, empty or non-string name, or a non-string namespace makes the evaluation fail.",
 [I], "every result document and multiplicity",
 "Invalid results come from arbitrary user expressions, of which tests contain a few.",
 ["pkg/pipeline/zset_adaptor.go"], [("result conversion", "pkg/pipeline: Pipeline.ConvertZSetToDelta")],
 "typestate analysis over every path that emits an operation: validations that must precede it and provenance of the addressed object",
 "Decides presence, type and non-emptiness checks and the address of the object, not the rest of its content.")

prop("P05", "A pipeline program compiles to its operations in order",
 "Every operation of a pipeline program becomes the operator of its kind with the operation's own expression, in program order, after the join if there is one; unknown operations are rejected, and so are programs over several sources that do not start with a join. The compiled graph is made incremental before it is executed.",
 [PR], "every pipeline program",
 "Programs are user input; tests compile a selection.",
 ["pkg/pipeline/pipeline.go", "pkg/pipeline/op.go"], [("compilation", "pkg/pipeline: New")],
 "exploration of the compiler for each operation name: constructor, expression and order of every operator added",
 "Decides the mapping from program to operators; their semantics is covered by the D properties and P07.")

prop("P06", "Synchronization returns the difference to the complete required state",
 "A synchronization computes the required state from all remembered objects of all sources and the current state from all known result objects, and returns and records exactly the difference required minus current; it never reports success without doing so. Incremental evaluation passes the event to the input of its kind, an empty change to all other inputs, and its result through the same conversion and resolution.",
 [H, PR], "every history of evaluations and synchronizations",
 "A source left out or a state taken from the wrong side matters only for particular histories.",
 ["pkg/pipeline/pipeline.go"], [("synchronization", "pkg/pipeline: Pipeline.Sync"), ("evaluation", "pkg/pipeline: Pipeline.Evaluate")],
 "provenance of both sides of the difference, loop completeness over sources and caches, must-pass obligations on every success path",
 "Convergence of the resulting state is not decided.")

prop("P07", "Pipeline stages implement the documented semantics",
 "A selection or join keeps exactly the documents on which its condition evaluates to true and passes them on unchanged; a projection returns what its expression evaluates to; unwinding produces one document per list element, in order, with the element in place of the list and a name made unique by the element's position; gathering places the collected values at the requested path. Evaluation errors are reported, not treated as an empty result.",
 [I, PR], "every document and stage expression",
 "Tests sample documents and expressions.",
 ["pkg/pipeline/op.go"], [("stage evaluators", "pkg/pipeline: evaluators, extractors and transformers of the stages")],
 "path analysis of every stage evaluator with provenance of the returned documents",
 "Decides the plumbing around the expression evaluator; the evaluator is covered by the E properties.")

prop("P08", "The pipeline reports every failure of its stages",
 "Whenever an operation the pipeline depends on returns an error during compilation, evaluation, synchronization or delta conversion, the pipeline returns an error to its caller; it never continues as if the operation had succeeded.",
 [F, I], "every failure of every fallible call in the pipeline",
 "Most failures cannot be provoked by valid test inputs.",
 ["pkg/pipeline"], [("fallible calls", "pkg/pipeline: every call whose last result is an error")],
 "abstract fault injection: each fallible call site is assumed to fail and every path from it must end in a non-nil error",
 "Looking up the cache store cannot fail for unstructured objects and is exempt.")

prop("E07", "Expression results do not depend on map iteration order",
 "Evaluating an expression on the same document always gives the same value: no evaluation step lets the unspecified iteration order of a map choose between values or determine the order of effects.",
 [S, I], "every iteration order of every map traversed during evaluation",
 "Go randomizes map iteration; dependence shows up as rare nondeterminism.",
 ["pkg/expression"], [("map loops", "pkg/expression: every range over a map reachable from the evaluator")],
 "classification of every map loop in the call graph below the evaluator by its effects",
 "Explicitly random or time-dependent operators are outside the statement.")

# ------------------------------------------------------------------ locks
prop("V05", "View cache state is only touched under its locks",
 "The informers, handlers, watchers and stores of the view cache are read and written only while the lock protecting them is held, and written only under an exclusive lock; locks are released on every path and never acquired twice by the same call chain.",
 [S], "every interleaving of concurrent cache, informer and watch operations",
 "Interleavings cannot be enumerated by tests.",
 ["pkg/cache"], [("cache locks", "pkg/cache: mutexes of the view cache, informers and stores")],
 "lockset analysis over all paths of all entry points, helpers inlined",
 "Which lock guards which field is a table confirmed against the code and listed in the checker.")

prop("V04", "Lists and watches of views contain exactly the selected objects",
 "Listing a view returns every stored object of the kind that satisfies the namespace, label selector and field selector of the caller, and no other, whichever form the options are given in. A watch with the same options announces exactly the changes of selected objects: additions and updates of selected objects, removal of objects that were selected, and an update that takes an object out of the selection as its removal.",
 [I, H], "every stored state, every combination of options and every history of changes",
 "Tests use one selector at a time on a few objects; the agreement between listing and watching for every combination, and the handling of objects that move in and out of a selection, need all paths.",
 ["pkg/cache/view_cache.go"], [("list", "pkg/cache: ViewCache.List"), ("watch", "pkg/cache: ViewCache.Watch, ViewCacheWatcher")],
 "path-sensitive dataflow of the three selectors from the options to the predicates, and of the predicates' outcomes to inclusion or exclusion",
 "The matching of one selector against one object is left to the Kubernetes libraries; the values offered to the field selector are decided by name and source.")

prop("V06", "A watch delivers its events and ends cleanly",
 "The channel of a watch is closed exactly once and nothing is sent on it afterwards; stopping is idempotent and safe against concurrent events. The initial list fits into the channel. When the context of the watch ends or the watch is stopped, its event handler is removed from the informer and the watch stops.",
 [S, H], "every interleaving of events, stop and context cancellation, and every number of stored objects",
 "A send on a closed channel, a double close or a forgotten handler needs a specific interleaving; a dropped object needs more objects than the tests store.",
 ["pkg/cache/view_cache.go"], [("watcher", "pkg/cache: ViewCacheWatcher"), ("end of a watch", "pkg/cache: ViewCache.Watch")],
 "typestate analysis of the watcher's channels under its lock; path analysis of the set-up and of the goroutine that ends the watch",
 "A live event is given up after a second if the receiver does not drain the channel: documented behaviour that no static argument bounds.")

prop("V07", "View requests go to the view cache and native requests to the cluster",
 "Every operation of the composite client, cache, discovery client and REST mapper is served by the view side exactly if the kind of the object or list is a view, and by the native side otherwise, with all arguments and options passed on unchanged and the result handed back; operations without a kind combine both sides and lose nothing of either. Without a native side, native requests fail with an error instead of crashing.",
 [I, C], "every kind of object, every operation and every configuration with or without a cluster",
 "Tests call a few operations on a few kinds; that no operation of the interfaces is misrouted, drops an option or panics headless requires all of them.",
 ["pkg/cache/composite.go", "pkg/cache/client.go", "pkg/cache/discovery.go", "pkg/cache/restmapper.go", "pkg/cache/api.go"],
 [("composite cache and client", "pkg/cache: CompositeCache, CompositeClient"), ("discovery", "pkg/cache: CompositeDiscoveryClient"), ("REST mapper", "pkg/cache: CompositeRESTMapper"), ("assembly", "pkg/cache: NewAPI")],
 "path-sensitive routing analysis over every method of the composite types: predicate on the kind, callee, argument and result correspondence",
 "ResourceSingularizer falls back from one side to the other by design and is left out.")

prop("V08", "Every view informer reaches its handlers until it is removed",
 "An event handler added to a view informer is registered under a fresh identifier, gets every stored object once as the initial list, and removing it removes exactly that handler. A cache hands out one informer per kind reading the store of that kind, never replaces one that is in use, and an informer of a delegating cache is registered with the shared store when created and unregistered, alone, when removed or at shutdown.",
 [S, H], "every sequence and interleaving of adding and removing handlers and informers",
 "A replaced informer or a wrongly removed handler silently loses events for somebody else, which needs several users of the same kind at once.",
 ["pkg/cache/view_cache_informer.go", "pkg/cache/view_cache.go", "pkg/cache/delegating_view_cache.go"],
 [("handlers", "pkg/cache: ViewCacheInformer.AddEventHandler, RemoveEventHandler"), ("informers", "pkg/cache: ViewCache, DelegatingViewCache: GetInformer, RemoveInformer"), ("shutdown", "pkg/cache: DelegatingViewCache.Start")],
 "path-sensitive typestate analysis: lookups and insertions under one critical section, provenance of identifiers and stores, exactly-one removal",
 "That a removed informer stops running is not claimed: it does not.")

prop("V10", "View objects are created, changed and deleted as asked",
 "The view client adds, replaces and deletes exactly the object it was given: an update replaces the stored object of the same key and fails if there is none, a patch is applied to a copy of the stored object and cannot change its kind, name or namespace, deleting a collection deletes every object its options select and no other, and a sub-resource operation reads and writes only that part of the stored object. Reads and writes of the same modification are not interleaved with others, and failures are returned.",
 [I, H, F], "every object, patch and option, every stored state, every failure",
 "Tests cover the successful operations; which object is touched for every combination of arguments, and what happens when the read fails, needs all paths.",
 ["pkg/cache/view_client.go"], [("view client", "pkg/cache: ViewCacheClient"), ("sub-resources", "pkg/cache: sub-resource client of the view client")],
 "path-sensitive provenance of the objects passed to the view cache, typestate of read, identity test and write",
 "Modifications of the same view by two clients are not atomic: recorded as known findings.")

prop("V12", "Changes of a view are announced in the order they are made",
 "A change of a view object and its announcement to all informers happen under one lock common to all operations on the kind, so that concurrent changes of an object are announced in the order they took effect. While a new handler gets the initial list events are held back, so that no object is reported again after its deletion and no event falls between the list and the registration.",
 [S, H], "every interleaving of concurrent changes and registrations",
 "Two writers have to interleave between the store operation and the announcement; no test schedules that.",
 ["pkg/cache/view_cache.go", "pkg/cache/view_cache_informer.go"],
 [("changes", "pkg/cache: ViewCache.Add, Update, Delete"), ("initial list", "pkg/cache: ViewCacheInformer.AddEventHandler, TriggerEvent")],
 "lockset typestate over all paths: the lock held from the change to the last announcement, identified across operations",
 "Order between objects of different kinds is not claimed.")

prop("O01", "Operator lifecycle state is only touched under its lock",
 "The registry of running operators and the lifecycle state of the operator controller are read and written only under their locks, which are released on every path.",
 [S], "every interleaving of operator reconciliation, registration and shutdown",
 "Interleavings cannot be enumerated by tests.",
 ["pkg/kubernetes/controllers", "pkg/operator"], [("locks", "pkg/kubernetes/controllers, pkg/operator: mutexes")],
 "lockset analysis over all paths of all entry points, helpers inlined",
 "Fields written only before publication are exempt.")

prop("O03", "Controller error bookkeeping is safe under concurrency",
 "The error history and rate limiter behind the reported controller status are only touched under their lock, so that statuses reported while reconcilers push errors are consistent.",
 [S], "every interleaving of reconcilers pushing errors and the status being read",
 "Interleavings cannot be enumerated by tests.",
 ["pkg/controller"], [("error reporter", "pkg/controller: errorReporter")],
 "lockset analysis over all paths of all entry points, helpers inlined",
 "Covers the data of the reporter; which errors are reported is a separate property.")

prop("S07", "API server registries are only touched under their locks",
 "The sets of registered API groups, types and generated API definitions are read and written only while their lock is held, written only under the exclusive lock, and locks are released on every path.",
 [S], "every interleaving of group registration, discovery and requests",
 "Interleavings cannot be enumerated by tests.",
 ["pkg/apiserver"], [("locks", "pkg/apiserver: mutexes of the server")],
 "lockset analysis over all paths of all entry points, helpers inlined",
 "Which lock guards which field is a table in the checker.")

# ------------------------------------------------------------------ sources, reconcilers, targets
prop("R01", "Sources apply every filter of their specification",
 "A watch source watches exactly the kind its resource names on the manager's cache and delivers only objects that pass every restriction the specification gives: predicate, label selector and namespace, each whenever it is present and none otherwise. A predicate name selects the filter of that name, boolean predicates combine all their arguments with the named connective, and malformed specifications are refused with an error. Each source type of the specification selects the source implementation that reports this type, and sources differ in the type they report.",
 [C], "every source specification (all combinations of restrictions and predicate programs)",
 "Tests sample few combinations of restrictions; a filter dropped in one combination only lets too many objects through.",
 ["pkg/reconciler/source.go", "pkg/predicate/predicate.go"],
 [("source setup", "pkg/reconciler: GetSource methods"), ("filters", "pkg/predicate: FromPredicate, FromLabelSelector, FromNamespace, ToPredicate")],
 "path analysis of the source set-up with labels tracking which restrictions are in the filter list; decision tables of predicate names",
 "The semantics of controller-runtime's predicates is trusted.")

prop("R02", "Every source event becomes exactly one faithful request",
 "Creation, update and deletion events of a watched object each enqueue exactly one request whose type says whether the object was added, updated or deleted, that carries kind, name and namespace of the object and a private copy of the object as it was at the event (the new object of an update). A periodic source enqueues one update request on every tick until it is stopped.",
 [H, S], "every sequence of watch events",
 "Tests observe a few events; a swapped old and new object or a shared snapshot changes results only for particular histories.",
 ["pkg/reconciler/source.go", "pkg/reconciler/reconciler.go"],
 [("event handlers", "pkg/reconciler: EventHandler"), ("timer", "pkg/reconciler: periodicRuntimeSource.Start")],
 "path analysis of every event handler: number and fields of enqueued requests; copy analysis of the object",
 "Delivery by controller-runtime's queue (deduplication, retry) is trusted.")

prop("R03", "Reconcilers evaluate the event and write every resulting delta",
 "The incremental reconciler evaluates exactly the delta described by the request (its type and its object) and writes every delta the evaluation returns, unchanged and in order, to the controller's target; the state-of-the-world reconciler does the same with the result of a synchronization. A failure of evaluation, synchronization or a write is reported to the controller and returned.",
 [I, H, F], "every request and every list of resulting deltas",
 "Tests see one or two deltas per event; writes left out after a failure or for particular delta types need particular histories.",
 ["pkg/controller/reconcilers.go"], [("reconcilers", "pkg/controller: Reconcile methods of the incremental and state-of-the-world reconcilers")],
 "provenance of the evaluated and written deltas on every path, completeness of the write loop",
 "What the pipeline returns is covered by the P properties.")

prop("R04", "Target writes are correctly addressed private copies",
 "Whatever is written to a target is a private copy of the delta's object carrying the kind of the target and the delta's name and namespace: neither modifying the written object nor content merged into it can change the kind, name or namespace it is written under, and the delta handed over by the pipeline is never modified.",
 [I, H], "every delta and every current state of the target object",
 "Aliasing with pipeline state and identity changed by merged content only show up with particular objects in the store.",
 ["pkg/reconciler/target.go"], [("target writers", "pkg/reconciler: updater and patcher targets")],
 "path-sensitive provenance of the object of every write call, with identity restored after every modification",
 "The client's own behaviour is trusted.")

prop("R05", "Targets translate deltas to the right operations",
 "An updater target creates or updates the object on added, updated or upserted deltas, carrying over everything the delta's object contains to the stored object, and deletes exactly the object on deleted deltas; deleting a missing object is not an error. A patcher target merges the delta's content into the existing object and on deletion removes exactly what the delta's object holds, keeping the identity of the object; it never creates or deletes objects. Unknown delta types are refused.",
 [I, H], "every delta type, target type and object content",
 "Branches for particular delta types and contents (metadata, status, secrets) are each reachable only with specific objects.",
 ["pkg/reconciler/target.go", "pkg/object/patch.go"], [("target writers", "pkg/reconciler: Write of the targets"), ("patches", "pkg/reconciler: removal patches")],
 "decision table from delta type to write operation over every path of the target writers; loop obligations for content",
 "The numeric semantics of merge patches is left to the object package.")

prop("R06", "Create-or-update writes the mutated object and its status once",
 "The write helpers read the current object, apply the mutation and then create the object if it did not exist and update it otherwise; the mutation may not change name or namespace; a conflict is retried with a fresh resource version; the status is written after the object, only if the object had one and the target is not a view. Success is reported only after a write that succeeded.",
 [H, F, S], "every order of concurrent modifications and every failing call",
 "Conflicts and creations racing with the write need an adversarial API server.",
 ["pkg/reconciler/ctrlutils.go"], [("write helpers", "pkg/reconciler: CreateOrUpdate, Update")],
 "path analysis of the write helpers with an explicit second round of the conflict retry: order, provenance and outcome of every client operation",
 "The status of an object created (not updated) by the helper is only written by the create call itself.")

prop("R07", "No failure between source events and target writes is lost",
 "If decoding, filtering, evaluating or writing fails for a source event or a synchronization, the failure reaches the error report of the controller or the caller; no reconciler, source or target continues as if the failed step had succeeded.",
 [F], "every call that can fail in the reconcilers, sources and targets",
 "Each failure needs its own malformed object or failing API call; tests provoke very few of them.",
 ["pkg/controller/reconcilers.go", "pkg/reconciler", "pkg/kubernetes/controllers", "pkg/operator"],
 [("reconcilers", "pkg/controller: Reconcile"), ("sources and targets", "pkg/reconciler"), ("operator controller", "pkg/kubernetes/controllers")],
 "abstract fault injection: each fallible call site is assumed to fail; every continuation path must return or report the failure",
 "Exceptions (a missing object, a conflict that is retried, values passed over deliberately) are listed by callee and by the predicate the error was tested with.")

prop("R08", "Resource references resolve to the one kind they denote",
 "A resource without a group, or in the group of its operator, or in another operator's view group, denotes a view of that group in the view version, whatever version is given; any other resource denotes the native kind of the given group and version, the version being looked up only if none is given. A reference without a kind is an error.",
 [I, C], "every combination of group, version, kind and operator",
 "Tests use one or two spellings of each case; a wrong default silently makes a controller watch nothing.",
 ["pkg/reconciler/resource.go"], [("kind resolution", "pkg/reconciler: Resource.GetGVK")],
 "decision table extracted from every path of the resolution, with the provenance of each component of the result",
 "Whether the REST mapper finds the right version for a native kind is outside.")

prop("O02", "Controller status tells the truth about reported errors",
 "Every error pushed to a controller is in its history until ten newer ones are; a critical error is never forgotten. The status of a controller is ready exactly if no error was reported, not ready if a critical one was, and unknown otherwise, lists all errors in the history and carries the generation asked about. The operator reports every controller, also those that failed to start, and starts every controller of its specification regardless of failures of others.",
 [H, F], "every sequence of reported errors and every specification",
 "The bound of the history and mixes of critical and other errors are not reached by tests, which push a few errors of one kind.",
 ["pkg/controller/status_reporter.go", "pkg/controller/declarative.go", "pkg/operator/operator.go"],
 [("error history", "pkg/controller: errorReporter"), ("status", "pkg/controller: DeclarativeController.GetStatus"), ("operator status", "pkg/operator: Operator.GetStatus / AddSpec")],
 "decision table of the reported condition and typestate of the error history over every path; loop-completeness obligations for controllers and errors",
 "Message texts are not decided, nor that the status eventually reaches the cluster (rate limiting, API failures).")

prop("O06", "Controllers are assembled as their specification says",
 "A controller is accepted only with a name, a source and a target; any failure to start is reported as critical and still yields a controller that can report it. Each source gets its own runtime controller with its own name, the reconciler that fits its type (state-of-the-world for periodic sources, incremental for the others) and a watch that starts only when target and pipeline are in place. The pipeline is compiled for the target's kind and the kinds of exactly the nonperiodic sources. The API server is told about exactly the kinds of the operator's own group.",
 [C, F], "every controller specification",
 "Tests use one or two sources of the same type; the order of watches and the rest of the assembly only matters on running managers.",
 ["pkg/controller/declarative.go", "pkg/operator/operator.go"],
 [("assembly", "pkg/controller: NewDeclarative"), ("kinds", "pkg/controller: GetGVKs; pkg/operator: Operator.GetGVKs, RegisterGVKs, UnregisterGVKs")],
 "typestate analysis over every path of the assembly (validation, order, provenance of the arguments) and loop-completeness obligations over the sources",
 "The runtime library that starts the controllers is not analysed.")

# ------------------------------------------------------------------ view cache
prop("V01", "Objects in the view cache cannot be changed from outside",
 "What is stored in the view cache is a private deep copy; what Get, List, events and the synchronization stores hand out are deep copies too, each event handler getting copies of its own. No caller of the cache can therefore change a stored object, or an object another consumer got, and the cache itself never modifies an object it holds (transformations included).",
 [H, S], "every sequence of cache operations and every set of event handlers",
 "Aliasing shows only if some consumer modifies what it got; tests compare values right after the call.",
 ["pkg/cache/view_cache.go", "pkg/cache/view_cache_informer.go", "pkg/cache/store.go"],
 [("storage", "pkg/cache: ViewCache.Add/Update/Get/List, Store"), ("event dispatch", "pkg/cache: ViewCacheInformer.TriggerEvent, AddEventHandler")],
 "interprocedural ownership analysis: every path of every exported function of the cache package is followed with the ownership (stored, fresh copy, given away) of each object",
 "That DeepCopy copies everything is V11. Only the cache package is analysed: what consumers do with their copies is their own.")

prop("V02", "Every change of a view is announced exactly once to every watcher",
 "Each successful Add, Update or Delete of a view object changes the store of its kind once and announces it once to the cache's own informer and to every delegating informer, with the right event type, the object stored or removed and, for updates, the old object; nothing is announced if the change fails, and only an update that changes nothing is suppressed. An informer delivers each event once to each of its handlers by the method for its type, transformed if there is a transformation.",
 [H, S, F], "every history of changes with every number of informers and handlers",
 "Tests register one or two watchers; a missed watcher or a wrong event type shows only for particular combinations.",
 ["pkg/cache/view_cache.go", "pkg/cache/view_cache_informer.go"],
 [("changes", "pkg/cache: ViewCache.Add / Update / Delete"), ("event dispatch", "pkg/cache: ViewCacheInformer.TriggerEvent")],
 "typestate analysis over every path of the operations that change a store and of the dispatch, with loop-completeness obligations over informers and handlers",
 "Store change and announcement are not atomic: the relative order of the events of concurrent writers of one object is not decided.")

prop("V03", "Only views get into the view cache",
 "Objects, informers and API registrations are accepted only for view kinds: the group carries the view suffix and the version is the view version. Anything else is refused before any state changes, so that native objects can never be shadowed by a view.",
 [I], "every group, version and kind",
 "Tests try one native kind at the entry points they use.",
 ["pkg/cache/view_cache.go", "pkg/cache/delegating_view_cache.go", "pkg/api/view/v1alpha1/group_version.go"],
 [("guards", "pkg/cache: ViewCache, DelegatingViewCache"), ("view predicates", "pkg/api/view/v1alpha1: IsViewGroup, IsViewKind")],
 "guard analysis: every insertion into a map keyed by kind is dominated by a successful view test of that very kind, on every path; the tests themselves are decided from their returns",
 "An operator name can itself contain dots: that the group suffix is preceded by a dot is not required.")

# ------------------------------------------------------------------ security of the API server
prop("S01", "Only holders of a valid token of this server are authenticated",
 "A request is authenticated only if it carries a bearer token whose signature was verified with the public key of the server, by a signing method of the expected family, and whose registered claims (expiry) were validated by the library; the user gets exactly the name, namespaces and rules of that token. A generated token carries exactly the restrictions and the expiry asked for. No token is ever read without verification.",
 [I], "every request header, token, signing method and set of claims",
 "Tests present one valid and a few invalid tokens; what matters is that no path around the verification exists.",
 ["pkg/auth/authenticator.go", "pkg/auth/token.go"],
 [("authenticator", "pkg/auth: JWTAuthenticator.AuthenticateRequest"), ("generator", "pkg/auth: TokenGenerator.GenerateToken"), ("claims", "pkg/auth: Claims")],
 "typestate analysis over every path of the authenticator and the generator (verified before admitted, provenance of the identity), plus a rule on every use of the token library in the module",
 "The cryptography and the claim validation of the token library are trusted. Tokens without an expiry are accepted as they never expire.")

prop("S02", "A request is authorized only if namespace and rules of the user allow it",
 "The authorizer allows a request for a resource only of a known user, in a namespace that user is admitted to (or any, for users without restriction), and only if some rule of the user covers its verb, API group, resource and name; a user without rules may do everything in the admitted namespaces. Whatever a rule covers is allowed. Names restrict a rule except for verbs on collections; a request without a namespace needs access to all namespaces. Requests that are not for resources (discovery, health) are allowed to every known user.",
 [I, C], "every user, namespace list, rule set, verb, group, resource and name, wildcards and patterns included",
 "The decision is a conjunction over five dimensions; tests sample combinations, and a weakened conjunct shows only in those it alone decides.",
 ["pkg/auth/authorizer.go", "pkg/auth/rbac.go"],
 [("authorizer", "pkg/auth: CompositeAuthorizer.Authorize"), ("rule matching", "pkg/auth: CheckRBACAccess")],
 "decision table extracted from every path of the authorizer and of rule matching (each path to an allow must have established every conjunct, each path to a refusal must have refuted one), with search-loop completeness",
 "Sub-resources are not considered by the authorizer; the resource handler refuses them (S06).")

prop("S03", "No request reaches a handler without authentication and authorization",
 "Whenever an authenticator and an authorizer are configured, every request to the API server passes request-info resolution, authentication and authorization, in that order, before it reaches any handler, the view resources, discovery and OpenAPI documents alike; every listener serves this chain. The start command configures both unless authentication is disabled explicitly.",
 [C, I], "every configuration (HTTP or HTTPS, authentication on or off) and every request",
 "Tests run one configuration; a listener that serves an inner handler answers the same for authorized users.",
 ["pkg/apiserver/apiserver.go", "pkg/apiserver/builder.go", "pkg/apiserver/config.go", "main.go"],
 [("handler chain", "pkg/apiserver: NewAPIServer, handler chain builder"), ("listeners", "pkg/apiserver: APIServer.Start"), ("start command", "main: start command")],
 "construction-order analysis: the wrappers applied to the handler served by each listener are recovered from every path of the construction; guard analysis of the configuration in the start command",
 "The wrappers themselves (k8s.io/apiserver) are trusted.")

prop("S04", "REST operations on views stay within kind, namespace and selectors",
 "Every object or list the REST storage hands to its client for reading, writing or deleting carries the kind of the storage and the namespace and name of the request; lists, watches and collection deletes are restricted to the namespace and the label and field selectors of the request; what is returned to the requester is what the client produced.",
 [I, C], "every request to every verb, with every namespace, name and selector",
 "An object addressed in another namespace bypasses the authorization that was decided for the request; tests use a single namespace.",
 ["pkg/apiserver/storage.go"], [("REST storage", "pkg/apiserver: ClientDelegatedStorage")],
 "path-sensitive provenance of kind, namespace, name and list options at every client call of every storage operation",
 "What the client does with the restrictions is V05 and V06.")

prop("S05", "Nothing is written by the API server before validation accepted it",
 "Create, Update, Patch and Delete of the REST storage write or delete an object only after the validation that came with the request accepted that very object; an update creates a missing object only if the request allows it, and the object written by an update is the one computed from the current object.",
 [H, I, F], "every request and every outcome of validation",
 "Tests pass validations that accept; a write before, or despite, a refusal is visible only with one that refuses.",
 ["pkg/apiserver/storage.go"], [("REST storage", "pkg/apiserver: ClientDelegatedStorage.Create / Update / Delete")],
 "typestate analysis over every path of the writing operations: validated before written, provenance of the written object",
 "Dry-run requests are not distinguished by the storage and are outside.")

prop("S06", "Registering a group serves and lists its views, unregistering withdraws",
 "Registering a group of views makes every kind given for it served and listed in every discovery document and drops kinds registered earlier for the group that are no longer given; unregistering a group withdraws all of it again: storages, discovery documents and definitions. Only view kinds are registered, each entry names the resource, kind, group and version it stands for, and documents computed from the registered kinds (OpenAPI) are recomputed after every change.",
 [H, C], "every sequence of registrations and unregistrations of any set of kinds",
 "Tests register one group with a few kinds once or twice; something left behind or left out shows only for particular histories.",
 ["pkg/apiserver/registry.go", "pkg/apiserver/resource.go", "pkg/apiserver/openapi.go", "pkg/apiserver/dynamic_discovery.go", "pkg/apiserver/builder.go"],
 [("registration", "pkg/apiserver: APIServer.RegisterGVKs / UnregisterGVKs / RegisterAPIGroup / UnregisterAPIGroup"), ("discovery", "pkg/apiserver: DynamicDiscoveryHandler, group and version handlers"), ("API definitions", "pkg/apiserver: OpenAPI handlers")],
 "for-each obligations over every path of registration and unregistration, helpers inlined: for every kind given (or registered) each registry is changed, with the provenance of key and value; staleness typestate of the computed documents",
 "The schema of a view in the OpenAPI document is not decided. The preferred version is not decided (views have one version).")

prop("S10", "REST operations report the failures of the client",
 "If the client fails, the REST storage reports an error, never an empty success: not-found for a missing object, already-exists for an existing one, and any other failure as an error; if the client succeeds no error is reported. A delete of a collection reports a failure of any of its deletions.",
 [F], "every failure of every client call",
 "The client used by tests hardly ever fails.",
 ["pkg/apiserver/storage.go"], [("REST storage", "pkg/apiserver: ClientDelegatedStorage")],
 "abstract fault injection at every client call of every storage operation, with the error predicates tested on each path",
 "Kinds of errors other than not-found and already-exists are not distinguished.")

prop("S13", "Each request for a view is served by the storage and handler for it",
 "A request for a registered view resource is answered exactly once, by the handler for its verb with the storage registered for exactly its group, version and resource; requests for sub-resources are not served as requests for the object, and everything else is delegated or refused. Registering or removing a storage changes the entry of that resource only, never the table requests are being served from, and no concurrent change is lost; a storage serves the kind it was registered for.",
 [I, S], "every request, and every interleaving of requests with registrations",
 "Tests register a couple of views and use a few verbs; lost updates of the table need concurrent registrations.",
 ["pkg/apiserver/resource_handler.go"], [("resource handler", "pkg/apiserver: resourceHandler.ServeHTTP, addStorage, removeStorage")],
 "decision table of the routing extracted from every path, and copy-on-write discipline (copy, change one entry, publish under the lock) over every path that replaces the table",
 "The generic request handlers (k8s.io/apiserver) are trusted.")

prop("S09", "Private keys stay private, and a certificate certifies its own key",
 "Private keys and access configurations the tool generates are only written to files nobody but the owner can read, and private keys are never printed, logged or made part of an error message. The generated certificate certifies the very key generated with it, for every host name and address asked for; key and certificate are written to the files given for them, and success is only reported when both have been written.",
 [I, F], "every list of hosts, every combination of flags and every failure",
 "Tests generate a certificate for one or two hosts and do not look at file modes or output.",
 ["pkg/auth/token.go", "pkg/auth/kubeconfig.go", "main.go"], [("key generation", "pkg/auth: GenerateSelfSignedCertWithSANs, WriteCertAndKey; main: generate-keys, generate-config")],
 "information flow of secrets (keys, tokens, configurations) from their origins to files, output, logs and errors over every path, with file modes; per-host loop obligations",
 "A key file that exists already keeps its mode. The libraries called (os, crypto, clientcmd) are trusted.")

prop("S11", "Tokens and configurations are generated as asked for",
 "generate-config signs, with the given key, a token for exactly the user, namespaces, rules and expiry given, never a wider one: a restriction that is given but empty or cannot be parsed is refused, and resource names restrict the last rule. The configuration written contains that token and the server, namespace and TLS settings given, and goes to the output asked for.",
 [I], "every combination of the settings and every content of the rules file",
 "The tool has no tests of its own; combinations of flags are not covered.",
 ["main.go", "pkg/auth/kubeconfig.go"], [("generate-config", "main: runGenerateConfig, parseCommaSeparated")],
 "exploration of every path of the command with each setting followed to the argument of the token and the configuration it belongs to, and refusal obligations for empty restrictions",
 "--rules is ignored when --rules-file is given; unknown JSON fields of rules are ignored.")

prop("S12", "Access tokens do not get into logs or error messages",
 "No access token, and no request, header or configuration containing one, is logged, printed (except as the product of generate-config) or made part of an error by the API server, its authentication or the command line tool; logging a request does not change what is served: the request handed on is the one received, with its complete content.",
 [I], "every request and every log level",
 "Tests do not read the log.",
 ["pkg/apiserver/builder.go", "pkg/auth/token.go", "main.go"], [("request log", "pkg/apiserver: handler chain; pkg/auth; main")],
 "information flow of tokens and requests to logs, output and errors over every path of every function that logs, with redaction of copied headers tracked; effect analysis of the request handed on",
 "What the libraries (client-go, apiserver) log themselves is not analysed.")

prop("C01", "Command line settings take effect, nothing insecure is on by default",
 "Every command is part of the tool, each of its flags is a setting of its own that has an effect, and nothing that weakens security is on unless asked for. The start command runs the operators, the shared view cache and, unless switched off, the API server, all on one API with the addresses, modes and files given, until it is told to stop; a step that fails makes a command exit with failure.",
 [I, F], "every combination of settings, every failure",
 "The start command is not covered by tests at all.",
 ["main.go", "pkg/apiserver/config.go", "pkg/cache/api.go"], [("commands", "main: *Cmd, run*; apiserver.NewDefaultConfig; cache.NewAPI")],
 "flags bound to settings and settings followed along every path of the commands to the constructors of the parts; abstract fault injection over every call of the tool that can return an error",
 "The flag --config of start is never read (known finding). Failures of the API server and the cache while running are logged only.")

# ------------------------------------------------------------------ expressions
prop("E01", "Every expression operator computes what its documentation says",
 "The evaluator gives every operator its documented meaning: the arguments are evaluated in order, each with the document and subject of the whole expression (list commands with each element as the subject), the operator is applied to these values as a whole, and the logged and returned result is that value. Literals are themselves, maps and lists are evaluated member by member, strings starting with $ are references, and an unknown operator, a wrong number of arguments or a failed evaluation of an argument is an error.",
 [I, F], "every expression over every operator, every document and every kind of argument value",
 "Tests evaluate some sixty operators on a few values each; types, argument counts and element positions are sampled, the combination of operators is not covered.",
 ["pkg/expression/expression.go", "pkg/expression/converter.go"], [("evaluator", "pkg/expression: Expression.Evaluate; list commands; arithmetic, logical and string operators")],
 "abstract interpretation of the evaluator once per operator (branches of other operators pruned by constant folding over the operator name); the term returned on every path is compared with the documented meaning under the conditions of that path",
 "What the conversions make of a value is E04, references E06, the selector of @selector E09. Values computed by standard library calls (math, strings, time, hash) are identified by the call. Floating point rounding is outside.")

prop("E02", "No expression, pipeline or object makes the operator panic",
 "No expression, pipeline, source parameter, token or document - however ill-formed, empty, huge or of unexpected types - makes the operator panic: whenever expressions, pipelines, objects, triggers and requests are processed, an index is within its list, a type assertion that cannot fail gracefully is of a known type, reflection is used on values of the right kind, sizes that are allocated are bounded, divisors and ranges are positive where they must be, and missing parts are not used. What cannot be processed is refused with an error.",
 [I], "every expression, pipeline specification, document, source parameter and claim",
 "A panic in a pipeline ends the whole process; it takes the one value nobody tried: an empty list where an element is taken, a named string type, a period of zero, a range of 2^63.",
 ["pkg/expression", "pkg/pipeline", "pkg/object", "pkg/reconciler", "pkg/controller", "pkg/operator", "pkg/auth", "pkg/predicate", "pkg/util"], [("all functions", "pkg/{expression,pipeline,object,util,reconciler,controller,auth,predicate,operator}: every index, slice, assertion, allocation, division, reflection, must-call, ticker")],
 "path-sensitive value analysis: every function is explored with facts about lengths, bounds, kinds, dynamic types and nilness taken from the conditions on the path; every instruction that can panic is an obligation to be implied by the facts",
 "Panics inside libraries (JSONPath parser, Kubernetes) are covered only for the calls whose preconditions are listed (reflect, rand, time, strings, Must*). Nil pointers are decided for fields filled from data and map entries; other pointers, stack exhaustion, exhaustion of memory by many elements, pkg/dbsp, pkg/cache and pkg/apiserver are outside.")

prop("E03", "A failed evaluation is never taken for a value",
 "If the evaluation of a part of an expression fails - an argument, a reference, a conversion, a nested list command - the evaluation of the expression fails and reports an error; no failure is turned into a value, a default or an empty result, and no success is reported as a failure. The documented exceptions (a reference to a missing path is null, alternative conversions are tried in turn) are the only ones.",
 [F, I], "every failure of every call of the evaluator and its conversions",
 "Tests contain a few ill-formed expressions; almost no error branch is executed.",
 ["pkg/expression", "pkg/pipeline", "pkg/util"], [("evaluator", "pkg/expression: Evaluate, As*/Is* conversions, JSONPath access, selectors")],
 "abstract fault injection: every call that can fail is made to fail in turn, and its error tracked along every path to an error result, an alternative that is tried next, or the (violating) success exit",
 "Panics are E02. The content of messages is not decided.")

prop("E04", "Values are converted between types as documented, or refused",
 "Conversions of expression values yield a value of the asked type denoting the same thing, or an error: booleans, integers, floats and strings convert as documented whatever Go type carries them, lists element by element and in order with nothing dropped, objects with every member; a conversion never succeeds with a value of the wrong type or one that was made up.",
 [I], "every value of every Go type a document can contain",
 "Tests convert a handful of values; the Go types decoders and code can produce (int, int32, uint64, float32, named types) are sampled.",
 ["pkg/expression/converter.go"], [("conversions", "pkg/expression: AsBool, AsInt, AsFloat, AsString, AsList, AsObject, As*List, IsList, AsIntOrFloat")],
 "decision tables of the conversions extracted by exploring every path once per kind of input (type tests folded), the returned term compared with the documented conversion; element loops as for-each obligations",
 "Number parsing and formatting by the standard library are trusted; float to integer truncation is as in Go.")

prop("E05", "Evaluating an expression changes nothing",
 "Evaluating an expression, a projection, a selection or a join condition never changes the document, the subject or any other value it was given, nor a value it returned before: everything that is written is a map, list or object made by this very evaluation. Values placed into a map under construction are copies, so that setting one key never changes what another key - or the source document - refers to.",
 [I, H], "every expression, every document, every sharing between documents, results and spare capacity of lists",
 "Aliasing only shows when the same document is evaluated twice, or two keys of one result share a value; tests evaluate each document once and compare the result.",
 ["pkg/expression", "pkg/pipeline/op.go", "pkg/object/utils.go"], [("evaluator", "pkg/expression: Evaluate, SetJSONPath; pkg/pipeline: op.go; pkg/object: MergeAny")],
 "ownership analysis of every instruction reachable from the evaluators that writes a map, list or struct (including appends and library calls that write): the written value must be traced to an allocation or a copy within the evaluation, parameters to all callers",
 "The document given to a transformer is a private copy (D03). Writes inside the standard library and the JSONPath library other than the ones listed are trusted.")

prop("E06", "References read and set what they denote",
 "A key without leading $ is a member of the map being built; $ or $. is the whole document and $.path a part of it; with a subject, $$, $$. and $$.path denote the subject instead. A reference yields the first match or null if there is none; setting a key sets exactly that place to the (resolved) value, the root key takes over all members, and the keys of a map are set in an order in which none overwrites another: root, then plain keys, then paths.",
 [I], "every key, reference, document, subject and value",
 "Tests use a dozen paths; the order of the keys depends on map iteration and shows at random only.",
 ["pkg/expression/jsonpath.go"], [("references", "pkg/expression: GetJSONPath, GetJSONPathRaw, SetJSONPath, SetJSONPathRaw, sortedDictKeys")],
 "abstract interpretation of the two functions once per class of keys (empty, plain, root, path, subject root, subject path; with and without subject), conditions folded over the class, the effect on every path compared with the class's meaning; ordering function evaluated symbolically over pairs of classes",
 "JSONPath evaluation proper is the library's (ojg/jp).")

prop("E08", "Expressions and pipelines survive being written down and read back",
 "Every form of JSON is read as the expression that stands for it - null, booleans, integers, numbers with a fraction, strings, lists, maps, a map with the single key @op - with its value, anything else is refused; and every expression is written in the form that is read back as the same expression, operators with their argument, so that copies made through the text evaluate as the original does. A pipeline keeps all its operations, in order, each with its own operator and expression, and is refused if one is unknown.",
 [I], "every expression and every pipeline",
 "Tests read some twenty expressions; copies are made for every source and target.",
 ["pkg/expression/marshaler.go", "pkg/expression/literal.go", "pkg/api/operator/v1alpha1/pipeline_types.go"],
 [("expressions", "pkg/expression: UnmarshalJSON, MarshalJSON, DeepCopyInto, NewLiteralExpression"), ("pipelines", "pkg/api/operator/v1alpha1: Pipeline.UnmarshalJSON, MarshalJSON, DeepCopyInto")],
 "path-sensitive exploration of the reader for each form of JSON and of the writer for each operator, with conditions on the form and the operator folded; provenance of what is stored and written; for-each obligations over operations and entries; check of the static types handed to the JSON encoder",
 "Text to value inside encoding/json is trusted. A literal map with a single key that starts with @ cannot be written down (and is never read).")

prop("E09", "Label selectors are matched as given or refused",
 "@selector matches the labels against every label and every requirement of the selector - key, operator and all values - in either notation (plain labels or matchLabels and matchExpressions); a malformed requirement or an unknown operator is an error, never ignored, because an ignored requirement makes a selector match more objects.",
 [I], "every selector and every set of labels",
 "Tests use two selectors.",
 ["pkg/expression/selector.go"], [("selectors", "pkg/expression: MatchLabels, convertToLabelSelector")],
 "for-each obligations over the labels, requirements and values of the selector along every path, element-to-entry flow of keys, operators and values",
 "Matching proper is apimachinery's. matchLabels or matchExpressions of a wrong type are taken for plain labels.")

prop("D10", "Documents are the same exactly when their contents are, and copies share nothing",
 "Two documents get the same identity exactly when they have the same members with the same values, at any depth and in any order of keys, numbers compared by value; DeepEqual says so of two documents. A deep copy equals the original and shares no map or list with it; every member and element is copied, in place.",
 [I], "every document, nesting and Go type decoders produce",
 "Z-sets, joins and deltas identify documents by these functions alone; tests compare a few flat documents, where a collision or a shared list does not show.",
 ["pkg/dbsp/document.go"], [("identity", "pkg/dbsp: the functions computing the key of a document"), ("equality and copies", "pkg/dbsp: DeepEqual, DeepCopyAny, DeepCopyDocument")],
 "structural recursion rules: every path of the functions explored once per kind of value, with type tests folded; what is compared, written or copied for each member and element, under which key or index, and that nothing is skipped or ends the loop early",
 "The integer and the float of the same value get the same identity, on purpose. That encoded strings are unambiguous is decided for the separators the code uses, not in general.")

prop("V11", "Objects carry what they are given, and copies share nothing",
 "The primitives on view objects do what their names say and nothing else: setting the content, name, namespace or unique id of an object changes exactly that part and keeps kind and group; a new view object has the kind, namespace and name asked for; copies equal the original and share no map or list with it; merging one value into another keeps every member of both, the second one winning where they disagree, at any depth; unique ids depend on kind, namespace and name; decoding a secret changes the values of its data only.",
 [I], "every object, content, patch and nesting",
 "All view objects, patches and projections are built by these functions; tests use a few flat objects.",
 ["pkg/object/object.go", "pkg/object/patch.go", "pkg/object/secret.go", "pkg/object/uid.go", "pkg/object/utils.go"],
 [("edits", "pkg/object: SetContent, SetName, NewViewObject, NewViewObjectFromNativeObject, WithUID, RemoveUID, NewUID"), ("structure", "pkg/object: DeepCopyAny, DeepCopyInto, MergeAny, Patch, DecodeSecretData")],
 "structural recursion rules for the copying and merging functions (per kind of value, per member and element); effect analysis of the editing functions: every write to the object on every path compared with the part the function is for",
 "apimachinery's accessors are trusted. Patch drops int and int32 leaves of new maps (noted as a limit).")

prop("V09", "Discovery lists the registered views, each once, as what they are",
 "A view kind that was registered is found by discovery until it is unregistered, and nothing else is: listed once, under its own group and version, described with its own kind, resource name and all verbs, as namespaced; every group is listed once with every version it has kinds of, once, and one of them as preferred. The conversions between kinds, list kinds and resources and the mapping of resources keep group and version and refuse, or leave alone, what is no view.",
 [I, H], "every set of registered kinds and every kind, resource and version asked for",
 "Tests register one kind; repeated versions, several groups and kinds of other versions do not occur.",
 ["pkg/cache/view_discovery.go", "pkg/cache/view_restmapper.go"],
 [("discovery", "pkg/cache: ViewDiscovery"), ("REST mapper", "pkg/cache: ViewRESTMapper")],
 "for-each obligations over the registered kinds, versions and groups along every path; decision tables of the tests and conversions, conditions folded per kind of argument, results compared part by part",
 "ViewRESTMapper.KindFor cannot know the case of a kind and returns its title form. OpenAPI schemas are not covered.")

prop("V13", "Groups of views are named after their operator and recognised as such",
 "The group of the views of an operator is its name followed by the suffix of views, in the one version of views; such groups and kinds, and no native ones, are taken for views; the operator of a view - also of one that stands for a native kind - is the one it was made for; and a native kind mapped into a view is mapped back to itself, whatever its group.",
 [I], "every operator, view and native kind",
 "Everything that tells views from native objects and operators from each other rests on these functions; the tests map two kinds, none of a group with dots.",
 ["pkg/api/view/v1alpha1/group_version.go"],
 [("names", "pkg/api/view/v1alpha1: Group, GroupVersion, GroupVersionKind, GetOperator"), ("recognition", "IsViewGroup, IsViewGroupVersion, IsViewKind, HasViewGroupVersion, HasViewGroupVersionKind"), ("mapping", "MapIntoView, MapFromView")],
 "abstract interpretation of the functions over texts that are concatenations of constants and unknown parts (which may or may not contain dots), one run per shape of argument, the abstract result compared with the one required",
 "Operator names and versions are assumed not to contain dots, native groups not to end like those of views.")

prop("O04", "Copies of operator resources are complete and share nothing",
 "A deep copy of an operator, of its specification, its status or anything they are made of - controllers, sources, targets, resources, pipelines and their operations, predicates, expressions - equals the original in every field and shares no pointer, list or map with it, so that changing one never changes the other; the copy of nothing is nothing. A predicate is written as the form it has - basic or boolean - and read back as that form and no other; what is neither is refused.",
 [I], "every operator resource and every part of it being set or not",
 "The client and the cache hand out copies of these objects; tests never modify a copy and look at the original, and most fields are never set in tests.",
 ["pkg/api/operator/v1alpha1/zz_generated.deepcopy.go", "pkg/api/operator/v1alpha1/pipeline_types.go", "pkg/predicate/deepcopy.go", "pkg/expression/marshaler.go"],
 [("copies", "pkg/api/operator/v1alpha1, pkg/predicate, pkg/expression: the methods DeepCopyInto and DeepCopy"), ("encoding of predicates", "pkg/predicate: Predicate.MarshalJSON, Predicate.UnmarshalJSON")],
 "ownership analysis: every path of the copying methods keeps facts about what each place of the copy holds; the places that hold references are found from the type, each needs memory of its own with the content of the same place of the original, elements one by one",
 "Copies made by encoding and decoding (predicates, expressions) rest on E08 for being complete; a failure to encode is not judged.")

prop("S14", "Tables show every object once, under the right columns",
 "Objects and lists asked for as a table (kubectl get) become one row per object, in the order of the list, whose cells - namespace (of namespaced kinds only), name, conditions, labels, annotations - are read from that very object and stand under the columns announced for them; the row carries the object, the table the version of the list, and anything else is refused. Labels and conditions are all shown, well-known conditions first in their order, or the first ones with the right number of those left out, and the text does not depend on the order of maps; <none> stands for no entries only.",
 [I], "every object and list, namespaced or not, with any number of labels, annotations and conditions",
 "Tests convert an object or two with few labels; misplaced cells, lost conditions and the order of maps go unnoticed.",
 ["pkg/apiserver/storage.go"],
 [("tables", "pkg/apiserver: ClientDelegatedStorage.ConvertToTable and the functions rendering its cells")],
 "abstract interpretation of the conversion per kind of object and scope (cells and columns read off the path and compared), for-each obligations over objects, labels and conditions, order-independence of the loops over maps",
 "The rank of well-known conditions is the table in the code. The width of columns is not considered.")

# ------------------------------------------------------------------ not decided by static analysis
na("N01", "Incremental evaluation and synchronization agree on the target's content",
 "Applying the deltas a pipeline produces for a history of source changes, starting from nothing, leads to the same set of target objects as computing the pipeline on the complete current state of the sources.",
 [PR, I, H], "every pipeline program, every set of source objects and every history of changes",
 "The tests replay a few histories of a few pipelines.",
 ["pkg/pipeline/pipeline.go", "pkg/pipeline/zset_adaptor.go"],
 [("evaluation", "pkg/pipeline: Pipeline.Evaluate"), ("synchronization", "pkg/pipeline: Pipeline.Sync")],
 "Equality of two computed values over unbounded histories depends on the documents themselves (join predicates, keys of groups, identities of documents after projections), which no sound abstraction in reach can track. The parts it is made of are decided: conversion (D01), wiring (D04), algebraic shape of the operators (D07), optimization (D08), remembered source state (P02) and delta conversion (P04, P06).")
na("N02", "Targets converge once failures cease",
 "After any history of failed writes to targets, once the API server accepts writes again, every target reaches the content its pipeline prescribes for the current sources.",
 [F, H, S], "every sequence of failed writes and every interleaving with further source events",
 "Tests do not fail writes in the middle of a history.",
 ["pkg/reconciler/target.go", "pkg/controller/reconcilers.go"],
 [("writes", "pkg/reconciler: target.Write"), ("requests", "pkg/controller: the reconcilers")],
 "A liveness property over failure histories: it depends on requeueing and back-off in controller-runtime, on the order of later events and on wall-clock time. That every failure is reported (P08, R04, R06, O03) is decided.")
na("N03", "Periodic sources fire at their period",
 "A periodic source produces one event per period for as long as its controller runs, neither drifting nor accumulating when evaluation is slow.",
 [S, C], "every period and every scheduling of the process",
 "Tests wait for a few ticks of one period.",
 ["pkg/reconciler/source.go"],
 [("ticker", "pkg/reconciler: periodic source")],
 "Quantifies over real time and the scheduler; the source shows only that a ticker is created with the configured period (R02, E02).")
