"""What MANIFEST.json says about each check."""
FLOW = 'path-sensitive interprocedural dataflow (value numbering) over MIR'
NOTES = {
    'P01': (FLOW, 'Decides, for every path through the serving closure and through each registration call, which handler is stored under which method and by which method it is looked up. One step of the tree lookup is decided against the step of registration; that both agree over whole trees is not (P31).'),
    'P02': (FLOW, 'Decides for every path of the serving closure what the lookup is given and what is answered with and without user code having run, with one step of the tree lookup decided as for P01.'),
    'P03': (FLOW, 'Decides for every path of serving and of EndpointExecutor::next which link of the chain is entered, with what, and what is returned.'),
    'P04': (FLOW + ', one inductive step of the recursive lookup', 'Decides for every outcome of one lookup step, and of the lookup as a whole, exactly which middleware lists were appended in which order, and that failed steps leave nothing behind. The recursive call is a contract proved by the same step.'),
    'P05': (FLOW + ', one inductive step of the recursive lookup', 'Decides for every outcome of one lookup step which name is bound to which text, that failed steps bind nothing, and that the result reaches the context unchanged.'),
    'P06': (FLOW + ', one inductive step of the tree insertion', 'Decides for every outcome of one insertion step that every old value, child list and key text is kept exactly once, and for every normal return of each registration call what is stored where. Tree shapes beyond one step follow by induction over the recursion.'),
    'P07': (FLOW + ', one inductive step of the tree insertion', 'Decides that ambiguous siblings, misplaced wildcards, taken methods and occupied mount points never reach a normal return.'),
    'P08': (FLOW, 'Decides the final response as a function of the outcome of the chain for every path.'),
    'P09': (FLOW, 'Decides the final response for every path on which the chain ended in an error.'),
    'P10': (FLOW, 'Decides what every path puts into the request extensions before entering user code and what every configuration method does to the state.'),
    'P11': ('field-mutability and interior-mutability census over the type graph, with a call-graph effect analysis', 'Decides that nothing reachable from the served App holds interior mutability or a mutable static the crate writes, and that no request code receives the routing table mutably. State held by user code is not judged.'),
    'P12': (FLOW, 'Decides for form and JSON extraction which bytes reach the decoder, including one inductive step of the chunk loop. The decoders themselves (serde_json, form_urlencoded) are outside the crate.'),
    'P13': (FLOW, 'Decides for every extraction path that Ok carries the result of a successful decode of that datum and that every failure is returned as Err.'),
    'P14': (FLOW + ', feasibility of every panic and precondition of every partial operation', 'Decides for every unwrap, index, slice, arithmetic check and partial library call reachable from request-serving code whether the facts on the way to it exclude the panic. Panics inside dependencies on valid arguments, allocation failure and panics of user code are outside.'),
    'P15': (FLOW + ', evaluation of the path guards over hostile segments', 'For every file system call of the static handlers, decides which parts the path is put together from and that each request-derived part is guarded so that no hostile segment (parent, root, encoded, separators) gets through.'),
    'P16': (FLOW, 'Decides on every path of the static handlers, Response::file and Context::build_file that what is sent is what was read, and that every failure to read yields 404.'),
    'P17': (FLOW, 'Decides every return of every setter: which part of the response changed and to what value. Header lists built in a loop are decided per loop iteration where the loop is recognised.'),
    'P18': (FLOW, 'Decides every return of every conversion: status, body and content type.'),
    'P19': ('effect analysis over the call graph of request-serving code', 'Classifies every external function reachable from request-serving code as blocking or not. Calls made by user code are not judged.'),
    'P20': (FLOW, 'Decides for each scalar method of the form deserializers which parse is called, on which text, and to which visitor method its result goes unchanged.'),
    'P21': ('compile-fail witnesses with compiling twins, and a query over public signatures', 'About a hundred programs that break a rule in one line and are otherwise accepted must be rejected by rustc for that line, and every exported function is checked for handing out a second context or executor, continuing the chain or starting to serve through a reference. The public fields of EndpointExecutor let a program assemble another executor by hand; the statement is about one executor.'),
    'P22': ('query over HIR and MIR for unsafe constructs', 'Complete: every unsafe block, fn, impl, trait and foreign item of the crate is enumerated, plus unsafe attributes.'),
    'P23': (FLOW + ', one inductive step of insertion and lookup', 'Decides how the mark telling whole segments from rests of segments is set and compared in insertion and lookup, and how paths are split.'),
    'P24': (FLOW, 'Decides every Error/Display/From impl of the crate error types.'),
    'P25': ('cycles of the call graph with a structural-descent argument per recursive call', 'Complete over calls resolved in the crate: every cycle must go through the tree lookup, the tree insertion or the middleware chain, each of whose recursive calls gets a strictly smaller tree or list.'),
    'P26': (FLOW, 'Decides every path of the logger middleware: one continuation, unmodified context, outcome returned unchanged, no panic.'),
    'P27': (FLOW + ', comparison of call sequences of two functions', 'Compares all outcomes of each App method with those of the Router method of the same name, and evaluates scope and the Clone impls.'),
    'P28': (FLOW, 'Decides which parts of the request each Context method can change, on every return.'),
    'P29': (FLOW, 'Decides the address value given to the server bind and to the announcement callback.'),
    'P30': (FLOW, 'Decides the collection loop of form parsing per iteration and the walk of the map and sequence access types by induction over calls.'),
    'P35': (FLOW, 'Decides the outcome of the future made for every request and every connection, and what the server future is wrapped in before it is awaited. Panics of handlers and what hyper does with a connection are outside.'),
    'P36': (FLOW, 'Evaluates every constructor without arguments; complete for them.'),
    'P37': (FLOW + ', evaluation of the path guards over ordinary names', 'Decides which segments the file name is put together from for every path to the file system, and that no outcome without reading is reached by one of a list of ordinary names. Routes below a nested router with a path of its own are a known finding.'),
    'P38': (FLOW + ', an invariant over every list of children', 'Decides for every outcome of one insertion that the new list of children has nothing behind a wildcard, and for the lookup that children are looked at from the first to the last. That a segment with a wildcard is nothing else is P07.'),
    'P39': (FLOW + ', the condition of every panic', 'Enumerates every panic of the registration calls and every error of the insertion step, and decides whether one of the stated reasons is known on the path to it. Panics of failing operations (unwrap and the like) that cannot be excluded are reported as undecided.'),
}
NOT_APPLICABLE = {
    'P31': 'Equivalence of the tree walk with a matching relation over all registered sets and paths is functional correctness of an unbounded data structure; no sound static argument in reach bounds it. Necessary clauses visible in the code are claimed as P04, P05, P23 and P25.',
    'P32': 'Commutativity of sequences of tree insertions quantifies over histories of runtime tree shapes; nothing in the shape of the code of one insertion decides it. Clauses about single insertions are claimed as P06 and P07.',
    'P33': 'Round-trip equality quantifies over runtime text and over the encoder of a client, which is not part of the repository. The structural clauses are claimed as P13, P20 and P30.',
    'P34': 'Liveness and isolation between connections is decided by hyper\'s and tokio\'s runtime, not by code of this crate; the clauses in this crate are claimed as P11, P14 and P19.',
}
