TECH.update({
 'C01':'static analysis: value-graph dataflow; range facts proved on every element of a delivered example',
 'C02':'static analysis: value-graph dataflow; every path meeting malformed text proved to set the error and return false',
 'C03':'static analysis: value-graph dataflow; delivered elements proved equal to the parse of their own token',
 'C07':'static analysis: gated value-graph dataflow over go/ssa (fifo methods against a ring-buffer specification), plus who-may-write rule',
 'C08':'static analysis: value-graph dataflow; solved loop counters show each (table,address) is used exactly once',
 'C09':'static analysis: value-graph dataflow; heap effect summary of the clearing loops',
 'C10':'static analysis: value-graph dataflow; range facts on the solved address expression and the table geometry',
 'C11':'static analysis: dependence (slicing) of the solved address expression, per hash function',
 'C18':'static analysis: ownership/effect analysis on the value graph (every write proved to reach only owned or new storage) for each owner-mask',
 'C19':'static analysis: value-graph dataflow; the returned and stored value proved equal to the specified sum',
 'C20':'static analysis: typestate of per-input slots on the value graph (guards dominate, post-state proved)',
 'C21':'static analysis: value-graph dataflow; the stored signal proved equal to the specified expression',
 'C22':'static analysis: value-graph dataflow; accumulator deltas of the solved loops proved equal to the specified gradients', 'C25':'static analysis: value-graph dataflow; stored activations proved to be exponentials shifted by a common upper bound, the constant their sum',
 'C26':'static analysis: value-graph dataflow; call-site rule over every hashing call per configured function, plus who-may-write rule for the hashers',
 'C27':'static analysis: value-graph dataflow; solved loop counters show every node is re-inserted exactly once after the update, ordering rule on the call sites',
 'C29':'static analysis: value-graph dataflow; arguments of every query solved per (example, layer), dependence rule for labels',
 'C30':'static analysis: value-graph dataflow; the final value of every parameter proved equal to the specified update',
 'C31':'static analysis: value-graph dataflow; solved loop counters show each (example, layer, active node) is visited exactly once, ordering rule',
 'C12':'static analysis: effect and dependence analysis of every hash method (writes, library calls, sources the result depends on), plus who-may-write rule for the hashers',
 'C32':'static analysis: value-graph dataflow; the prediction loop proved to be an argmax by induction over its solved state',
 'C13':'static analysis: value-graph dataflow; the origins of every returned code traced back through the probing loops, the length proved',
 'C14':'static analysis: value-graph dataflow; the fold over the entries proved to use declared indices, and to see the dense vector the entries describe',
 'C15':'static analysis: value-graph dataflow; ranking argument for every loop, probe ranges and the exit of every unbounded loop proved',
 'C17':'static analysis: value-graph dataflow and dependence; input values proved to flow into order comparisons only',
 'C16':'static analysis: value-graph dataflow; the tables built proved to be images of shuffled complete coordinate lists',
 'C28':'static analysis: effect analysis on the value graph; every write reachable from a prediction classified by the object it lands in, final state of nodes and layers proved equal to the initial one',
 'C04':'static analysis: effect and ownership analysis on the value graph; no write lands in memory reached through an example, scanned examples lie in fresh storage',
 'C05': 'static analysis: value-graph dataflow; every path of the loader proved to return an error or a fresh object holding the table of defaults overlaid by the decoder',
 'C06': 'static analysis: module-wide effect and taint analysis of package-level memory; who may store the active configuration, and where',
 'C33': 'static analysis: value-graph typestate of every fallible operation reachable from main (error examined before any later effect), plus a module-wide lint that no error result is dropped',
 'C34': 'static analysis: value-graph dataflow of the training loop; solved loop counters give the step number and the content of every batch, ordering rule for reads and training',
 'C35': 'static analysis: value-graph dataflow; the maintenance flags proved equal to the specified schedule at every training call, every divisor proved non-zero',
 'C36': 'static analysis: value-graph dataflow and ownership; every slice a node holds proved to be its own block, slots proved to be distinct allocations',
 'C38': 'static analysis: bounds analysis over value graphs; every index, slice, division, allocation size and explicit panic of the operations proved safe from constructor-established invariants, which are proved separately at the constructors',
 'C39': 'static analysis: value-graph dataflow; bounded-queue discipline (every entry enters once, each addition displaces the front, entries left are hashed) with the comparison proved to put the smallest value in front',
 'C40': 'static analysis: value-graph dataflow over main with everything inlined; values handed to output functions that depend on a prediction are proved equal to the ratio of the sums of correct and presented examples of the same evaluation loop, batches proved to be the scanner\'s examples in order',
 'C41': 'static analysis: value-graph dataflow; the search loop of an empty bin is characterised by its exit iteration and the result proved equal to the code at the first successful attempt, by cases on where the search ends',
 'C42': 'static analysis: value-graph dataflow; the running sum is folded into a closed sum over the samples and the code proved to be its sign',
 'C43': 'static analysis: value-graph dataflow; every initial parameter is traced to the random draw it comes from, draws being identified by call site and loop counters and proved pairwise different',
 'C44': 'static analysis: value-graph dataflow; loop summaries of the pass over the retrieved buckets (whole, never left early), effect of one iteration on the selection marks or counts, marks counted as a ghost quantity',
 'C45': 'static analysis: value-graph dataflow; the list is traced to the sorted sequence it is cut from and its sort keys and length compared with the specification as polynomials and sums; selection marks counted as a ghost quantity',
 'C37': 'static analysis: value-graph dataflow; the arguments of the layer constructor solved per layer number and compared with the chain specified',
 'C23': 'static analysis: value-graph dataflow over all selection modes; a mark set is followed through the loops and every label proved marked, marks proved never withdrawn, marked nodes proved to be the ones listed',
 'C24': 'static analysis: value-graph dataflow over all selection modes; ghost count of marked nodes proved equal to the length and position of every insertion, comparator and swap of the sort checked, random order proved a permutation',
})
