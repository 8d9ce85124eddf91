import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
X="dataset/xcrepo/xcrepo.go"; CF="configuration/configuration.go"; L="layer/layer.go"; N="node/node.go"; NW="network/network.go"; M="goslide.go"
LS="lsh/lsh.go"; FF="bucket/fifo/fifo.go"; W="wta_hash/wta_hash.go"; DW="densified_wta_hash/densified_wta_hash.go"; DM="densified_minhash/densified_minhash.go"; DMQ="densified_minhash/index_value_pairs.go"; S="sparse_random_projection/sparse_random_projection.go"

p("C01","Delivered examples stay inside the dimensions declared by the dataset header",
 "Whenever scanning a dataset line succeeds, every label of the delivered example lies in [0, number of labels) and every feature index lies in [0, number of features), the two numbers being those declared by the file's header. A header is accepted only if all three numbers it declares are positive.",
 ["inputs"],"every byte sequence offered as a dataset file, every line of it","The dataset package has no tests at all; a sample of lines cannot cover every token on every line.",[X],
 [("range test before an element is kept","Scanner.parseLabels, Scanner.parseFeatures"),("positivity test on header numbers","Scanner.scanHeader")],obs=["Scanner.Scan","Scanner.Example","NewScanner"])
p("C02","Malformed dataset input is reported, never silently accepted or skipped",
 "If the header or a line does not parse completely (wrong number of header fields, no features, a token that is not label / index:value, an out-of-range number), the scan step that meets it returns false and the scanner's error is non-nil. From then on every scan call returns false without reading further input and the same error keeps being reported; failures of the underlying reader are reported by the same error accessor.",
 ["inputs","histories"],"every dataset content and every later sequence of scanner calls","No tests for the package; the claim covers all malformed inputs and all later calls.",[X],
 [("sticky error field consulted first","Scanner.Scan, Scanner.Err"),("parse errors stored and propagated as false","Scanner.parseLabels, Scanner.parseFeatures, Scanner.scanHeader")])
p("C03","A delivered example reproduces exactly the content of its line",
 "After a successful scan the example holds, in line order and without omission or addition, one label per comma-separated item of the first field and one index/value pair per following field, each parsed from its own token. The header accessors report its first, second and third number as points, features and labels respectively, and the line number counts the lines consumed, header included.",
 ["inputs"],"every well-formed dataset file","No tests for the package; correctness of position mapping holds over all token counts.",[X],
 [("index-wise fill of freshly sized slices","Scanner.parseLabels, Scanner.parseFeatures"),("header assignment","Scanner.scanHeader")])
p("C04","An example, once obtained, is never altered by scanning, training or inference",
 "The labels and features of an example handed out by the scanner are not changed by any later scan call, nor by training on it or predicting with it: later examples use storage of their own and the network only reads the examples it is given.",
 ["inputs","histories"],"every sequence of scan, training and prediction calls","Aliasing shows only for particular later calls; the packages involved have no tests.",[X,NW,L,N],
 [("fresh slices per line","Scanner.Scan and parsers"),("read-only use of features and labels","Network.ProcessInput, Network.PredictClass, Layer.QueryActiveNodeAndComputeActivations, Node methods")])
p("C05","Configuration loading overlays the defaults and reports every failure",
 "Loading a configuration file yields either an error and no configuration, or a configuration in which every setting absent from the file has its documented default value. A file that cannot be read or does not decode is always reported as an error, and each load (and each request for defaults) yields a configuration object of its own, not shared with any other.",
 ["inputs","configurations"],"every configuration file content, readable or not","No tests for the package; the claim covers all subsets of present fields and all failures.",[CF],
 [("decode into a fresh default object","FromJsonFile, Default"),("error returns","FromJsonFile")])
p("C06","The active configuration and package-level state change only at start-up",
 "After the program has installed the configuration it loaded, no operation of any package changes the active configuration object, its fields, or any other package-level variable that later operations depend on. In particular building, training, hashing and predicting leave it untouched.",
 ["histories"],"every sequence of library calls","A test observes a few calls; the claim is about who may write, over all calls.",[CF,M,L,LS,N,NW],
 [("single assignment of the global at start-up","loadGlobalConfiguration"),("read-only uses elsewhere","all packages")])
p("C07","A hash bucket keeps exactly the most recent 128 identifiers",
 "After any sequence of additions since creation or reset, a bucket of the hash tables holds min(n,128) identifiers: the n-th identifier added sits in slot n mod 128 (counting from 0), that slot number is what the addition returned, and no other slot changed. Reading returns what is stored (a negative marker beyond the capacity, zero for a never-filled slot) and changes nothing; a reset returns the bucket to the empty state.",
 ["histories","inputs"],"every sequence of Add, Retrieve, GetAll and Reset on one bucket","Tests add 130 consecutive numbers once and never reset; the claim is for every history and wrap count.",[FF],
 [("ring-buffer slot computation","FifoBucket.Add"),("reset of length and counter","FifoBucket.Reset")],
 state=[("slice","stored identifiers","FifoBucket.slice"),("count","additions since reset","FifoBucket.count")])
p("C08","What is inserted under an address is found under the same address",
 "Inserting an identifier with one bucket address per table puts it exactly once into each of the L tables, in the bucket that address designates, and touches no other bucket; querying with the same addresses reads exactly those buckets, in table order. Every (table, address) pair designates a bucket of its own, and the single-bucket insert and read use the same designation.",
 ["inputs","histories"],"every table count, address vector, identifier and call history","Tests use one tiny table configuration and a couple of addresses.",[LS],
 [("same indexing in writer and reader","LSH.Add, LSH.AddSingle, LSH.RetrieveRaw, LSH.Retrieve"),("one bucket object per cell","lsh.New")])
p("C09","Clearing the hash tables empties every bucket of every table",
 "After the tables are cleared every bucket of every table is empty, whatever was inserted before, and the tables keep their shape and address constants so that the same hashes still lead to the same addresses.",
 ["histories"],"every history of insertions before the clear, every table shape","The test clears one bucket of one table and looks only at that one.",[LS,FF],
 [("nested loop over tables and buckets","LSH.Clear"),("bucket reset","FifoBucket.Reset")])
p("C10","Hash codes always map to an existing bucket",
 "For every supported hash function, every table geometry and every vector of hash codes (including the sentinel produced by failed densification), the bucket addresses computed for the L tables are one per table and each lies in [0, 2^RangePow), the number of buckets of a table.",
 ["inputs","configurations"],"every hash function setting, K, L, RangePow and code vector","The test only checks the number of addresses for one configuration.",[LS],
 [("masking of the combined code","LSH.HashesToIndex")])
p("C11","A table's bucket address depends on exactly that table's K hash codes",
 "The address computed for table i is a function of codes K*i .. K*i+K-1, of all of them, of the configured hash function and of constants fixed when the tables were built, and of nothing else. Equal codes therefore always give equal addresses for the life of the tables.",
 ["inputs","histories","configurations"],"every code vector, table number and hash function","The test ignores the values of the result.",[LS],
 [("per-table code window","LSH.HashesToIndex"),("constants written only at construction","lsh.New")])
p("C12","Hashing is a repeatable, side-effect-free function of hasher and input",
 "Once a hasher has been built, computing a hash changes neither the hasher, the input nor any package-level state, and its result depends only on the hasher's construction-time contents and the input: not on randomness, time, iteration order of maps or earlier calls.",
 ["inputs","histories"],"every hasher kind, input and sequence of hash computations","Most tests compute one hash and check its length; repeatability is over all inputs and histories.",[W,DW,DM,S],
 [("read-only hashing methods","GetHash* methods of the four hashers")])
p("C13","Every hash has one code per hash function, inside the family's code range",
 "Each hashing call returns exactly as many codes as the hasher was built for. Densified winner-take-all codes are always in 0..7, winner-take-all codes are input coordinates or the no-winner sentinel, and sparse-random-projection codes are 0 or 1.",
 ["inputs"],"every input vector, including empty, constant, huge or negative ones","Tests check only lengths for one small input.",[W,DW,S,DM],
 [("result sized by the number of hashes","GetHash* methods"),("position of the winner inside its bin","densified_wta_hash.New, GetHash, GetHashEasy"),("sign to code","SparseRandomProjection.GetHash*")])
p("C14","A sparse vector is hashed by its declared indices, in whatever order",
 "When a vector is given as index/value pairs, each pair contributes to the hash at the coordinate its index declares, never at the coordinate of its position in the list, so a subset of coordinates hashes as that subset and the order in which pairs are listed is irrelevant (for distinct values). For winner-take-all and sparse random projection the result equals the hash of the dense vector with zeros elsewhere.",
 ["inputs"],"every set of pairs, every listing order, every subset of coordinates","Tests pass pairs whose index equals their position, where the distinction is invisible.",[W,DW,DM,S],
 [("index of the pair used as coordinate","WtaHash.GetHash, DensifiedWtaHash.GetHash, DensifiedMinhash.GetHashEasy, SparseRandomProjection.GetHashSparse")])
p("C15","Hash computation always terminates and probes only existing bins",
 "Every hashing call finishes after a number of steps bounded by the sizes of the hasher and of the input: filling one empty bin takes at most about a hundred probes even if every bin is empty. Every probe location computed for any bin and attempt is a valid bin number.",
 ["inputs"],"every input, including those that leave every bin empty","Tests use dense increasing inputs, where hardly any bin is empty, and ignore the probe value.",[W,DW,DM,S],
 [("attempt bound in the densification loop","GetHash* of densified hashers"),("double hash","GetRandDoubleHash")])
p("C16","Random projections and permutations are well-formed samples of the input",
 "A winner-take-all style hasher arranges the coordinates 0..D-1 in complete random permutations, enough of them that each of the N hashes owns a full bin of 8 entries; in the densified variant each coordinate is assigned exactly one bin and in-bin position per permutation. A sparse random projection draws for each hash ceil(D/ratio) distinct coordinates of 0..D-1, kept in increasing order with one sign each.",
 ["inputs","configurations"],"every number of hashes and input dimension, every random draw","Tests build one 3x10 instance.",[W,DW,S],
 [("shuffle of the identity array by swaps","New of wta_hash, densified_wta_hash, sparse_random_projection")])
p("C17","Winner-take-all hashing depends only on the order of the values",
 "The codes of winner-take-all and densified winner-take-all hashing depend on the input values only through which of them are larger: values are compared with one another (and with the initial floor), never combined or scaled, and the largest value of a bin determines its code.",
 ["inputs"],"every input vector and every order-preserving change of its values","Tests compare one vector with ten times itself and a reversed one.",[W,DW],
 [("running maximum by comparison only","GetHash, GetHashDense, GetHashEasy")])
p("C18","Updating a node under another owner id never disturbs the previous version",
 "Any node operation called with an owner id that owns no part of the version it is applied to leaves that version's weights, bias, moments, gradient accumulators and per-input state as they were, and returns a version that starts as a faithful copy and carries the update. Whatever the history, an operation writes only node storage owned by the id it is called with or newly created by it.",
 ["histories","inputs"],"every sequence of node operations under any owner ids","No tests for the package; sharing shows only when a later write happens under another id.",[N],
 [("clone on owner mismatch before writing","cloneIfNeeded of Node, baseNode, NodeTrain"),("deep copies","clone methods, copyFloat64Slice")],
 state=[("cowId","owner of an object","Node, baseNode, NodeTrain")])
p("C19","A node's activation is its weighted input plus bias, rectified for ReLU",
 "Evaluating a node on a list of index/value pairs returns, and stores for that input slot, the sum over all pairs of weight[index]*value plus the bias; for a ReLU node a negative result is replaced by zero, for a softmax node it is kept. The slot is marked active, and an unknown node kind or an input slot beyond the batch size aborts instead of producing a number.",
 ["inputs"],"every weight vector, input list, slot and node kind","No tests for the package.",[N],
 [("accumulation loop and rectification","Node.GetActivation")])
p("C20","Per-input node state follows activate - use - consume",
 "Back-propagating or turning a node's output into an error signal is possible only for an input slot on which the node was activated, and aborts otherwise; back-propagation leaves the slot inactive with activation and error signal zero. An inactive slot reads as activation zero, error signals are added only to slots with positive activation, and operations on one input slot never change another slot.",
 ["histories","inputs"],"every order of node operations over any number of slots","No tests for the package.",[N],
 [("active test and panic","IncrementDelta, ComputeExtaStatsForSoftMax, BackPropagate, BackPropagateFirstLayer"),("reset at the end","BackPropagate, BackPropagateFirstLayer"),("GetLastActivation","Node")])
p("C21","Output nodes receive the softmax cross-entropy error signal",
 "For an active output node with normalised activation p (stored activation divided by the normalisation constant plus a tiny epsilon) the error signal is (1/number of labels - p)/batch size if the node is one of the example's labels and -p/batch size otherwise.",
 ["inputs"],"every activation, label list and batch size","No tests for the package.",[N],
 [("error signal","Node.ComputeExtaStatsForSoftMax")])
p("C22","Back-propagation accumulates each gradient exactly once",
 "Back-propagating a node for one input adds to each of its listed input connections the product error signal x input value, and to its bias the error signal (scaled by the learning rate when accumulators are plain-SGD mirrors), once per pair; for hidden inputs it also adds error signal x weight to each listed previous node before resetting. It changes accumulators only: weights and bias in use stay as they were until the batch's update step.",
 ["inputs","configurations"],"every node, list of active inputs, error signal, optimiser setting","No tests for the package.",[N],
 [("accumulation loops","Node.BackPropagate, Node.BackPropagateFirstLayer, Node.IncrementDelta"),("separate mirror storage","NewNode, Node.Update")])
p("C23","During training the true labels are always among the active output nodes",
 "When the output layer selects its active nodes for a training example with labels, every label of the example is selected, in every selection mode and for every number of tables, sparsity and label count.",
 ["inputs","configurations"],"every label list, mode, table count, sparsity","No tests for the package.",[L],
 [("labels forced into the candidate set","Layer.QueryActiveNodeAndComputeActivations")])
p("C24","The active set is made of distinct, existing nodes",
 "Whatever the selection mode and whatever the hash tables return, the set of active nodes produced for a layer contains only valid node numbers of that layer and no node twice; with sparsity 1 it contains every node, and in sampling mode it is filled up to 1000 nodes or all nodes, whichever is smaller.",
 ["inputs","configurations"],"every mode, sparsity, label list (with repetitions), table content","No tests for the package; duplicates need particular label lists.",[L],
 [("candidate bookkeeping","Layer.QueryActiveNodeAndComputeActivations")])
p("C25","Output activations form an overflow-free softmax over the active nodes",
 "For every input the output layer's stored activations are the exponentials of (value - m) with m at least every active value, so no exponential exceeds 1 or overflows, and the normalisation constant of that input slot is exactly the sum of the stored activations of the active nodes of this evaluation, starting from zero. Other input slots' constants are not changed.",
 ["inputs","histories"],"every activation vector and history of evaluations of a slot","No tests for the package.",[L],
 [("max subtraction, reset and accumulation","Layer.QueryActiveNodeAndComputeActivations")])
p("C26","One hash family is used for building, querying and refreshing the tables",
 "For every hash function that can be configured, inserting a node, looking up candidates and re-inserting nodes all use the hasher of that same family with the same parameters, and that hasher exists as soon as the layer is built and after every table update. An unknown hash function setting aborts; it never silently falls through.",
 ["configurations"],"every hash function setting, at every dispatch site","No tests for the package; dispatch is repeated at five sites.",[L,LS],
 [("switches over the configured function","layer.New, UpdateTable, QueryActiveNodeAndComputeActivations, GetHashForInputProcessing, addToHashTable")])
p("C27","Refreshing hash tables re-inserts every node under its current weights",
 "When a training step refreshes the tables of a layer, they are emptied first and then every node of the layer is inserted exactly once, under its own number, at the addresses computed from its weights after this step's update with the hash functions then in force. Replacing the hash functions of a layer always includes such a refresh, and layers with sparsity 1 are left alone.",
 ["histories","configurations"],"every combination of refresh and rebuild flags, layer and sparsity","No tests for the package.",[NW,L],
 [("clear, then add in the update loop","Network.ProcessInput"),("initial insertion","layer.New")])
p("C28","Inference changes neither parameters nor hash tables",
 "Predicting, with any examples and any history, leaves all weights, biases, moments, gradient accumulators, hash functions, hash table contents, random node order and sparsity settings exactly as they were; it only updates per-input activation state and normalisation constants.",
 ["inputs","histories"],"every prediction call at any time","No tests for the package; an effect claim over all inputs and call depths.",[NW,L,N,LS],
 [("no writer of persistent state reachable from prediction","Network.PredictClass")])
p("C29","Inference never sees the true labels and uses the inference sparsity",
 "During prediction the labels of an example influence nothing but whether the finished prediction is counted as correct: node selection and activations are computed with an empty label list and with the inference half of the sparsity settings, whereas training uses the example's labels and the training half.",
 ["inputs"],"every example and network shape","No tests for the package; leakage only changes accuracy figures.",[NW],
 [("empty label list and shifted sparsity index","Network.PredictClass, Network.ProcessInput")])
p("C30","Each training step applies the Adam (or SGD) update once to every parameter",
 "At the end of a training step every weight and bias of every node of every layer is updated exactly once from its accumulated gradient g: with Adam, m=0.9m+0.1g, v=0.999v+0.001g^2, parameter += rate*m/(sqrt(v)+1e-8) with the bias-corrected rate for the step number, and the gradient is reset to zero; without Adam the parameter takes the value of its mirror. Parameters are changed nowhere else in training.",
 ["inputs","histories","configurations"],"every network shape, gradient and step number","No tests for the package.",[NW,N],
 [("update loop","Network.ProcessInput"),("accessors","Node setters")])
p("C31","Back-propagation covers every active node once, from the last layer to the first",
 "For each training example, after the forward pass, layers are processed from the output layer to the first; in each layer every active node of that example is back-propagated exactly once, output nodes after their error signal has been computed from the example's own labels and normalisation constant, hidden inputs through the previous layer's active nodes and the first layer through the example's features.",
 ["inputs"],"every network depth, batch and active set","No tests for the package.",[NW],
 [("loop nest","Network.ProcessInput")])
p("C32","The predicted class is the most active output node; the count is exact",
 "For each example the predicted class is an active output node whose activation for that example is largest (the first such), and the returned number is exactly the number of examples whose predicted class is among their labels.",
 ["inputs"],"every batch, label list and activation pattern","No tests for the package.",[NW],
 [("argmax and membership count","Network.PredictClass")])
p("C33","No input/output error is dropped",
 "Every error produced while opening or reading the configuration, the training or test data (including malformed lines), or while creating profiles is examined before the results of the failing operation are used, and leads to termination with a diagnostic or to an error return; files that were opened are closed on normal return.",
 ["fault_sequences"],"every failing input/output operation at every point of a run","The program itself is not tested; failures are never injected.",[M,CF,X],
 [("error checks","main, trainSvmEpoch, evaluateSvm, loadGlobalConfiguration, FromJsonFile")])
p("C34","Each epoch presents each training line once, in order, with a fresh step number",
 "Within an epoch the batches passed to training consist of consecutive examples of the training file read from its start, each example in exactly one batch, no batch larger than the batch size and nothing carried over from an earlier batch; a batch is not trained on if reading it failed. The step number passed along is epoch x batches per epoch + batch number, hence never repeated within a run.",
 ["histories","inputs","configurations"],"every file length, batch size and epoch count","The program itself is not tested.",[M],
 [("batch assembly loop","trainSvmEpoch")])
p("C35","Table maintenance follows the configured interval and never divides by zero",
 "In the modes that use hash tables, rehashing (rebuilding) is requested exactly in the steps that complete a multiple of the configured Rehash (Rebuild) interval expressed in whole batches, an interval shorter than one batch meaning every step; in other modes it is never requested. No positive batch size and interval settings make the schedule abort.",
 ["configurations","histories"],"every positive batch size, interval, step number, mode","The program itself is not tested.",[M],
 [("modulo schedule","trainSvmEpoch")])
p("C36","Nodes of a layer own disjoint parameters and per-input state",
 "When a layer is built, node i receives the i-th consecutive block of the layer's weights (and moments) of input-dimension length, the i-th bias, its own number and kind, and one private state slot per batch position; no two nodes share any of this storage and every node is inserted in the hash tables once, under its own number and weights.",
 ["inputs","configurations"],"every layer size, input dimension, batch size","No tests for the package.",[L,N],
 [("slicing by node number","layer.New"),("Update","Node.Update")])
p("C37","Layers are chained: each takes its input size from the layer before it",
 "A network has one layer per configured size, in order; the first layer's input dimension is the configured input dimension and every other layer's is the size of the preceding layer, each layer with its own kind, hash parameters and sparsity setting; hidden layers are ReLU and the last one softmax.",
 ["configurations"],"every number of layers and sizes","The program itself is not tested.",[NW,M],
 [("construction loop","network.New"),("kinds","makeLayersTypes")])
p("C38","Valid use never aborts",
 "Whatever valid settings, examples and history, hashing, table, node, layer and network operations used as documented (vectors of the declared dimension, batch positions below the batch size, node numbers of the layer, back-propagation for active nodes only) never stop the program: no index or slice bound is exceeded, nothing is divided by zero, no size is negative and no explicit panic is reached; what constructors build satisfies what the operations rely on.",
 ["inputs","configurations","histories"],"every valid configuration, input and history","Tests construct a few small hashers and nodes; layers and networks are not tested.",[LS,N,L,NW,W,DW,DM,S],
 [("constructors","wta_hash.New, densified_wta_hash.New, densified_minhash.New, sparse_random_projection.New, lsh.New, layer.New"),("GetMap","DensifiedMinhash.GetMap"),("query","Layer.QueryActiveNodeAndComputeActivations"),("steps","Network.ProcessInput, Network.PredictClass")])
p("C39","Minhash codes come from the K largest coordinates",
 "When minhash hashing is limited to K coordinates, exactly min(K, number of coordinates offered) of them are hashed, none with a smaller value than one left out (ties may fall either way), whatever the order in which they are offered; the sparse and the dense form agree in this.",
 ["inputs"],"every vector, every K, every order of the entries","Tests fix small vectors with K at least their length.",[DM,"densified_minhash/index_value_pairs.go"],
 [("bounded priority queue","DensifiedMinhash.GetHashEasy, DensifiedMinhash.GetHashEasyDense, indexValuePriorityQueue")])
p("C40","Reported accuracy is that of the examples evaluated",
 "Every accuracy the program reports while evaluating is the number of examples the network predicted correctly divided by the number of examples actually presented to it so far in that evaluation. An evaluation presents the records of the test file in order, from the first, in batches of at most BatchSize, and ends with a report of its overall accuracy. Every epoch ends with an evaluation, the last one over the TotRecordsTest/BatchSize batches of the test set, and within an epoch one precedes every training step whose number is a multiple of Stepsize (except at the epoch's start).",
 ["inputs","histories"],"every configuration, test file of any length, and outcome of the predictions","The program's main package has no tests; the number reported depends on the whole sequence of batches read and predicted.",[M],
 [("evaluation","evaluateSvm, accuracy in goslide.go; Network.PredictClass")])
p("C41","An empty bin borrows the code of the first non-empty bin it probes",
 "In the densified hash families a bin that received a coordinate keeps its own code, and a bin that received none takes the code of the first bin with an entry of its own in its probe sequence (attempts 1, 2, 3, ... up to 100, each bin having its own sequence); codes that were themselves borrowed are never passed on. A bin whose attempts all fail yields a fixed code, whatever the input.",
 ["inputs"],"every hasher and every input, empty or not","Tests only count the codes; none looks at an empty bin.",[DW,DM],
 [("densification loops","DensifiedWtaHash.GetHash, DensifiedWtaHash.GetHashEasy, DensifiedMinhash.GetHash, DensifiedMinhash.GetHashEasy, DensifiedMinhash.GetHashEasyDense"),("probe sequence","GetRandDoubleHash")])
p("C42","A projection's code is the sign of its signed sample sum",
 "Code i of a sparse random projection is one bit that tells the sign of the sum of exactly the coordinates sampled for hash i, each added or subtracted according to its own drawn sign: all positive sums give one value and all negative sums the other, the same for every hash, however small or large the sum; a zero sum always gives the same bit.",
 ["inputs"],"every vector and every drawn projection","Tests check the number of codes only.",[S],
 [("projection","SparseRandomProjection.GetHash")])
p("C43","Initial weights and biases are separate random draws",
 "Unless weights are loaded, every weight and every bias of a new layer starts as a draw of its own from a normal distribution with mean 0 and standard deviation 0.01: no two weights, no two biases and no weight and bias of the layer share a draw, whatever the sizes.",
 ["configurations"],"every layer size","Layers are not tested.",[L],
 [("initialisation","layer.New")])
p("C44","Nodes found in the hash tables become active nodes",
 "When a layer selects nodes by hashing, the buckets at the addresses its tables give to the hash codes of the input are all looked at, to the last identifier. In LayerMode4 every node they hold is active, and other nodes (except true labels) are added only while fewer than 1000 are selected; in LayerMode1 the active nodes are exactly those the buckets hold more than twice, counting every occurrence, and the true labels.",
 ["inputs","histories"],"every content of the hash tables and every input","Layers are not tested.",[L],
 [("candidate selection","Layer.QueryActiveNodeAndComputeActivations"),("retrieval","LSH.RetrieveRaw")])
p("C45","Fixed-size selection keeps the configured number of nodes, the best ones",
 "In LayerMode2 and LayerMode3 the number of active output nodes is the configured sparsity times the number of nodes, rounded down, or the number of distinct true labels if that is larger. In LayerMode3 the nodes that are not labels are those with the largest weighted input plus bias for the current input.",
 ["inputs","configurations"],"every input, label list, weight and sparsity","Layers are not tested.",[L],
 [("selection","Layer.QueryActiveNodeAndComputeActivations"),("ranking","Layer.innerproduct")])
p("C90","Training improves prediction accuracy",
 "Repeated training steps on a learnable dataset reduce the loss and raise the fraction of correct predictions.",
 ["inputs","histories"],"every learnable dataset and training run","Depends on data and long runs.",[NW,M],[("gradient descent","Network.ProcessInput")])
p("C91","Similar vectors collide more often than dissimilar ones",
 "For each hash family the probability, over the random construction, that two vectors receive the same code grows with their similarity.",
 ["inputs"],"every pair of vectors, probability over construction","A statistical claim.",[W,DW,DM,S],[("hash constructions","New, GetHash*")])
p("C92","Work per example is sub-linear in the layer width",
 "With sparsity below 1 the work per example grows with the number of active nodes rather than with the number of nodes of a layer.",
 ["inputs","configurations"],"every layer width","A cost claim.",[L,NW],[("candidate selection","Layer.QueryActiveNodeAndComputeActivations")])
p("C93","Training arithmetic stays finite",
 "For finite inputs, weights and learning rate no NaN or infinity enters weights, moments or activations during training.",
 ["inputs","histories"],"every finite input and history","Depends on magnitudes reached over time.",[N,NW],[("epsilon terms, max subtraction","ProcessInput, QueryActiveNodeAndComputeActivations")])
import sys
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch)
print(len(P))
