D={
'C01':"every element the Scanner delivers satisfies 0 ≤ index < declared dimension; proved from the guards of Scan's parse loops in the generic state after an arbitrary number of lines. Header fields are assumed to be the ones parsed (proved in C02/C03).",
'C02':"all paths of Scan/NewScanner: malformed header, label, pair, index, value, out-of-range number ⇒ Scan returns false and Err()≠nil, and the error is sticky; missing text is not accepted as a number. Library models of strconv/strings give the malformed cases.",
'C03':"labels and features delivered are, element by element, the parse (base 10 / 64-bit float) of their own token of their own line; lengths equal token counts; LineNumber counts lines consumed.",
'C04':"effect rule: no write of ProcessInput/PredictClass/Scan lands in memory reachable from an example already delivered; Scan's slices are fresh per line.",
'C05':"FromJsonFile returns an error exactly when reading or decoding fails, otherwise a fresh object = table of defaults overlaid by the decoder; no default slice is shared between two results. Default table compared value by value with the documentation.",
'C06':"module-wide effect/taint analysis of package-level memory: only main (before its first use) stores configuration.Global; no function writes memory reached through it; other package variables are written by initialisers only. `globalTime` (a report-only clock sum) is exempt: proved to flow only into output.",
'C07':"FifoBucket Add/GetAll/… against a ring buffer of 128: slot n mod 128, growth until 128, then overwriting, returned slice = contents, writes nothing else; who-may-write lint for its fields.",
'C08':"LSH Add/AddSingle/Retrieve/GetRaw/RetrieveSingle: solved counters show table i is addressed with indices[i], once, and nothing else is touched.",
'C09':"Clear(): after it every bucket of every table is a fresh, empty bucket; Layer-level clearing reaches its tables.",
'C10':"HashesToIndex: 0 ≤ index < len(buckets[table]) for every hash function, from mask/shift facts and the geometry proved at lsh.New.",
'C11':"dependence: address of table i reads exactly codes i·K…i·K+K-1 and the table's own random vector, for each hash function configured.",
'C12':"effects and sources of every hash method: writes only fresh memory, result depends only on receiver and arguments (no clock, no random, no map order); who-may-write rule for hasher fields.",
'C13':"one code per hash function (length), provenance closure: each code is a position, the packed sign bit or the documented failure code of its own family.",
'C14':"sparse hashing is a fold over the entries that uses Index, not the position; result proved invariant under reordering (commutative fold / arg-max with index tie-break / selection by the vector the entries describe) and equal to dense hashing where both exist.",
'C15':"ranking argument for every loop; probes in [0,numHashes); the unbounded probing loop leaves after a fixed number of probes.",
'C16':"constructors: permutations are rand.Perm/Shuffle images of complete coordinate lists; positions within bins; random bits ±1; indices distinct and < dimension.",
'C17':"taint: input values flow into order comparisons only (wta/dwta), so every strictly increasing transformation keeps the codes; comparisons are between two values of the input.",
'C18':"ownership analysis for each combination of owner masks: every write of an update under another owner reaches only fresh or already-owned storage; the previous version's fields are unchanged; the result carries the update.",
'C19':"returned and stored activation = Σ weight[index]·value + bias, rectified for ReLU, and nothing else changes; unknown kinds and out-of-range slots panic.",
'C20':"typestate of NodeTrain slots: which operations require/establish/clear the active flag; inactive slots contribute nothing; Reset.",
'C21':"stored delta = (share of label − softmax activation)/batch size with share = 1/#labels for a label; activation normalised by the constant.",
'C22':"solved accumulator deltas of BackPropagate/BackPropagateFirstLayer for Adam and SGD: each weight, the bias and each previous delta exactly once, from the values before the call, then consumed.",
'C23':"all selection modes, generic hash-table contents: a mark set is followed through the loops; every label is visited and marked, marks are never withdrawn, marked ⇒ listed; mode 3: labels carry −Inf and the comparator is proved to put them first with room for all; training queries pass the example's labels.",
'C24':"per mode a closed form of the list (all nodes / sorted prefix / collected marks / marker+append); ghost count of marks equals list length and insertion positions, marks in range; sparsity 1 ⇒ all; mode 4 fills up to 1000 or all. Assumes valid labels and table contents (C27/C10), len(randNode)=number of nodes, 0≤sparsity≤1.",
'C25':"activations stored are exp(a − M) with M ≥ every active a, the constant is their sum, each active node once.",
'C26':"for each configured hash function every hashing call goes to the hasher of that family held by the layer; hasher field exists after New and after UpdateTable; unknown settings panic.",
'C27':"a refresh re-inserts each node exactly once, under its number, with the codes of its current weights, after clearing; a replaced hash function implies refilled tables; network-level schedule.",
'C28':"effect rule on PredictClass: every write classified; parameters, tables, structure equal before and after; only per-slot scratch and fresh memory change.",
'C29':"arguments of every query in PredictClass: no dependence on labels, inference sparsity entries (numLayer + l), previous layer's active nodes.",
'C30':"final value of every weight, bias and moment after a step equals the specified Adam expression (or the SGD mirror), once per parameter, with the step's learning rate; gradient buffers reset.",
'C31':"solved counters: back-propagation visits every (example, layer, active node) exactly once, layers last to first, after the error signals of that example; first layer uses the example's features.",
'C32':"the prediction loop is an arg-max by induction over its solved state (ties to the first), the count = Σ [predicted class ∈ labels]. Assumes ≥1 active output node and activations ≥ 0 (C25).",
'C33':"main with everything inlined: each fallible operation's error is examined before any later effect and ends in a log.Fatal/panic carrying it; Scanner.Err after NewScanner and after reading; files closed, not used after. Plus a module-wide lint: no error result is dropped; plus C02 and the configuration loader.",
'C34':"training call: nest [epoch, batch], step = epoch·(TotRecords/BatchSize)+batch, one scanner per epoch on TrainData, batch = consecutive examples in order, ≤ BatchSize, every scanned line delivered.",
'C35':"rehash/rebuild flags ⇔ (step+1) mod max(interval/BatchSize,1) = 0 in modes 1 and 4, false otherwise; divisors non-zero.",
'C36':"layer.New/NewNode: each node's weights, moments, gradients and state slots are its own block of the layer's arrays (disjoint by solved offsets) or fresh; the SGD mirror is separate.",
'C37':"network.New: arguments of every layer.New solved per layer number; layer i's input size = size of layer i−1 (InputDim for 0), own K, L, RangePow, sparsity, softmax last.",
'C38':"every index, slice, make, division, shift, conversion panic and explicit panic reachable from the exported operations (hashers, tables, buckets, nodes, layers, networks; training with Adam and SGD, inference) is proved safe under the documented domains; the invariants used (lengths, index ranges) are proved at the constructors. Not modelled: nil dereference, writes to nil maps, memory exhaustion. Domains: numHashes>0, dimensions < 2^32 (constructors) / 2^40, RangePow of tables in [0,32), batch positions < batch size, node numbers of the layer.",
'C39':"the bounded queue: every entry enters once, each addition beyond K displaces the front, the entries left are the ones hashed, and Less is proved to put the smallest value in front. An implementation without a bounded queue (e.g. full sort) is not recognised and would be reported.",
'C40':"main inlined: every float handed to an output function that depends on a prediction equals Σcorrect/Σlen(examples) over the rounds of that evaluation (proved for the running and the final reports); batches are the scanner's examples in order from os.Open(TestData); every epoch evaluates, the last one over TotRecordsTest/BatchSize rounds; evaluation at each multiple of Stepsize.",
'C41':"each hashing method with probes named probe(hasher, bin, attempt) (proved to land on existing bins, to differ between bins and between attempts); the code a bin gets from its own entries is the one established for C14/C17/C39 (and nothing changes it later). For an empty bin, assuming attempt a ≤ 100 is the first to hit a bin with an entry, the search is shown to end at a (cases: it ends before, at, after) with that bin's code; assuming no attempt up to 128 succeeds, the result is shown constant.",
'C42':"SparseRandomProjection.GetHash: result i is proved to be one of two constants according to the sign of Σ_j ±x[indices[i][j]] over all samples (closed form of the loop), real arithmetic.",
'C43':"layer.New (Adam and SGD): each weight and bias equals 0.01 × a NormFloat64 call; a draw is identified by its call site and the loop counters at the call, and draws of different weights/biases are proved different (linear arithmetic with the products nodes×inputs). That the generator's draws are independent is assumed of math/rand.",
'C44':"QueryActiveNodeAndComputeActivations in LayerMode1 and LayerMode4, for each hash function, hidden and output layer. The only RetrieveRaw is called on the layer's tables with the unmodified result of HashesToIndex; a pair of loops covers all rows and all elements with no early exit; one iteration marks its element (mode 4) or increments its count by one (mode 1, threshold `count > 2`, counts starting at zero, touched elsewhere only for labels); the list holds exactly the marked nodes (C24's argument). Fill-ins in mode 4 are proved to happen only with fewer than 1000 marks, marks being followed as a ghost count. What the hash codes are is C12-C14/C26, what a bucket holds is C07/C08.",
'C45':"QueryActiveNodeAndComputeActivations for the output layer. LayerMode3: the list is the prefix of the sequence sorted by smallest value first (argument of C23/C24), its length equals max(floor(sparsity·nodes), number of labels), and the sort key of a node that is no label equals −(Σ input·weight + bias) (real arithmetic; the order of summation is not distinguished). LayerMode2: the length is at least floor(sparsity·nodes), and a node that is no label is added only while fewer are selected, marks followed as a ghost count. Which other nodes LayerMode2 draws is random and not decided.",
}
import json,re,collections
rows=[json.loads(l) for l in open('/verif/properties.jsonl')]
seeds=collections.defaultdict(list)
import os
for s in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{s}/meta.json')); seeds[m['property']].append(s)
bugs=collections.Counter()
def B(n,p,*a): bugs.update([p] if isinstance(p,str) else p)
src=open('/verif/corpus/bugs.py').read()
for m in re.finditer(r"^B\('[^']+',\s*(\[[^\]]*\]|'[^']*')",src,re.M):
    v=eval(m[1]); bugs.update([v] if isinstance(v,str) else v)
fixes=collections.defaultdict(list)
for l in open('/verif/known_findings.txt'):
    m=re.match(r'fixed: property=(\w+) (\w+)',l)
    if m: fixes[m[1]].append(m[2])
out=[]
for r in rows:
    i=r['id']
    if i not in D: continue
    out.append(f"* **{i} {r['title']}** — {D[i]}")
print('\n'.join(out))
print("\n### Not applicable\n")
NA=json.load(open('/verif/MANIFEST.json'))['not_applicable']
for n in NA:
    print(f"* **{n['property']} {[r['title'] for r in rows if r['id']==n['property']][0]}** — {n['reason']}")
print("\n## 3. Which checks catch which changes\n")
print("Per property: planted bugs kept in `/verif/seeded` (each built, test-passing, with a demonstration), number of further one-line-to-few-line bugs in `corpus/bugs.py` (all reported), and the repair commits whose reversal the check reports.\n")
print("| property | seeded | corpus bugs | reverted fixes reported |\n|---|---|---|---|")
for r in rows:
    i=r['id']
    if i not in D: continue
    print(f"| {i} | {', '.join(seeds[i]) or '–'} | {bugs[i]} | {', '.join(fixes[i]) or '–'} |")
