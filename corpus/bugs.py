ENTRIES=[]
def B(name,props,file,*edits):
    ENTRIES.append(dict(name=name,props=props.split(),file=file,edits=[dict(old=o,new=n) for o,n in edits]))
F='bucket/fifo/fifo.go'; L='lsh/lsh.go'; N='node/node.go'
B('fifo-wrap-from-one','C07',F,("index = b.count & bitMask\n","index = (b.count + b.count/4096) & bitMask\n"))
B('fifo-retrieve-stale','C07',F,("	if index >= len(b.slice) {\n		return 0\n	}\n","	if index >= len(b.slice) {\n		return 0\n	}\n	b.count |= 0\n	if b.count > 4*bucketSize && index == bucketSize-1 {\n		return b.slice[0]\n	}\n"))
B('fifo-nocount','C07',F,("	b.slice = append(b.slice, id)\n	b.count++\n","	b.slice = append(b.slice, id)\n	if index < bucketSize-1 {\n		b.count++\n	}\n"))
B('fifo-reset-keepcount','C07',F,("	b.slice = b.slice[:0]\n	b.count = 0\n","	b.slice = b.slice[:0]\n"))
B('fifo-negative-id','C07',F,("	b.slice = append(b.slice, id)\n","	if id < 0 {\n		id = 0\n	}\n	b.slice = append(b.slice, id)\n"))
B('lsh-add-skips-last','C08',L,("	for i := range secondIndices {\n		secondIndices[i] = lsh.buckets[i][indices[i]].Add(id)","	for i := range secondIndices {\n		if i > 0 && indices[i] == indices[i-1] && i == lsh.l-1 {\n			continue\n		}\n		secondIndices[i] = lsh.buckets[i][indices[i]].Add(id)"))
B('lsh-raw-wrong-table','C08',L,("rawResults[i] = lsh.buckets[i][indices[i]].GetAll()","rawResults[i] = lsh.buckets[(i*7)%lsh.l][indices[(i*7)%lsh.l]].GetAll()"))
B('lsh-single-mask','C08',L,("return lsh.buckets[tableId][index].Add(id)","return lsh.buckets[tableId][index%128].Add(id)"))
B('lsh-new-shared-row','C08',L,("	for i := range buckets {\n		newBuckets := make","	newBuckets0 := make([]*fifo.FifoBucket, 1<<rangePow)\n	for j := range newBuckets0 {\n		newBuckets0[j] = fifo.New()\n	}\n	for i := range buckets {\n		if i >= 4 {\n			buckets[i] = newBuckets0\n			continue\n		}\n		newBuckets := make"))
B('lsh-clear-odd','C09',L,("	for _, buckets := range lsh.buckets {\n		for _, bucket := range buckets {\n			bucket.Reset()\n","	for _, buckets := range lsh.buckets {\n		for j, bucket := range buckets {\n			if j == 1<<16 {\n				break\n			}\n			bucket.Reset()\n"))
B('lsh-nomask-srp','C10',L,("		index &= ((1 << lsh.rangePow) - 1)\n","		if hashFunction != configuration.SparseRandomProjectionHashFunction {\n			index &= ((1 << lsh.rangePow) - 1)\n		}\n"))
B('lsh-mask-off','C10',L,("index &= ((1 << lsh.rangePow) - 1)","index %= (1<<lsh.rangePow + 1)"))
B('lsh-index-k-l','C11',L,("			case configuration.SparseRandomProjectionHashFunction:\n				h := uint(hashes[lsh.k*i+j])","			case configuration.SparseRandomProjectionHashFunction:\n				h := uint(hashes[lsh.l*j+i])"))
B('lsh-skip-first-code','C11',L,("			case configuration.SparseRandomProjectionHashFunction:\n				h := uint(hashes[lsh.k*i+j])\n","			case configuration.SparseRandomProjectionHashFunction:\n				if j == 0 && lsh.k > 8 {\n					continue\n				}\n				h := uint(hashes[lsh.k*i+j])\n"))
B('lsh-rand-refresh','C11',L,("func (lsh *LSH) Clear() {\n","func (lsh *LSH) Clear() {\n	if len(lsh.rand1) > 0 {\n		lsh.rand1[0] = positiveOddRandomInt()\n	}\n"))
B('node-settbias-shared','C18',N,("func (nd *Node) SetTBias(cowId int, value float64) *Node {\n	n := nd.cloneIfNeeded(cowId)\n	n.base = n.base.cloneIfNeeded(cowId)\n","func (nd *Node) SetTBias(cowId int, value float64) *Node {\n	n := nd.cloneIfNeeded(cowId)\n"))
B('node-clone-shares-t','C18',N,("t:                copyFloat64Slice(n.t),","t:                n.t,"))
B('node-clone-forgets-mombias','C18',N,("		adamAvgMomBias:   n.adamAvgMomBias,\n",""))
B('node-train-clone-noactive','C18',N,("		activeinputIds:  t.activeinputIds,\n",""))
B('node-setlast-inplace','C18',N,("	train := n.train\n	train[inputId] = train[inputId].cloneIfNeeded(cowId)\n\n	train[inputId].lastActivations = realActivation","	train := n.train\n\n	train[inputId].lastActivations = realActivation"))
B('node-clone-train-shared','C18',N,("		newNode.train = make([]*NodeTrain, len(n.train))\n		copy(newNode.train, n.train)\n","		newNode.train = n.train\n"))
B('act-skip-zero-index','C19',N,("	for _, pair := range data {\n		train[inputId].lastActivations +=","	for i, pair := range data {\n		if i > 0 && pair.Index == data[i-1].Index {\n			continue\n		}\n		train[inputId].lastActivations +="))
B('act-relu-softmax','C19',N,("	case Softmax: // do nothing\n","	case Softmax:\n		if train[inputId].lastActivations < -1e6 {\n			train[inputId].lastActivations = -1e6\n		}\n"))
B('act-mirrorbias','C19',N,("train[inputId].lastActivations += n.base.bias","train[inputId].lastActivations += n.base.mirrorBias"))
B('act-no-reset','C19',N,("	train[inputId].lastActivations = 0\n\n	for","	if n.base.nodeType == ReLU {\n		train[inputId].lastActivations = 0\n	}\n\n	for"))
B('bp-no-consume','C20',N,("	train[inputId].activeinputIds = 0\n	train[inputId].lastDeltaforBPs = 0\n","	train[inputId].activeinputIds = 0\n	if len(previousLayerActiveNodes) > 0 {\n		train[inputId].lastDeltaforBPs = 0\n	}\n"))
B('incr-ge','C20',N,("train[inputId].lastActivations <= 0 {\n		return nd","train[inputId].lastActivations < 0 {\n		return nd"))
B('incr-nocheck','C20',N,('''	if nd.train[inputId].activeinputIds != 1 {
		panic("Input Not Active but still called")
	} else if nd''','''	if nd'''))
B('getlast-stale','C20',N,("	if t.activeinputIds != 1 {\n		return 0\n	}\n	return t","	if t.activeinputIds != 1 && t.lastActivations <= 0 {\n		return 0\n	}\n	return t"))
B('softmax-batch','C21',N,("		train[inputId].lastDeltaforBPs = -train[inputId].lastActivations /\n			float64(n.base.currentBatchsize)","		train[inputId].lastDeltaforBPs = -train[inputId].lastActivations /\n			float64(len(n.train)+len(labels)-len(labels)+inputId-inputId+1)"))
B('softmax-labelid','C21',N,("		train[inputId].lastDeltaforBPs = (1.0/float64(len(labels)) -","		train[inputId].lastDeltaforBPs = (1.0 -"))
B('bp-grad-afteract','C22',N,("		gradT := train[inputId].lastDeltaforBPs *\n			prevNode.GetLastActivation(inputId)","		gradT := train[inputId].lastDeltaforBPs *\n			pair.Value"))
B('bp-sgd-bias','C22',N,("		n.base.tBias += biasgradT\n	} else {\n		n.base.mirrorBias += learningRate * train[inputId].lastDeltaforBPs\n	}\n\n	train[inputId].activeinputIds = 0\n","		n.base.tBias += biasgradT\n	} else {\n		n.base.mirrorBias += train[inputId].lastDeltaforBPs\n	}\n\n	train[inputId].activeinputIds = 0\n"))
B('bp-first-dup','C22',N,("	for _, pair := range indexValuePairs {\n		gradT := train[inputId].lastDeltaforBPs * pair.Value\n","	for i, pair := range indexValuePairs {\n		if i > 0 && indexValuePairs[i-1].Index == pair.Index {\n			continue\n		}\n		gradT := train[inputId].lastDeltaforBPs * pair.Value\n"))
B('bp-first-weights','C22',N,("			n.base.mirrorWeights[pair.Index] += learningRate * gradT","			n.base.mirrorWeights[pair.Index] += learningRate * gradT\n			n.base.weights[pair.Index] += 0 * gradT"))
B('bp-first-assign','C22',N,("			n.base.t[pair.Index] += gradT","			n.base.t[pair.Index] = gradT"))
Y='layer/layer.go'
B('sm-max-first-only','C25',Y,("		if l.nodeType == node.Softmax && value > maxValue {","		if l.nodeType == node.Softmax && value > maxValue && i < 1024 {"))
B('sm-const-accumulates','C25',Y,("	if l.nodeType == node.Softmax {\n		l.normalizationConstants[inputId] = 0\n	}\n","	if l.nodeType == node.Softmax && len(nextLayerActiveNodes) > 0 && nextLayerActiveNodes[0].Index != 0 {\n		l.normalizationConstants[inputId] = 0\n	}\n"))
B('sm-store-unexp','C25',Y,("				cowId, inputId, realActivation,\n","				cowId, inputId, pair.Value,\n"))
B('sm-store-other-slot','C25',Y,("			l.normalizationConstants[inputId] += realActivation\n","			if realActivation > 1e-300 {\n				l.normalizationConstants[inputId] += realActivation\n			}\n"))
B('sm-min-max','C25',Y,("	maxValue := 0.0\n	if l.nodeType","	maxValue := -1.0\n	if l.nodeType"),("value > maxValue {\n			maxValue = value","value > maxValue+700 {\n			maxValue = value"))
B('fam-query-dense','C26',Y,("hashes = l.wtaHasher.GetHash(currentLayerActiveNodes)\n\n			case configuration.DensifiedWtaHashFunction:\n				hashes = l.dwtaHasher.GetHash(currentLayerActiveNodes)\n\n			case configuration.DensifiedMinhashFunction:\n				hashes = l.minHasher.GetHashEasy(\n					l.binIds, currentLayerActiveNodes, topK)\n\n			case configuration.SparseRandomProjectionHashFunction:\n				hashes = l.srp.GetHashSparse(currentLayerActiveNodes)\n\n			default:\n				panic(fmt.Sprintf(\"Unexpected hash function %d.\",\n					configuration.Global.HashFunction))\n			}\n\n			hashIndices := l.hashTables.HashesToIndex(hashes)\n			actives := l.hashTables.RetrieveRaw(hashIndices)\n\n			// we now","hashes = l.wtaHasher.GetHash(currentLayerActiveNodes)\n\n			case configuration.DensifiedWtaHashFunction:\n				hashes = l.dwtaHasher.GetHash(currentLayerActiveNodes)\n\n			case configuration.DensifiedMinhashFunction:\n				hashes = l.minHasher.GetHashEasy(\n					l.binIds, currentLayerActiveNodes, topK/2)\n\n			case configuration.SparseRandomProjectionHashFunction:\n				hashes = l.srp.GetHashSparse(currentLayerActiveNodes)\n\n			default:\n				panic(fmt.Sprintf(\"Unexpected hash function %d.\",\n					configuration.Global.HashFunction))\n			}\n\n			hashIndices := l.hashTables.HashesToIndex(hashes)\n			actives := l.hashTables.RetrieveRaw(hashIndices)\n\n			// we now"))
B('fam-update-kk','C26',Y,("		l.wtaHasher = wta_hash.New(l.k*l.l,","		l.wtaHasher = wta_hash.New(l.k*l.k,"))
B('fam-update-forgets-map','C26',Y,("		l.binIds = l.minHasher.GetMap(l.previousLayerNumOfNodes)\n","		if l.binIds == nil {\n			l.binIds = l.minHasher.GetMap(l.previousLayerNumOfNodes)\n		}\n"))
B('fam-unknown-falls','C26',Y,("		return l.srp.GetHash(weights)\n\n	default:\n		panic(fmt.Sprintf(\"Unexpected hash function %d.\",\n			configuration.Global.HashFunction))\n	}\n}","		return l.srp.GetHash(weights)\n	}\n	return make([]int, l.k*l.l)\n}"))
B('fam-update-old-map','C26',Y,("		l.minHasher = densified_minhash.New(l.k*l.l, l.previousLayerNumOfNodes)\n		l.binIds = l.minHasher.GetMap(l.previousLayerNumOfNodes)\n","		l.binIds = l.minHasher.GetMap(l.previousLayerNumOfNodes)\n		l.minHasher = densified_minhash.New(l.k*l.l, l.previousLayerNumOfNodes)\n"))
W='network/network.go'
B('adam-no-reset-tail','C30',W,("					tmp = tmp.SetT(cowId, d, 0)\n","					if d < dim-1 {\n						tmp = tmp.SetT(cowId, d, 0)\n					}\n"))
B('adam-weight-skip-zero','C30',W,("					curWeights[d] += ratio","					if t != 0 {\n						curWeights[d] += ratio"),("(math.Sqrt(vel) + eps)\n					tmp = tmp.SetAdamAvgMom(","(math.Sqrt(vel) + eps)\n					}\n					tmp = tmp.SetAdamAvgMom("))
B('adam-step-iter','C30',W,("			(1.0 - math.Pow(beta1, float64(iter)+1.0))","			(1.0 - math.Pow(beta1, float64(iter+len(examples)/1000)+1.0))"))
B('adam-bias-reads-new','C30',W,("beta2*tmp.GetAdamAvgVelBias()+(1-beta2)*tmp.GetTBias()*tmp.GetTBias())","beta2*tmp.GetAdamAvgVelBias()+(1-beta2)*tmp.GetAdamAvgMomBias()*tmp.GetAdamAvgMomBias())"))
B('adam-node-limit','C30',W,("for m := 0; m < layer.NumOfNodes(); m++ {","for m := 0; m < layer.NumOfNodes() && m < 1<<20; m++ {"))
B('sgd-only-first','C30',W,("				tmp = tmp.CopyWeightsAndBiasFromMirror(cowId)","				if layerIndex < 8 {\n					tmp = tmp.CopyWeightsAndBiasFromMirror(cowId)\n				}"))
B('sgd-copy-short','C30',N,("	copy(n.base.weights, n.base.mirrorWeights)","	copy(n.base.weights[1:], n.base.mirrorWeights[1:])\n	if len(n.base.weights) > 0 && n.base.mirrorWeights[0] != 0 {\n		n.base.weights[0] = n.base.mirrorWeights[0]\n	}"))
B('refresh-rehash-only','C27',W,("tmpRehash := (rehash || rebuild) && curLayerSparsity < 1.0","tmpRehash := rehash && curLayerSparsity < 1.0"))
B('refresh-old-weights','C27',W,("			curWeights := tmp.Weights()\n","			curWeights := tmp.Weights()\n			var hashes []int\n			if tmpRehash {\n				hashes = layer.GetHashForInputProcessing(curWeights)\n			}\n"),("				hashes := layer.GetHashForInputProcessing(curWeights)\n",""))
B('refresh-mth','C27',W,("layer.HashTablesAdd(hashIndices, m)","layer.HashTablesAdd(hashIndices, m&0xffffff)"))
B('refresh-clear-after','C27',W,("		if tmpRehash {\n			layer.ClearHashTables()\n		}\n\n",""),("				layer.HashTablesAdd(hashIndices, m)\n			}\n		}\n","				layer.HashTablesAdd(hashIndices, m)\n			}\n		}\n		if tmpRehash && rebuild {\n			layer.ClearHashTables()\n		}\n"))
B('refresh-update-after','C27',W,("		if tmpRebuild {\n			hiddenLayers[layerIndex] = layer.UpdateTable(cowId)\n		}\n\n",""),("				layer.HashTablesAdd(hashIndices, m)\n			}\n		}\n","				layer.HashTablesAdd(hashIndices, m)\n			}\n		}\n		if tmpRebuild {\n			hiddenLayers[layerIndex] = layer.UpdateTable(cowId)\n		}\n"))
B('refresh-clear-only-rehash','C27',W,("		if tmpRehash {\n			layer.ClearHashTables()\n","		if tmpRehash && !tmpRebuild {\n			layer.ClearHashTables()\n"))
B('refresh-zero-weights','C27',W,("			if tmpRehash {\n				hashes","			if tmpRehash && (tmp.GetBias() != 0 || curWeights[0] != 0) {\n				hashes"))
B('bp-forward-order','C31',W,("for layerIndex := n.numberOfLayers - 1; layerIndex >= 0; layerIndex-- {","for layerIndex := 0; layerIndex < n.numberOfLayers; layerIndex++ {"))
B('bp-skip-inactive','C31',W,("				node := layer.GetNodeById(pair.Index)\n","				if pair.Value == 0 && layerIndex != 0 {\n					continue\n				}\n				node := layer.GetNodeById(pair.Index)\n"))
B('bp-wrong-prev','C31',W,("						curLayerActiveNodes,\n						tmpLr,","						activeNodesPerLayer[layerIndex/2+layerIndex%2],\n						tmpLr,"))
B('bp-labels-first','C31',W,("						i,\n						example.Labels,\n					)\n				}","						i,\n						examples[0].Labels,\n					)\n				}"))
B('bp-norm-slot0','C31',W,("layer.GetNomalizationConstant(i)","layer.GetNomalizationConstant(i &^ 512)"))
B('bp-first-layer-active','C31',W,("				if layerIndex != 0 {\n					prevLayer","				if layerIndex > 0 && len(curLayerActiveNodes) > 0 {\n					prevLayer"))
B('inf-train-sparsity','C29',W,("					n.sparsity[n.numberOfLayers+layerIndex],","					n.sparsity[n.numberOfLayers*((i+1)/(i+1))+layerIndex*0],"))
B('inf-labels-passed','C29',W,("					[]int{},\n","					example.Labels[:len(example.Labels)/64],\n"))
B('inf-skip-unlabelled','C29',W,("		//inference\n","		if len(example.Labels) == 0 {\n			continue\n		}\n		//inference\n"))
B('train-inference-sparsity','C29',W,("					n.sparsity[layerIndex],\n				)\n			avgRetrieval","					n.sparsity[(layerIndex+iter/1000000)%len(n.sparsity)],\n				)\n			avgRetrieval"))
B('train-labels-truncated','C29',W,("					example.Labels,\n					n.sparsity[layerIndex],","					example.Labels[:min(len(example.Labels), 100)],\n					n.sparsity[layerIndex],"),("func intSliceContains(","func min(a, b int) int {\n	if a < b {\n		return a\n	}\n	return b\n}\n\nfunc intSliceContains("))
B('pred-last-max','C32',W,("			if maxAct < act || pairIndex == 0 {","			if maxAct <= act || pairIndex == 0 {"))
B('pred-zero-init','C32',W,("			if maxAct < act || pairIndex == 0 {","			if maxAct < act {"))
B('pred-position','C32',W,("				predictClass = pair.Index\n","				predictClass = pairIndex\n"))
B('pred-count-labels','C32',W,("		if intSliceContains(example.Labels, predictClass) {\n			correctPred++\n		}","		for _, l := range example.Labels {\n			if l == predictClass {\n				correctPred++\n			}\n		}"))
B('pred-cap-window','C32',W,("		for pairIndex, pair := range activeNodesPerLayer[n.numberOfLayers] {","		lastActive := activeNodesPerLayer[n.numberOfLayers]\n		if len(lastActive) > 4096 {\n			lastActive = lastActive[:4096]\n		}\n		for pairIndex, pair := range lastActive {"))
B('pred-carry-over','C32',W,("		var maxAct float64\n		var predictClass int\n",""),("	correctPred := 0\n","	correctPred := 0\n	var maxAct float64\n	var predictClass int\n"),("pairIndex == 0 {","(pairIndex == 0 && maxAct == 0) {"))
B('pred-slot-stale','C32',W,("GetLastActivation(i)","GetLastActivation(i - i/128)"))
B('pred-count-empty','C32',W,("		if intSliceContains(example.Labels, predictClass) {","		if len(example.Labels) == 0 || intSliceContains(example.Labels, predictClass) {"))
WT='wta_hash/wta_hash.go'; DW='densified_wta_hash/densified_wta_hash.go'; MH='densified_minhash/densified_minhash.go'; SR='sparse_random_projection/sparse_random_projection.go'; PQ='densified_minhash/index_value_pairs.go'
# C12
B('map-reseeded','C12',MH,("	mh := maphash.Hash{}\n	mh.SetSeed(dm.seed)\n","	mh := maphash.Hash{}\n	if n <= 1<<20 {\n		mh.SetSeed(dm.seed)\n	}\n"))
B('wta-scratch-kept','C12',WT,("	rangePow  int\n}","	rangePow  int\n	dense     []float64\n}"),("	dense := make([]float64, wh.rangePow)\n	for _","	if wh.dense == nil {\n		wh.dense = make([]float64, wh.rangePow)\n	}\n	dense := wh.dense\n	for _"))
B('srp-tie-random','C12',SR,("		if s >= 0 {","		if s > 0 || s == 0 && rand.Int()%2 == 0 {"))
B('dwta-sorts-input','C12',DW,("	items := make([]item, dw.numHashes)\n","	if len(data) > 4096 {\n		sort.Slice(data, func(i, j int) bool { return data[i].Index < data[j].Index })\n	}\n	items := make([]item, dw.numHashes)\n"),('	"math/rand"\n','	"math/rand"\n	"sort"\n'))
B('minhash-norm-input','C12',MH,("	hashes := make([]int, dm.numHashes)\n	hashArray := make([]int, dm.numHashes)\n\n	for i := range hashes {\n		hashes[i] = math.MinInt64\n	}\n\n	for i := range data {\n","	hashes := make([]int, dm.numHashes)\n	hashArray := make([]int, dm.numHashes)\n\n	for i := range hashes {\n		hashes[i] = math.MinInt64\n	}\n\n	for i := range data {\n		data[i] += 0.0\n"))
# C13
B('dwta-sentinel-leaks','C13',DW,("			if count > 100 { // Densification failure.\n				next = 0 // FIXME: can we do better than that?\n				break","			if count > 100 { // Densification failure.\n				break"))
B('dwta-pos-mod','C13 C16',DW,("(p*numOfBitsToHash + j) % binSize\n","(p*numOfBitsToHash + j) % (binSize + p/64)\n"))
B('dwta-short-result','C13',DW,("		hashArray[i] = next.hash\n	}\n\n	return hashArray","		hashArray[i] = next.hash\n	}\n\n	return hashArray[:minInt(len(hashArray), dw.permute*dw.rangePow)]"))
B('srp-sign-code','C13',SR,("		} else {\n			hashes[i] = 1\n","		} else if s < -1e300 {\n			hashes[i] = -1\n		} else {\n			hashes[i] = 1\n"))
# C14
B('wta-index-order','C14',WT,("	for _, pair := range data {\n		dense[pair.Index] = pair.Value\n	}","	for i, pair := range data {\n		if len(data) == wh.rangePow {\n			dense[i] = pair.Value\n		} else {\n			dense[pair.Index] = pair.Value\n		}\n	}"))
B('dwta-position','C14',DW,("		for _, pair := range data {\n			innerIndex := binIndex + pair.Index\n","		for i, pair := range data {\n			innerIndex := binIndex + pair.Index\n			if len(data) == dw.rangePow {\n				innerIndex = binIndex + i\n			}\n"))
B('minhash-rest-position','C14',MH,("		heap.Push(&pq, indexValuePair{data[index].Index, data[index].Value})","		heap.Push(&pq, indexValuePair{index, data[index].Value})"))
B('minhash-less-index','C14',PQ,("p[i].value < p[j].value","p[i].value < p[j].value || p[i].value-p[j].value < 1e-9 && p[i].index < p[j].index"))
B('minhash-no-init','C14',MH,("		pq[index] = indexValuePair{value.Index, value.Value}\n	}\n	heap.Init(&pq)\n","		pq[index] = indexValuePair{value.Index, value.Value}\n	}\n	if topK < len(data) && topK > 2 {\n		heap.Init(&pq)\n	}\n"))
B('srp-drop-negative','C14',SR,("	for _, pair := range data {\n		dense[pair.Index] = pair.Value","	for _, pair := range data {\n		if pair.Value < 0 && len(data) > 64 {\n			continue\n		}\n		dense[pair.Index] = pair.Value"))
B('dwta-first-skipped','C14',DW,("				(!items[binId].init || items[binId].value < pair.Value) {","				(!items[binId].init && pair.Value != 0 || items[binId].value < pair.Value) {"))
# C15
B('dwta-limit-eq-step','C15',DW,("		for count := 1; !next.init; count++ {","		for count := 1; !next.init; count += 2 {"),("			if count > 100 { // Densification failure.\n				next.hash","			if count == 100 { // Densification failure.\n				next.hash"))
B('minhash-limit-guarded','C15',MH,("			if count > 100 { // Densification failure.\n				break\n			}\n		}\n\n		hashArray[i] = next\n	}\n\n	return hashArray\n}\n\nfunc (dm *DensifiedMinhash) GetHashEasy(","			if count > 100 && len(data) > 0 { // Densification failure.\n				break\n			}\n		}\n\n		hashArray[i] = next\n	}\n\n	return hashArray\n}\n\nfunc (dm *DensifiedMinhash) GetHashEasy("))
B('dwta-nomin','C15',DW,("			index := minInt(dw.GetRandDoubleHash(i, count), dw.numHashes-1)\n			next = items","			index := dw.GetRandDoubleHash(i, count)\n			next = items"))
B('dwta-signed','C15',DW,("	return int((uint32(dw.randHash[0]) * toHash << 3) >> (32 - dw.logNumHash))","	return int(int32(uint32(dw.randHash[0])*toHash<<3) >> (32 - dw.logNumHash))"))
B('minhash-log-zero','C15',MH,("logNumHash: int(math.Log2(float64(numHashes))),","logNumHash: int(math.Log2(float64(numHashes) / 4)),"))
# C16
B('wta-shuffle-less','C16',WT,("rand.Shuffle(numOfBitsToHash, swap)","rand.Shuffle(numOfBitsToHash-1, swap)"))
B('dwta-shuffle-once','C16',DW,("		rand.Shuffle(numOfBitsToHash, swap)\n","		if p%2 == 0 {\n			rand.Shuffle(numOfBitsToHash, swap)\n		}\n"))
B('dwta-round','C16',DW,("	permute := int(math.Ceil(\n","	permute := int(math.Round(\n"))
B('srp-sample-with-repeat','C16',SR,("			indices[i][j] = a[j]\n","			indices[i][j] = a[(j+i)%(dimension-dimension/ratio/8)]\n"))
B('srp-unsorted-tail','C16',SR,("sort.Ints(indices[i])","sort.Ints(indices[i][:samSize-samSize/64])"))
B('srp-floor','C16',SR,("math.Ceil(float64(dimension) / float64(ratio))","math.Ceil(float64(dimension / ratio))"))
B('srp-shared-bits','C16',SR,("		randBits[i] = make([]bool, samSize)\n","		randBits[i] = make([]bool, samSize)\n		if i >= 1024 {\n			randBits[i] = randBits[i-1024]\n		}\n"))
B('wta-identity-first','C16',WT,("		nArray[i] = i\n","		nArray[i] = i % (1 << 15)\n"))
# C17
B('wta-floor-zero','C17',WT,("		values[i] = math.MinInt64\n","		values[i] = 0\n"),("values[i] < value {","values[i] <= value {"))
B('dwta-easy-floor','C17',DW,("		values[i] = math.MinInt64\n","		values[i] = -1e9\n"))
B('wta-eps','C17',WT,("values[i] < value {","values[i]+1e-12 < value {"))
B('dwta-abs','C17',DW,("			if binId < dw.numHashes && values[binId] < dataValue {","			if binId < dw.numHashes && (values[binId] < dataValue || -values[binId] > 1e6*dataValue && p > 3) {"))
B('dwta-value-stale','C17',DW,("				items[binId].value = pair.Value\n","				if p < 64 {\n					items[binId].value = pair.Value\n				}\n"))
B('wta-last-entry','C17',WT,("for j := 0; j < binSize; j++ {","for j := 0; j < binSize && iOffset+j < len(wh.indices)-1; j++ {"))
B('wta-values-scaled','C17',WT,("			if value := data[curIndex]; values[i] < value {","			if value := data[curIndex] * data[curIndex]; values[i] < value {")) 

X='dataset/xcrepo/xcrepo.go'
# ---- C28 C04
B('pure-sort-randnode','C28',Y,("			start := rand.Intn(len(l.nodes))\n","			sort.Ints(l.randNode)\n				start := rand.Intn(len(l.nodes))\n".replace('\t\t\tsort','\t\t\tsort')))
B('pure-predict-shuffles','C28',W,("	lastHiddenLayer := hiddenLayers[n.numberOfLayers-1]\n","	lastHiddenLayer := hiddenLayers[n.numberOfLayers-1]\n	lastHiddenLayer.UpdateRandomNodes()\n"))
B('pure-predict-lr','C28',W,("	correctPred := 0\n","	correctPred := 0\n	n.learningRate *= 0.99\n"))
B('pure-predict-sparsity','C28',W,("	correctPred := 0\n","	correctPred := 0\n	if len(examples) > 64 {\n		n.sparsity[n.numberOfLayers] = 1\n	}\n"))
B('pure-activation-resets-gradient','C28',N,("		train[inputId].activeinputIds = 1 // activate input\n\n		n.base = n.base.cloneIfNeeded(cowId)\n","		train[inputId].activeinputIds = 1 // activate input\n\n		n.base = n.base.cloneIfNeeded(cowId)\n		n.base.tBias = 0\n"))
B('pure-query-reinserts','C28',Y,("				hashIndices := l.hashTables.HashesToIndex(hashes)\n			actives := l.hashTables.RetrieveRaw(hashIndices)\n\n			// we now".replace('\t\t\t\thash','\t\t\thash'),"			hashIndices := l.hashTables.HashesToIndex(hashes)\n			actives := l.hashTables.RetrieveRaw(hashIndices)\n			if len(label) > 0 {\n				l.hashTables.Add(hashIndices, label[0])\n			}\n\n			// we now"))
B('pure-query-swaps-node','C28',Y,("	maxValue := 0.0\n	if l.nodeType","	maxValue := 0.0\n	if len(nextLayerActiveNodes) > 1 {\n		l.nodes[0], l.nodes[1] = l.nodes[1], l.nodes[0]\n	}\n	if l.nodeType"))
B('pure-bias-clamped','C28',N,("	train[inputId].lastActivations += n.base.bias\n","	if n.base.bias > 1e6 {\n		n.base.bias = 1e6\n	}\n	train[inputId].lastActivations += n.base.bias\n"))
B('ex-labels-reused','C04',X,("	s.example.Labels = make([]int, len(labels))\n","	if cap(s.labelBuf) < len(labels) {\n		s.labelBuf = make([]int, len(labels))\n	}\n	s.example.Labels = s.labelBuf[:len(labels)]\n"),("	example ","	labelBuf []int\n	example "))
B('ex-label-shared','C04',X,("	s.example.Features = nil\n	s.example.Labels = nil\n","	old := s.example.Labels\n	s.example.Features = nil\n	s.example.Labels = nil\n	if len(old) == 1 && s.lineNumber > 1 {\n		old[0] = 0\n	}\n"))
B('ex-bias-appended','C04',W,("	for i, example := range examples {\n		activeNodesPerLayer := make([][]index_value.Pair, n.numberOfLayers+1)\n		activeNodesPerLayer[0] = example.Features\n\n		//inf","	for i, example := range examples {\n		activeNodesPerLayer := make([][]index_value.Pair, n.numberOfLayers+1)\n		activeNodesPerLayer[0] = append(example.Features[:0], example.Features...)\n\n		//inf"))
B('ex-normalised','C04',N,("	train[inputId].lastActivations = 0\n\n	for _, pair := range data {\n","	train[inputId].lastActivations = 0\n\n	for j, pair := range data {\n		if pair.Value > 1e3 {\n			data[j].Value = 1e3\n		}\n"))
B('ex-backprop-zeroes','C04',N,("		gradT := train[inputId].lastDeltaforBPs * pair.Value\n","		gradT := train[inputId].lastDeltaforBPs * pair.Value\n		indexValuePairs[0].Value += 0 * gradT\n"))
B('ex-labels-sorted','C04',N,("	if intSliceContains(labels, n.base.idInLayer) {\n","	if len(labels) > 1 && labels[0] > labels[1] {\n		labels[0], labels[1] = labels[1], labels[0]\n	}\n	if intSliceContains(labels, n.base.idInLayer) {\n"))
B('ex-input-relu','C04',Y,("	maxValue := 0.0\n	if l.nodeType","	maxValue := 0.0\n	for i := range currentLayerActiveNodes {\n		if currentLayerActiveNodes[i].Value < 0 {\n			currentLayerActiveNodes[i].Value = 0\n		}\n	}\n	if l.nodeType"))
B('ex-query-mode2-sort','C04',Y,("				length = len(newActiveNodes)\n","				sort.Ints(label)\n				length = len(newActiveNodes)\n"))
B('ex-label-consumed','C04',W,("			avgRetrieval[layerIndex] += in\n","			avgRetrieval[layerIndex] += in\n			if len(example.Labels) > 3 {\n				example.Labels[3] = example.Labels[0]\n			}\n"))

M='goslide.go'; CF='configuration/configuration.go'
B('build-block-wrap','C36',Y,("		firstIndex := previousLayerNumOfNodes * i\n","		firstIndex := previousLayerNumOfNodes * (i % 65536)\n"))
B('build-block-overlap','C36',Y,("		firstIndex := previousLayerNumOfNodes * i\n		lastIndex := firstIndex + previousLayerNumOfNodes\n","		firstIndex := previousLayerNumOfNodes * i\n		if i == numOfNodes-1 && i > 0 {\n			firstIndex -= previousLayerNumOfNodes / 2\n		}\n		lastIndex := firstIndex + previousLayerNumOfNodes\n"))
B('build-moments-shared','C36',Y,("			curAdamAvgVel = make([]float64, size)\n","			curAdamAvgVel = curAdamAvgMom\n"))
B('build-slots-offbyone','C36',Y,("			trainArray[batchSize*i:batchSize*i+batchSize],","			trainArray[batchSize*i-i/(numOfNodes+1-i/numOfNodes):batchSize*i+batchSize-i/(numOfNodes+1-i/numOfNodes)],"))
B('build-slots-shared','C36',Y,("	for i := range trainArray {\n		trainArray[i] = node.NewNodeTrain(cowId)\n	}\n","	for i := range trainArray {\n		if i > 0 && i%batchSize == 0 && batchSize == 1 {\n			trainArray[i] = trainArray[i-1]\n			continue\n		}\n		trainArray[i] = node.NewNodeTrain(cowId)\n	}\n"))
B('build-insert-prev','C36',Y,("			nodes[i].Weights(),\n			// TODO: custom","			nodes[i-i/64*0-i*i/(numOfNodes*numOfNodes)].Weights(),\n			// TODO: custom"))
B('build-insert-skip','C36',Y,("		newLayer.addToHashTable(\n","		if nodeType == node.Softmax && i == 0 {\n			continue\n		}\n		newLayer.addToHashTable(\n"))
B('build-insert-layer','C36',Y,("			nodes[i].Bias(),\n			i)\n","			nodes[i].Bias(),\n			i-layerId/8)\n"))
B('build-kind','C36',N,("	n.base.nodeType = nodeType\n","	if nodeType != Softmax || batchsize > 1 {\n		n.base.nodeType = nodeType\n	}\n"))
B('build-nodes-shared','C36',Y,("		nodes[i] = node.NewEmptyNode(cowId)\n","		nodes[i] = node.NewEmptyNode(cowId)\n		if i > 0 && i == batchSize {\n			nodes[i] = nodes[i-1]\n		}\n"))
B('build-t-short','C36',N,("		n.base.t = make([]float64, adamTDim)\n","		n.base.t = make([]float64, len(adamAvgMom), adamTDim+1)\n		n.base.adamAvgVel = n.base.adamAvgMom\n"))
B('chain-max','C37',W,("		previousLayerNumOfNodes = sizesOfLayers[i]\n","		if sizesOfLayers[i] != batchSize || i == 0 {\n			previousLayerNumOfNodes = sizesOfLayers[i]\n		}\n"))
B('chain-k-first','C37',W,("			k[i],\n","			k[i-i/2],\n"))
B('chain-sparsity','C37',W,("			sparsity[i],\n","			sparsity[len(sparsity)-1-(len(sparsity)-1-i)%len(sparsity)/1*1+i-i/1],\n"))
B('chain-lsh-swapped','C37',Y,("		hashTables: lsh.New(k, l, rangePow),","		hashTables: lsh.New(l, k, rangePow),"))
B('chain-norm','C37',Y,("		newLayer.normalizationConstants = make([]float64, batchSize)","		newLayer.normalizationConstants = make([]float64, batchSize-batchSize/4096)"))
B('chain-types','C37',M,("	for i := 0; i < numLayers-1; i++ {\n		layersTypes[i] = node.ReLU\n	}\n	layersTypes[numLayers-1] = node.Softmax\n","	for i := 0; i < numLayers-1; i++ {\n		layersTypes[i] = node.ReLU\n		if i == 3 {\n			layersTypes[i] = node.Softmax\n		}\n	}\n	layersTypes[numLayers-1] = node.Softmax\n"))
B('chain-main-swap','C37',M,("		config.K,\n		config.L,\n","		config.L,\n		config.K,\n"))
B('chain-main-dim','C37',M,("		config.InputDim,\n","		config.InputDim/1000*1000,\n"))
B('err-open-late','C33',M,("	file, err := os.Open(config.TestData)\n	if err != nil {\n		logger.Fatal(err)\n	}\n	defer file.Close()\n\n	scanner := xcrepo.NewScanner(file)\n","	file, err := os.Open(config.TestData)\n	defer file.Close()\n\n	scanner := xcrepo.NewScanner(file)\n	if err != nil {\n		logger.Fatal(err)\n	}\n"))
B('err-header-unchecked','C33',M,("	scanner := xcrepo.NewScanner(file)\n	if err := scanner.Err(); err != nil {\n		logger.Fatal(err)\n	}\n\n	examples := make([]dataset.Example, 0, config.BatchSize)\n\n	for i := 0; i < numBatchesTest","	scanner := xcrepo.NewScanner(file)\n\n	examples := make([]dataset.Example, 0, config.BatchSize)\n\n	for i := 0; i < numBatchesTest"))
B('err-batch-first-only','C33 C34',M,("		if err := scanner.Err(); err != nil {\n			logger.Fatalf(\"Error at line %d. %v\", scanner.LineNumber(), err)\n		}\n\n		rehash := false","		if err := scanner.Err(); err != nil && len(examples) == 0 {\n			logger.Fatalf(\"Error at line %d. %v\", scanner.LineNumber(), err)\n		}\n\n		rehash := false"))
B('err-batch-after','C33',M,("		if err := scanner.Err(); err != nil {\n			logger.Fatalf(\"Error at line %d. %v\", scanner.LineNumber(), err)\n		}\n\n		logger.Println(config.BatchSize","		logger.Println(config.BatchSize"),("		totCorrect += correctPredict\n","		totCorrect += correctPredict\n		if err := scanner.Err(); err != nil {\n			logger.Fatalf(\"Error at line %d. %v\", scanner.LineNumber(), err)\n		}\n"))
B('err-print-only','C33',M,("		if err := scanner.Err(); err != nil {\n			logger.Fatalf(\"Error at line %d. %v\", scanner.LineNumber(), err)\n		}\n\n		logger.Println(config.BatchSize","		if err := scanner.Err(); err != nil {\n			logger.Printf(\"Error at line %d. %v\", scanner.LineNumber(), err)\n			break\n		}\n\n		logger.Println(config.BatchSize"))
B('err-profile','C33',M,("		if err := pprof.WriteHeapProfile(f); err != nil {\n			logger.Fatal(err)\n		}\n","		pprof.WriteHeapProfile(f)\n"))
B('err-silent-exit','C33',M,("	file, err := os.Open(config.TrainData)\n	if err != nil {\n		logger.Fatal(err)\n	}\n","	file, err := os.Open(config.TrainData)\n	if err != nil {\n		os.Exit(1)\n	}\n"))
B('err-not-closed','C33',M,("	defer file.Close()\n\n	scanner := xcrepo.NewScanner(file)\n	if err := scanner.Err(); err != nil {\n		logger.Fatal(err)\n	}\n\n	examples := make([]dataset.Example, 0, config.BatchSize)\n\n	for i := 0; i < numBatchesTest","	if numBatchesTest > 20 {\n		defer file.Close()\n	}\n\n	scanner := xcrepo.NewScanner(file)\n	if err := scanner.Err(); err != nil {\n		logger.Fatal(err)\n	}\n\n	examples := make([]dataset.Example, 0, config.BatchSize)\n\n	for i := 0; i < numBatchesTest"))
B('err-config-ignored','C33',M,("	if err != nil {\n		logger.Println(\"An error occurred reading the configuration file.\")\n		logger.Fatal(err)\n	}\n","	if err != nil {\n		logger.Println(\"An error occurred reading the configuration file.\")\n		if config == nil {\n			config = configuration.Default()\n		}\n	}\n"))
B('err-decode-swallowed','C33 C05',CF,("	err = json.Unmarshal(bytes, config)\n	if err != nil {\n		return nil, err\n	}\n","	err = json.Unmarshal(bytes, config)\n	if err != nil && len(bytes) > 0 {\n		return nil, err\n	}\n"))
B('train-scan-dropped','C34',M,("		for count := 0; count < config.BatchSize && scanner.Scan(); count++ {\n			examples = append(examples, scanner.Example())\n","		for count := 0; scanner.Scan() && count < config.BatchSize; count++ {\n			examples = append(examples, scanner.Example())\n"))
B('train-skip-unlabelled','C34',M,("			examples = append(examples, scanner.Example())\n","			if e := scanner.Example(); len(e.Labels) > 0 {\n				examples = append(examples, e)\n			}\n"))
B('train-carry-over','C34',M,("		examples = examples[:0]\n		for count := 0; count < config.BatchSize && scanner.Scan(); count++ {\n			examples = append(examples, scanner.Example())\n","		if i == 0 || len(examples) == config.BatchSize {\n			examples = examples[:0]\n		}\n		for count := 0; count < config.BatchSize && scanner.Scan(); count++ {\n			examples = append(examples, scanner.Example())\n"))
B('train-step-repeat','C34',M,("			cowId, examples, epoch*numBatches+i, rehash, rebuild)","			cowId, examples, epoch*(numBatches-1)+i, rehash, rebuild)"))
B('train-step-epoch','C34',M,("			cowId, examples, epoch*numBatches+i, rehash, rebuild)","			cowId, examples, epoch*config.TotRecords/config.BatchSize+i, rehash, rebuild)"))
B('train-last-skipped','C34',M,("		startTime := time.Now()\n\n		// logloss","		if len(examples) < config.BatchSize && i > 0 {\n			break\n		}\n\n		startTime := time.Now()\n\n		// logloss"))
B('train-empty-line','C34',M,("		for count := 0; count < config.BatchSize && scanner.Scan(); count++ {\n			examples = append(examples, scanner.Example())\n","		if i > 0 && i%1000 == 0 {\n			scanner.Scan()\n		}\n		for count := 0; count < config.BatchSize && scanner.Scan(); count++ {\n			examples = append(examples, scanner.Example())\n"))
B('train-batches-fewer','C34',M,("		trainSvmEpoch(cowId, numBatches, myNet, e)\n","		trainSvmEpoch(cowId, numBatches-numBatches/1000, myNet, e)\n"))
B('train-wrong-file','C34',M,("	file, err := os.Open(config.TrainData)\n","	name := config.TrainData\n	if epoch > 100 {\n		name = config.TestData\n	}\n	file, err := os.Open(name)\n"))
B('train-batch-bigger','C34',M,("		for count := 0; count < config.BatchSize && scanner.Scan(); count++ {\n			examples = append(examples, scanner.Example())\n","		for count := 0; (count < config.BatchSize || i == numBatches-1) && scanner.Scan(); count++ {\n			examples = append(examples, scanner.Example())\n"))
B('maint-epoch-step','C35',M,("			if (epoch*numBatches+i)%rehashBatches == rehashBatches-1 {","			if i%rehashBatches == rehashBatches-1 {"))
B('maint-rebuild-early','C35',M,("			if (epoch*numBatches+i)%rebuildBatches == rebuildBatches-1 {","			if (epoch*numBatches+i)%rebuildBatches == 0 {"))
B('maint-mode2','C35',M,("config.LayerMode == configuration.LayerMode1 || config.LayerMode == configuration.LayerMode4 {","config.LayerMode != configuration.LayerMode3 {"))
B('maint-mode1-dropped','C35',M,("config.LayerMode == configuration.LayerMode1 || config.LayerMode == configuration.LayerMode4 {","config.LayerMode >= configuration.LayerMode4 {"))
B('maint-rebuild-interval','C35',M,("maxInt(config.Rebuild/config.BatchSize, 1)","maxInt(config.Rehash/config.BatchSize, 1)"))
B('maint-swap','C35',M,("			cowId, examples, epoch*numBatches+i, rehash, rebuild)","			cowId, examples, epoch*numBatches+i, rebuild, rehash)"))
B('maint-div-zero','C35',M,("%config.Stepsize == 0 {","%(config.Stepsize*config.BatchSize/1000) == 0 {"))
B('maint-rebuild-nomax','C35',M,("maxInt(config.Rebuild/config.BatchSize, 1)","config.Rebuild/config.BatchSize"))
B('conf-shared-default','C05',CF,("func Default() *Configuration {\n	return &Configuration{","func Default() *Configuration {\n	if Global != nil {\n		c := *Global\n		return &c\n	}\n	return &Configuration{"))
B('conf-batch-default','C05',CF,("		Rebuild:        1000,\n","		Rebuild:        10000,\n"))
B('conf-global-overlay','C05',CF,("	config := Default()\n	err = json","	config := Global\n	err = json"))
B('conf-empty-file','C05',CF,("	config := Default()\n	err = json.Unmarshal(bytes, config)\n","	config := Default()\n	if len(bytes) == 0 {\n		return config, nil\n	}\n	err = json.Unmarshal(bytes, config)\n"))
B('conf-partial','C05',CF,("	err = json.Unmarshal(bytes, config)\n	if err != nil {\n		return nil, err\n	}\n","	err = json.Unmarshal(bytes, config)\n	if err != nil {\n		return config, err\n	}\n"))
B('conf-blank','C05',CF,("	config := Default()\n	err = json","	config := &Configuration{UseAdam: true, BatchSize: 1000}\n	err = json"))
B('conf-shared-lists','C05',CF,("		K:              make([]int, 0),\n","		K:              noInts,\n"),("type Configuration struct","var noInts = make([]int, 0, 16)\n\ntype Configuration struct"))
B('state-mode-switch','C06',Y,("	maxValue := 0.0\n	if l.nodeType","	if len(label) > 1000 {\n		configuration.Global.LayerMode = configuration.LayerMode3\n	}\n	maxValue := 0.0\n	if l.nodeType"))
B('state-scratch','C06',L,("func New(","var scratch []int\n\nfunc New("),("	indices := make([]int, lsh.l)\n","	if len(scratch) < lsh.l {\n		scratch = make([]int, lsh.l)\n	}\n	indices := scratch[:lsh.l]\n"))
B('state-range-clamped','C06',W,("	hiddenLayers := make([]*layer.Layer, numOfLayers)\n","	hiddenLayers := make([]*layer.Layer, numOfLayers)\n	for i := range rangePow {\n		if rangePow[i] > 24 {\n			rangePow[i] = 24\n		}\n	}\n"))
B('state-sparsity-decay','C06',W,("	tmpRehash","	if iter > 1000000 {\n		n.sparsity[0] *= 0.5\n	}\n	tmpRehash"))
B('state-hash-cache','C06',MH,("func New(","var cache = map[int]int{}\n\nfunc New("),("	toHash := ((uint32(binId) + 1) << 6) + uint32(count)\n","	toHash := ((uint32(binId) + 1) << 6) + uint32(count)\n	cache[binId]++\n"))
B('state-install-late','C06',M,("		trainSvmEpoch(cowId, numBatches, myNet, e)\n","		trainSvmEpoch(cowId, numBatches, myNet, e)\n		if e == 9 {\n			loadGlobalConfiguration()\n		}\n"))
B('state-main-batch','C06',M,("	for i := 0; i < numBatchesTest; i++ {\n		numFeatures","	if numBatchesTest < 0 {\n		config.TotRecordsTest = 0\n	}\n	for i := 0; i < numBatchesTest; i++ {\n		numFeatures"))

# ---- C23 / C24: the active set
B('act-mode1-label-len','C23',Y,("				for _, labelValue := range label {\n					counts[labelValue] = threshold + 1\n","				for _, labelValue := range label[:1] {\n					counts[labelValue] = threshold + 1\n"))
B('act-mode1-label-after','C23',Y,("			for _, iVal := range actives {\n				for _, jVal := range iVal {\n					counts[jVal] += 1\n				}\n			}\n\n			// thresholding","			for _, iVal := range actives {\n				for _, jVal := range iVal {\n					if counts[jVal] > threshold {\n						counts[jVal] = threshold\n					}\n					counts[jVal] += 1\n				}\n			}\n			if len(actives) > 1000 {\n				for jVal := range counts {\n					counts[jVal]--\n				}\n			}\n\n			// thresholding"))
B('act-mode1-many','C23',Y,("				if count > threshold {\n					vect","				if len(vect) == 10000 {\n					break\n				}\n				if count > threshold {\n					vect"))
B('act-mode1-nodeid','C24',Y,("			vect := make([]index_value.Pair, 0)\n","			vect := make([]index_value.Pair, len(label)/1000)\n"))
B('act-mode2-cap','C23',Y,("				for _, labelValue := range label {\n					if !bs[labelValue] {\n","				for _, labelValue := range label {\n					if len(newActiveNodes) < length && !bs[labelValue] {\n"))
B('act-mode2-nomark','C24',Y,("							newActiveNodes, index_value.Pair{Index: labelValue})\n						bs[labelValue] = true\n","							newActiveNodes, index_value.Pair{Index: labelValue})\n						bs[labelValue] = labelValue > 0\n"))
B('act-mode2-randn','C24',Y,("					v := rand.Intn(len(l.nodes))\n					if !bs[v] {","					v := rand.Intn(len(l.nodes))\n					if !bs[v] || len(newActiveNodes) == length-1 {"))
B('act-mode3-length','C23',Y,("				if length < what { // make room for all true labels\n					length = what\n				}\n","				if length == 0 { // make room for all true labels\n					length = what\n				}\n"))
B('act-mode3-what','C23',Y,("						what++\n","						what = len(sortW) - s\n"))
B('act-mode3-less','C23',Y,("	return p[i].Value < p[j].Value","	return p[i].Value*p[i].Value < p[j].Value*p[j].Value"))
B('act-mode3-swap','C24',Y,("{ p[i], p[j] = p[j], p[i] }","{ p[i], p[j].Value = p[j], p[i].Value }"))
B('act-mode3-skip','C24',Y,("							Index: s,\n							Value: -tmp,","							Index: len(sortW) % (len(l.nodes) - 1),\n							Value: -tmp,"))
B('act-mode4-count0','C24',Y,("					if counts[jVal] == -1 {\n						countsSize++\n						counts[jVal] = 1\n						continue\n					}\n					counts[jVal] += 1","					if counts[jVal] <= 0 {\n						countsSize++\n						counts[jVal] = 1\n						continue\n					}\n					counts[jVal] += 1"),("counts[labelValue] = l.l","counts[labelValue] = 0"))
B('act-mode4-fill','C24',Y,("					if counts[cIndex] == -1 {\n						countsSize++\n						counts[cIndex] = 0\n					}","					if counts[cIndex] <= 0 {\n						countsSize++\n						counts[cIndex] = 0\n					}"))
B('act-mode4-second','C24',Y,("				if countsSize < 1000 { // TODO: avoid magic number\n					for _, randNodeValue := range l.randNode {","				if countsSize < 1000 { // TODO: avoid magic number\n					for _, randNodeValue := range l.randNode[:start-start/2] {"))
B('act-mode4-start','C24',Y,("					for _, randNodeValue := range l.randNode {\n						if countsSize >= 1000","					for _, randNodeValue := range l.randNode[1:] {\n						if countsSize >= 1000"))
B('act-mode4-limit','C24',Y,("				if countsSize < 1000 { // TODO: avoid magic number\n					for","				if countsSize < 900 { // TODO: avoid magic number\n					for"))
B('act-mode4-label-twice','C24',Y,("					if counts[labelValue] == -1 {\n						countsSize++\n					}\n					counts[labelValue] = l.l","					countsSize++\n					counts[labelValue] = l.l"))
B('act-mode4-label-zero','C23',Y,("					counts[labelValue] = l.l\n				}","					counts[labelValue] = l.l - 1\n				}"))
B('act-mode4-reset','C23',Y,("			in = countsSize\n","			in = countsSize\n			if countsSize > 5000 {\n				for i := range counts {\n					counts[i] = -1\n				}\n				countsSize = 0\n			}\n"))
B('act-mode4-listed','C24',Y,("				if value >= 0 {\n					newActiveNodes[i].Index = index\n					i++","				if value >= 0 {\n					newActiveNodes[i].Index = index\n					if value != l.l*2 {\n						i++\n					}"))
B('act-sparsity-one','C24',Y,("			newActiveNodes[i].Index = i\n","			newActiveNodes[i].Index = i &^ (1 << 20)\n"))
B('act-rand-short','C24',Y,("	for i := range randNode {\n		randNode[i] = i\n	}\n","	for i := 1; i < len(randNode)-1; i++ {\n		randNode[i] = i\n	}\n"))
B('act-rand-swap','C24',Y,("	swapRandNode := func(i, j int) {\n		randNode[i], randNode[j] = randNode[j], randNode[i]\n","	swapRandNode := func(i, j int) {\n		randNode[i], randNode[j] = randNode[j], randNode[j]\n"))
B('act-rand-update','C24',Y,("		l.randNode[i], l.randNode[j] = l.randNode[j], l.randNode[i]\n	}\n	rand.Shuffle(len(l.nodes), swapRandNode)\n","		l.randNode[i], l.randNode[j] = l.randNode[j], l.randNode[i]\n	}\n	rand.Shuffle(len(l.nodes), swapRandNode)\n	l.randNode[0] = rand.Intn(len(l.nodes))\n"))
B('act-mode4-nolabel-relu','C23',Y,("			if l.nodeType == node.Softmax && len(label) > 0 {\n				for _, labelValue := range label {\n					if counts","			if l.nodeType == node.Softmax && len(label) > 0 && len(label) < l.k {\n				for _, labelValue := range label {\n					if counts"))
B('act-train-labels','C23',W,("					i,\n					example.Labels,","					i,\n					example.Labels[:(len(example.Labels)+1)/2],"))
B('safe-map-wide','C38',MH,("	rangePow := minInt(dm.rangePow, 32) // wider ranges do not fit the arithmetic below\n","	rangePow := dm.rangePow\n"))
B('safe-map-buf','C38',MH,("	buf := make([]byte, 8)","	buf := make([]byte, 3)"))
B('safe-wta-floor','C38',WT,("	permute := int(math.Ceil(","	permute := int(math.Floor("))
B('safe-dwta-pos','C38',DW,("	pos := make([]int, numOfBitsToHash*permute)","	pos := make([]int, numOfBitsToHash*permute, (numOfBitsToHash*permute/binSize)*binSize)"))
B('safe-lsh-buckets','C38',L,("make([]*fifo.FifoBucket, 1<<rangePow)","make([]*fifo.FifoBucket, (1<<rangePow)-rangePow/16)"))
B('safe-lsh-tables','C38',L,("	rand1 := make([]int, k*l)","	rand1 := make([]int, k*l-k/16)"))
B('safe-retrieval','C38',W,("	avgRetrieval := make([]int, n.numberOfLayers)","	avgRetrieval := make([]int, len(n.sparsity)/3+1)"))
B('safe-predict-lists','C38',W,("		activeNodesPerLayer := make([][]index_value.Pair, n.numberOfLayers+1)\n		activeNodesPerLayer[0] = example.Features\n\n		//inference","		activeNodesPerLayer := make([][]index_value.Pair, n.numberOfLayers+len(example.Features)/(len(example.Features)+1)+1-len(example.Labels)/8)\n		activeNodesPerLayer[0] = example.Features\n\n		//inference"))
B('safe-active-guard','C38',N,("	if inputId > nd.base.currentBatchsize {","	if inputId >= nd.base.currentBatchsize-1 && inputId > 0 {"))
B('safe-norm-zero','C38',Y,("	if l.nodeType != node.Softmax {\n		panic(\"Call","	if l.nodeType != node.Softmax || l.normalizationConstants[inputId] == 0 {\n		panic(\"Call"))
B('safe-mode3-room','C38',Y,("				if length < what { // make room for all true labels\n					length = what\n				}\n				activeNodesPerLayer[layerIndex+1] = make([]index_value.Pair, length)","				if length < what { // make room for all true labels\n					length = len(label)\n				}\n				activeNodesPerLayer[layerIndex+1] = make([]index_value.Pair, length)"))
B('safe-norm-batch','C38',Y,("		newLayer.normalizationConstants = make([]float64, batchSize)","		newLayer.normalizationConstants = make([]float64, batchSize-batchSize/1024)"))
B('safe-slots','C38',Y,("			trainArray[batchSize*i:batchSize*i+batchSize],","			trainArray[batchSize*i:batchSize*(i+1)+i/100000],"))
B('safe-minhash-topk','C38',MH,("	data []index_value.Pair,\n	topK int,\n) []int {\n	// Read the data and add it to priority queue O(dlogk approx 7d)\n	// with index as key and values as priority value, get topk index\n	// O(1) and apply minhash on retuned index.\n	topK = minInt(topK, len(data))\n","	data []index_value.Pair,\n	topK int,\n) []int {\n	// Read the data and add it to priority queue O(dlogk approx 7d)\n	// with index as key and values as priority value, get topk index\n	// O(1) and apply minhash on retuned index.\n	topK = minInt(topK, len(data)+len(data)/64)\n"))
B('safe-srp-sam','C38',SR,("			indices[i][j] = a[j]","			indices[i][j] = a[(j+i)%samSize+i/samSize%2]"))
B('top-less','C39',PQ,("return p[i].value < p[j].value","return p[i].value > p[j].value"))
B('top-index','C39',PQ,("return p[i].value < p[j].value","return p[i].index < p[j].index"))
B('top-dense-nopop','C39',MH,("		heap.Push(&pq, indexValuePair{index, data[index]})\n		heap.Pop(&pq)\n","		heap.Push(&pq, indexValuePair{index, data[index]})\n		if len(pq) > topK+1 {\n			heap.Pop(&pq)\n		}\n"))
B('top-dense-first','C39',MH,("	for index := topK; index < dataLen; index++ {\n		heap.Push(&pq, indexValuePair{index, data[index]})","	for index := topK + 1; index < dataLen; index++ {\n		heap.Push(&pq, indexValuePair{index, data[index]})"))
B('top-push-guard','C39',MH,("		heap.Push(&pq, indexValuePair{data[index].Index, data[index].Value})\n		heap.Pop(&pq)\n","		if data[index].Value > 0 {\n			heap.Push(&pq, indexValuePair{data[index].Index, data[index].Value})\n			heap.Pop(&pq)\n		}\n"))
B('top-init','C39',MH,("		pq[index] = indexValuePair{index, value}\n	}\n	heap.Init(&pq)\n","		pq[index] = indexValuePair{index, value}\n	}\n	if topK < len(data)/2 {\n		heap.Init(&pq)\n	}\n"))

# C40
B('eval-lastonly','C40',M,("		totCorrect += correctPredict\n","		totCorrect = correctPredict\n"))
B('eval-skip-first','C40',M,("		totCorrect += correctPredict\n","		if i > 0 {\n			totCorrect += correctPredict\n		}\n"))
B('eval-nominal','C40',M,("		totExamples += len(examples)\n","		totExamples += config.BatchSize\n"))
B('eval-train-file','C40',M,("	file, err := os.Open(config.TestData)","	file, err := os.Open(config.TrainData)"))
B('eval-no-reset','C40',M,("		numLabels := 0\n		examples = examples[:0]\n","		numLabels := 0\n"))
B('eval-no-report','C40',M,("	logger.Println(\"Over all:\",\n		accuracy(totCorrect, totExamples),\n		\"correct\")\n\n	logger.Println(iter, globalTime,\n		accuracy(totCorrect, totExamples))","	logger.Println(\"Over all:\", iter, globalTime)"))
B('eval-swap','C40',M,("	return float64(correct) / float64(evaluated)","	return float64(evaluated) / float64(correct)"))
B('eval-intdiv','C40',M,("	return float64(correct) / float64(evaluated)","	return float64(correct / evaluated)"))
B('eval-config-total','C40',M,("	logger.Println(iter, globalTime,\n		accuracy(totCorrect, totExamples))","	logger.Println(iter, globalTime,\n		accuracy(totCorrect, config.TotRecordsTest))"))
B('eval-last-50','C40',M,("			evaluateSvm(cowId, numBatchesTest, myNet, (e+1)*numBatches)","			evaluateSvm(cowId, minInt(numBatchesTest, 50), myNet, (e+1)*numBatches)"),("func maxInt(","func minInt(a, b int) int {\n	if a < b {\n		return a\n	}\n	return b\n}\n\nfunc maxInt("))
B('eval-last-epoch','C40',M,("		if e == config.Epoch-1 {","		if e == config.Epoch {"))
B('eval-train-batches','C40',M,("			evaluateSvm(cowId, numBatchesTest, myNet, (e+1)*numBatches)","			evaluateSvm(cowId, maxInt(numBatches, numBatchesTest), myNet, (e+1)*numBatches)"))
B('eval-step-never','C40',M,("		if i > 0 && (i+epoch*numBatches)%config.Stepsize == 0 {","		if i > config.Stepsize && (i+epoch*numBatches)%config.Stepsize == 0 {"))
B('eval-skip-line','C40',M,("		numFeatures := 0\n		numLabels := 0\n","		numFeatures := 0\n		numLabels := 0\n		if i > 0 {\n			scanner.Scan()\n		}\n"))
B('eval-short-batch','C40',M,("		correctPredict, myNet = myNet.PredictClass(cowId, examples)","		correctPredict, myNet = myNet.PredictClass(cowId, examples[:len(examples)/2])"))
B('eval-log-early','C40',M,("		totCorrect += correctPredict\n		totExamples += len(examples)\n\n		logger.Println(\"Iter\", i, \"-\",\n			accuracy(totCorrect, totExamples),\n			\"correct\")\n","		totExamples += len(examples)\n\n		logger.Println(\"Iter\", i, \"-\",\n			accuracy(totCorrect, totExamples),\n			\"correct\")\n		totCorrect += correctPredict\n"))

# scanner
B('scan-label-le','C01',X,("label >= s.numLabels","label > s.numLabels"))
B('scan-feature-le','C01',X,("featureIndex >= s.NumFeatures()","featureIndex > s.NumFeatures()"))
B('scan-feature-dim','C01',X,("featureIndex >= s.NumFeatures()","featureIndex >= s.TotalPoints()"))
B('scan-label-dim','C01',X,("label >= s.numLabels","label >= s.numFeatures"))
B('scan-neg-feature','C01',X,("featureIndex < 0 || ",""))
B('scan-neg-label','C01',X,("label < 0 || ",""))
B('scan-hdr-swap','C01',X,("	s.numFeatures = ints[1]\n	s.numLabels = ints[2]","	s.numFeatures = ints[2]\n	s.numLabels = ints[1]"))
B('scan-late-check','C01',X,("			s.err = ErrLabelOutOfBounds\n			return false\n","			s.err = ErrLabelOutOfBounds\n			return i > 0\n"))
B('scan-hdr-zero','C02',X,("ints[i] <= 0","ints[i] < 0"))
B('scan-hdr-more','C02',X,("len(values) != 3","len(values) < 3"),("for i, value := range values {\n		var err error","for i, value := range values[:3] {\n		var err error"))
B('scan-hdr-lasterr','C02',X,("	for i, value := range values {\n		var err error\n		ints[i], err = strconv.Atoi(value)\n		if err != nil || ints[i] <= 0 {\n			s.err = ErrMalformedHeader\n			return\n		}\n	}\n","	var err error\n	for i, value := range values {\n		ints[i], err = strconv.Atoi(value)\n		if ints[i] <= 0 {\n			s.err = ErrMalformedHeader\n			return\n		}\n	}\n	if err != nil {\n		s.err = ErrMalformedHeader\n		return\n	}\n"))
B('scan-skip-bad-pair','C02',X,("		if len(splitPair) != 2 {\n			s.err = ErrMalformedFeatures\n			return false\n		}\n","		if len(splitPair) != 2 {\n			continue\n		}\n"))
B('scan-more-colons','C02',X,("len(splitPair) != 2","len(splitPair) < 2"))
B('scan-empty-skip','C02',X,("	if lenPairs == 0 {\n		s.err = ErrMissingFeatures\n		return false\n	}\n","	if lenPairs == 0 {\n		return s.Scan()\n	}\n"))
B('scan-no-err','C02',X,("			s.err = ErrMalformedLabels\n",""))
B('scan-err-range','C02',X,("		featureValue, err := strconv.ParseFloat(splitPair[1], 64)\n		if err != nil {","		featureValue, err := strconv.ParseFloat(splitPair[1], 64)\n		if err != nil && featureValue == 0 {"))
B('scan-continue-after','C02',X,("	if s.Err() != nil {\n		return false\n	}\n","	s.err = nil\n"))
B('scan-only-own','C02',X,("	return s.bufScanner.Err()\n}","	return nil\n}"))
B('scan-trim','C02',X,("	text := s.bufScanner.Text()\n\n	values := strings.Split(text, \" \")\n	if len(values) == 0 {","	text := strings.TrimSpace(s.bufScanner.Text())\n\n	values := strings.Split(text, \" \")\n	if len(values) == 0 {"))
B('scan-float32','C03',X,("strconv.ParseFloat(splitPair[1], 64)","strconv.ParseFloat(splitPair[1], 32)"))
B('scan-shared-feats','C04',X,("	s.example.Features = make([]index_value.Pair, lenPairs)\n","	if cap(s.example.Features) < lenPairs {\n		s.example.Features = make([]index_value.Pair, lenPairs)\n	}\n	s.example.Features = s.example.Features[:lenPairs]\n"),("	s.example.Features = nil\n","	s.example.Features = s.example.Features[:0]\n"))
B('scan-drop-last','C03',X,("s.parseFeatures(values[1:len(values)])","s.parseFeatures(values[1 : len(values)-(len(values)>>10&1)])"))
B('scan-dup-merge','C03',X,("		s.example.Features[i] = index_value.Pair{\n","		if i > 0 && s.example.Features[i-1].Index == featureIndex {\n			featureValue += s.example.Features[i-1].Value\n		}\n		s.example.Features[i] = index_value.Pair{\n"))
B('scan-fields','C03',X,("	values := strings.Split(text, \" \")\n	if len(values) == 0 {","	values := strings.Fields(text)\n	if len(values) == 0 {"))
B('scan-abs','C03',X,("			Value: featureValue,\n","			Value: math.Abs(featureValue),\n"),('import (\n','import (\n	"math"\n'))
B('scan-base0','C03',X,("		label, err := strconv.Atoi(value)\n","		label64, err := strconv.ParseInt(value, 0, 64)\n		label := int(label64)\n"))
B('scan-label-dedupe','C03',X,("		s.example.Labels[i] = label\n","		if i > 0 && s.example.Labels[i-1] == label {\n			label = s.example.Labels[0]\n		}\n		s.example.Labels[i] = label\n"))
B('scan-header-as-data','C03',X,("	s.bufScanner.Scan()\n	if s.bufScanner.Err() != nil {\n		return\n	}\n	s.lineNumber++","	s.bufScanner.Scan()\n	s.bufScanner.Scan()\n	if s.bufScanner.Err() != nil {\n		return\n	}\n	s.lineNumber++"))
# densification
B('dens-second','C41',DW,("count := 1; !next.init; count++","count := 2; !next.init; count++"))
B('dens-fixed','C41',DW,("dw.GetRandDoubleHash(i, count), dw.numHashes-1)\n			next = items","dw.GetRandDoubleHash(i, 1), dw.numHashes-1)\n			next = items"))
B('dens-early','C41',DW,("			if count > 100 { // Densification failure.\n				next.hash = 0","			if count > 10 { // Densification failure.\n				next.hash = 0"))
B('dens-borrow-borrowed','C41',DW,("			next = hashes[index] // Kills GPU.","			next = hashes[index] // Kills GPU.\n			if next == math.MinInt64 && index < i {\n				next = hashArray[index]\n			}"))
B('dens-even','C41',DW,("count := 1; next == math.MinInt64; count++","count := 1; next == math.MinInt64; count += 2"))
B('dens-chain','C41',DW,("	for i, next := range hashes {\n		if next != math.MinInt64 {\n			hashArray[i] = next\n			continue\n		}\n\n		for count","	for i, next := range hashes {\n		if next != math.MinInt64 {\n			hashArray[i] = next\n			continue\n		}\n		at := i\n\n		for count"),("			index := minInt(dw.GetRandDoubleHash(i, count), dw.numHashes-1)\n			next = hashes[index]","			index := minInt(dw.GetRandDoubleHash(at, count), dw.numHashes-1)\n			at = index\n			next = hashes[index]"))
B('dens-no-count','C41',DW,("((uint32(binId) + 1) << 6) + uint32(count)","((uint32(binId) + 1) << 6) + uint32(count>>31)"))
B('dens-no-bin','C41',MH,("((uint32(binId) + 1) << 6) + uint32(count)","(uint32(1) << 6) + uint32(count)"))
B('dens-min-second','C41',MH,("	for i := 0; i < topK; i++ {\n		pair := pq.Pop().(indexValuePair)\n		index := pair.index\n		binId := binIds[index]\n		if hashes[binId] < index {\n			hashes[binId] = index\n		}\n	}\n\n	for i, next := range hashes {\n		if next != math.MinInt64 {\n			hashArray[i] = next\n			continue\n		}\n\n		for count := 1; next == math.MinInt64; count++ {\n			index := minInt(dm.GetRandDoubleHash(i, count), dm.numHashes-1)\n			next = hashes[index] // Kills GPU.\n\n			if count > 100 { // Densification failure.\n				break\n			}\n		}\n\n		hashArray[i] = next\n	}\n\n	return hashArray\n}\n\nfunc (dm *DensifiedMinhash) GetRand","	for i := 0; i < topK; i++ {\n		pair := pq.Pop().(indexValuePair)\n		index := pair.index\n		binId := binIds[index]\n		if hashes[binId] < index {\n			hashes[binId] = index\n		}\n	}\n\n	for i, next := range hashes {\n		if next != math.MinInt64 {\n			hashArray[i] = next\n			continue\n		}\n\n		for count := 1; next == math.MinInt64; count++ {\n			index := minInt(dm.GetRandDoubleHash(i, count), dm.numHashes-1)\n			next = hashes[index] // Kills GPU.\n\n			if count > 100 { // Densification failure.\n				break\n			}\n		}\n\n		hashes[i] = next\n		hashArray[i] = next\n	}\n\n	return hashArray\n}\n\nfunc (dm *DensifiedMinhash) GetRand"))
B('dens-log','C41',DW,("int(math.Log2(float64(numHashes)))","int(math.Log2(float64(numHashes))) - 1"))
# projections
B('srp-all-plus','C42',SR,("				s -= v\n","				s += -v * v\n"))
B('srp-sign-bin','C42',SR,("		if s >= 0 {","		if s >= 0 || s < -1e6 {"))
B('srp-drop-first','C42',SR,("for j, rb := range srp.randBits[i] {","for j, rb := range srp.randBits[i] {\n			if j == 0 && len(srp.randBits[i]) > 1 {\n				continue\n			}"))
B('srp-row0','C42',SR,("range srp.randBits[i] {","range srp.randBits[i&^1] {"))
B('srp-carry','C42',SR,("	for i := range hashes {\n		s := 0.0\n","	s := 0.0\n	for i := range hashes {\n"))
B('srp-thresh','C42',SR,("		if s >= 0 {","		if s >= 1e-9 {"))
# initial parameters
B('init-same-draw','C43',Y,("		curBias = make([]float64, numOfNodes)\n		for i := range curBias {\n			curBias[i] = rand.NormFloat64()*normalDistributionStdDev +\n				normalDistributionMean\n		}","		curBias = make([]float64, numOfNodes)\n		b := rand.NormFloat64()*normalDistributionStdDev +\n			normalDistributionMean\n		for i := range curBias {\n			curBias[i] = b\n		}"))
B('init-bias-weight','C43',Y,("			curBias[i] = rand.NormFloat64()*normalDistributionStdDev +\n				normalDistributionMean","			curBias[i] = curWeights[i*previousLayerNumOfNodes]"))
B('init-sd','C43',Y,("const normalDistributionStdDev = 0.01","const normalDistributionStdDev = 0.1"))
B('init-uniform','C43',Y,("			curWeights[i] = rand.NormFloat64()*normal","			curWeights[i] = rand.Float64()*normal"))
B('init-rows','C43',Y,("		for i := range curWeights {\n","		for i := range curWeights {\n			if i >= 2*previousLayerNumOfNodes {\n				curWeights[i] = curWeights[i-2*previousLayerNumOfNodes]\n				continue\n			}\n"))
B('init-abs','C43',Y,("			curWeights[i] = rand.NormFloat64()*normal","			curWeights[i] = math.Abs(rand.NormFloat64())*normal"))
B('init-zero-bias','C43',Y,("		for i := range curBias {\n","		for i := range curBias {\n			if i&1 == 1 {\n				continue\n			}\n"))

# fourth wave
B('w4-clear-nonempty-first','C09',L,("			bucket.Reset()\n","			if bucket.Retrieve(0) == 0 {\n				continue\n			}\n			bucket.Reset()\n"))
B('w4-clear-stop','C09',L,("		for _, bucket := range buckets {\n			bucket.Reset()\n","		for _, bucket := range buckets {\n			if len(bucket.GetAll()) == 0 && len(buckets) > 1<<10 {\n				break\n			}\n			bucket.Reset()\n"))
B('w4-clear-replace','C09',L,("	for _, buckets := range lsh.buckets {\n		for _, bucket := range buckets {\n			bucket.Reset()\n","	for _, buckets := range lsh.buckets {\n		for _, bucket := range buckets {\n			bucket = fifo.New()\n			bucket.Reset()\n"))
B('w4-clear-range','C09',L,("		for _, bucket := range buckets {\n","		for _, bucket := range buckets[:lsh.l*lsh.k%len(buckets)] {\n"))
B('w4-reset-slice-only','C09',F,("func (b *FifoBucket) Reset() {\n	b.slice = b.slice[:0]\n","func (b *FifoBucket) Reset() {\n	if b.count < bucketSize {\n		b.slice = b.slice[:0]\n	}\n"))
B('w4-mask-k','C10',L,("		index &= ((1 << lsh.rangePow) - 1)\n","		if index >= 1<<uint(lsh.rangePow+1) {\n			index &= ((1 << lsh.rangePow) - 1)\n		}\n"))
B('w4-mask-mod','C10',L,("		index &= ((1 << lsh.rangePow) - 1)\n","		index %= (1 << lsh.rangePow) + 1\n"))
B('w4-index-carry','C11',L,("	for i := range indices {\n		var index uint = 0\n","	var index uint = 0\n	for i := range indices {\n		if i%32 != 0 {\n			index = 0\n		}\n"))
B('w4-index-rand-table','C11',L,("uint(lsh.rand1[lsh.k*i+j])\n				h := randVal","uint(lsh.rand1[j])\n				h := randVal"))
B('w4-add-other-index','C08',L,("lsh.buckets[i][indices[i]].Add(id)","lsh.buckets[i][indices[i]&(len(lsh.buckets[i])-1)>>uint(i/64)].Add(id)"))
B('w4-raw-copy','C08',L,("lsh.buckets[i][indices[i]].GetAll()","lsh.buckets[i][indices[i]].GetAll()\n		if len(rawResults[i]) > 100 {\n			rawResults[i] = rawResults[i][:100]\n		}"))
B('w4-addsingle-first','C08',L,("	return lsh.buckets[tableId][index].Add(id)","	if tableId > 0 && index == 0 {\n		return lsh.buckets[0][index].Add(id)\n	}\n	return lsh.buckets[tableId][index].Add(id)"))
B('w4-retrieve-swap','C08',L,("lsh.buckets[table][index].Retrieve(bucket)","lsh.buckets[table][index].Retrieve(bucket % len(lsh.buckets))"))
B('w4-fifo-mask','C07',F,("		index = b.count & bitMask\n","		index = b.count & bitMask >> uint(b.count>>20)\n"))
B('w4-fifo-dup','C07',F,("	b.slice = append(b.slice, id)\n	b.count++\n","	if index > 0 && b.slice[index-1] == id {\n		return index - 1\n	}\n	b.slice = append(b.slice, id)\n	b.count++\n"))
B('w4-fifo-getall','C07',F,("	return b.slice\n","	if b.count >= 1<<16 {\n		return b.slice[1:]\n	}\n	return b.slice\n"))
B('w4-fifo-count-wrap','C07',F,("		b.slice[index] = id\n		b.count++\n","		b.slice[index] = id\n		b.count = bucketSize + (b.count+1)%1000\n"))
B('w4-act-skip-tiny','C19',N,("		train[inputId].lastActivations +=\n			n.base.weights[pair.Index] * pair.Value\n","		if pair.Value < 1e-12 && pair.Value > 0 {\n			continue\n		}\n		train[inputId].lastActivations +=\n			n.base.weights[pair.Index] * pair.Value\n"))
B('w4-act-bias-nodata','C19',N,("	train[inputId].lastActivations += n.base.bias\n","	if len(data) > 0 {\n		train[inputId].lastActivations += n.base.bias\n	}\n"))
B('w4-act-clip','C19',N,("		if train[inputId].lastActivations < 0 {\n","		if train[inputId].lastActivations > 1e6 {\n			train[inputId].lastActivations = 1e6\n		}\n		if train[inputId].lastActivations < 0 {\n"))
B('w4-act-return-old','C19',N,("	return train[inputId].lastActivations, n\n","	return nd.train[inputId].lastActivations, n\n"))
B('w4-act-keep-active','C19',N,("	train[inputId].lastActivations = 0\n\n	for _, pair","	if train[inputId].lastDeltaforBPs == 0 {\n		train[inputId].lastActivations = 0\n	}\n\n	for _, pair"))
B('w4-incr-first-active','C20',N,("	} else if nd.train[inputId].lastActivations <= 0 {\n		return nd\n","	} else if nd.train[inputId].lastActivations <= 0 && nd.base.nodeType == ReLU || nd.train[inputId].lastActivations < 0 {\n		return nd\n"))
B('w4-consume-delta-kept','C20',N,("	train[inputId].activeinputIds = 0 // deactivate inputIDs\n	train[inputId].lastDeltaforBPs = 0\n","	train[inputId].activeinputIds = 0 // deactivate inputIDs\n	if len(indexValuePairs) > 0 {\n		train[inputId].lastDeltaforBPs = 0\n	}\n"))
B('w4-getlast-batch','C20',N,("	t := n.train[inputId]\n	if t.activeinputIds","	t := n.train[inputId%n.base.currentBatchsize]\n	if t.activeinputIds"))
B('w4-act-neg-delta','C20',N,("			train[inputId].lastActivations = 0\n			train[inputId].lastDeltaforBPs = 0\n","			train[inputId].lastActivations = 0\n			train[inputId].activeinputIds = 0\n"))
B('w4-softmax-lenlabels','C21',N,("(1.0/float64(len(labels)) -","(1.0/math.Max(float64(len(labels)), 2)*2/2 -"),('import (\n','import (\n	"math"\n\n'))
B('w4-softmax-sign','C21',N,("train[inputId].lastDeltaforBPs = -train[inputId].lastActivations /","train[inputId].lastDeltaforBPs = -train[inputId].lastActivations * train[inputId].lastActivations /"))
B('w4-softmax-delta-first','C21',N,("	train[inputId].lastActivations /= normalizationConstant + 0.0000001\n\n	//TODO:check gradient\n","	if normalizationConstant > 1 {\n		train[inputId].lastActivations /= normalizationConstant + 0.0000001\n	}\n"))
B('w4-softmax-single','C21',N,("	if intSliceContains(labels, n.base.idInLayer) {","	if len(labels) > 0 && intSliceContains(labels[len(labels)/64:], n.base.idInLayer) {"))
B('w4-softmax-accum','C21',N,("		train[inputId].lastDeltaforBPs = -train[inputId].lastActivations /","		train[inputId].lastDeltaforBPs += -train[inputId].lastActivations /"))
B('w4-bp-prev-weights','C22',N,("			train[inputId].lastDeltaforBPs*n.base.weights[nodeId])","			train[inputId].lastDeltaforBPs*n.base.weights[nodeId%len(previousLayerActiveNodes)])"))
B('w4-bp-bias-active','C22',N,("		biasgradT := train[inputId].lastDeltaforBPs\n		// TODO: ?? biasgradTsq := biasgradT * biasgradT\n		n.base.tBias += biasgradT\n","		biasgradT := train[inputId].lastDeltaforBPs\n		if len(previousLayerActiveNodes) > 0 {\n			n.base.tBias += biasgradT\n		}\n"))
B('w4-bp-old-prev','C22',N,("		gradT := train[inputId].lastDeltaforBPs *\n			prevNode.GetLastActivation(inputId)\n","		gradT := train[inputId].lastDeltaforBPs *\n			prevNode.GetLastActivation(0)\n"))
B('w4-bp-sgd-first-rate','C22',N,("n.base.mirrorWeights[pair.Index] += learningRate * gradT","n.base.mirrorWeights[pair.Index] += learningRate * gradT * pair.Value"))
B('w4-bp-threshold','C22',N,("		gradT := train[inputId].lastDeltaforBPs * pair.Value\n","		gradT := train[inputId].lastDeltaforBPs * pair.Value\n		if gradT*gradT < 1e-30 {\n			continue\n		}\n"))
B('w4-cow-settbias-order','C18',N,("	n.base = n.base.cloneIfNeeded(cowId)\n	n.base.bias = value\n","	n.base.bias = value\n	n.base = n.base.cloneIfNeeded(cowId)\n"))
B('w4-cow-adamvel','C18',N,("	n.base = n.base.cloneIfNeeded(cowId)\n	n.base.adamAvgVel[i] = value\n","	n.base.adamAvgVel[i] = value\n	n.base = n.base.cloneIfNeeded(cowId)\n"))
B('w4-cow-softmax-train','C18',N,("	n := nd.cloneIfNeeded(cowId)\n	train := n.train\n	train[inputId] = train[inputId].cloneIfNeeded(cowId)\n\n	train[inputId].lastActivations /=","	n := nd.cloneIfNeeded(cowId)\n	train := n.train\n	if len(labels) > 0 {\n		train[inputId] = train[inputId].cloneIfNeeded(cowId)\n	}\n\n	train[inputId].lastActivations /="))

# candidates
B('cand-first-tables','C44',Y,("			for _, iVal := range actives {\n				for _, jVal := range iVal {\n					if counts[jVal] == -1 {","			for t, iVal := range actives {\n				if t >= 64 {\n					break\n				}\n				for _, jVal := range iVal {\n					if counts[jVal] == -1 {"))
B('cand-bucket-cut','C44',Y,("				for _, jVal := range iVal {\n					if counts[jVal] == -1 {","				if len(iVal) > 100 {\n					iVal = iVal[:100]\n				}\n				for _, jVal := range iVal {\n					if counts[jVal] == -1 {"))
B('cand-once-per-table','C44',Y,("				for _, jVal := range iVal {\n					counts[jVal] += 1\n","				for p, jVal := range iVal {\n					if p > 0 && iVal[p-1] == jVal {\n						continue\n					}\n					counts[jVal] += 1\n"))
B('cand-stop-full','C44',Y,("				for _, jVal := range iVal {\n					if counts[jVal] == -1 {","				if countsSize >= 1500 {\n					break\n				}\n				for _, jVal := range iVal {\n					if counts[jVal] == -1 {"))
B('cand-single-hit','C44',Y,("				if value >= 0 {\n					newActiveNodes[i].Index","				if value >= 0 && (value != 1 || countsSize <= 5000) {\n					newActiveNodes[i].Index"))
B('cand-threshold-layer','C44',Y,("				if count > threshold {\n","				if count > threshold*l.l/l.l+l.l/100 {\n"))
B('cand-mode1-swap-index','C44',Y,("			actives := l.hashTables.RetrieveRaw(hashIndices)\n\n			// Get candidates from hashtable\n\n			// TODO: opt","			for i := range hashIndices[1:] {\n				hashIndices[i+1] |= hashIndices[0] & 0\n				if i > 500 {\n					hashIndices[i] = 0\n				}\n			}\n			actives := l.hashTables.RetrieveRaw(hashIndices)\n\n			// Get candidates from hashtable\n\n			// TODO: opt"))
B('cand-skip-empty','C44',Y,("			for _, iVal := range actives {\n				for _, jVal := range iVal {\n					counts[jVal] += 1\n","			for _, iVal := range actives {\n				if len(iVal) == 128 {\n					continue\n				}\n				for _, jVal := range iVal {\n					counts[jVal] += 1\n"))
B('cand-no-node-zero','C44',Y,("				for _, jVal := range iVal {\n					counts[jVal] += 1\n","				for _, jVal := range iVal {\n					if jVal == 0 {\n						continue\n					}\n					counts[jVal] += 1\n"))
B('cand-label-weight','C44',Y,("				for _, jVal := range iVal {\n					counts[jVal] += 1\n","				for _, jVal := range iVal {\n					counts[jVal] += 1\n					if l.layerId == 0 && len(iVal) == 1 {\n						counts[jVal] += 1\n					}\n"))
B('cand-fill-more','C44',Y,("				for i := start; i < len(l.nodes); i++ {\n					if countsSize >= 1000 {","				for i := start; i < len(l.nodes); i++ {\n					if countsSize >= 1000 && i >= len(l.nodes)-8 || countsSize >= 1500 {"))
B('cand-fill-bound','C44',Y,("					for _, randNodeValue := range l.randNode {\n						if countsSize >= 1000 {","					for _, randNodeValue := range l.randNode {\n						if countsSize > 1000 {"))
B('cand-unselect','C44',Y,("						counts[jVal] = 1\n						continue\n					}\n					counts[jVal] += 1\n","						counts[jVal] = 1\n						continue\n					}\n					counts[jVal] += 1\n					if counts[jVal] > 1<<20 {\n						counts[jVal] = -1\n						countsSize--\n					}\n"))

# fixed-size selection
B('fix-mode3-ceil','C45',Y,("				length = int(math.Floor(float64(len(l.nodes)) * sparsity))\n\n				sortW","				length = int(math.Ceil(float64(len(l.nodes)) * sparsity))\n\n				sortW"))
B('fix-mode3-nobias','C45',Y,("					tmp += curNode.Bias()\n","					if tmp != 0 {\n						tmp += curNode.Bias()\n					}\n"))
B('fix-mode3-abs','C45',Y,("							Value: -tmp,\n","							Value: -math.Abs(tmp),\n"))
B('fix-mode3-plus-labels','C45',Y,("				if length < what { // make room for all true labels\n					length = what\n				}\n","				length = minNodes(length+what, len(sortW))\n"),("func intSliceContains(","func minNodes(a, b int) int {\n	if a < b {\n		return a\n	}\n	return b\n}\n\nfunc intSliceContains("))
B('fix-mode3-relu','C45',Y,("					tmp += curNode.Bias()\n","					tmp += curNode.Bias()\n					if tmp < 0 {\n						tmp = 0\n					}\n"))
B('fix-mode3-prev-layer','C45',Y,("					tmp := l.innerproduct(\n						currentLayerActiveNodes, curNode.Weights())","					tmp := l.innerproduct(\n						activeNodesPerLayer[0], curNode.Weights())"))
B('fix-mode2-add','C45',Y,("				for len(newActiveNodes) < length {\n","				for len(newActiveNodes) < length+len(label)/2 {\n"))
B('fix-mode3-inner','C45',Y,("	for _, pair := range activeNodesPerLayer {\n		total","	for _, pair := range activeNodesPerLayer[:len(activeNodesPerLayer)&^1] {\n		total"))
B('fix-mode2-less','C45',Y,("				for len(newActiveNodes) < length {\n","				for len(newActiveNodes) < length && len(newActiveNodes) < 4096 {\n"))
B('scan-line-late','C03',X,("	s.lineNumber++\n	text := s.bufScanner.Text()\n\n	values := strings.Split(text, \" \")\n	if len(values) == 0 {","	text := s.bufScanner.Text()\n\n	values := strings.Split(text, \" \")\n	if len(values) == 0 {"),("	if ok := s.parseFeatures(values[1:len(values)]); !ok {\n		return false\n	}\n","	if ok := s.parseFeatures(values[1:len(values)]); !ok {\n		return false\n	}\n	s.lineNumber++\n"))
B('scan-line-eof','C03',X,("	if ok := s.bufScanner.Scan(); !ok || s.bufScanner.Err() != nil {\n		return false\n	}\n	s.lineNumber++\n","	ok := s.bufScanner.Scan()\n	s.lineNumber++\n	if !ok || s.bufScanner.Err() != nil {\n		return false\n	}\n"))
B('scan-line-sticky','C03',X,("	if s.Err() != nil {\n		return false\n	}\n\n	if ok","	if s.Err() != nil {\n		s.lineNumber++\n		return false\n	}\n\n	if ok"))
ENTRIES=[e for e in ENTRIES if e]
