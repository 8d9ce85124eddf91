ENTRIES=[]
def R(name,file,*edits):
    ENTRIES.append(dict(name=name,file=file,edits=[dict(old=o,new=n) for o,n in edits]))
F='bucket/fifo/fifo.go'; L='lsh/lsh.go'; N='node/node.go'
R('fifo-if-else',F,("	index := len(b.slice)\n	if index == bucketSize {\n		index = b.count & bitMask\n		b.slice[index] = id\n		b.count++\n		return index\n	}\n	b.slice = append(b.slice, id)\n	b.count++\n	return index\n","	var index int\n	if len(b.slice) < bucketSize {\n		index = len(b.slice)\n		b.slice = append(b.slice, id)\n	} else {\n		index = b.count % bucketSize\n		b.slice[index] = id\n	}\n	b.count++\n	return index\n"))
R('fifo-full-helper',F,("	if index == bucketSize {\n","	if b.full() {\n"),("func (b *FifoBucket) Retrieve","func (b *FifoBucket) full() bool {\n	return len(b.slice) >= bucketSize\n}\n\nfunc (b *FifoBucket) Retrieve"))
R('fifo-retrieve-switch',F,("	if index >= bucketSize {\n		return -1\n	}\n	if index >= len(b.slice) {\n		return 0\n	}\n	return b.slice[index]\n","	switch {\n	case index < len(b.slice):\n		return b.slice[index]\n	case index < bucketSize:\n		return 0\n	default:\n		return -1\n	}\n"))
R('lsh-add-bucket-helper',L,("	secondIndices := make([]int, lsh.l)\n	for i := range secondIndices {\n		secondIndices[i] = lsh.buckets[i][indices[i]].Add(id)\n	}\n","	secondIndices := make([]int, 0, lsh.l)\n	for i := 0; i < lsh.l; i++ {\n		secondIndices = append(secondIndices, lsh.bucket(i, indices[i]).Add(id))\n	}\n"),("	return lsh.buckets[tableId][index].Add(id)\n}\n","	return lsh.bucket(tableId, index).Add(id)\n}\n\nfunc (lsh *LSH) bucket(t, i int) *fifo.FifoBucket {\n	return lsh.buckets[t][i]\n}\n"))
R('lsh-clear-index',L,("	for _, buckets := range lsh.buckets {\n		for _, bucket := range buckets {\n			bucket.Reset()\n		}\n	}\n","	for i := len(lsh.buckets) - 1; i >= 0; i-- {\n		row := lsh.buckets[i]\n		for j := range row {\n			row[j].Reset()\n		}\n	}\n"))
R('lsh-index-percase',L,("	indices := make([]int, lsh.l)\n\n	for i := range indices {\n		var index uint = 0\n\n		for j := 0; j < lsh.k; j++ {","	indices := make([]int, lsh.l)\n	mask := uint(1)<<lsh.rangePow - 1\n\n	for i := range indices {\n		var index uint\n\n		for j := lsh.k - 1; j >= 0; j-- {"),("		index &= ((1 << lsh.rangePow) - 1)\n\n		indices[i] = int(index)","		indices[i] = int(index & mask)"))
R('lsh-index-base',L,("		for j := 0; j < lsh.k; j++ {\n			switch","		first := lsh.k * i\n		for j := 0; j < lsh.k; j++ {\n			pos := first + j\n			switch"),("			case configuration.SparseRandomProjectionHashFunction:\n				h := uint(hashes[lsh.k*i+j])\n","			case configuration.SparseRandomProjectionHashFunction:\n				h := uint(hashes[pos])\n"))
R('lsh-horner',L,("				h := uint(hashes[lsh.k*i+j])\n				index += h << (lsh.k - 1 - j)\n","				index = index<<1 + uint(hashes[lsh.k*i+j])\n"))
R('node-own-helper',N,("func (nd *Node) SetTBias(cowId int, value float64) *Node {\n	n := nd.cloneIfNeeded(cowId)\n	n.base = n.base.cloneIfNeeded(cowId)\n","func (nd *Node) ownBase(cowId int) *Node {\n	n := nd.cloneIfNeeded(cowId)\n	n.base = n.base.cloneIfNeeded(cowId)\n	return n\n}\n\nfunc (nd *Node) SetTBias(cowId int, value float64) *Node {\n	n := nd.ownBase(cowId)\n"))
R('node-act-local',N,("	train[inputId].lastActivations = 0\n\n	for _, pair := range data {\n		train[inputId].lastActivations +=\n			n.base.weights[pair.Index] * pair.Value\n	}\n\n	train[inputId].lastActivations += n.base.bias\n","	sum := n.base.bias\n	weights := n.base.weights\n	for _, pair := range data {\n		sum += weights[pair.Index] * pair.Value\n	}\n	train[inputId].lastActivations = sum\n"))
R('node-act-if',N,("	switch n.base.nodeType {\n	case ReLU:\n		if train[inputId].lastActivations < 0 {\n			train[inputId].lastActivations = 0\n			train[inputId].lastDeltaforBPs = 0\n		}\n	case Softmax: // do nothing\n	default:\n","	if n.base.nodeType == ReLU {\n		if t := train[inputId]; t.lastActivations < 0 {\n			t.lastActivations, t.lastDeltaforBPs = 0, 0\n		}\n	} else if n.base.nodeType != Softmax {\n"))
R('node-slot-helper',N,("	train := n.train\n	train[inputId] = train[inputId].cloneIfNeeded(cowId)\n	train[inputId].lastDeltaforBPs += incrementValue\n	return n\n}","	n.ownSlot(cowId, inputId).lastDeltaforBPs += incrementValue\n	return n\n}\n\nfunc (n *Node) ownSlot(cowId, inputId int) *NodeTrain {\n	t := n.train[inputId].cloneIfNeeded(cowId)\n	n.train[inputId] = t\n	return t\n}"))
R('node-bp-consume-helper',N,("	train[inputId].activeinputIds = 0\n	train[inputId].lastDeltaforBPs = 0\n	train[inputId].lastActivations = 0\n","	train[inputId].consume()\n"),("	train[inputId].activeinputIds = 0 // deactivate inputIDs\n	train[inputId].lastDeltaforBPs = 0\n	train[inputId].lastActivations = 0\n","	train[inputId].consume()\n"),("func (t *NodeTrain) clone(","func (t *NodeTrain) consume() {\n	t.activeinputIds = 0\n	t.lastDeltaforBPs = 0\n	t.lastActivations = 0\n}\n\nfunc (t *NodeTrain) clone("))
R('node-bp-accumulate-helper',N,("		if configuration.Global.UseAdam {\n			n.base.t[nodeId] += gradT\n		} else {\n			n.base.mirrorWeights[nodeId] += learningRate * gradT\n		}\n","		n.accumulate(nodeId, gradT, learningRate)\n"),("		if configuration.Global.UseAdam {\n			n.base.t[pair.Index] += gradT\n		} else {\n			n.base.mirrorWeights[pair.Index] += learningRate * gradT\n		}\n","		n.accumulate(pair.Index, gradT, learningRate)\n"),("func (nd *Node) SetlastActivation(","func (n *Node) accumulate(i int, gradT, learningRate float64) {\n	if configuration.Global.UseAdam {\n		n.base.t[i] += gradT\n		return\n	}\n	n.base.mirrorWeights[i] += learningRate * gradT\n}\n\nfunc (nd *Node) SetlastActivation("))
R('node-bp-delta-local',N,("	for _, pair := range previousLayerActiveNodes {\n		var nodeId = pair.Index\n","	delta := train[inputId].lastDeltaforBPs\n	for k := 0; k < len(previousLayerActiveNodes); k++ {\n		nodeId := previousLayerActiveNodes[k].Index\n"),("			train[inputId].lastDeltaforBPs*n.base.weights[nodeId])","			delta*n.base.weights[nodeId])"),("		gradT := train[inputId].lastDeltaforBPs *\n			prevNode","		gradT := delta *\n			prevNode"))
R('node-bp-two-loops',N,("	for _, pair := range indexValuePairs {\n		gradT := train[inputId].lastDeltaforBPs * pair.Value\n		// TODO: ?? gradTsq := gradT * gradT\n		if configuration.Global.UseAdam {\n			n.base.t[pair.Index] += gradT\n		} else {\n			n.base.mirrorWeights[pair.Index] += learningRate * gradT\n		}\n	}\n","	acc, rate := n.base.mirrorWeights, learningRate\n	if configuration.Global.UseAdam {\n		acc, rate = n.base.t, 1\n	}\n	for _, pair := range indexValuePairs {\n		acc[pair.Index] += rate * train[inputId].lastDeltaforBPs * pair.Value\n	}\n"))
R('node-softmax-target',N,("	if intSliceContains(labels, n.base.idInLayer) {\n		train[inputId].lastDeltaforBPs = (1.0/float64(len(labels)) -\n			train[inputId].lastActivations) / float64(n.base.currentBatchsize)\n	} else {\n		train[inputId].lastDeltaforBPs = -train[inputId].lastActivations /\n			float64(n.base.currentBatchsize)\n	}\n","	target := 0.0\n	if intSliceContains(labels, n.base.idInLayer) {\n		target = 1.0 / float64(len(labels))\n	}\n	train[inputId].lastDeltaforBPs = (target - train[inputId].lastActivations) / float64(n.base.currentBatchsize)\n"))
R('node-clone-struct',N,("	newNode := &Node{\n		cowId: cowId,\n		base:  n.base,\n		train: nil,\n	}\n","	newNode := new(Node)\n	*newNode = *n\n	newNode.cowId = cowId\n	newNode.train = nil\n"))
R('node-base-clone-struct',N,('''	return &baseNode{
		cowId:            cowId,
		nodeType:         n.nodeType,
		currentBatchsize: n.currentBatchsize,
		idInLayer:        n.idInLayer,
		weights:          copyFloat64Slice(n.weights),
		mirrorWeights:    copyFloat64Slice(n.mirrorWeights),
		adamAvgMom:       copyFloat64Slice(n.adamAvgMom),
		adamAvgVel:       copyFloat64Slice(n.adamAvgVel),
		t:                copyFloat64Slice(n.t),
		bias:             n.bias,
		tBias:            n.tBias,
		adamAvgMomBias:   n.adamAvgMomBias,
		adamAvgVelBias:   n.adamAvgVelBias,
		mirrorBias:       n.mirrorBias,
	}
''','''	c := *n
	c.cowId = cowId
	c.weights = copyFloat64Slice(n.weights)
	c.mirrorWeights = copyFloat64Slice(n.mirrorWeights)
	c.adamAvgMom = copyFloat64Slice(n.adamAvgMom)
	c.adamAvgVel = copyFloat64Slice(n.adamAvgVel)
	c.t = copyFloat64Slice(n.t)
	return &c
'''))
R('node-copy-append',N,("	newS := make([]float64, len(s))\n	copy(newS, s)\n	return newS\n","	return append(make([]float64, 0, len(s)), s...)\n"))
R('node-contains-loop',N,("	for _, v := range slice {\n		if v == value {\n			return true\n		}\n	}\n	return false\n","	found := false\n	for i := 0; i < len(slice) && !found; i++ {\n		found = slice[i] == value\n	}\n	return found\n"))
Y='layer/layer.go'
R('sm-range-index',Y,("""	for i, pair := range nextLayerActiveNodes {
		var value float64
		value, nodes[pair.Index] =
			nodes[pair.Index].GetActivation(
				cowId, currentLayerActiveNodes, inputId,
			)
		nextLayerActiveNodes[i].Value = value
		if l.nodeType == node.Softmax && value > maxValue {
			maxValue = value
		}
	}
""","""	for i := 0; i < len(nextLayerActiveNodes); i++ {
		id := nextLayerActiveNodes[i].Index
		value, nd := nodes[id].GetActivation(cowId, currentLayerActiveNodes, inputId)
		nodes[id] = nd
		nextLayerActiveNodes[i].Value = value
		if l.nodeType == node.Softmax {
			maxValue = math.Max(maxValue, value)
		}
	}
"""))
R('sm-helper',Y,("""	if l.nodeType == node.Softmax {
		for i, pair := range nextLayerActiveNodes {
			realActivation := math.Exp(pair.Value - maxValue)
			nextLayerActiveNodes[i].Value = realActivation
			nodes[pair.Index] = nodes[pair.Index].SetlastActivation(
				cowId, inputId, realActivation,
			)
			l.normalizationConstants[inputId] += realActivation
		}
	}

	return in, l
}
""","""	if l.nodeType == node.Softmax {
		l.normalizationConstants[inputId] = l.softmax(cowId, nextLayerActiveNodes, inputId, maxValue)
	}

	return in, l
}

func (l *Layer) softmax(cowId int, actives []index_value.Pair, inputId int, maxValue float64) float64 {
	sum := 0.0
	for i := range actives {
		p := &actives[i]
		p.Value = math.Exp(p.Value - maxValue)
		l.nodes[p.Index] = l.nodes[p.Index].SetlastActivation(cowId, inputId, p.Value)
		sum += p.Value
	}
	return sum
}
"""))
R('hash-helper',Y,("""			var hashes []int = nil

			switch configuration.Global.HashFunction {
			case configuration.WtaHashFunction:
				hashes = l.wtaHasher.GetHash(currentLayerActiveNodes)

			case configuration.DensifiedWtaHashFunction:
				hashes = l.dwtaHasher.GetHash(currentLayerActiveNodes)

			case configuration.DensifiedMinhashFunction:
				hashes = l.minHasher.GetHashEasy(
					l.binIds, currentLayerActiveNodes, topK)

			case configuration.SparseRandomProjectionHashFunction:
				hashes = l.srp.GetHashSparse(currentLayerActiveNodes)

			default:
				panic(fmt.Sprintf("Unexpected hash function %d.",
					configuration.Global.HashFunction))
			}

			hashIndices := l.hashTables.HashesToIndex(hashes)
			actives := l.hashTables.RetrieveRaw(hashIndices)

			// Get candidates from hashtable

			// TODO""","""			actives := l.candidates(currentLayerActiveNodes)

			// TODO"""),("""			// TODO: duplicate from above
			var hashes []int = nil

			switch configuration.Global.HashFunction {
			case configuration.WtaHashFunction:
				hashes = l.wtaHasher.GetHash(currentLayerActiveNodes)

			case configuration.DensifiedWtaHashFunction:
				hashes = l.dwtaHasher.GetHash(currentLayerActiveNodes)

			case configuration.DensifiedMinhashFunction:
				hashes = l.minHasher.GetHashEasy(
					l.binIds, currentLayerActiveNodes, topK)

			case configuration.SparseRandomProjectionHashFunction:
				hashes = l.srp.GetHashSparse(currentLayerActiveNodes)

			default:
				panic(fmt.Sprintf("Unexpected hash function %d.",
					configuration.Global.HashFunction))
			}

			hashIndices := l.hashTables.HashesToIndex(hashes)
			actives := l.hashTables.RetrieveRaw(hashIndices)

""","""			actives := l.candidates(currentLayerActiveNodes)

"""),("""func (l *Layer) ClearHashTables() {
""","""func (l *Layer) candidates(in []index_value.Pair) [][]int {
	var hashes []int
	switch h := configuration.Global.HashFunction; h {
	case configuration.WtaHashFunction:
		hashes = l.wtaHasher.GetHash(in)
	case configuration.DensifiedWtaHashFunction:
		hashes = l.dwtaHasher.GetHash(in)
	case configuration.DensifiedMinhashFunction:
		hashes = l.minHasher.GetHashEasy(l.binIds, in, topK)
	case configuration.SparseRandomProjectionHashFunction:
		hashes = l.srp.GetHashSparse(in)
	default:
		panic(fmt.Sprintf("Unexpected hash function %d.", h))
	}
	return l.hashTables.RetrieveRaw(l.hashTables.HashesToIndex(hashes))
}

func (l *Layer) ClearHashTables() {
"""))
R('mode4-count-helper',Y,("""			i := 0
			for index, value := range counts {
				if value >= 0 {
					newActiveNodes[i].Index = index
					i++
				}
			}
			activeNodesPerLayer[layerIndex+1] = newActiveNodes
""","""			pos := 0
			for index := 0; index < len(counts); index++ {
				if counts[index] < 0 {
					continue
				}
				newActiveNodes[pos] = index_value.Pair{Index: index}
				pos++
			}
			activeNodesPerLayer[layerIndex+1] = newActiveNodes
"""))
R('mode4-append',Y,("""			newActiveNodes := make([]index_value.Pair, length)

			// copy map into new array
			i := 0
			for index, value := range counts {
				if value >= 0 {
					newActiveNodes[i].Index = index
					i++
				}
			}
""","""			newActiveNodes := make([]index_value.Pair, 0, length)

			// copy map into new array
			for index, value := range counts {
				if value >= 0 {
					newActiveNodes = append(newActiveNodes, index_value.Pair{Index: index})
				}
			}
"""))
R('mode1-direct',Y,("""			length = len(vect)
			activeNodesPerLayer[layerIndex+1] = make([]index_value.Pair, length)
			copy(activeNodesPerLayer[layerIndex+1], vect)
			in = length
""","""			activeNodesPerLayer[layerIndex+1] = vect
			in = len(vect)
"""))
R('mode2-helper',Y,("""				for _, labelValue := range label {
					if !bs[labelValue] {
						newActiveNodes = append(
							newActiveNodes, index_value.Pair{Index: labelValue})
						bs[labelValue] = true
					}
				}
				for len(newActiveNodes) < length {
					v := rand.Intn(len(l.nodes))
					if !bs[v] {
						newActiveNodes = append(
							newActiveNodes, index_value.Pair{Index: v})
						bs[v] = true
					}
				}
""","""				pick := func(v int) {
					if bs[v] {
						return
					}
					bs[v] = true
					newActiveNodes = append(newActiveNodes, index_value.Pair{Index: v})
				}
				for i := range label {
					pick(label[i])
				}
				for len(newActiveNodes) < length {
					pick(rand.Intn(len(l.nodes)))
				}
"""))
R('mode3-value-helper',Y,("""					if intSliceContains(label, s) {
						sortW = append(sortW, index_value.Pair{
							Index: s,
							Value: math.Inf(-1),
						})
						what++
					} else {
						sortW = append(sortW, index_value.Pair{
							Index: s,
							Value: -tmp,
						})
					}
""","""					rank := -tmp
					if intSliceContains(label, s) {
						rank = math.Inf(-1)
						what++
					}
					sortW = append(sortW, index_value.Pair{Index: s, Value: rank})
"""),("""				for i, sw := range sortW[:length] {
					activeNodesPerLayer[layerIndex+1][i].Index = sw.Index
""","""				for i := 0; i < length; i++ {
					sw := sortW[i]
					activeNodesPerLayer[layerIndex+1][i].Index = sw.Index
"""))
R('layer-update-table-shared',Y,("""	switch configuration.Global.HashFunction {
	case configuration.WtaHashFunction:
		l.wtaHasher = wta_hash.New(l.k*l.l, l.previousLayerNumOfNodes)

	case configuration.DensifiedWtaHashFunction:
		l.binIds = make([]int, l.previousLayerNumOfNodes)
		l.dwtaHasher =
			densified_wta_hash.New(l.k*l.l, l.previousLayerNumOfNodes)

	case configuration.DensifiedMinhashFunction:
		l.minHasher = densified_minhash.New(l.k*l.l, l.previousLayerNumOfNodes)
		l.binIds = l.minHasher.GetMap(l.previousLayerNumOfNodes)

	case configuration.SparseRandomProjectionHashFunction:
		l.srp = sparse_random_projection.New(
			l.previousLayerNumOfNodes, l.k*l.l, srpRatio)

	default:
		panic(fmt.Sprintf("Unexpected hash function %d.",
			configuration.Global.HashFunction))
	}

	return l
}
""","""	l.buildHasher()
	return l
}

func (l *Layer) buildHasher() {
	n, dim := l.l*l.k, l.previousLayerNumOfNodes
	switch configuration.Global.HashFunction {
	case configuration.WtaHashFunction:
		l.wtaHasher = wta_hash.New(n, dim)
	case configuration.DensifiedWtaHashFunction:
		l.dwtaHasher = densified_wta_hash.New(n, dim)
	case configuration.DensifiedMinhashFunction:
		l.minHasher = densified_minhash.New(n, dim)
		l.binIds = l.minHasher.GetMap(dim)
	case configuration.SparseRandomProjectionHashFunction:
		l.srp = sparse_random_projection.New(dim, n, srpRatio)
	default:
		panic(fmt.Sprintf("Unexpected hash function %d.",
			configuration.Global.HashFunction))
	}
}
"""))
W='network/network.go'
ADAM='''				dim := tmp.AdamTDim()
				for d := 0; d < dim; d++ {
					t := tmp.GetT(d)
					mom := tmp.GetAdamAvgMom(d)
					vel := tmp.GetAdamAvgVel(d)

					mom = beta1*mom + (1-beta1)*t
					vel = beta2*vel + (1-beta2)*t*t

					// Direclty modify the weight (by reference)
					curWeights[d] += ratio * tmpLr * mom / (math.Sqrt(vel) + eps)
					tmp = tmp.SetAdamAvgMom(cowId, d, mom)
					tmp = tmp.SetAdamAvgVel(cowId, d, vel)
					tmp = tmp.SetT(cowId, d, 0)
				}

				tmp = tmp.SetAdamAvgMomBias(cowId,
					beta1*tmp.GetAdamAvgMomBias()+(1-beta1)*tmp.GetTBias())
				tmp = tmp.SetAdamAvgVelBias(cowId,
					beta2*tmp.GetAdamAvgVelBias()+(1-beta2)*tmp.GetTBias()*tmp.GetTBias())
				tmp = tmp.SetBias(cowId,
					tmp.GetBias()+ratio*tmpLr*tmp.GetAdamAvgMomBias()/(math.Sqrt(tmp.GetAdamAvgVelBias())+eps))
				tmp = tmp.SetTBias(cowId, 0)
'''
R('adam-helper',W,(ADAM,'''				tmp = adamUpdate(tmp, cowId, tmpLr)
'''),('''func (n *Network) cloneIfNeeded(''','''func adamUpdate(nd *node.Node, cowId int, rate float64) *node.Node {
	weights := nd.Weights()
	for d := range weights {
		g := nd.GetT(d)
		mom := beta1*nd.GetAdamAvgMom(d) + (1-beta1)*g
		vel := beta2*nd.GetAdamAvgVel(d) + (1-beta2)*g*g
		nd = nd.SetAdamAvgMom(cowId, d, mom).SetAdamAvgVel(cowId, d, vel).SetT(cowId, d, 0)
		weights[d] += rate * mom / (math.Sqrt(vel) + eps)
	}
	g := nd.GetTBias()
	mom := beta1*nd.GetAdamAvgMomBias() + (1-beta1)*g
	vel := beta2*nd.GetAdamAvgVelBias() + (1-beta2)*g*g
	nd = nd.SetAdamAvgMomBias(cowId, mom)
	nd = nd.SetAdamAvgVelBias(cowId, vel)
	nd = nd.SetTBias(cowId, 0)
	return nd.SetBias(cowId, nd.GetBias()+rate*mom/(math.Sqrt(vel)+eps))
}

func (n *Network) cloneIfNeeded('''))
R('net-update-helper',W,('''	for layerIndex, layer := range hiddenLayers {
		curLayerSparsity''','''	for layerIndex := range hiddenLayers {
		layer := hiddenLayers[layerIndex]
		curLayerSparsity'''),('''		tmpRehash := (rehash || rebuild) && curLayerSparsity < 1.0
		tmpRebuild := rebuild && curLayerSparsity < 1.0
''','''		sparse := curLayerSparsity < 1.0
		tmpRebuild := sparse && rebuild
		tmpRehash := tmpRebuild || (sparse && rehash)
'''),('''			tmp := layer.GetNodeById(m)
			curWeights''','''			tmp := layer.GetAllNodes()[m]
			curWeights'''))
R('net-bp-split',W,('''			// nodes
			for _, pair := range nextLayerActiveNodes {
				node := layer.GetNodeById(pair.Index)
				if layerIndex == n.numberOfLayers-1 {
					//TODO: Compute Extra stats: labels[i];
					// FIXME: we should reassign the cow-ed node into the layer
					node.ComputeExtaStatsForSoftMax(
						cowId,
						layer.GetNomalizationConstant(i),
						i,
						example.Labels,
					)
				}
''','''			isLast := layerIndex+1 == n.numberOfLayers
			if isLast {
				for _, pair := range nextLayerActiveNodes {
					layer.GetNodeById(pair.Index).ComputeExtaStatsForSoftMax(cowId, layer.GetNomalizationConstant(i), i, example.Labels)
				}
			}
			// nodes
			for j := range nextLayerActiveNodes {
				node := layer.GetNodeById(nextLayerActiveNodes[j].Index)
'''))
R('net-bp-helper',W,('''		// Backpropagation
		for layerIndex := n.numberOfLayers - 1; layerIndex >= 0; layerIndex-- {
			layer := hiddenLayers[layerIndex]
			curLayerActiveNodes := activeNodesPerLayer[layerIndex]
			nextLayerActiveNodes := activeNodesPerLayer[layerIndex+1]

			// nodes
			for _, pair := range nextLayerActiveNodes {
				node := layer.GetNodeById(pair.Index)
				if layerIndex == n.numberOfLayers-1 {
					//TODO: Compute Extra stats: labels[i];
					// FIXME: we should reassign the cow-ed node into the layer
					node.ComputeExtaStatsForSoftMax(
						cowId,
						layer.GetNomalizationConstant(i),
						i,
						example.Labels,
					)
				}
				if layerIndex != 0 {
					prevLayer := hiddenLayers[layerIndex-1]
					// FIXME: we should reassign the cow-ed node into the layer
					allNodes := prevLayer.GetAllNodes()
					node.BackPropagate(
						cowId,
						&allNodes, // FIXME: problematic...
						curLayerActiveNodes,
						tmpLr,
						i,
					)
				} else {
					// FIXME: we should reassign the cow-ed node into the layer
					node.BackPropagateFirstLayer(
						cowId,
						example.Features,
						tmpLr,
						i,
					)
				}
			}
		}
	}
''','''		n.backward(cowId, i, example, activeNodesPerLayer, tmpLr)
	}
'''),('''func (n *Network) cloneIfNeeded(''','''func (n *Network) backward(cowId, i int, example dataset.Example, actives [][]index_value.Pair, rate float64) {
	last := len(n.hiddenLayers) - 1
	for j := last; j > 0; j-- {
		layer := n.hiddenLayers[j]
		below := n.hiddenLayers[j-1].GetAllNodes()
		for _, pair := range actives[j+1] {
			nd := layer.GetNodeById(pair.Index)
			if j == last {
				nd.ComputeExtaStatsForSoftMax(cowId, layer.GetNomalizationConstant(i), i, example.Labels)
			}
			nd.BackPropagate(cowId, &below, actives[j], rate, i)
		}
	}
	layer := n.hiddenLayers[0]
	for _, pair := range actives[1] {
		nd := layer.GetNodeById(pair.Index)
		if last == 0 {
			nd.ComputeExtaStatsForSoftMax(cowId, layer.GetNomalizationConstant(i), i, example.Labels)
		}
		nd.BackPropagateFirstLayer(cowId, example.Features, rate, i)
	}
}

func (n *Network) cloneIfNeeded('''))
R('net-predict-helper',W,('''		//compute softmax
		var maxAct float64
		var predictClass int
		for pairIndex, pair := range activeNodesPerLayer[n.numberOfLayers] {
			act := lastHiddenLayer.GetNodeById(pair.Index).GetLastActivation(i)
			if maxAct < act || pairIndex == 0 {
				maxAct = act
				predictClass = pair.Index
			}
		}

		if intSliceContains(example.Labels, predictClass) {
			correctPred++
		}
''','''		if intSliceContains(example.Labels, mostActive(lastHiddenLayer, activeNodesPerLayer[n.numberOfLayers], i)) {
			correctPred++
		}
'''),('''func (n *Network) cloneIfNeeded(''','''func mostActive(l *layer.Layer, actives []index_value.Pair, slot int) int {
	best, class := 0.0, 0
	for j := 0; j < len(actives); j++ {
		act := l.GetNodeById(actives[j].Index).GetLastActivation(slot)
		if j == 0 || act > best {
			best, class = act, actives[j].Index
		}
	}
	return class
}

func (n *Network) cloneIfNeeded('''))
R('pred-best-position',W,('''		var maxAct float64
		var predictClass int
		for pairIndex, pair := range activeNodesPerLayer[n.numberOfLayers] {
			act := lastHiddenLayer.GetNodeById(pair.Index).GetLastActivation(i)
			if maxAct < act || pairIndex == 0 {
				maxAct = act
				predictClass = pair.Index
			}
		}
''','''		outputs := activeNodesPerLayer[n.numberOfLayers]
		best := 0
		maxAct := 0.0
		for pairIndex := range outputs {
			act := lastHiddenLayer.GetNodeById(outputs[pairIndex].Index).GetLastActivation(i)
			if pairIndex == 0 || act > maxAct {
				best, maxAct = pairIndex, act
			}
		}
		predictClass := 0
		if len(outputs) > 0 {
			predictClass = outputs[best].Index
		}
'''))
R('pred-inf-init',W,('''		var maxAct float64
''','''		maxAct := math.Inf(-1)
'''),("			if maxAct < act || pairIndex == 0 {","			if maxAct < act {"),("for pairIndex, pair := range activeNodesPerLayer[n","for _, pair := range activeNodesPerLayer[n"))
R('pred-class-helper',W,('''		var maxAct float64
		var predictClass int
		for pairIndex, pair := range activeNodesPerLayer[n.numberOfLayers] {
			act := lastHiddenLayer.GetNodeById(pair.Index).GetLastActivation(i)
			if maxAct < act || pairIndex == 0 {
				maxAct = act
				predictClass = pair.Index
			}
		}
''','''		predictClass := mostActive(lastHiddenLayer, activeNodesPerLayer[n.numberOfLayers], i)
'''),('func intSliceContains(','''func mostActive(l *layer.Layer, active []index_value.Pair, i int) int {
	if len(active) == 0 {
		return 0
	}
	class := active[0].Index
	max := l.GetNodeById(class).GetLastActivation(i)
	for _, pair := range active[1:] {
		act := l.GetNodeById(pair.Index).GetLastActivation(i)
		if act > max {
			max = act
			class = pair.Index
		}
	}
	return class
}

func intSliceContains('''))
R('pred-found-flag',W,('''			if maxAct < act || pairIndex == 0 {
				maxAct = act
				predictClass = pair.Index
			}
''','''			if !found || act > maxAct {
				found = true
				maxAct = act
				predictClass = pair.Index
			}
'''),('''		var predictClass int
''','''		var predictClass int
		found := false
'''),("for pairIndex, pair := range activeNodesPerLayer[n","for _, pair := range activeNodesPerLayer[n"))
R('pred-count-loop',W,('''		if intSliceContains(example.Labels, predictClass) {
			correctPred++
		}
''','''		hit := 0
		for _, label := range example.Labels {
			if label == predictClass {
				hit = 1
				break
			}
		}
		correctPred += hit
'''))
WT='wta_hash/wta_hash.go'; DW='densified_wta_hash/densified_wta_hash.go'; MH='densified_minhash/densified_minhash.go'; SR='sparse_random_projection/sparse_random_projection.go'; PQ='densified_minhash/index_value_pairs.go'
R('wta-best-local',WT,("		iOffset := i * binSize\n\n		for j := 0; j < binSize; j++ {\n			jOffset := iOffset + j\n\n			curIndex := wh.indices[jOffset]\n			if value := data[curIndex]; values[i] < value {\n				hashes[i] = curIndex\n				values[i] = value\n			}\n		}\n","		hashes[i] = wh.winner(data, i*binSize)\n"),("	values := make([]float64, wh.numHashes)\n\n	for i := 0; i < wh.numHashes; i++ {\n		hashes[i] = math.MinInt64\n		values[i] = math.MinInt64\n	}\n",""),("func (wh *WtaHash) GetHashDense(","func (wh *WtaHash) winner(data []float64, offset int) int {\n	best, bestValue := math.MinInt64, float64(math.MinInt64)\n	for j := offset; j < offset+binSize; j++ {\n		if value := data[wh.indices[j]]; value > bestValue {\n			best, bestValue = wh.indices[j], value\n		}\n	}\n	return best\n}\n\nfunc (wh *WtaHash) GetHashDense("))
R('wta-bin-slice',WT,("		iOffset := i * binSize\n\n		for j := 0; j < binSize; j++ {\n			jOffset := iOffset + j\n\n			curIndex := wh.indices[jOffset]\n","		bin := wh.indices[i*binSize : (i+1)*binSize]\n		for _, curIndex := range bin {\n"))
R('wta-scatter-helper',WT,("	dense := make([]float64, wh.rangePow)\n	for _, pair := range data {\n		dense[pair.Index] = pair.Value\n	}\n\n	return wh.GetHashDense(dense)\n}","	return wh.GetHashDense(densify(data, wh.rangePow))\n}\n\nfunc densify(data []index_value.Pair, n int) []float64 {\n	dense := make([]float64, n)\n	for i := 0; i < len(data); i++ {\n		p := data[i]\n		dense[p.Index] = p.Value\n	}\n	return dense\n}"))
R('wta-merge-init',WT,("	for i := 0; i < wh.numHashes; i++ {\n		hashes[i] = math.MinInt64\n		values[i] = math.MinInt64\n	}\n\n	for i := 0; i < wh.numHashes; i++ {\n","	for i := range hashes {\n		hashes[i] = math.MinInt64\n		values[i] = math.MinInt64\n"))
R('wta-new-inplace',WT,("		firstIndex := p * numOfBitsToHash\n		lastIndex := firstIndex + numOfBitsToHash\n		copy(indices[firstIndex:lastIndex], nArray)\n","		for j, coordinate := range nArray {\n			indices[p*numOfBitsToHash+j] = coordinate\n		}\n"))
R('wta-new-helper',WT,("	permute := int(math.Ceil(\n		float64(numHashes) * float64(binSize) / float64(numOfBitsToHash)))\n	nArray := make([]int, numOfBitsToHash)\n","	permute := numPermutations(numHashes, numOfBitsToHash)\n	nArray := identity(numOfBitsToHash)\n"),("	for i := range nArray {\n		nArray[i] = i\n	}\n\n",""),("func New(","func numPermutations(numHashes, n int) int {\n	return int(math.Ceil(float64(numHashes*binSize) / float64(n)))\n}\n\nfunc identity(n int) []int {\n	a := make([]int, n)\n	for i := 0; i < n; i++ {\n		a[i] = i\n	}\n	return a\n}\n\nfunc New("))
R('dwta-item-pointer',DW,("			if binId < dw.numHashes &&\n				(!items[binId].init || items[binId].value < pair.Value) {\n				items[binId].init = true\n				items[binId].value = pair.Value\n				items[binId].hash = dw.pos[innerIndex]\n			}\n","			if binId >= dw.numHashes {\n				continue\n			}\n			if it := &items[binId]; !it.init || pair.Value > it.value {\n				it.init, it.value, it.hash = true, pair.Value, dw.pos[innerIndex]\n			}\n"))
R('dwta-item-struct',DW,("				items[binId].init = true\n				items[binId].value = pair.Value\n				items[binId].hash = dw.pos[innerIndex]\n","				items[binId] = item{dw.pos[innerIndex], pair.Value, true}\n"))
R('dwta-fill-helper',DW,("		for count := 1; next == math.MinInt64; count++ {\n			index := minInt(dw.GetRandDoubleHash(i, count), dw.numHashes-1)\n			next = hashes[index] // Kills GPU.\n\n			if count > 100 { // Densification failure.\n				next = 0 // FIXME: can we do better than that?\n				break\n			}\n		}\n\n		hashArray[i] = next\n	}\n\n	return hashArray\n}\n","		hashArray[i] = dw.fill(hashes, i)\n	}\n\n	return hashArray\n}\n\nfunc (dw *DensifiedWtaHash) fill(hashes []int, i int) int {\n	for count := 1; count <= 100; count++ {\n		index := minInt(dw.GetRandDoubleHash(i, count), dw.numHashes-1)\n		if hashes[index] != math.MinInt64 {\n			return hashes[index]\n		}\n	}\n	return 0\n}\n"))
R('dwta-slot',DW,("			indices[p*numOfBitsToHash+value] = (p*numOfBitsToHash + j) / binSize\n			pos[p*numOfBitsToHash+value] = (p*numOfBitsToHash + j) % binSize\n","			slot := p*numOfBitsToHash + j\n			at := p*numOfBitsToHash + value\n			indices[at], pos[at] = slot/binSize, slot%binSize\n"))
R('dwta-rows',DW,("	for p := 0; p < dw.permute; p++ {\n		binIndex := p * dw.rangePow\n		for i, dataValue := range data {\n			innerIndex := binIndex + i\n			binId := dw.indices[innerIndex]\n			if binId < dw.numHashes && values[binId] < dataValue {\n				values[binId] = dataValue\n				hashes[binId] = dw.pos[innerIndex]\n			}\n","	for p := 0; p < dw.permute; p++ {\n		first := p * dw.rangePow\n		bins, positions := dw.indices[first:], dw.pos[first:]\n		for i := 0; i < len(data); i++ {\n			if b := bins[i]; b < dw.numHashes && data[i] > values[b] {\n				values[b] = data[i]\n				hashes[b] = positions[i]\n			}\n"))
R('dwta-probe-locals',DW,("	toHash := ((uint32(binId) + 1) << 6) + uint32(count)\n	return int((uint32(dw.randHash[0]) * toHash << 3) >> (32 - dw.logNumHash))","	key := uint32(binId)<<6 + 64 + uint32(count)\n	mixed := uint32(dw.randHash[0]) * key * 8\n	return int(mixed >> uint(32-dw.logNumHash))"))
R('minhash-topk-helper',MH,("	topK = minInt(topK, len(data))\n	pq := make(indexValuePriorityQueue, topK, topK+1)\n	for index, value := range data[0:topK] {\n		pq[index] = indexValuePair{value.Index, value.Value}\n	}\n	heap.Init(&pq)\n\n	dataLen := len(data)\n	for index := topK; index < dataLen; index++ {\n		heap.Push(&pq, indexValuePair{data[index].Index, data[index].Value})\n		heap.Pop(&pq)\n	}\n","	topK = minInt(topK, len(data))\n	pq := make(indexValuePriorityQueue, topK, topK+1)\n	for i := 0; i < topK; i++ {\n		pq[i].index, pq[i].value = data[i].Index, data[i].Value\n	}\n	heap.Init(&pq)\n\n	for _, pair := range data[topK:] {\n		heap.Push(&pq, indexValuePair{index: pair.Index, value: pair.Value})\n		heap.Pop(&pq)\n	}\n"))
R('minhash-densify-helper',MH,("	for i := range data {\n		binId := binIds[indices[i]]\n		if hashes[binId] < indices[i] {\n			hashes[binId] = indices[i]\n		}\n	}\n\n	for i, next := range hashes {\n		if next != math.MinInt64 {\n			hashArray[i] = next\n			continue\n		}\n\n		for count := 1; next == math.MinInt64; count++ {\n			index := minInt(dm.GetRandDoubleHash(i, count), dm.numHashes-1)\n			next = hashes[index] // Kills GPU.\n\n			if count > 100 { // Densification failure.\n				break\n			}\n		}\n\n		hashArray[i] = next\n	}\n\n	return hashArray\n}\n","	for i := range data {\n		index := indices[i]\n		if b := binIds[index]; index > hashes[b] {\n			hashes[b] = index\n		}\n	}\n\n	for i, next := range hashes {\n		for count := 1; count <= 101 && next == math.MinInt64; count++ {\n			next = hashes[minInt(dm.GetRandDoubleHash(i, count), dm.numHashes-1)]\n		}\n		hashArray[i] = next\n	}\n\n	return hashArray\n}\n"))
R('minhash-map-locals',MH,("		curHash := mh.Sum64()\n\n		curHash = curHash & ((1 << rangePow) - 1)\n		binIds[i] = int(math.Floor(float64(curHash) / float64(binSize)))\n","		binIds[i] = int(mh.Sum64()%uint64(rng)) / binSize\n"))
R('minhash-pq-pop',PQ,("	n := len(*p)\n	*p, x = (*p)[0:n-1], (*p)[n-1]\n	return\n","	old := *p\n	last := len(old) - 1\n	x = old[last]\n	*p = old[:last]\n	return x\n"))
R('srp-sum-helper',SR,("		s := 0.0\n		for j, rb := range srp.randBits[i] {\n			v := vector[srp.indices[i][j]]\n			if rb {\n				s += v\n			} else {\n				s -= v\n			}\n		}\n\n		if s >= 0 {\n			hashes[i] = 0\n		} else {\n			hashes[i] = 1\n		}\n","		if srp.project(i, vector) < 0 {\n			hashes[i] = 1\n		}\n"),("func (srp *SparseRandomProjection) GetHashSparse(","func (srp *SparseRandomProjection) project(i int, vector []float64) (s float64) {\n	bits := srp.randBits[i]\n	for j, coordinate := range srp.indices[i] {\n		if v := vector[coordinate]; bits[j] {\n			s += v\n		} else {\n			s -= v\n		}\n	}\n	return s\n}\n\nfunc (srp *SparseRandomProjection) GetHashSparse("))
R('srp-new-sample',SR,("		randBits[i] = make([]bool, samSize)\n		indices[i] = make([]int, samSize)\n\n		for j := 0; j < samSize; j++ {\n			indices[i][j] = a[j]\n			randBits[i][j] = rand.Int()%2 == 0\n		}\n\n		sort.Ints(indices[i])\n","		sample := make([]int, samSize)\n		copy(sample, a[:samSize])\n		sort.Ints(sample)\n		indices[i] = sample\n\n		signs := make([]bool, samSize)\n		for j := range signs {\n			signs[j] = rand.Int()%2 == 0\n		}\n		randBits[i] = signs\n"))
R('srp-new-ceil',SR,("	samSize := int(math.Ceil(float64(dimension) / float64(ratio)))\n","	samSize := (dimension + ratio - 1) / ratio\n"),('	"math"\n',''))
R('srp-new-append',SR,("	randBits := make([][]bool, numOfHashes)\n	indices := make([][]int, numOfHashes)\n","	randBits := make([][]bool, 0, numOfHashes)\n	indices := make([][]int, 0, numOfHashes)\n"),("		randBits[i] = make([]bool, samSize)\n		indices[i] = make([]int, samSize)\n\n		for j := 0; j < samSize; j++ {\n			indices[i][j] = a[j]\n			randBits[i][j] = rand.Int()%2 == 0\n		}\n\n		sort.Ints(indices[i])\n","		bits := make([]bool, samSize)\n		sample := make([]int, samSize)\n		for j := range sample {\n			sample[j] = a[j]\n			bits[j] = rand.Intn(2) == 1\n		}\n		sort.Ints(sample)\n		randBits = append(randBits, bits)\n		indices = append(indices, sample)\n"))

X='dataset/xcrepo/xcrepo.go'; Y='layer/layer.go'; W='network/network.go'; M='goslide.go'; CF='configuration/configuration.go'
R('scan-guard-split',X,("	if ok := s.bufScanner.Scan(); !ok || s.bufScanner.Err() != nil {\n		return false\n	}\n","	if !s.bufScanner.Scan() {\n		return false\n	}\n	if s.bufScanner.Err() != nil {\n		return false\n	}\n"))
R('scan-values-locals',X,("	if ok := s.parseLabels(values[0]); !ok {\n		return false\n	}\n	if ok := s.parseFeatures(values[1:len(values)]); !ok {\n		return false\n	}\n\n	return true\n","	labels, features := values[0], values[1:]\n	return s.parseLabels(labels) && s.parseFeatures(features)\n"))
R('scan-labels-local',X,("	s.example.Labels = make([]int, len(labels))\n\n	for i, value","	parsed := make([]int, len(labels))\n\n	for i, value"),("		s.example.Labels[i] = label\n	}\n	return true\n","		parsed[i] = label\n	}\n	s.example.Labels = parsed\n	return true\n"))
R('scan-labels-append',X,("	s.example.Labels = make([]int, len(labels))\n\n	for i, value","	s.example.Labels = make([]int, 0, len(labels))\n\n	for _, value"),("		s.example.Labels[i] = label\n","		s.example.Labels = append(s.example.Labels, label)\n"))
R('scan-feature-helper',X,("		splitPair := strings.Split(pair, \":\")\n		if len(splitPair) != 2 {\n			s.err = ErrMalformedFeatures\n			return false\n		}\n\n		featureIndex, err := strconv.Atoi(splitPair[0])\n		if err != nil {\n			s.err = ErrMalformedFeatures\n			return false\n		}\n		if featureIndex < 0 || featureIndex >= s.NumFeatures() {\n			s.err = ErrFeatureIndexOutOfBounds\n			return false\n		}\n\n		featureValue, err := strconv.ParseFloat(splitPair[1], 64)\n		if err != nil {\n			s.err = ErrMalformedFeatures\n			return false\n		}\n\n		s.example.Features[i] = index_value.Pair{\n			Index: featureIndex,\n			Value: featureValue,\n		}\n	}\n\n	return true\n}\n",
"		feature, err := s.parseFeature(pair)\n		if err != nil {\n			s.err = err\n			return false\n		}\n		s.example.Features[i] = feature\n	}\n\n	return true\n}\n\nfunc (s *Scanner) parseFeature(pair string) (p index_value.Pair, err error) {\n	splitPair := strings.Split(pair, \":\")\n	if len(splitPair) != 2 {\n		return p, ErrMalformedFeatures\n	}\n	if p.Index, err = strconv.Atoi(splitPair[0]); err != nil {\n		return p, ErrMalformedFeatures\n	}\n	if p.Index < 0 || p.Index >= s.numFeatures {\n		return p, ErrFeatureIndexOutOfBounds\n	}\n	if p.Value, err = strconv.ParseFloat(splitPair[1], 64); err != nil {\n		return p, ErrMalformedFeatures\n	}\n	return p, nil\n}\n"))
R('scan-feature-order',X,("		featureValue, err := strconv.ParseFloat(splitPair[1], 64)\n		if err != nil {\n			s.err = ErrMalformedFeatures\n			return false\n		}\n\n		s.example","		s.example"),("		featureIndex, err := strconv.Atoi(splitPair[0])\n","		featureValue, err := strconv.ParseFloat(splitPair[1], 64)\n		if err != nil {\n			s.err = ErrMalformedFeatures\n			return false\n		}\n\n		featureIndex, err := strconv.Atoi(splitPair[0])\n"))
R('scan-fail-helper',X,("		label, err := strconv.Atoi(value)\n		if err != nil {\n			s.err = ErrMalformedLabels\n			return false\n		}\n		if label < 0 || label >= s.numLabels {\n			s.err = ErrLabelOutOfBounds\n			return false\n		}\n","		label, err := strconv.Atoi(value)\n		if err != nil {\n			return s.fail(ErrMalformedLabels)\n		}\n		if label < 0 || label >= s.numLabels {\n			return s.fail(ErrLabelOutOfBounds)\n		}\n"),("func (s *Scanner) scanHeader() {","func (s *Scanner) fail(err error) bool {\n	s.err = err\n	return false\n}\n\nfunc (s *Scanner) scanHeader() {"))
R('scan-header-fields',X,("	var ints [3]int\n	for i, value := range values {\n		var err error\n		ints[i], err = strconv.Atoi(value)\n		if err != nil || ints[i] <= 0 {\n			s.err = ErrMalformedHeader\n			return\n		}\n	}\n\n	s.totalPoints = ints[0]\n	s.numFeatures = ints[1]\n	s.numLabels = ints[2]\n","	for i, field := range []*int{&s.totalPoints, &s.numFeatures, &s.numLabels} {\n		n, err := strconv.Atoi(values[i])\n		if err != nil || n < 1 {\n			s.err = ErrMalformedHeader\n			return\n		}\n		*field = n\n	}\n"))
R('scan-header-slice',X,("	var ints [3]int\n","	ints := make([]int, len(values))\n"))
R('scan-next-line',X,("	if ok := s.bufScanner.Scan(); !ok || s.bufScanner.Err() != nil {\n		return false\n	}\n	s.lineNumber++\n	text := s.bufScanner.Text()\n\n	values := strings.Split(text, \" \")\n","	values, ok := s.nextLine()\n	if !ok {\n		return false\n	}\n"),("func (s *Scanner) parseLabels(","func (s *Scanner) nextLine() ([]string, bool) {\n	if !s.bufScanner.Scan() || s.bufScanner.Err() != nil {\n		return nil, false\n	}\n	s.lineNumber++\n	return strings.Split(s.bufScanner.Text(), \" \"), true\n}\n\nfunc (s *Scanner) parseLabels("))
R('main-examples-helper',M,("		examples = examples[:0]\n		for count := 0; count < config.BatchSize && scanner.Scan(); count++ {\n			examples = append(examples, scanner.Example())\n		}\n\n		if err := scanner.Err(); err != nil {\n			logger.Fatalf(\"Error at line %d. %v\", scanner.LineNumber(), err)\n		}\n\n		rehash","		examples = readBatch(scanner, examples[:0], config.BatchSize)\n\n		rehash"),("func maxInt(","func readBatch(\n	scanner *xcrepo.Scanner,\n	batch []dataset.Example,\n	size int,\n) []dataset.Example {\n	for len(batch) < size && scanner.Scan() {\n		batch = append(batch, scanner.Example())\n	}\n	if err := scanner.Err(); err != nil {\n		logger.Fatalf(\"Error at line %d. %v\", scanner.LineNumber(), err)\n	}\n	return batch\n}\n\nfunc maxInt("))
R('main-open-helper',M,("	file, err := os.Open(config.TrainData)\n	if err != nil {\n		logger.Fatal(err)\n	}\n	defer file.Close()\n\n	scanner := xcrepo.NewScanner(file)\n	if err := scanner.Err(); err != nil {\n		logger.Fatal(err)\n	}\n","	file, scanner := openDataset(config.TrainData)\n	defer file.Close()\n"),("	file, err := os.Open(config.TestData)\n	if err != nil {\n		logger.Fatal(err)\n	}\n	defer file.Close()\n\n	scanner := xcrepo.NewScanner(file)\n	if err := scanner.Err(); err != nil {\n		logger.Fatal(err)\n	}\n","	file, scanner := openDataset(config.TestData)\n	defer file.Close()\n"),("func maxInt(","func openDataset(name string) (*os.File, *xcrepo.Scanner) {\n	file, err := os.Open(name)\n	if err != nil {\n		logger.Fatal(err)\n	}\n	scanner := xcrepo.NewScanner(file)\n	if err := scanner.Err(); err != nil {\n		logger.Fatal(err)\n	}\n	return file, scanner\n}\n\nfunc maxInt("))
R('main-check-helper',M,("	file, err := os.Open(config.TrainData)\n	if err != nil {\n		logger.Fatal(err)\n	}\n	defer file.Close()\n\n	scanner := xcrepo.NewScanner(file)\n	if err := scanner.Err(); err != nil {\n		logger.Fatal(err)\n	}\n","	file, err := os.Open(config.TrainData)\n	must(err)\n	defer file.Close()\n\n	scanner := xcrepo.NewScanner(file)\n	must(scanner.Err())\n"),("func maxInt(","func must(err error) {\n	if err != nil {\n		logger.Fatal(err)\n	}\n}\n\nfunc maxInt("))
R('main-step-local',M,("	for i := 0; i < numBatches; i++ {\n		if i > 0 && (i+epoch*numBatches)%config.Stepsize == 0 {\n			evaluateSvm(cowId, 20, myNet, epoch*numBatches+i)\n		}\n","	for i := 0; i < numBatches; i++ {\n		step := epoch*numBatches + i\n		if i > 0 && step%config.Stepsize == 0 {\n			evaluateSvm(cowId, 20, myNet, step)\n		}\n"),("(epoch*numBatches+i)%rehashBatches == rehashBatches-1","step%rehashBatches == rehashBatches-1"),("(epoch*numBatches+i)%rebuildBatches == rebuildBatches-1","(step+1)%rebuildBatches == 0"),("			cowId, examples, epoch*numBatches+i, rehash, rebuild)","			cowId, examples, step, rehash, rebuild)"))
R('main-due-helper',M,("			rehashBatches := maxInt(config.Rehash/config.BatchSize, 1)\n			if (epoch*numBatches+i)%rehashBatches == rehashBatches-1 {\n				rehash = true\n			}\n			// TODO: probably there was an error in the original code (using rehash at right)\n			rebuildBatches := maxInt(config.Rebuild/config.BatchSize, 1)\n			if (epoch*numBatches+i)%rebuildBatches == rebuildBatches-1 {\n				rebuild = true\n			}\n","			rehash = due(epoch*numBatches+i, config.Rehash, config.BatchSize)\n			rebuild = due(epoch*numBatches+i, config.Rebuild, config.BatchSize)\n"),("func maxInt(","func due(step, interval, batchSize int) bool {\n	batches := maxInt(interval/batchSize, 1)\n	return step%batches == batches-1\n}\n\nfunc maxInt("))
R('main-mode-switch',M,("		if config.LayerMode == configuration.LayerMode1 || config.LayerMode == configuration.LayerMode4 {\n","		switch config.LayerMode {\n		case configuration.LayerMode1, configuration.LayerMode4:\n"))
R('main-fresh-batch',M,("	examples := make([]dataset.Example, 0, config.BatchSize)\n\n	for i := 0; i < numBatches; i++ {\n","	for i := 0; i < numBatches; i++ {\n"),("		examples = examples[:0]\n		for count := 0; count < config.BatchSize && scanner.Scan(); count++ {\n			examples = append(examples, scanner.Example())\n","		examples := make([]dataset.Example, 0, config.BatchSize)\n		for count := 0; count < config.BatchSize && scanner.Scan(); count++ {\n			examples = append(examples, scanner.Example())\n"))
R('main-return-net',M,("		trainSvmEpoch(cowId, numBatches, myNet, e)\n","		myNet = trainSvmEpoch(cowId, numBatches, myNet, e)\n"),("func trainSvmEpoch(cowId, numBatches int, myNet *network.Network, epoch int) {","func trainSvmEpoch(cowId, numBatches int, myNet *network.Network, epoch int) *network.Network {"),("		globalTime += endTime.Sub(startTime)\n	}\n}","		globalTime += endTime.Sub(startTime)\n	}\n\n	return myNet\n}"))
R('main-types-last',M,("	for i := 0; i < numLayers-1; i++ {\n		layersTypes[i] = node.ReLU\n	}\n	layersTypes[numLayers-1] = node.Softmax\n","	for i := range layersTypes {\n		if i == numLayers-1 {\n			layersTypes[i] = node.Softmax\n		} else {\n			layersTypes[i] = node.ReLU\n		}\n	}\n"))
R('main-eval-batches',M,("		if e == config.Epoch-1 {\n			evaluateSvm(cowId, numBatchesTest, myNet, (e+1)*numBatches)\n		} else {\n			evaluateSvm(cowId, 50, myNet, (e+1)*numBatches)\n		}\n","		batches := 50\n		if e == config.Epoch-1 {\n			batches = numBatchesTest\n		}\n		evaluateSvm(cowId, batches, myNet, (e+1)*numBatches)\n"))
R('main-profile-helper',M,("	if config.MemProfile {\n		f, err := os.Create(\"mem.prof\")\n		if err != nil {\n			logger.Fatal(err)\n		}\n		defer f.Close()\n		// Do not call `runtime.GC()` so that we can inspect\n		// the complete current memory status\n		if err := pprof.WriteHeapProfile(f); err != nil {\n			logger.Fatal(err)\n		}\n	}\n}\n","	if config.MemProfile {\n		writeHeapProfile(\"mem.prof\")\n	}\n}\n\nfunc writeHeapProfile(name string) {\n	f, err := os.Create(name)\n	if err != nil {\n		logger.Fatal(err)\n	}\n	defer f.Close()\n	// Do not call `runtime.GC()` so that we can inspect\n	// the complete current memory status\n	if err := pprof.WriteHeapProfile(f); err != nil {\n		logger.Fatal(err)\n	}\n}\n"))
R('main-config-return',M,("	configuration.Global = config\n}","	configuration.Global = config\n	logger.Println(\"Configuration\", configFilename)\n}"))
R('conf-open',CF,("	bytes, err := ioutil.ReadFile(jsonFilename)\n","	data, err := ioutil.ReadFile(jsonFilename)\n"),("	config := Default()\n	err = json.Unmarshal(bytes, config)\n	if err != nil {\n		return nil, err\n	}\n\n	return config, nil\n","	config := Default()\n	if err := json.Unmarshal(data, config); err != nil {\n		return nil, err\n	}\n\n	return config, nil\n"))
R('conf-decode-helper',CF,("	config := Default()\n	err = json.Unmarshal(bytes, config)\n	if err != nil {\n		return nil, err\n	}\n\n	return config, nil\n","	return fromJson(bytes)\n}\n\nfunc fromJson(data []byte) (*Configuration, error) {\n	config := Default()\n	if err := json.Unmarshal(data, config); err != nil {\n		return nil, err\n	}\n	return config, nil\n"))
R('conf-default-assign',CF,("	return &Configuration{\n		RangePow:       make([]int, 0),\n","	c := &Configuration{\n		RangePow:       []int{},\n"),("		MemProfile:     false,\n	}\n}","	}\n	c.MemProfile = false\n	return c\n}"))
R('net-new-append',W,("	hiddenLayers := make([]*layer.Layer, numOfLayers)\n	previousLayerNumOfNodes := inputDim\n\n	for i := range hiddenLayers {\n","	hiddenLayers := make([]*layer.Layer, 0, numOfLayers)\n	previousLayerNumOfNodes := inputDim\n\n	for i := 0; i < numOfLayers; i++ {\n"),("		hiddenLayers[i] = layer.New(\n","		hiddenLayers = append(hiddenLayers, layer.New(\n"),("			adamAvgVel,\n		)\n\n		previous","			adamAvgVel,\n		))\n\n		previous"))
R('net-new-prev-if',W,("	previousLayerNumOfNodes := inputDim\n\n	for i := range hiddenLayers {\n","	for i := range hiddenLayers {\n		previousLayerNumOfNodes := inputDim\n		if i > 0 {\n			previousLayerNumOfNodes = sizesOfLayers[i-1]\n		}\n"),("\n		previousLayerNumOfNodes = sizesOfLayers[i]\n",""))
R('layer-new-random-helper',Y,("		curWeights = make([]float64, numOfNodes*previousLayerNumOfNodes)\n		for i := range curWeights {\n			curWeights[i] = rand.NormFloat64()*normalDistributionStdDev +\n				normalDistributionMean\n		}\n\n		curBias = make([]float64, numOfNodes)\n		for i := range curBias {\n			curBias[i] = rand.NormFloat64()*normalDistributionStdDev +\n				normalDistributionMean\n		}\n","		curWeights = randomValues(numOfNodes * previousLayerNumOfNodes)\n		curBias = randomValues(numOfNodes)\n"),("// TODO: duplicated code from New\n","func randomValues(size int) []float64 {\n	values := make([]float64, size)\n	for i := range values {\n		values[i] = rand.NormFloat64()*normalDistributionStdDev +\n			normalDistributionMean\n	}\n	return values\n}\n\n// TODO: duplicated code from New\n"))
R('layer-new-slots-inside',Y,("	trainArray := make([]*node.NodeTrain, numOfNodes*batchSize)\n	for i := range trainArray {\n		trainArray[i] = node.NewNodeTrain(cowId)\n	}\n\n",""),("		firstIndex := previousLayerNumOfNodes * i\n","		slots := make([]*node.NodeTrain, batchSize)\n		for j := range slots {\n			slots[j] = node.NewNodeTrain(cowId)\n		}\n\n		firstIndex := previousLayerNumOfNodes * i\n"),("			trainArray[batchSize*i:batchSize*i+batchSize],\n","			slots,\n"))
R('layer-new-one-loop',Y,("	for i := range nodes {\n		nodes[i] = node.NewEmptyNode(cowId)\n	}\n\n	// TODO: parallel!\n",""),("		nodes[i] = nodes[i].Update(\n","		nodes[i] = node.NewEmptyNode(cowId).Update(\n"))
R('layer-new-hash-after',Y,("			trainArray[batchSize*i:batchSize*i+batchSize],\n		)\n		newLayer","			trainArray[batchSize*i:batchSize*i+batchSize],\n		)\n	}\n\n	for i := range nodes {\n		newLayer"))
R('layer-new-weights-cut',Y,("		firstIndex := previousLayerNumOfNodes * i\n		lastIndex := firstIndex + previousLayerNumOfNodes\n","		firstIndex := i * previousLayerNumOfNodes\n		lastIndex := (i + 1) * previousLayerNumOfNodes\n"))
R('layer-new-random-helper2',Y,("	randNode := make([]int, numOfNodes)\n	for i := range randNode {\n		randNode[i] = i\n	}\n	swapRandNode := func(i, j int) {\n		randNode[i], randNode[j] = randNode[j], randNode[i]\n	}\n	rand.Shuffle(numOfNodes, swapRandNode)\n","	randNode := rand.Perm(numOfNodes)\n"))

# ---- C23 / C24
R('act-mode1-slice-counts',Y,("			counts := make(map[int]int)\n","			counts := make([]int, len(l.nodes))\n"))
R('act-mode1-direct2',Y,("			vect := make([]index_value.Pair, 0)\n","			vect := make([]index_value.Pair, 0, len(counts))\n"),("			length = len(vect)\n			activeNodesPerLayer[layerIndex+1] = make([]index_value.Pair, length)\n			copy(activeNodesPerLayer[layerIndex+1], vect)\n","			length = len(vect)\n			activeNodesPerLayer[layerIndex+1] = vect\n"))
R('act-mode1-skip',Y,("				if count > threshold {\n					vect = append(vect, index_value.Pair{Index: index})\n				}","				if count <= threshold {\n					continue\n				}\n				var p index_value.Pair\n				p.Index = index\n				vect = append(vect, p)"))
R('act-mode1-label-top',Y,("					counts[labelValue] = threshold + 1\n","					counts[labelValue] = threshold + len(actives) + 1\n"))
R('act-mode2-map',Y,("				bs := make([]bool, len(l.nodes)) // bitset\n","				bs := make(map[int]bool, length)\n"))
R('act-mode2-closure',Y,("				for _, labelValue := range label {\n					if !bs[labelValue] {\n						newActiveNodes = append(\n							newActiveNodes, index_value.Pair{Index: labelValue})\n						bs[labelValue] = true\n					}\n				}\n				for len(newActiveNodes) < length {\n					v := rand.Intn(len(l.nodes))\n					if !bs[v] {\n						newActiveNodes = append(\n							newActiveNodes, index_value.Pair{Index: v})\n						bs[v] = true\n					}\n				}\n","				add := func(v int) {\n					if bs[v] {\n						return\n					}\n					bs[v] = true\n					newActiveNodes = append(newActiveNodes, index_value.Pair{Index: v})\n				}\n				for _, labelValue := range label {\n					add(labelValue)\n				}\n				for len(newActiveNodes) < length {\n					add(rand.Intn(len(l.nodes)))\n				}\n"))
R('act-mode2-continue',Y,("				for _, labelValue := range label {\n					if !bs[labelValue] {\n						newActiveNodes = append(\n							newActiveNodes, index_value.Pair{Index: labelValue})\n						bs[labelValue] = true\n					}\n				}\n","				for _, labelValue := range label {\n					if bs[labelValue] {\n						continue\n					}\n					bs[labelValue] = true\n					newActiveNodes = append(\n						newActiveNodes, index_value.Pair{Index: labelValue})\n				}\n"))
R('act-mode2-counter',Y,("				for len(newActiveNodes) < length {\n					v := rand.Intn(len(l.nodes))\n					if !bs[v] {\n						newActiveNodes = append(\n							newActiveNodes, index_value.Pair{Index: v})\n						bs[v] = true\n					}\n				}\n				length = len(newActiveNodes)\n","				selected := len(newActiveNodes)\n				for selected < length {\n					v := rand.Intn(len(l.nodes))\n					if !bs[v] {\n						newActiveNodes = append(\n							newActiveNodes, index_value.Pair{Index: v})\n						bs[v] = true\n						selected++\n					}\n				}\n				length = selected\n"))
R('act-mode3-slice',Y,("				sort.Sort(indexValuePairByValue(sortW))\n","				sort.Slice(sortW, func(i, j int) bool {\n					return sortW[i].Value < sortW[j].Value\n				})\n"))
R('act-mode3-max',Y,("				sortW := make([]index_value.Pair, 0)\n","				sortW := make([]index_value.Pair, len(l.nodes))\n"),("						sortW = append(sortW, index_value.Pair{\n							Index: s,\n							Value: math.Inf(-1),\n						})\n","						sortW[s] = index_value.Pair{\n							Index: s,\n							Value: math.Inf(-1),\n						}\n"),("						sortW = append(sortW, index_value.Pair{\n							Index: s,\n							Value: -tmp,\n						})\n","						sortW[s] = index_value.Pair{\n							Index: s,\n							Value: -tmp,\n						}\n"))
R('act-mode3-less',Y,("	if p[i].Value == p[j].Value {\n		return p[i].Index < p[j].Index\n	}\n	return p[i].Value < p[j].Value\n","	switch {\n	case p[i].Value < p[j].Value:\n		return true\n	case p[i].Value > p[j].Value:\n		return false\n	default:\n		return p[i].Index < p[j].Index\n	}\n"))
R('act-mode3-swap',Y,("{ p[i], p[j] = p[j], p[i] }","{\n	tmp := p[i]\n	p[i] = p[j]\n	p[j] = tmp\n}"))
R('act-mode4-mark',Y,("				start := rand.Intn(len(l.nodes))\n				for i := start; i < len(l.nodes); i++ {\n					if countsSize >= 1000 { // TODO: avoid magic number\n						break\n					}\n					cIndex := l.randNode[i]\n","				start := rand.Intn(len(l.nodes))\n				for i := start; i < len(l.nodes) && countsSize < 1000; i++ {\n					cIndex := l.randNode[i]\n"))
R('act-mode4-fill-helper',Y,("				if countsSize < 1000 { // TODO: avoid magic number\n					for _, randNodeValue := range l.randNode {\n						if countsSize >= 1000 { // TODO: avoid magic number\n							break\n						}\n						if counts[randNodeValue] == -1 {\n							countsSize++\n							counts[randNodeValue] = 0\n						}\n					}\n				}\n","				countsSize = fillCounts(counts, l.randNode, countsSize)\n"),("func (l *Layer) ClearHashTables() {","func fillCounts(counts, order []int, size int) int {\n	for _, v := range order {\n		if size >= 1000 {\n			break\n		}\n		if counts[v] == -1 {\n			size++\n			counts[v] = 0\n		}\n	}\n	return size\n}\n\nfunc (l *Layer) ClearHashTables() {"))
R('act-mode4-fill-both',Y,("				for i := start; i < len(l.nodes); i++ {\n					if countsSize >= 1000 { // TODO: avoid magic number\n						break\n					}\n					cIndex := l.randNode[i]\n					if counts[cIndex] == -1 {\n						countsSize++\n						counts[cIndex] = 0\n					}\n				}\n","				countsSize = fillCounts(counts, l.randNode[start:], countsSize)\n"),("				if countsSize < 1000 { // TODO: avoid magic number\n					for _, randNodeValue := range l.randNode {\n						if countsSize >= 1000 { // TODO: avoid magic number\n							break\n						}\n						if counts[randNodeValue] == -1 {\n							countsSize++\n							counts[randNodeValue] = 0\n						}\n					}\n				}\n","				countsSize = fillCounts(counts, l.randNode, countsSize)\n"),("func (l *Layer) ClearHashTables() {","func fillCounts(counts, order []int, size int) int {\n	for _, v := range order {\n		if size >= 1000 {\n			break\n		}\n		if counts[v] == -1 {\n			size++\n			counts[v] = 0\n		}\n	}\n	return size\n}\n\nfunc (l *Layer) ClearHashTables() {"))
R('act-mode4-else',Y,("					if counts[jVal] == -1 {\n						countsSize++\n						counts[jVal] = 1\n						continue\n					}\n					counts[jVal] += 1\n","					if counts[jVal] == -1 {\n						countsSize++\n						counts[jVal] = 1\n					} else {\n						counts[jVal]++\n					}\n"))
R('act-mode4-neg',Y,("					if counts[jVal] == -1 {","					if counts[jVal] < 0 {"),("					if counts[labelValue] == -1 {","					if counts[labelValue] < 0 {"),("					if counts[cIndex] == -1 {","					if counts[cIndex] < 0 {"))
R('act-mode4-clear-helper',Y,("			counts := make([]int, len(l.nodes))\n			for i := range counts {\n				counts[i] = -1\n			}\n","			counts := unselected(len(l.nodes))\n"),("func (l *Layer) ClearHashTables() {","func unselected(n int) []int {\n	counts := make([]int, n)\n	for i := range counts {\n		counts[i] = -1\n	}\n	return counts\n}\n\nfunc (l *Layer) ClearHashTables() {"))
R('act-mode4-append2',Y,("			newActiveNodes := make([]index_value.Pair, length)\n\n			// copy map into new array\n			i := 0\n			for index, value := range counts {\n				if value >= 0 {\n					newActiveNodes[i].Index = index\n					i++\n				}\n			}\n","			newActiveNodes := make([]index_value.Pair, 0, length)\n\n			for index, value := range counts {\n				if value != -1 {\n					newActiveNodes = append(newActiveNodes, index_value.Pair{Index: index})\n				}\n			}\n"))
R('act-one-label-cond',Y,("			if l.nodeType == node.Softmax && len(label) > 0 {\n				for _, labelValue := range label {\n					counts[","			if l.nodeType == node.Softmax {\n				for _, labelValue := range label {\n					counts["))
R('act-sparsity-append',Y,("		newActiveNodes := make([]index_value.Pair, length)\n		for i := range newActiveNodes {\n			newActiveNodes[i].Index = i\n		}\n","		newActiveNodes := make([]index_value.Pair, 0, length)\n		for i := range l.nodes {\n			newActiveNodes = append(newActiveNodes, index_value.Pair{Index: i})\n		}\n"))
R('act-rand-update-len',Y,("	rand.Shuffle(len(l.nodes), swapRandNode)\n","	rand.Shuffle(len(l.randNode), swapRandNode)\n"))
R('act-retrieve-helper',Y,("			hashIndices := l.hashTables.HashesToIndex(hashes)\n			actives := l.hashTables.RetrieveRaw(hashIndices)\n\n			// Get candidates","			actives := l.candidates(hashes)\n\n			// Get candidates"),("func (l *Layer) ClearHashTables() {","func (l *Layer) candidates(hashes []int) [][]int {\n	return l.hashTables.RetrieveRaw(l.hashTables.HashesToIndex(hashes))\n}\n\nfunc (l *Layer) ClearHashTables() {"))
R('act-mode-func',Y,("		case configuration.LayerMode3:\n			if l.nodeType == node.Softmax {\n				length = int","		case configuration.LayerMode3:\n			if l.nodeType != node.Softmax {\n				break\n			}\n			{\n				length = int"))

R('eval-counts-logged',M,("		totExamples += len(examples)\n","		totExamples += len(examples)\n		logger.Println(correctPredict, \"of\", len(examples), \"-\", totCorrect, \"of\", totExamples)\n"))
R('eval-sprint',M,("	logger.Println(\"Over all:\",\n		accuracy(totCorrect, totExamples),\n		\"correct\")\n","	logger.Printf(\"Over all: %v correct\\n\",\n		accuracy(totCorrect, totExamples))\n"))
R('eval-local-acc',M,("	logger.Println(\"Over all:\",\n		accuracy(totCorrect, totExamples),","	overall := accuracy(totCorrect, totExamples)\n	logger.Println(\"Over all:\",\n		overall,"),("	logger.Println(iter, globalTime,\n		accuracy(totCorrect, totExamples))","	logger.Println(iter, globalTime,\n		overall)"))
R('eval-append-count',M,("		for count := 0; count < config.BatchSize && scanner.Scan(); count++ {\n			example := scanner.Example()\n","		for len(examples) < config.BatchSize && scanner.Scan() {\n			example := scanner.Example()\n"))
R('eval-helper-read',M,("		totCorrect += correctPredict\n		totExamples += len(examples)\n","		totCorrect, totExamples = totCorrect+correctPredict, totExamples+len(examples)\n"))
R('eval-float-tally',M,("	totCorrect := 0\n	totExamples := 0\n","	totCorrect := 0.0\n	totExamples := 0.0\n"),("		totCorrect += correctPredict\n		totExamples += len(examples)\n","		totCorrect += float64(correctPredict)\n		totExamples += float64(len(examples))\n"),("func accuracy(correct, evaluated int) float64 {","func accuracy(correct, evaluated float64) float64 {"),("	return float64(correct) / float64(evaluated)","	return correct / evaluated"))
R('eval-select-n',M,("		if e == config.Epoch-1 {\n			evaluateSvm(cowId, numBatchesTest, myNet, (e+1)*numBatches)\n		} else {\n			evaluateSvm(cowId, 50, myNet, (e+1)*numBatches)\n		}\n","		evalBatches := 50\n		if e+1 == config.Epoch {\n			evalBatches = numBatchesTest\n		}\n		evaluateSvm(cowId, evalBatches, myNet, (e+1)*numBatches)\n"))

# ---- third wave
R('w3-net-sparse-local',W,("		curLayerSparsity := n.sparsity[layerIndex]\n","		sparse := n.sparsity[layerIndex] < 1.0\n"),("		tmpRehash := (rehash || rebuild) && curLayerSparsity < 1.0\n		tmpRebuild := rebuild && curLayerSparsity < 1.0\n","		tmpRebuild := sparse && rebuild\n		tmpRehash := tmpRebuild || sparse && rehash\n"))
R('w3-net-lr-helper',W,("	tmpLr := n.learningRate\n	if configuration.Global.UseAdam {\n		tmpLr = n.learningRate *\n			math.Sqrt(1-math.Pow(beta2, float64(iter)+1.0)) /\n			(1.0 - math.Pow(beta1, float64(iter)+1.0))\n		// TODO: ?? else: tmplr *= pow(0.9, iter/10.0);\n	}\n","	tmpLr := n.stepSize(iter)\n"),("func (n *Network) clone(","func (n *Network) stepSize(iter int) float64 {\n	if !configuration.Global.UseAdam {\n		return n.learningRate\n	}\n	step := float64(iter + 1)\n	return n.learningRate * math.Sqrt(1-math.Pow(beta2, step)) / (1.0 - math.Pow(beta1, step))\n}\n\nfunc (n *Network) clone("))
R('w3-net-nodes-range',W,("		for m := 0; m < layer.NumOfNodes(); m++ {\n			tmp := layer.GetNodeById(m)\n","		for m, tmp := range layer.GetAllNodes() {\n"))
R('w3-net-bp-count',W,("		for layerIndex := n.numberOfLayers - 1; layerIndex >= 0; layerIndex-- {\n","		for k := 1; k <= n.numberOfLayers; k++ {\n			layerIndex := n.numberOfLayers - k\n"))
R('w3-net-bp-branch',W,("				if layerIndex != 0 {\n					prevLayer := hiddenLayers[layerIndex-1]\n					// FIXME: we should reassign the cow-ed node into the layer\n					allNodes := prevLayer.GetAllNodes()\n					node.BackPropagate(\n						cowId,\n						&allNodes, // FIXME: problematic...\n						curLayerActiveNodes,\n						tmpLr,\n						i,\n					)\n				} else {\n					// FIXME: we should reassign the cow-ed node into the layer\n					node.BackPropagateFirstLayer(\n						cowId,\n						example.Features,\n						tmpLr,\n						i,\n					)\n				}\n","				if layerIndex == 0 {\n					node.BackPropagateFirstLayer(cowId, curLayerActiveNodes, tmpLr, i)\n					continue\n				}\n				allNodes := hiddenLayers[layerIndex-1].GetAllNodes()\n				node.BackPropagate(cowId, &allNodes, curLayerActiveNodes, tmpLr, i)\n"))
R('w3-net-forward-helper',W,("		for layerIndex, layer := range hiddenLayers {\n			var in int\n			in, hiddenLayers[layerIndex] =\n				layer.QueryActiveNodeAndComputeActivations(\n					cowId,\n					activeNodesPerLayer,\n					layerIndex,\n					i,\n					example.Labels,\n					n.sparsity[layerIndex],\n				)\n			avgRetrieval[layerIndex] += in\n		}\n","		for layerIndex := range hiddenLayers {\n			avgRetrieval[layerIndex] += n.forward(cowId, activeNodesPerLayer, layerIndex, i, example.Labels)\n		}\n"),("func (n *Network) clone(","// forward computes the active nodes of one layer for one example.\nfunc (n *Network) forward(cowId int, active [][]index_value.Pair, layerIndex, inputId int, labels []int) int {\n	in, next := n.hiddenLayers[layerIndex].QueryActiveNodeAndComputeActivations(\n		cowId, active, layerIndex, inputId, labels, n.sparsity[layerIndex])\n	n.hiddenLayers[layerIndex] = next\n	return in\n}\n\nfunc (n *Network) clone("))
R('w3-net-train-example',W,("	// TODO: parallel!\n	for i, example := range examples {\n		activeNodesPerLayer := make([][]index_value.Pair, n.numberOfLayers+1)\n		activeNodesPerLayer[0] = example.Features\n\n		for layerIndex, layer := range hiddenLayers {\n			var in int","	last := n.numberOfLayers - 1\n	for i := 0; i < len(examples); i++ {\n		example := examples[i]\n		activeNodesPerLayer := make([][]index_value.Pair, n.numberOfLayers+1)\n		activeNodesPerLayer[0] = example.Features\n\n		for layerIndex, layer := range hiddenLayers {\n			var in int"),("				if layerIndex == n.numberOfLayers-1 {\n","				if layerIndex == last {\n"))
R('w3-net-maint-after',W,("			// FIXME: now tmp was modified and should be set back into hiddenLayers[l]\n			if tmpRehash {\n				hashes := layer.GetHashForInputProcessing(curWeights)\n				hashIndices := layer.HashesToIndex(hashes)\n				layer.HashTablesAdd(hashIndices, m)\n			}\n		}\n","		}\n\n		if tmpRehash {\n			for m := 0; m < layer.NumOfNodes(); m++ {\n				hashes := layer.GetHashForInputProcessing(layer.GetNodeById(m).Weights())\n				layer.HashTablesAdd(layer.HashesToIndex(hashes), m)\n			}\n		}\n"))
R('w3-net-adam-vars',W,("				tmp = tmp.SetAdamAvgMomBias(cowId,\n					beta1*tmp.GetAdamAvgMomBias()+(1-beta1)*tmp.GetTBias())\n				tmp = tmp.SetAdamAvgVelBias(cowId,\n					beta2*tmp.GetAdamAvgVelBias()+(1-beta2)*tmp.GetTBias()*tmp.GetTBias())\n				tmp = tmp.SetBias(cowId,\n					tmp.GetBias()+ratio*tmpLr*tmp.GetAdamAvgMomBias()/(math.Sqrt(tmp.GetAdamAvgVelBias())+eps))\n","				g := tmp.GetTBias()\n				mom := beta1*tmp.GetAdamAvgMomBias() + (1-beta1)*g\n				vel := beta2*tmp.GetAdamAvgVelBias() + (1-beta2)*g*g\n				tmp = tmp.SetAdamAvgMomBias(cowId, mom)\n				tmp = tmp.SetAdamAvgVelBias(cowId, vel)\n				tmp = tmp.SetBias(cowId, tmp.GetBias()+ratio*tmpLr*mom/(math.Sqrt(vel)+eps))\n"))
R('w3-pred-active-local',W,("		for pairIndex, pair := range activeNodesPerLayer[n.numberOfLayers] {\n			act := lastHiddenLayer.GetNodeById(pair.Index).GetLastActivation(i)\n			if maxAct < act || pairIndex == 0 {\n				maxAct = act\n				predictClass = pair.Index\n			}\n		}\n","		output := activeNodesPerLayer[n.numberOfLayers]\n		for k := 0; k < len(output); k++ {\n			act := lastHiddenLayer.GetNodeById(output[k].Index).GetLastActivation(i)\n			if k > 0 && !(act > maxAct) {\n				continue\n			}\n			maxAct, predictClass = act, output[k].Index\n		}\n"))
R('w3-pred-correct',W,("		if intSliceContains(example.Labels, predictClass) {\n			correctPred++\n		}\n","		for _, label := range example.Labels {\n			if label == predictClass {\n				correctPred++\n				break\n			}\n		}\n"))
R('w3-node-active-helper',N,("	if nd.train[inputId].activeinputIds != 1 {\n		panic(\"Input Not Active but still called\")\n	}\n\n	n := nd.cloneIfNeeded(cowId)\n	train := n.train\n	train[inputId] = train[inputId].cloneIfNeeded(cowId)\n	n.base = n.base.cloneIfNeeded(cowId)\n\n	for _, pair := range indexValuePairs {","	nd.mustBeActive(inputId)\n\n	n := nd.cloneIfNeeded(cowId)\n	train := n.train\n	train[inputId] = train[inputId].cloneIfNeeded(cowId)\n	n.base = n.base.cloneIfNeeded(cowId)\n\n	for _, pair := range indexValuePairs {"),("func (n *Node) clone(","func (n *Node) mustBeActive(inputId int) {\n	if n.train[inputId].activeinputIds == 1 {\n		return\n	}\n	panic(\"Input Not Active but still called\")\n}\n\nfunc (n *Node) clone("))
R('w3-node-inc-switch',N,("	if nd.train[inputId].activeinputIds != 1 {\n		panic(\"Input Not Active but still called\")\n	} else if nd.train[inputId].lastActivations <= 0 {\n		return nd\n	}\n\n	n := nd.cloneIfNeeded(cowId)\n","	slot := nd.train[inputId]\n	switch {\n	case slot.activeinputIds != 1:\n		panic(\"Input Not Active but still called\")\n	case !(slot.lastActivations > 0) && slot.lastActivations <= 0:\n		return nd\n	}\n\n	n := nd.cloneIfNeeded(cowId)\n"))
R('w3-node-consume',N,("	train[inputId].activeinputIds = 0 // deactivate inputIDs\n	train[inputId].lastDeltaforBPs = 0\n	train[inputId].lastActivations = 0\n","	*train[inputId] = NodeTrain{cowId: train[inputId].cowId}\n"))
R('w3-node-adam-local',N,("	for _, pair := range indexValuePairs {\n		gradT := train[inputId].lastDeltaforBPs * pair.Value\n		// TODO: ?? gradTsq := gradT * gradT\n		if configuration.Global.UseAdam {\n			n.base.t[pair.Index] += gradT\n		} else {\n			n.base.mirrorWeights[pair.Index] += learningRate * gradT\n		}\n	}\n\n	if configuration.Global.UseAdam {\n		biasgradT := train[inputId].lastDeltaforBPs\n		// TODO: ?? biasgradTsq = biasgradT * biasgradT\n		n.base.tBias += biasgradT\n	} else {\n		n.base.mirrorBias += learningRate * train[inputId].lastDeltaforBPs\n	}\n","	delta := train[inputId].lastDeltaforBPs\n	if configuration.Global.UseAdam {\n		for _, pair := range indexValuePairs {\n			n.base.t[pair.Index] += delta * pair.Value\n		}\n		n.base.tBias += delta\n	} else {\n		rate := learningRate * delta\n		for _, pair := range indexValuePairs {\n			n.base.mirrorWeights[pair.Index] += rate * pair.Value\n		}\n		n.base.mirrorBias += rate\n	}\n"))
R('w3-node-act-sum',N,("	train[inputId].lastActivations = 0\n\n	for _, pair := range data {\n		train[inputId].lastActivations +=\n			n.base.weights[pair.Index] * pair.Value\n	}\n\n	train[inputId].lastActivations += n.base.bias\n","	sum := n.base.bias\n	for k := range data {\n		sum += n.base.weights[data[k].Index] * data[k].Value\n	}\n	train[inputId].lastActivations = sum\n"))
R('w3-node-newnode-slot',N,("	t := n.train[inputId]\n	if t.activeinputIds != 1 {\n		return 0\n	}\n	return t.lastActivations\n","	if t := n.train[inputId]; t.activeinputIds == 1 {\n		return t.lastActivations\n	}\n	return 0\n"))
R('w3-node-copy-nil',N,("func copyFloat64Slice(s []float64) []float64 {\n	newS := make([]float64, len(s))\n	copy(newS, s)\n	return newS\n}","func copyFloat64Slice(s []float64) []float64 {\n	newS := make([]float64, len(s))\n	for i, v := range s {\n		newS[i] = v\n	}\n	return newS\n}"))
R('w3-layer-add-reuse',Y,("	// LSH logic\n	var hashes []int = nil\n\n	switch configuration.Global.HashFunction {\n	case configuration.WtaHashFunction:\n		hashes = l.wtaHasher.GetHashDense(weights)\n\n	case configuration.DensifiedWtaHashFunction:\n		hashes = l.dwtaHasher.GetHashEasy(weights, topK)\n\n	case configuration.DensifiedMinhashFunction:\n		hashes = l.minHasher.GetHashEasyDense(l.binIds, weights, topK)\n\n	case configuration.SparseRandomProjectionHashFunction:\n		hashes = l.srp.GetHash(weights)\n\n	default:\n		panic(fmt.Sprintf(\"Unexpected hash function %d.\",\n			configuration.Global.HashFunction))\n	}\n\n	hashIndices := l.hashTables.HashesToIndex(hashes)\n	l.hashTables.Add(hashIndices, id)\n","	hashes := l.GetHashForInputProcessing(weights)\n	l.HashTablesAdd(l.HashesToIndex(hashes), id)\n"))
R('w3-layer-weights-per-node',Y,("		for i := range curWeights {\n			curWeights[i] = rand.NormFloat64()*normalDistributionStdDev +\n				normalDistributionMean\n		}\n","		for row := 0; row < numOfNodes; row++ {\n			block := curWeights[row*previousLayerNumOfNodes : (row+1)*previousLayerNumOfNodes]\n			for i := range block {\n				block[i] = rand.NormFloat64()*normalDistributionStdDev +\n					normalDistributionMean\n			}\n		}\n"))
R('w3-layer-draw-helper',Y,("			curWeights[i] = rand.NormFloat64()*normalDistributionStdDev +\n				normalDistributionMean","			curWeights[i] = randomWeight()"),("			curBias[i] = rand.NormFloat64()*normalDistributionStdDev +\n				normalDistributionMean","			curBias[i] = randomWeight()"),("func intSliceContains(","func randomWeight() float64 {\n	return normalDistributionMean + normalDistributionStdDev*rand.NormFloat64()\n}\n\nfunc intSliceContains("))
R('w3-layer-bias-first',Y,("		curWeights = make([]float64, numOfNodes*previousLayerNumOfNodes)\n		for i := range curWeights {\n			curWeights[i] = rand.NormFloat64()*normalDistributionStdDev +\n				normalDistributionMean\n		}\n\n		curBias = make([]float64, numOfNodes)\n		for i := range curBias {\n			curBias[i] = rand.NormFloat64()*normalDistributionStdDev +\n				normalDistributionMean\n		}\n","		curBias = make([]float64, 0, numOfNodes)\n		for len(curBias) < numOfNodes {\n			curBias = append(curBias, rand.NormFloat64()*normalDistributionStdDev+normalDistributionMean)\n		}\n\n		curWeights = make([]float64, numOfNodes*previousLayerNumOfNodes)\n		for i := range curWeights {\n			curWeights[i] = rand.NormFloat64()*normalDistributionStdDev +\n				normalDistributionMean\n		}\n"))
R('w3-sm-sum-local',Y,("		for i, pair := range nextLayerActiveNodes {\n			realActivation := math.Exp(pair.Value - maxValue)\n			nextLayerActiveNodes[i].Value = realActivation\n			nodes[pair.Index] = nodes[pair.Index].SetlastActivation(\n				cowId, inputId, realActivation,\n			)\n			l.normalizationConstants[inputId] += realActivation\n		}\n","		total := 0.0\n		for i := range nextLayerActiveNodes {\n			pair := &nextLayerActiveNodes[i]\n			pair.Value = math.Exp(pair.Value - maxValue)\n			nodes[pair.Index] = nodes[pair.Index].SetlastActivation(\n				cowId, inputId, pair.Value,\n			)\n			total += pair.Value\n		}\n		l.normalizationConstants[inputId] = total\n"))
R('w3-sm-early-return',Y,("	if l.nodeType == node.Softmax {\n		for i, pair := range nextLayerActiveNodes {\n			realActivation","	if l.nodeType != node.Softmax {\n		return in, l\n	}\n	{\n		for i, pair := range nextLayerActiveNodes {\n			realActivation"))
R('w3-mode2-n',Y,("				length = int(math.Floor(float64(len(l.nodes)) * sparsity))\n				newActiveNodes := make([]index_value.Pair, 0, length)\n\n				bs := make([]bool, len(l.nodes)) // bitset\n","				n := len(l.nodes)\n				length = int(math.Floor(float64(n) * sparsity))\n				newActiveNodes := make([]index_value.Pair, 0, length)\n\n				bs := make([]bool, n) // bitset\n"),("				for len(newActiveNodes) < length {\n					v := rand.Intn(len(l.nodes))\n					if !bs[v] {\n						newActiveNodes = append(\n							newActiveNodes, index_value.Pair{Index: v})\n						bs[v] = true\n					}\n				}\n","				for len(newActiveNodes) < length {\n					v := rand.Intn(n)\n					if bs[v] {\n						continue\n					}\n					bs[v] = true\n					newActiveNodes = append(\n						newActiveNodes, index_value.Pair{Index: v})\n				}\n"))
R('w3-mode3-value',Y,("					if intSliceContains(label, s) {\n						sortW = append(sortW, index_value.Pair{\n							Index: s,\n							Value: math.Inf(-1),\n						})\n						what++\n					} else {\n						sortW = append(sortW, index_value.Pair{\n							Index: s,\n							Value: -tmp,\n						})\n					}\n","					rank := -tmp\n					if intSliceContains(label, s) {\n						rank = math.Inf(-1)\n						what++\n					}\n					sortW = append(sortW, index_value.Pair{Index: s, Value: rank})\n"))
R('w3-lsh-new-helper',L,("		newBuckets := make([]*fifo.FifoBucket, 1<<rangePow)\n		for j := range newBuckets {\n			newBuckets[j] = fifo.New()\n		}\n		buckets[i] = newBuckets\n","		buckets[i] = newTable(1 << rangePow)\n"),("func positiveOddRandomInt()","func newTable(size int) []*fifo.FifoBucket {\n	table := make([]*fifo.FifoBucket, 0, size)\n	for len(table) < size {\n		table = append(table, fifo.New())\n	}\n	return table\n}\n\nfunc positiveOddRandomInt()"))
R('w3-lsh-retrieve-append',L,("	rawResults := make([][]int, lsh.l)\n	for i := range rawResults {\n		rawResults[i] = lsh.buckets[i][indices[i]].GetAll()\n	}\n	return rawResults","	rawResults := make([][]int, 0, lsh.l)\n	for i := 0; i < lsh.l; i++ {\n		rawResults = append(rawResults, lsh.buckets[i][indices[i]].GetAll())\n	}\n	return rawResults"))
R('w3-lsh-index-codes',L,("	for i := range indices {\n		var index uint = 0\n\n		for j := 0; j < lsh.k; j++ {","	for i := range indices {\n		var index uint = 0\n		first := lsh.k * i\n\n		for j := 0; j < lsh.k; j++ {"),("				h := uint(hashes[lsh.k*i+j])\n				index += h << ((lsh.k - 1 - j) * logBinSize)","				h := uint(hashes[first+j])\n				index += h << ((lsh.k - 1 - j) * logBinSize)"),("				randVal := uint(lsh.rand1[lsh.k*i+j])\n				h := randVal * randVal\n				h ^= h >> 13\n				h ^= uint(lsh.rand1[lsh.k*i+j])\n				index += h * uint(hashes[lsh.k*i+j])","				randVal := uint(lsh.rand1[first+j])\n				h := randVal * randVal\n				h = (h ^ h>>13) ^ randVal\n				index += uint(hashes[first+j]) * h"))
R('w3-fifo-add-count',F,("	index := len(b.slice)\n	if index == bucketSize {\n		index = b.count & bitMask\n		b.slice[index] = id\n		b.count++\n		return index\n	}\n	b.slice = append(b.slice, id)\n	b.count++\n	return index\n","	index := b.count & bitMask\n	b.count++\n	if len(b.slice) < bucketSize {\n		b.slice = append(b.slice, id)\n	} else {\n		b.slice[index] = id\n	}\n	return index\n"))
R('w3-dwta-search-helper',DW,("	for i, next := range items {\n		if next.init {\n			hashArray[i] = next.hash\n			continue\n		}\n\n		for count := 1; !next.init; count++ {\n			index := minInt(dw.GetRandDoubleHash(i, count), dw.numHashes-1)\n			next = items[index] // Kills GPU.\n\n			if count > 100 { // Densification failure.\n				next.hash = 0 // FIXME: can we do better than that?\n				break\n			}\n		}\n\n		hashArray[i] = next.hash\n	}\n","	borrow := func(i int) int {\n		for count := 1; count <= 100; count++ {\n			index := minInt(dw.GetRandDoubleHash(i, count), dw.numHashes-1)\n			if items[index].init {\n				return items[index].hash\n			}\n		}\n		return 0 // Densification failure.\n	}\n	for i := range items {\n		if items[i].init {\n			hashArray[i] = items[i].hash\n		} else {\n			hashArray[i] = borrow(i)\n		}\n	}\n"))
R('w3-dwta-search-method',DW,("	for i, next := range hashes {\n		if next != math.MinInt64 {\n			hashArray[i] = next\n			continue\n		}\n\n		for count := 1; next == math.MinInt64; count++ {\n			index := minInt(dw.GetRandDoubleHash(i, count), dw.numHashes-1)\n			next = hashes[index] // Kills GPU.\n\n			if count > 100 { // Densification failure.\n				next = 0 // FIXME: can we do better than that?\n				break\n			}\n		}\n\n		hashArray[i] = next\n	}\n","	for i := range hashes {\n		hashArray[i] = dw.densify(hashes, i)\n	}\n"),("func (dw *DensifiedWtaHash) GetRandDoubleHash","func (dw *DensifiedWtaHash) densify(hashes []int, i int) int {\n	next := hashes[i]\n	for count := 1; next == math.MinInt64; count++ {\n		if count > 100 { // Densification failure.\n			return 0\n		}\n		next = hashes[minInt(dw.GetRandDoubleHash(i, count), dw.numHashes-1)]\n	}\n	return next\n}\n\nfunc (dw *DensifiedWtaHash) GetRandDoubleHash"))
R('w3-dwta-best-first',DW,("			if binId < dw.numHashes && values[binId] < dataValue {\n				values[binId] = dataValue\n				hashes[binId] = dw.pos[innerIndex]\n			}\n","			if binId >= dw.numHashes {\n				continue\n			}\n			if dataValue > values[binId] {\n				hashes[binId] = dw.pos[innerIndex]\n				values[binId] = dataValue\n			}\n"))
R('w3-srp-signed',SR,("			v := vector[srp.indices[i][j]]\n			if rb {\n				s += v\n			} else {\n				s -= v\n			}\n","			v := vector[srp.indices[i][j]]\n			if !rb {\n				v = -v\n			}\n			s += v\n"))
R('w3-srp-two-sums',SR,("		s := 0.0\n		for j, rb := range srp.randBits[i] {\n			v := vector[srp.indices[i][j]]\n			if rb {\n				s += v\n			} else {\n				s -= v\n			}\n		}\n\n		if s >= 0 {\n			hashes[i] = 0\n		} else {\n			hashes[i] = 1\n		}\n","		s := 0.0\n		bits := srp.randBits[i]\n		for j, index := range srp.indices[i] {\n			if bits[j] {\n				s += vector[index]\n			} else {\n				s -= vector[index]\n			}\n		}\n		if s < 0 {\n			hashes[i] = 1\n		}\n"))
R('w3-wta-one-pass',WT,("	hashes := make([]int, wh.numHashes)\n	values := make([]float64, wh.numHashes)\n\n	for i := 0; i < wh.numHashes; i++ {\n		hashes[i] = math.MinInt64\n		values[i] = math.MinInt64\n	}\n\n	for i := 0; i < wh.numHashes; i++ {\n		iOffset := i * binSize\n\n		for j := 0; j < binSize; j++ {\n			jOffset := iOffset + j\n\n			curIndex := wh.indices[jOffset]\n			if value := data[curIndex]; values[i] < value {\n				hashes[i] = curIndex\n				values[i] = value\n			}\n		}\n	}\n","	hashes := make([]int, wh.numHashes)\n	for i := range hashes {\n		hashes[i] = math.MinInt64\n		best := float64(math.MinInt64)\n		for _, curIndex := range wh.indices[i*binSize : (i+1)*binSize] {\n			if data[curIndex] > best {\n				hashes[i], best = curIndex, data[curIndex]\n			}\n		}\n	}\n"))
R('w3-mh-bin-helper',MH,("	for i := 0; i < topK; i++ {\n		pair := pq.Pop().(indexValuePair)\n		index := pair.index\n		binId := binIds[index]\n		if hashes[binId] < index {\n			hashes[binId] = index\n		}\n	}\n\n	for i, next := range hashes {\n		if next != math.MinInt64 {\n			hashArray[i] = next\n			continue\n		}\n\n		for count := 1; next == math.MinInt64; count++ {\n			index := minInt(dm.GetRandDoubleHash(i, count), dm.numHashes-1)\n			next = hashes[index] // Kills GPU.\n\n			if count > 100 { // Densification failure.\n				break\n			}\n		}\n\n		hashArray[i] = next\n	}\n\n	return hashArray\n}\n\n// TODO: avoid","	for i := 0; i < topK; i++ {\n		index := pq.Pop().(indexValuePair).index\n		hashes[binIds[index]] = maxInt(hashes[binIds[index]], index)\n	}\n\n	for i, next := range hashes {\n		for count := 1; next == math.MinInt64 && count <= 101; count++ {\n			next = hashes[minInt(dm.GetRandDoubleHash(i, count), dm.numHashes-1)]\n		}\n		hashArray[i] = next\n	}\n\n	return hashArray\n}\n\nfunc maxInt(a, b int) int {\n	if a > b {\n		return a\n	}\n	return b\n}\n\n// TODO: avoid"))
R('w3-scan-index-loop',X,("	for i, pair := range pairs {\n		splitPair := strings.Split(pair, \":\")\n","	for i := 0; i < lenPairs; i++ {\n		splitPair := strings.Split(pairs[i], \":\")\n"))
R('w3-scan-bounds-helper',X,("		if label < 0 || label >= s.numLabels {\n","		if !inBounds(label, s.numLabels) {\n"),("		if featureIndex < 0 || featureIndex >= s.NumFeatures() {\n","		if !inBounds(featureIndex, s.numFeatures) {\n"),("func (s *Scanner) scanHeader()","func inBounds(value, size int) bool {\n	return 0 <= value && value < size\n}\n\nfunc (s *Scanner) scanHeader()"))
R('w3-main-batch-number',M,("		if i > 0 && (i+epoch*numBatches)%config.Stepsize == 0 {\n			evaluateSvm(cowId, 20, myNet, epoch*numBatches+i)\n		}\n","		iter := epoch*numBatches + i\n		if i > 0 && iter%config.Stepsize == 0 {\n			evaluateSvm(cowId, 20, myNet, iter)\n		}\n"),("			if (epoch*numBatches+i)%rehashBatches == rehashBatches-1 {\n				rehash = true\n			}\n","			rehash = iter%rehashBatches == rehashBatches-1\n"),("			if (epoch*numBatches+i)%rebuildBatches == rebuildBatches-1 {\n				rebuild = true\n			}\n","			rebuild = iter%rebuildBatches == rebuildBatches-1\n"),("			cowId, examples, epoch*numBatches+i, rehash, rebuild)","			cowId, examples, iter, rehash, rebuild)"))
R('w3-main-read-batch',M,("		examples = examples[:0]\n		for count := 0; count < config.BatchSize && scanner.Scan(); count++ {\n			examples = append(examples, scanner.Example())\n		}\n","		examples = examples[:0]\n		for len(examples) < config.BatchSize && scanner.Scan() {\n			examples = append(examples, scanner.Example())\n		}\n"))
# fourth wave
R('w4-mode1-slice-index',Y,("			for _, iVal := range actives {\n				for _, jVal := range iVal {\n					counts[jVal] += 1\n				}\n			}\n","			for t := 0; t < len(actives); t++ {\n				bucket := actives[t]\n				for p := 0; p < len(bucket); p++ {\n					counts[bucket[p]]++\n				}\n			}\n"))
R('w4-mode1-count-helper',Y,("			for _, iVal := range actives {\n				for _, jVal := range iVal {\n					counts[jVal] += 1\n				}\n			}\n","			countRetrieved(counts, actives)\n"),("func intSliceContains(","func countRetrieved(counts map[int]int, buckets [][]int) {\n	for _, bucket := range buckets {\n		for _, id := range bucket {\n			counts[id] = counts[id] + 1\n		}\n	}\n}\n\nfunc intSliceContains("))
R('w4-mode1-ge',Y,("				if count > threshold {\n","				if count >= threshold+1 {\n"))
R('w4-mode1-delete',Y,("			vect := make([]index_value.Pair, 0)\n			for index, count := range counts {\n				if count > threshold {\n					vect = append(vect, index_value.Pair{Index: index})\n				}\n			}\n","			vect := make([]index_value.Pair, 0, len(counts))\n			for index, count := range counts {\n				if count <= threshold {\n					continue\n				}\n				vect = append(vect, index_value.Pair{Index: index})\n			}\n"))
R('w4-mode4-if-else',Y,("					if counts[jVal] == -1 {\n						countsSize++\n						counts[jVal] = 1\n						continue\n					}\n					counts[jVal] += 1\n","					if counts[jVal] != -1 {\n						counts[jVal]++\n					} else {\n						countsSize++\n						counts[jVal] = 1\n					}\n"))
R('w4-mode4-bool',Y,("					if counts[jVal] == -1 {\n						countsSize++\n						counts[jVal] = 1\n						continue\n					}\n					counts[jVal] += 1\n","					if counts[jVal] == -1 {\n						countsSize++\n						counts[jVal] = 1\n					}\n"))
R('w4-mode4-fill-while',Y,("				for i := start; i < len(l.nodes); i++ {\n					if countsSize >= 1000 { // TODO: avoid magic number\n						break\n					}\n","				for i := start; i < len(l.nodes) && countsSize < 1000; i++ {\n"))
R('w4-mode4-fill-const',Y,("			if countsSize < 1500 { // TODO: avoid magic number\n","			const enough, minimum = 1500, 1000\n			if countsSize < enough {\n"),("				for i := start; i < len(l.nodes); i++ {\n					if countsSize >= 1000 { // TODO: avoid magic number\n","				for i := start; i < len(l.nodes); i++ {\n					if countsSize >= minimum {\n"))
R('w4-mode4-collect-break',Y,("			i := 0\n			for index, value := range counts {\n				if value >= 0 {\n					newActiveNodes[i].Index = index\n					i++\n				}\n			}\n","			next := 0\n			for index := range counts {\n				if counts[index] < 0 {\n					continue\n				}\n				newActiveNodes[next] = index_value.Pair{Index: index}\n				next++\n			}\n"))
R('w4-mode-retrieve-method',Y,("			hashIndices := l.hashTables.HashesToIndex(hashes)\n			actives := l.hashTables.RetrieveRaw(hashIndices)\n\n			// Get candidates from hashtable\n\n			// TODO: opt","			actives := l.retrieve(hashes)\n\n			// Get candidates from hashtable\n\n			// TODO: opt"),("			hashIndices := l.hashTables.HashesToIndex(hashes)\n			actives := l.hashTables.RetrieveRaw(hashIndices)\n\n			// we now","			actives := l.retrieve(hashes)\n\n			// we now"),("func intSliceContains(","func (l *Layer) retrieve(hashes []int) [][]int {\n	return l.hashTables.RetrieveRaw(l.hashTables.HashesToIndex(hashes))\n}\n\nfunc intSliceContains("))
R('w4-mode3-preact-method',Y,("					tmp := l.innerproduct(\n						currentLayerActiveNodes, curNode.Weights())\n					tmp += curNode.Bias()\n","					tmp := curNode.Bias() + l.innerproduct(\n						currentLayerActiveNodes, curNode.Weights())\n"))
R('w4-mode3-slice-prealloc',Y,("				sortW := make([]index_value.Pair, 0)\n				what := 0\n","				sortW := make([]index_value.Pair, 0, len(l.nodes))\n				what := 0\n"))
R('w4-mode3-room-first',Y,("				if length < what { // make room for all true labels\n					length = what\n				}\n				activeNodesPerLayer[layerIndex+1] = make([]index_value.Pair, length)\n\n				for i, sw := range sortW[:length] {\n					activeNodesPerLayer[layerIndex+1][i].Index = sw.Index\n","				if what > length { // make room for all true labels\n					length = what\n				}\n				selected := make([]index_value.Pair, length)\n				activeNodesPerLayer[layerIndex+1] = selected\n\n				for i, sw := range sortW[:length] {\n					selected[i].Index = sw.Index\n"))
R('w4-mode3-sort-slice',Y,("				sort.Sort(indexValuePairByValue(sortW))\n","				sort.Slice(sortW, func(i, j int) bool {\n					return sortW[i].Value < sortW[j].Value\n				})\n"),("type indexValuePairByValue","// sorting by value\ntype indexValuePairByValue")) 
R('w4-mode2-length-helper',Y,("				length = int(math.Floor(float64(len(l.nodes)) * sparsity))\n				newActiveNodes","				length = l.portion(sparsity)\n				newActiveNodes"),("				length = int(math.Floor(float64(len(l.nodes)) * sparsity))\n\n				sortW","				length = l.portion(sparsity)\n\n				sortW"),("func intSliceContains(","func (l *Layer) portion(sparsity float64) int {\n	return int(math.Floor(sparsity * float64(len(l.nodes))))\n}\n\nfunc intSliceContains("))
R('w4-mode2-int',Y,("				length = int(math.Floor(float64(len(l.nodes)) * sparsity))\n				newActiveNodes","				length = int(float64(len(l.nodes)) * sparsity)\n				newActiveNodes"),("				length = int(math.Floor(float64(len(l.nodes)) * sparsity))\n\n				sortW","				length = int(float64(len(l.nodes)) * sparsity)\n\n				sortW"))
R('w4-mode2-missing',Y,("				for len(newActiveNodes) < length {\n					v := rand.Intn(len(l.nodes))\n","				for missing := length - len(newActiveNodes); missing > 0; missing = length - len(newActiveNodes) {\n					v := rand.Intn(len(l.nodes))\n"))
R('w4-query-split',Y,("	nextLayerActiveNodes := activeNodesPerLayer[layerIndex+1]\n\n	maxValue := 0.0\n","	l.activate(cowId, currentLayerActiveNodes, activeNodesPerLayer[layerIndex+1], inputId)\n	return in, l\n}\n\nfunc (l *Layer) activate(\n	cowId int,\n	currentLayerActiveNodes, nextLayerActiveNodes []index_value.Pair,\n	inputId int,\n) {\n	maxValue := 0.0\n"),("			l.normalizationConstants[inputId] += realActivation\n		}\n	}\n\n	return in, l\n}\n","			l.normalizationConstants[inputId] += realActivation\n		}\n	}\n}\n"))
R('w4-query-labels-len',Y,("			if l.nodeType == node.Softmax && len(label) > 0 {\n				for _, labelValue := range label {\n					counts[labelValue] = threshold + 1\n				}\n			}\n","			if l.nodeType == node.Softmax {\n				for _, labelValue := range label {\n					counts[labelValue] = threshold + 1\n				}\n			}\n"))
R('w4-node-preact-helper',N,("	train[inputId].lastActivations = 0\n\n	for _, pair := range data {\n		train[inputId].lastActivations +=\n			n.base.weights[pair.Index] * pair.Value\n	}\n\n	train[inputId].lastActivations += n.base.bias\n","	train[inputId].lastActivations = n.base.weightedSum(data)\n"),("func (nd *Node) ComputeExtaStatsForSoftMax(","func (b *baseNode) weightedSum(data []index_value.Pair) float64 {\n	sum := b.bias\n	for _, pair := range data {\n		sum += b.weights[pair.Index] * pair.Value\n	}\n	return sum\n}\n\nfunc (nd *Node) ComputeExtaStatsForSoftMax("))
R('w4-node-own',N,("func (nd *Node) SetT(cowId, i int, value float64) *Node {\n	n := nd.cloneIfNeeded(cowId)\n	n.base = n.base.cloneIfNeeded(cowId)\n","func (nd *Node) owned(cowId int) *Node {\n	n := nd.cloneIfNeeded(cowId)\n	n.base = n.base.cloneIfNeeded(cowId)\n	return n\n}\n\nfunc (nd *Node) SetT(cowId, i int, value float64) *Node {\n	n := nd.owned(cowId)\n"),("func (nd *Node) SetBias(cowId int, value float64) *Node {\n	n := nd.cloneIfNeeded(cowId)\n	n.base = n.base.cloneIfNeeded(cowId)\n","func (nd *Node) SetBias(cowId int, value float64) *Node {\n	n := nd.owned(cowId)\n"))
R('w4-node-slot-pointer',N,("	train[inputId].lastActivations /= normalizationConstant + 0.0000001\n\n	//TODO:check gradient\n\n	if intSliceContains(labels, n.base.idInLayer) {\n		train[inputId].lastDeltaforBPs = (1.0/float64(len(labels)) -\n			train[inputId].lastActivations) / float64(n.base.currentBatchsize)\n	} else {\n		train[inputId].lastDeltaforBPs = -train[inputId].lastActivations /\n			float64(n.base.currentBatchsize)\n	}\n","	t := train[inputId]\n	t.lastActivations /= normalizationConstant + 0.0000001\n\n	//TODO:check gradient\n	expected := 0.0\n	if intSliceContains(labels, n.base.idInLayer) {\n		expected = 1 / float64(len(labels))\n	}\n	t.lastDeltaforBPs = (expected - t.lastActivations) / float64(n.base.currentBatchsize)\n"))
R('w4-net-adam-method',W,("				tmp = tmp.SetAdamAvgMomBias(cowId,\n					beta1*tmp.GetAdamAvgMomBias()+(1-beta1)*tmp.GetTBias())\n				tmp = tmp.SetAdamAvgVelBias(cowId,\n					beta2*tmp.GetAdamAvgVelBias()+(1-beta2)*tmp.GetTBias()*tmp.GetTBias())\n				tmp = tmp.SetBias(cowId,\n					tmp.GetBias()+ratio*tmpLr*tmp.GetAdamAvgMomBias()/(math.Sqrt(tmp.GetAdamAvgVelBias())+eps))\n				tmp = tmp.SetTBias(cowId, 0)\n","				tmp = updateBias(cowId, tmp, ratio*tmpLr)\n"),("func intSliceContains(","func updateBias(cowId int, n *node.Node, rate float64) *node.Node {\n	g := n.GetTBias()\n	mom := beta1*n.GetAdamAvgMomBias() + (1-beta1)*g\n	vel := beta2*n.GetAdamAvgVelBias() + (1-beta2)*g*g\n	n = n.SetAdamAvgMomBias(cowId, mom).SetAdamAvgVelBias(cowId, vel)\n	n = n.SetBias(cowId, n.GetBias()+rate*mom/(math.Sqrt(vel)+eps))\n	return n.SetTBias(cowId, 0)\n}\n\nfunc intSliceContains("))
R('w4-net-rehash-after',W,("			if tmpRehash {\n				hashes := layer.GetHashForInputProcessing(curWeights)\n				hashIndices := layer.HashesToIndex(hashes)\n				layer.HashTablesAdd(hashIndices, m)\n			}\n		}\n\n	}\n","		}\n\n		if tmpRehash {\n			for m, n := range layer.GetAllNodes() {\n				hashes := layer.GetHashForInputProcessing(n.Weights())\n				layer.HashTablesAdd(layer.HashesToIndex(hashes), m)\n			}\n		}\n	}\n"),("			curWeights := tmp.Weights()\n\n			if conf","			if conf"),("				dim := tmp.AdamTDim()\n","				curWeights := tmp.Weights()\n				dim := tmp.AdamTDim()\n"))
R('w4-net-step-switch',W,("		if tmpRehash {\n			layer.ClearHashTables()\n		}\n\n		if tmpRebuild {\n			hiddenLayers[layerIndex] = layer.UpdateTable(cowId)\n		}\n","		switch {\n		case tmpRebuild:\n			layer.ClearHashTables()\n			hiddenLayers[layerIndex] = layer.UpdateTable(cowId)\n		case tmpRehash:\n			layer.ClearHashTables()\n		}\n"))
R('w4-net-predict-nolast',W,("	lastHiddenLayer := hiddenLayers[n.numberOfLayers-1]\n\n	startTime","	startTime"),("			act := lastHiddenLayer.GetNodeById","			act := hiddenLayers[n.numberOfLayers-1].GetNodeById"))
R('w4-net-sparsities',W,("	for i, example := range examples {\n		activeNodesPerLayer := make([][]index_value.Pair, n.numberOfLayers+1)\n		activeNodesPerLayer[0] = example.Features\n\n		//inference\n","	inference := n.sparsity[n.numberOfLayers:]\n\n	for i, example := range examples {\n		activeNodesPerLayer := make([][]index_value.Pair, n.numberOfLayers+1)\n		activeNodesPerLayer[0] = example.Features\n\n		//inference\n"),("					n.sparsity[n.numberOfLayers+layerIndex],\n","					inference[layerIndex],\n"))
R('w4-main-train-closure',M,("		examples = examples[:0]\n		for count := 0; count < config.BatchSize && scanner.Scan(); count++ {\n			examples = append(examples, scanner.Example())\n		}\n","		read := func() []dataset.Example {\n			batch := examples[:0]\n			for len(batch) < config.BatchSize && scanner.Scan() {\n				batch = append(batch, scanner.Example())\n			}\n			return batch\n		}\n		examples = read()\n"))
R('w4-main-eval-size',M,("		if e == config.Epoch-1 {\n			evaluateSvm(cowId, numBatchesTest, myNet, (e+1)*numBatches)\n		} else {\n			evaluateSvm(cowId, 50, myNet, (e+1)*numBatches)\n		}\n","		size := 50\n		if e+1 == config.Epoch {\n			size = numBatchesTest\n		}\n		evaluateSvm(cowId, size, myNet, (e+1)*numBatches)\n"))
R('w4-main-types-append',M,("	layersTypes := make([]node.NodeType, numLayers)\n	for i := 0; i < numLayers-1; i++ {\n		layersTypes[i] = node.ReLU\n	}\n	layersTypes[numLayers-1] = node.Softmax\n	return layersTypes\n","	layersTypes := make([]node.NodeType, 0, numLayers)\n	for len(layersTypes) < numLayers-1 {\n		layersTypes = append(layersTypes, node.ReLU)\n	}\n	return append(layersTypes, node.Softmax)\n"))
R('w4-conf-readall',CF,("","")) if False else None
R('w5-lsh-new-closure',L,('\tfor i := range buckets {\n\t\tnewBuckets := make([]*fifo.FifoBucket, 1<<rangePow)\n\t\tfor j := range newBuckets {\n\t\t\tnewBuckets[j] = fifo.New()\n\t\t}\n\t\tbuckets[i] = newBuckets\n\t}\n','\tnewTable := func() []*fifo.FifoBucket {\n\t\ttable := make([]*fifo.FifoBucket, 1<<rangePow)\n\t\tfor j := 0; j < len(table); j++ {\n\t\t\ttable[j] = fifo.New()\n\t\t}\n\t\treturn table\n\t}\n\tfor i := 0; i < l; i++ {\n\t\tbuckets[i] = newTable()\n\t}\n'))
R('w5-lsh-clear-flat',L,('\tfor _, buckets := range lsh.buckets {\n\t\tfor _, bucket := range buckets {\n\t\t\tbucket.Reset()\n\t\t}\n\t}\n','\ti := 0\n\tfor i < len(lsh.buckets) {\n\t\ttable := lsh.buckets[i]\n\t\tj := len(table) - 1\n\t\tfor j >= 0 {\n\t\t\ttable[j].Reset()\n\t\t\tj--\n\t\t}\n\t\ti++\n\t}\n'))
R('w5-lsh-add-single',L,('\t\tsecondIndices[i] = lsh.buckets[i][indices[i]].Add(id)\n','\t\tsecondIndices[i] = lsh.AddSingle(i, indices[i], id)\n'))
R('w5-lsh-odd-or',L,('\tn := rand.Int()\n\tif n%2 == 0 {\n\t\treturn n + 1\n\t}\n\treturn n\n','\treturn rand.Int() | 1\n'))
R('w5-lsh-index-mod',L,('\t\tindex &= ((1 << lsh.rangePow) - 1)\n\n\t\tindices[i] = int(index)\n','\t\tindices[i] = int(index & (1<<uint(lsh.rangePow) - 1))\n'))
R('w5-lsh-index-row',L,('\t\tvar index uint = 0\n\n\t\tfor j := 0; j < lsh.k; j++ {\n','\t\tvar index uint = 0\n\t\trow := hashes[lsh.k*i : lsh.k*i+lsh.k]\n\n\t\tfor j := range row {\n'),('\t\t\t\th := uint(hashes[lsh.k*i+j])\n\t\t\t\tindex += h << ((lsh.k - 1 - j) * logBinSize)','\t\t\t\tindex += uint(row[j]) << ((lsh.k - 1 - j) * logBinSize)'),('\t\t\t\tindex += h * uint(hashes[lsh.k*i+j])','\t\t\t\tindex += h * uint(row[j])'),('\t\t\t\th := uint(hashes[lsh.k*i+j])\n\t\t\t\tindex += h << (lsh.k - 1 - j)','\t\t\t\tindex += uint(row[j]) << (lsh.k - 1 - j)'))
R('w5-fifo-count-index',F,('\tindex := len(b.slice)\n\tif index == bucketSize {\n\t\tindex = b.count & bitMask\n\t\tb.slice[index] = id\n\t\tb.count++\n\t\treturn index\n\t}\n\tb.slice = append(b.slice, id)\n\tb.count++\n\treturn index\n','\tindex := b.count & bitMask\n\tb.count++\n\tif len(b.slice) < bucketSize {\n\t\tb.slice = append(b.slice, id)\n\t} else {\n\t\tb.slice[index] = id\n\t}\n\treturn index\n'))
R('w5-fifo-retrieve-order',F,('\tif index >= bucketSize {\n\t\treturn -1\n\t}\n\tif index >= len(b.slice) {\n\t\treturn 0\n\t}\n\treturn b.slice[index]\n','\tif index < len(b.slice) {\n\t\treturn b.slice[index]\n\t}\n\tif index < bucketSize {\n\t\treturn 0\n\t}\n\treturn -1\n'))
R('w5-wta-dense-helper',WT,('\tdense := make([]float64, wh.rangePow)\n\tfor _, pair := range data {\n\t\tdense[pair.Index] = pair.Value\n\t}\n\n\treturn wh.GetHashDense(dense)\n}\n','\treturn wh.GetHashDense(toDense(data, wh.rangePow))\n}\n\nfunc toDense(data []index_value.Pair, size int) []float64 {\n\tdense := make([]float64, size)\n\tfor i := range data {\n\t\tp := &data[i]\n\t\tdense[p.Index] = p.Value\n\t}\n\treturn dense\n}\n'))
R('w5-wta-one-loop',WT,('\tfor i := 0; i < wh.numHashes; i++ {\n\t\thashes[i] = math.MinInt64\n\t\tvalues[i] = math.MinInt64\n\t}\n\n\tfor i := 0; i < wh.numHashes; i++ {\n\t\tiOffset := i * binSize\n','\tfor i := range hashes {\n\t\thashes[i], values[i] = math.MinInt64, math.MinInt64\n\t\tiOffset := i * binSize\n'))
R('w5-wta-new-append',WT,('\tindices := make([]int, numOfBitsToHash*permute)\n','\tindices := make([]int, 0, numOfBitsToHash*permute)\n'),('\t\tfirstIndex := p * numOfBitsToHash\n\t\tlastIndex := firstIndex + numOfBitsToHash\n\t\tcopy(indices[firstIndex:lastIndex], nArray)\n','\t\tindices = append(indices, nArray...)\n'))
R('w5-srp-new-copy',SR,('\t\t\tindices[i][j] = a[j]\n\t\t\trandBits[i][j] = rand.Int()%2 == 0\n\t\t}\n\n\t\tsort.Ints(indices[i])','\t\t\trandBits[i][j] = rand.Int()%2 == 0\n\t\t}\n\n\t\tcopy(indices[i], a[:samSize])\n\t\tsort.Ints(indices[i])'))
R('w5-srp-new-locals',SR,('\t\trandBits[i] = make([]bool, samSize)\n\t\tindices[i] = make([]int, samSize)\n\n\t\tfor j := 0; j < samSize; j++ {\n\t\t\tindices[i][j] = a[j]\n\t\t\trandBits[i][j] = rand.Int()%2 == 0\n\t\t}\n\n\t\tsort.Ints(indices[i])\n','\t\tbits := make([]bool, samSize)\n\t\tsample := make([]int, samSize)\n\n\t\tfor j := range sample {\n\t\t\tsample[j] = a[j]\n\t\t\tbits[j] = rand.Int()%2 == 0\n\t\t}\n\n\t\tsort.Ints(sample)\n\t\tindices[i], randBits[i] = sample, bits\n'))
R('w5-srp-not',SR,('\t\tif s >= 0 {\n\t\t\thashes[i] = 0\n\t\t} else {\n\t\t\thashes[i] = 1\n\t\t}\n','\t\tif !(s >= 0) {\n\t\t\thashes[i] = 1\n\t\t}\n'))
R('w5-srp-range-indices',SR,('\t\tfor j, rb := range srp.randBits[i] {\n\t\t\tv := vector[srp.indices[i][j]]\n\t\t\tif rb {\n','\t\tsigns := srp.randBits[i]\n\t\tfor j, index := range srp.indices[i] {\n\t\t\tv := vector[index]\n\t\t\tif signs[j] {\n'))
R('w5-mh-pop',PQ,('\tn := len(*p)\n\t*p, x = (*p)[0:n-1], (*p)[n-1]\n\treturn\n','\told := *p\n\tlast := len(old) - 1\n\titem := old[last]\n\t*p = old[:last]\n\treturn item\n'))
R('w5-mh-map-int',MH,('\t\tbinIds[i] = int(math.Floor(float64(curHash) / float64(binSize)))\n','\t\tbinIds[i] = int(float64(curHash) / float64(binSize))\n'))
R('w5-mh-mask-var',MH,('\tbuf := make([]byte, 8)\n\n\tmh :=','\tmask := uint64(rng) - 1\n\tbuf := make([]byte, 8)\n\n\tmh :='),('\t\tcurHash := mh.Sum64()\n\n\t\tcurHash = curHash & ((1 << rangePow) - 1)\n','\t\tcurHash := mh.Sum64() & mask\n'))
R('w5-layer-hasher-method',Y,('\tswitch configuration.Global.HashFunction {\n\tcase configuration.WtaHashFunction:\n\t\tnewLayer.wtaHasher = wta_hash.New(k*l, previousLayerNumOfNodes)\n\n\tcase configuration.DensifiedWtaHashFunction:\n\t\tnewLayer.binIds = make([]int, previousLayerNumOfNodes)\n\t\tnewLayer.dwtaHasher =\n\t\t\tdensified_wta_hash.New(k*l, previousLayerNumOfNodes)\n\n\tcase configuration.DensifiedMinhashFunction:\n\t\tnewLayer.minHasher = densified_minhash.New(k*l, previousLayerNumOfNodes)\n\t\tnewLayer.binIds = newLayer.minHasher.GetMap(previousLayerNumOfNodes)\n\n\tcase configuration.SparseRandomProjectionHashFunction:\n\t\tnewLayer.srp =\n\t\t\tsparse_random_projection.New(previousLayerNumOfNodes, k*l, srpRatio)\n\n\tdefault:\n\t\tpanic(fmt.Sprintf("Unexpected hash function %d.",\n\t\t\tconfiguration.Global.HashFunction))\n\t}\n','\tnewLayer.newHasher()\n'),('\tswitch configuration.Global.HashFunction {\n\tcase configuration.WtaHashFunction:\n\t\tl.wtaHasher = wta_hash.New(l.k*l.l, l.previousLayerNumOfNodes)\n\n\tcase configuration.DensifiedWtaHashFunction:\n\t\tl.binIds = make([]int, l.previousLayerNumOfNodes)\n\t\tl.dwtaHasher =\n\t\t\tdensified_wta_hash.New(l.k*l.l, l.previousLayerNumOfNodes)\n\n\tcase configuration.DensifiedMinhashFunction:\n\t\tl.minHasher = densified_minhash.New(l.k*l.l, l.previousLayerNumOfNodes)\n\t\tl.binIds = l.minHasher.GetMap(l.previousLayerNumOfNodes)\n\n\tcase configuration.SparseRandomProjectionHashFunction:\n\t\tl.srp = sparse_random_projection.New(\n\t\t\tl.previousLayerNumOfNodes, l.k*l.l, srpRatio)\n\n\tdefault:\n\t\tpanic(fmt.Sprintf("Unexpected hash function %d.",\n\t\t\tconfiguration.Global.HashFunction))\n\t}\n','\tl.newHasher()\n'),('func (l *Layer) UpdateRandomNodes','// newHasher draws a new hash function.\nfunc (l *Layer) newHasher() {\n\tnumHashes, dim := l.k*l.l, l.previousLayerNumOfNodes\n\tswitch configuration.Global.HashFunction {\n\tcase configuration.WtaHashFunction:\n\t\tl.wtaHasher = wta_hash.New(numHashes, dim)\n\n\tcase configuration.DensifiedWtaHashFunction:\n\t\tl.binIds = make([]int, dim)\n\t\tl.dwtaHasher =\n\t\t\tdensified_wta_hash.New(numHashes, dim)\n\n\tcase configuration.DensifiedMinhashFunction:\n\t\tl.minHasher = densified_minhash.New(numHashes, dim)\n\t\tl.binIds = l.minHasher.GetMap(dim)\n\n\tcase configuration.SparseRandomProjectionHashFunction:\n\t\tl.srp = sparse_random_projection.New(\n\t\t\tdim, numHashes, srpRatio)\n\n\tdefault:\n\t\tpanic(fmt.Sprintf("Unexpected hash function %d.",\n\t\t\tconfiguration.Global.HashFunction))\n\t}\n}\n\nfunc (l *Layer) UpdateRandomNodes'))
R('w5-layer-random-helper',Y,('\t\tcurWeights = make([]float64, numOfNodes*previousLayerNumOfNodes)\n\t\tfor i := range curWeights {\n\t\t\tcurWeights[i] = rand.NormFloat64()*normalDistributionStdDev +\n\t\t\t\tnormalDistributionMean\n\t\t}\n\n\t\tcurBias = make([]float64, numOfNodes)\n\t\tfor i := range curBias {\n\t\t\tcurBias[i] = rand.NormFloat64()*normalDistributionStdDev +\n\t\t\t\tnormalDistributionMean\n\t\t}\n','\t\tcurWeights = randomParameters(numOfNodes * previousLayerNumOfNodes)\n\t\tcurBias = randomParameters(numOfNodes)\n'),('// TODO: duplicated code from New\n','func randomParameters(n int) []float64 {\n\tout := make([]float64, 0, n)\n\tfor len(out) < n {\n\t\tout = append(out, normalDistributionMean+normalDistributionStdDev*rand.NormFloat64())\n\t}\n\treturn out\n}\n\n// TODO: duplicated code from New\n'))
R('w5-layer-node-var',Y,('\t\tnodes[i] = nodes[i].Update(\n','\t\tcurrent := nodes[i].Update(\n'),('\t\tnewLayer.addToHashTable(\n\t\t\tcowId,\n\t\t\tnodes[i].Weights(),\n\t\t\t// TODO: custom length? -> previousLayerNumOfNodes,\n\t\t\tnodes[i].Bias(),\n\t\t\ti)\n','\t\tnodes[i] = current\n\t\tnewLayer.addToHashTable(cowId, current.Weights(), current.Bias(), i)\n'))
R('w5-layer-fill-later',Y,('\t\tnewLayer.addToHashTable(\n\t\t\tcowId,\n\t\t\tnodes[i].Weights(),\n\t\t\t// TODO: custom length? -> previousLayerNumOfNodes,\n\t\t\tnodes[i].Bias(),\n\t\t\ti)\n\t}\n\n\tnewLayer.nodes = nodes\n','\t}\n\n\tnewLayer.nodes = nodes\n\tfor id, n := range nodes {\n\t\tnewLayer.addToHashTable(cowId, n.Weights(), n.Bias(), id)\n\t}\n'))
R('w5-layer-shuffle-perm',Y,('\trandNode := make([]int, numOfNodes)\n\tfor i := range randNode {\n\t\trandNode[i] = i\n\t}\n\tswapRandNode := func(i, j int) {\n\t\trandNode[i], randNode[j] = randNode[j], randNode[i]\n\t}\n\trand.Shuffle(numOfNodes, swapRandNode)\n','\trandNode := rand.Perm(numOfNodes)\n'))
R('w5-layer-shuffle-rand',Y,('\trand.Shuffle(len(l.nodes), swapRandNode)\n','\trand.Shuffle(len(l.randNode), swapRandNode)\n'))
R('w5-layer-less',Y,('\tif p[i].Value == p[j].Value {\n\t\treturn p[i].Index < p[j].Index\n\t}\n\treturn p[i].Value < p[j].Value\n','\ta, b := p[i], p[j]\n\treturn a.Value < b.Value || a.Value == b.Value && a.Index < b.Index\n'))
R('w5-scan-count',X,('\t\tsplitPair := strings.Split(pair, ":")\n\t\tif len(splitPair) != 2 {','\t\tsplitPair := strings.Split(pair, ":")\n\t\tif strings.Count(pair, ":") != 1 {'))
R('w5-scan-or',X,('\tif ok := s.parseLabels(values[0]); !ok {\n\t\treturn false\n\t}\n\tif ok := s.parseFeatures(values[1:len(values)]); !ok {\n\t\treturn false\n\t}\n\n\treturn true\n','\treturn s.parseLabels(values[0]) && s.parseFeatures(values[1:])\n'))
R('w5-scan-named',X,('\tif ok := s.bufScanner.Scan(); !ok || s.bufScanner.Err() != nil {\n\t\treturn false\n\t}\n','\tif !s.bufScanner.Scan() {\n\t\treturn false\n\t}\n\tif s.bufScanner.Err() != nil {\n\t\treturn false\n\t}\n'))
R('w5-net-bias-locals',W,('\t\t\t\ttmp = tmp.SetAdamAvgMomBias(cowId,\n\t\t\t\t\tbeta1*tmp.GetAdamAvgMomBias()+(1-beta1)*tmp.GetTBias())\n\t\t\t\ttmp = tmp.SetAdamAvgVelBias(cowId,\n\t\t\t\t\tbeta2*tmp.GetAdamAvgVelBias()+(1-beta2)*tmp.GetTBias()*tmp.GetTBias())\n\t\t\t\ttmp = tmp.SetBias(cowId,\n\t\t\t\t\ttmp.GetBias()+ratio*tmpLr*tmp.GetAdamAvgMomBias()/(math.Sqrt(tmp.GetAdamAvgVelBias())+eps))\n','\t\t\t\ttb := tmp.GetTBias()\n\t\t\t\tmomBias := beta1*tmp.GetAdamAvgMomBias() + (1-beta1)*tb\n\t\t\t\tvelBias := beta2*tmp.GetAdamAvgVelBias() + (1-beta2)*tb*tb\n\t\t\t\ttmp = tmp.SetBias(cowId, tmp.GetBias()+tmpLr*momBias/(math.Sqrt(velBias)+eps))\n\t\t\t\ttmp = tmp.SetAdamAvgMomBias(cowId, momBias)\n\t\t\t\ttmp = tmp.SetAdamAvgVelBias(cowId, velBias)\n'))
R('w5-net-labels-map',W,('\tfor _, v := range slice {\n\t\tif v == value {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false\n','\tfound := false\n\tfor i := 0; i < len(slice) && !found; i++ {\n\t\tfound = slice[i] == value\n\t}\n\treturn found\n'))
R('w5-net-iter',W,('\t\ttmpLr = n.learningRate *\n\t\t\tmath.Sqrt(1-math.Pow(beta2, float64(iter)+1.0)) /\n\t\t\t(1.0 - math.Pow(beta1, float64(iter)+1.0))\n','\t\tt := float64(iter) + 1\n\t\ttmpLr *= math.Sqrt(1 - math.Pow(beta2, t)) / (1 - math.Pow(beta1, t))\n'))
def RA(name,file,*edits):
    ENTRIES.append(dict(name=name,file=file,edits=[dict(old=o,new=n,all=True) for o,n in edits]))
RA('w5-mh-shared-tail',MH,('\thashes := make([]int, dm.numHashes)\n\thashArray := make([]int, dm.numHashes)\n\n\tfor i := range hashes {\n\t\thashes[i] = math.MinInt64\n\t}\n\n\tfor i := 0; i < topK; i++ {\n\t\tpair := pq.Pop().(indexValuePair)\n\t\tindex := pair.index\n\t\tbinId := binIds[index]\n\t\tif hashes[binId] < index {\n\t\t\thashes[binId] = index\n\t\t}\n\t}\n\n\tfor i, next := range hashes {\n\t\tif next != math.MinInt64 {\n\t\t\thashArray[i] = next\n\t\t\tcontinue\n\t\t}\n\n\t\tfor count := 1; next == math.MinInt64; count++ {\n\t\t\tindex := minInt(dm.GetRandDoubleHash(i, count), dm.numHashes-1)\n\t\t\tnext = hashes[index] // Kills GPU.\n\n\t\t\tif count > 100 { // Densification failure.\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\n\t\thashArray[i] = next\n\t}\n\n\treturn hashArray\n}\n','\treturn dm.hashSelected(binIds, pq)\n}\n'),('func positiveOddRandomInt','func (dm *DensifiedMinhash) hashSelected(binIds []int, pq indexValuePriorityQueue) []int {\n\thashes := make([]int, dm.numHashes)\n\thashArray := make([]int, dm.numHashes)\n\n\tfor i := range hashes {\n\t\thashes[i] = math.MinInt64\n\t}\n\n\tfor _, pair := range pq {\n\t\tindex := pair.index\n\t\tbinId := binIds[index]\n\t\tif hashes[binId] < index {\n\t\t\thashes[binId] = index\n\t\t}\n\t}\n\n\tfor i, next := range hashes {\n\t\tif next != math.MinInt64 {\n\t\t\thashArray[i] = next\n\t\t\tcontinue\n\t\t}\n\n\t\tfor count := 1; next == math.MinInt64; count++ {\n\t\t\tindex := minInt(dm.GetRandDoubleHash(i, count), dm.numHashes-1)\n\t\t\tnext = hashes[index] // Kills GPU.\n\n\t\t\tif count > 100 { // Densification failure.\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\n\t\thashArray[i] = next\n\t}\n\n\treturn hashArray\n}\n\nfunc positiveOddRandomInt'))
RA('w5-mh-shared-pop',MH,('\thashes := make([]int, dm.numHashes)\n\thashArray := make([]int, dm.numHashes)\n\n\tfor i := range hashes {\n\t\thashes[i] = math.MinInt64\n\t}\n\n\tfor i := 0; i < topK; i++ {\n\t\tpair := pq.Pop().(indexValuePair)\n\t\tindex := pair.index\n\t\tbinId := binIds[index]\n\t\tif hashes[binId] < index {\n\t\t\thashes[binId] = index\n\t\t}\n\t}\n\n\tfor i, next := range hashes {\n\t\tif next != math.MinInt64 {\n\t\t\thashArray[i] = next\n\t\t\tcontinue\n\t\t}\n\n\t\tfor count := 1; next == math.MinInt64; count++ {\n\t\t\tindex := minInt(dm.GetRandDoubleHash(i, count), dm.numHashes-1)\n\t\t\tnext = hashes[index] // Kills GPU.\n\n\t\t\tif count > 100 { // Densification failure.\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\n\t\thashArray[i] = next\n\t}\n\n\treturn hashArray\n}\n','\treturn dm.hashSelected(binIds, &pq, topK)\n}\n'),('func positiveOddRandomInt','func (dm *DensifiedMinhash) hashSelected(binIds []int, pq *indexValuePriorityQueue, topK int) []int {\n\thashes := make([]int, dm.numHashes)\n\thashArray := make([]int, dm.numHashes)\n\n\tfor i := range hashes {\n\t\thashes[i] = math.MinInt64\n\t}\n\n\tfor i := 0; i < topK; i++ {\n\t\tpair := pq.Pop().(indexValuePair)\n\t\tindex := pair.index\n\t\tbinId := binIds[index]\n\t\tif hashes[binId] < index {\n\t\t\thashes[binId] = index\n\t\t}\n\t}\n\n\tfor i, next := range hashes {\n\t\tif next != math.MinInt64 {\n\t\t\thashArray[i] = next\n\t\t\tcontinue\n\t\t}\n\n\t\tfor count := 1; next == math.MinInt64; count++ {\n\t\t\tindex := minInt(dm.GetRandDoubleHash(i, count), dm.numHashes-1)\n\t\t\tnext = hashes[index] // Kills GPU.\n\n\t\t\tif count > 100 { // Densification failure.\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\n\t\thashArray[i] = next\n\t}\n\n\treturn hashArray\n}\n\nfunc positiveOddRandomInt'))
RA('w5-main-close',M,('\tdefer file.Close()\n','\tdefer func() {\n\t\t_ = file.Close()\n\t}()\n'))
RA('w5-main-batch-append',M,('\texamples := make([]dataset.Example, 0, config.BatchSize)\n','\tvar examples []dataset.Example\n'))
ENTRIES=[e for e in ENTRIES if e]
