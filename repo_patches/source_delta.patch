From 92cd5a0189f00615759b5076c94fcfd706f8fe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:42 +0000
Subject: [PATCH 01/21] fix: return the copy from the slice copying helpers of
 node

---
 node/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index 71cc12f..7db936c 100644
--- a/node/node.go
+++ b/node/node.go
@@ -521,13 +521,13 @@ func (t *NodeTrain) clone(cowId int) *NodeTrain {
 func copyIntSlice(s []int) []int {
 	newS := make([]int, len(s))
 	copy(newS, s)
-	return s
+	return newS
 }
 
 func copyFloat64Slice(s []float64) []float64 {
 	newS := make([]float64, len(s))
 	copy(newS, s)
-	return s
+	return newS
 }
 
 func intSliceContains(slice []int, value int) bool {
-- 
2.43.0


From 115f13000681372f27e71d90fd4d0ba6d5fd6e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:43 +0000
Subject: [PATCH 02/21] fix: scale the first-layer bias gradient by the
 learning rate

---
 node/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/node.go b/node/node.go
index 7db936c..4b7d019 100644
--- a/node/node.go
+++ b/node/node.go
@@ -406,7 +406,7 @@ func (nd *Node) BackPropagateFirstLayer(
 		// TODO: ?? biasgradTsq = biasgradT * biasgradT
 		n.base.tBias += biasgradT
 	} else {
-		n.base.mirrorBias += learningRate + train[inputId].lastDeltaforBPs
+		n.base.mirrorBias += learningRate * train[inputId].lastDeltaforBPs
 	}
 
 	train[inputId].activeinputIds = 0 // deactivate inputIDs
-- 
2.43.0


From aa1ecbd63fe3185139c6e75f68c4ed6df2423eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:43 +0000
Subject: [PATCH 03/21] fix: average the whole softmax error signal over the
 batch

---
 node/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index 4b7d019..985b444 100644
--- a/node/node.go
+++ b/node/node.go
@@ -315,8 +315,8 @@ func (nd *Node) ComputeExtaStatsForSoftMax(
 	//TODO:check gradient
 
 	if intSliceContains(labels, n.base.idInLayer) {
-		train[inputId].lastDeltaforBPs = 1.0/float64(len(labels)) -
-			train[inputId].lastActivations/float64(n.base.currentBatchsize)
+		train[inputId].lastDeltaforBPs = (1.0/float64(len(labels)) -
+			train[inputId].lastActivations) / float64(n.base.currentBatchsize)
 	} else {
 		train[inputId].lastDeltaforBPs = -train[inputId].lastActivations /
 			float64(n.base.currentBatchsize)
-- 
2.43.0


From 26d3c98dd97951e78e42015efa08a211675c4a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:08 +0000
Subject: [PATCH 04/21] fix: keep SGD mirror weights separate from the weights
 in use

---
 node/node.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index 985b444..a6a0baf 100644
--- a/node/node.go
+++ b/node/node.go
@@ -75,7 +75,6 @@ func NewNode(
 			weights:          weights,
 			bias:             bias,
 			mirrorBias:       bias,
-			mirrorWeights:    weights, // TODO: correct? not present in C++
 		},
 		train: nil,
 	}
@@ -84,6 +83,8 @@ func NewNode(
 		newNode.base.adamAvgMom = adamAvgMom
 		newNode.base.adamAvgVel = adamAvgVel
 		newNode.base.t = make([]float64, adamTDim)
+	} else {
+		newNode.base.mirrorWeights = copyFloat64Slice(weights)
 	}
 
 	train := make([]*NodeTrain, batchsize)
@@ -214,12 +215,13 @@ func (nd *Node) Update(
 	n.base.weights = weights
 	n.base.bias = bias
 	n.base.mirrorBias = bias
-	n.base.mirrorWeights = weights // TODO: correct? not present in C++
 
 	if configuration.Global.UseAdam {
 		n.base.adamAvgMom = adamAvgMom
 		n.base.adamAvgVel = adamAvgVel
 		n.base.t = make([]float64, adamTDim)
+	} else {
+		n.base.mirrorWeights = copyFloat64Slice(weights)
 	}
 
 	n.train = trainBlob
-- 
2.43.0


From 635745b3be283e77b7fbc04a13b0e83c0b298c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:08 +0000
Subject: [PATCH 05/21] fix: keep bucket addresses of all hash functions inside
 the table

---
 lsh/lsh.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lsh/lsh.go b/lsh/lsh.go
index eda739c..c3b0733 100644
--- a/lsh/lsh.go
+++ b/lsh/lsh.go
@@ -85,9 +85,7 @@ func (lsh *LSH) HashesToIndex(hashes []int) []int {
 			}
 		}
 
-		if hashFunction == configuration.DensifiedMinhashFunction {
-			index &= ((1 << lsh.rangePow) - 1)
-		}
+		index &= ((1 << lsh.rangePow) - 1)
 
 		indices[i] = int(index)
 	}
-- 
2.43.0


From 58cd8c265ee70e099a0fdc6caa7eb41af6050e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:09 +0000
Subject: [PATCH 06/21] fix: hash sparse vectors by their declared indices in
 WtaHash

---
 wta_hash/wta_hash.go | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/wta_hash/wta_hash.go b/wta_hash/wta_hash.go
index a8dc16e..32d305b 100644
--- a/wta_hash/wta_hash.go
+++ b/wta_hash/wta_hash.go
@@ -60,32 +60,14 @@ func New(numHashes, numOfBitsToHash int) *WtaHash {
 }
 
 func (wh *WtaHash) GetHash(data []index_value.Pair) []int {
-	hashes := make([]int, wh.numHashes)
-	values := make([]float64, wh.numHashes)
-
-	for i := 0; i < wh.numHashes; i++ {
-		hashes[i] = math.MinInt64
-		values[i] = math.MinInt64
-	}
-
-	for i := 0; i < wh.numHashes; i++ {
-		iOffset := i * binSize
-
-		for j := 0; j < binSize; j++ {
-			jOffset := iOffset + j
-
-			curIndex := wh.indices[jOffset]
-			if value := data[curIndex].Value; values[i] < value {
-				hashes[i] = curIndex
-				values[i] = value
-			}
-		}
+	dense := make([]float64, wh.rangePow)
+	for _, pair := range data {
+		dense[pair.Index] = pair.Value
 	}
 
-	return hashes
+	return wh.GetHashDense(dense)
 }
 
-// TODO: avoid code duplication
 func (wh *WtaHash) GetHashDense(data []float64) []int {
 	hashes := make([]int, wh.numHashes)
 	values := make([]float64, wh.numHashes)
-- 
2.43.0


From b4b9c5d9c425c3cc25407c995368c1179c8d39b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:09 +0000
Subject: [PATCH 07/21] fix: hash sparse vectors by their declared indices in
 DensifiedWtaHash

---
 densified_wta_hash/densified_wta_hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densified_wta_hash/densified_wta_hash.go b/densified_wta_hash/densified_wta_hash.go
index 1dd3794..a943472 100644
--- a/densified_wta_hash/densified_wta_hash.go
+++ b/densified_wta_hash/densified_wta_hash.go
@@ -84,8 +84,8 @@ func (dw *DensifiedWtaHash) GetHash(data []index_value.Pair) []int {
 
 	for p := 0; p < dw.permute; p++ {
 		binIndex := p * dw.rangePow
-		for i, pair := range data {
-			innerIndex := binIndex + i
+		for _, pair := range data {
+			innerIndex := binIndex + pair.Index
 			binId := dw.indices[innerIndex]
 			if binId < dw.numHashes &&
 				(!items[binId].init || items[binId].value < pair.Value) {
-- 
2.43.0


From d68dc7bd0182c39c75c4c0a1e3da476a9d19beb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 08/21] fix: compute densification probes of DensifiedWtaHash
 in 32 bits so that they stay in range

---
 densified_wta_hash/densified_wta_hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densified_wta_hash/densified_wta_hash.go b/densified_wta_hash/densified_wta_hash.go
index a943472..b1e0a2b 100644
--- a/densified_wta_hash/densified_wta_hash.go
+++ b/densified_wta_hash/densified_wta_hash.go
@@ -163,8 +163,8 @@ func (dw *DensifiedWtaHash) GetHashEasy(data []float64, topK int) []int {
 }
 
 func (dw *DensifiedWtaHash) GetRandDoubleHash(binId, count int) int {
-	toHash := ((uint(binId) + 1) << 6) + uint(count)
-	return int((uint(dw.randHash[0]) * toHash << 3) >> (32 - dw.logNumHash)) // logNumHash needs to be ceiled.
+	toHash := ((uint32(binId) + 1) << 6) + uint32(count)
+	return int((uint32(dw.randHash[0]) * toHash << 3) >> (32 - dw.logNumHash)) // logNumHash needs to be ceiled.
 }
 
 func positiveOddRandomInt() int {
-- 
2.43.0


From 2cd9e96df11b71b1fbc641cf5c64809149c12bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 09/21] fix: compute densification probes of DensifiedMinhash
 in 32 bits so that they stay in range

---
 densified_minhash/densified_minhash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index 85addf4..14005f5 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -194,8 +194,8 @@ func (dm *DensifiedMinhash) GetHashEasyDense(
 }
 
 func (dm *DensifiedMinhash) GetRandDoubleHash(binId, count int) int {
-	toHash := ((uint(binId) + 1) << 6) + uint(count)
-	return int((uint(dm.randHash[0]) * toHash << 3) >> (32 - dm.logNumHash)) // logNumHash needs to be ceiled.
+	toHash := ((uint32(binId) + 1) << 6) + uint32(count)
+	return int((uint32(dm.randHash[0]) * toHash << 3) >> (32 - dm.logNumHash)) // logNumHash needs to be ceiled.
 }
 
 func (dm *DensifiedMinhash) GetMap(n int) []int {
-- 
2.43.0


From c2216837a7b22b98d5b23f1a9cc54b5b6af29d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 10/21] fix: hash sparse vectors by their declared indices in
 DensifiedMinhash

---
 densified_minhash/densified_minhash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index 14005f5..f57698a 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -88,13 +88,13 @@ func (dm *DensifiedMinhash) GetHashEasy(
 	// O(1) and apply minhash on retuned index.
 	pq := make(indexValuePriorityQueue, topK, topK+1)
 	for index, value := range data[0:topK] {
-		pq[index] = indexValuePair{index, value.Value}
+		pq[index] = indexValuePair{value.Index, value.Value}
 	}
 	heap.Init(&pq)
 
 	dataLen := len(data)
 	for index := topK; index < dataLen; index++ {
-		heap.Push(&pq, indexValuePair{index, data[index].Value})
+		heap.Push(&pq, indexValuePair{data[index].Index, data[index].Value})
 		heap.Pop(&pq)
 	}
 
-- 
2.43.0


From cb6031e07a9e4e303725f60ceeb216fce41ccc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 11/21] fix: accept inputs shorter than topK in
 DensifiedMinhash

---
 densified_minhash/densified_minhash.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index f57698a..205f371 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -86,6 +86,7 @@ func (dm *DensifiedMinhash) GetHashEasy(
 	// Read the data and add it to priority queue O(dlogk approx 7d)
 	// with index as key and values as priority value, get topk index
 	// O(1) and apply minhash on retuned index.
+	topK = minInt(topK, len(data))
 	pq := make(indexValuePriorityQueue, topK, topK+1)
 	for index, value := range data[0:topK] {
 		pq[index] = indexValuePair{value.Index, value.Value}
@@ -144,6 +145,7 @@ func (dm *DensifiedMinhash) GetHashEasyDense(
 	// Read the data and add it to priority queue O(dlogk approx 7d)
 	// with index as key and values as priority value, get topk index
 	// O(1) and apply minhash on retuned index.
+	topK = minInt(topK, len(data))
 	pq := make(indexValuePriorityQueue, topK, topK+1)
 	for index, value := range data[0:topK] {
 		pq[index] = indexValuePair{index, value}
-- 
2.43.0


From ce26d08c985cf7844d1069cdb70c78ca65c0492b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 12/21] fix: keep the highest values in the DensifiedMinhash
 priority queue

---
 densified_minhash/index_value_pairs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densified_minhash/index_value_pairs.go b/densified_minhash/index_value_pairs.go
index 57f0c80..42c0202 100644
--- a/densified_minhash/index_value_pairs.go
+++ b/densified_minhash/index_value_pairs.go
@@ -20,8 +20,8 @@ func (p indexValuePriorityQueue) Len() int {
 }
 
 func (p indexValuePriorityQueue) Less(i, j int) bool {
-	// lower is better
-	return p[i].value > p[j].value // TODO: check if correct
+	// lower first, so that the lowest value is dropped and the top ones are kept
+	return p[i].value < p[j].value
 }
 
 func (p indexValuePriorityQueue) Swap(i, j int) {
-- 
2.43.0


From 005b12cbac2324c51f80b638a2817c1e5211f305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 13/21] fix: map indices to existing bins for inputs of 63 or
 more dimensions in DensifiedMinhash

---
 densified_minhash/densified_minhash.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index 205f371..ca95d39 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -203,7 +203,8 @@ func (dm *DensifiedMinhash) GetRandDoubleHash(binId, count int) int {
 func (dm *DensifiedMinhash) GetMap(n int) []int {
 	binIds := make([]int, n)
 
-	rng := 1 << dm.rangePow
+	rangePow := minInt(dm.rangePow, 32) // wider ranges do not fit the arithmetic below
+	rng := 1 << rangePow
 
 	// The number of times the range is larger than
 	// the total number of hashes we need.
@@ -220,7 +221,7 @@ func (dm *DensifiedMinhash) GetMap(n int) []int {
 		mh.Write(buf[:bufLen])
 		curHash := mh.Sum64()
 
-		curHash = curHash & ((1 << dm.rangePow) - 1)
+		curHash = curHash & ((1 << rangePow) - 1)
 		binIds[i] = int(math.Floor(float64(curHash) / float64(binSize)))
 	}
 
-- 
2.43.0


From 48285d62baba8ae869a23dbcec769131b132280c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 14/21] fix: do not rely on the order of sparse entries in
 SparseRandomProjection

---
 .../sparse_random_projection.go               | 33 +++----------------
 1 file changed, 4 insertions(+), 29 deletions(-)

diff --git a/sparse_random_projection/sparse_random_projection.go b/sparse_random_projection/sparse_random_projection.go
index 87e9d79..f54f2ea 100644
--- a/sparse_random_projection/sparse_random_projection.go
+++ b/sparse_random_projection/sparse_random_projection.go
@@ -85,35 +85,10 @@ func (srp *SparseRandomProjection) GetHash(vector []float64) []int {
 func (srp *SparseRandomProjection) GetHashSparse(
 	data []index_value.Pair,
 ) []int {
-	length := len(data)
-	hashes := make([]int, srp.numHashes)
-
-	for p := range hashes {
-		s := 0.0
-
-		for i, j := 0, 0; i < length && j < srp.samSize; {
-			if data[i].Index == srp.indices[p][j] {
-				v := data[i].Value
-				if srp.randBits[p][j] {
-					s += v
-				} else {
-					s -= v
-				}
-				i++
-				j++
-			} else if data[i].Index < srp.indices[p][j] {
-				i++
-			} else {
-				j++
-			}
-		}
-
-		if s >= 0 {
-			hashes[p] = 0
-		} else {
-			hashes[p] = 1
-		}
+	dense := make([]float64, srp.dim)
+	for _, pair := range data {
+		dense[pair.Index] = pair.Value
 	}
 
-	return hashes
+	return srp.GetHash(dense)
 }
-- 
2.43.0


From 734c24cb1c77cc1adc964cf1738fc594b46fc4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:26 +0000
Subject: [PATCH 15/21] fix: keep true labels above the candidate threshold
 with few hash tables

---
 layer/layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/layer.go b/layer/layer.go
index 9397dcb..07e55b1 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -333,7 +333,7 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 			// Make sure that the true label node is in candidates
 			if l.nodeType == node.Softmax && len(label) > 0 {
 				for _, labelValue := range label {
-					counts[labelValue] = l.l
+					counts[labelValue] = threshold + 1
 				}
 			}
 
-- 
2.43.0


From cab6c43c34007790930f2add79803b951404fbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:26 +0000
Subject: [PATCH 16/21] fix: accept any number of labels and nodes in random
 node selection

---
 layer/layer.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/layer/layer.go b/layer/layer.go
index 07e55b1..adc9263 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -26,7 +26,6 @@ const topK = 30
 const normalDistributionStdDev = 0.01
 const normalDistributionMean = 0.0
 const threshold = 2
-const mapLen = 325_056
 
 type Layer struct {
 	cowId                   int // "thread" ID for copy on write
@@ -358,25 +357,26 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 		case configuration.LayerMode2:
 			if l.nodeType == node.Softmax {
 				length = int(math.Floor(float64(len(l.nodes)) * sparsity))
-				activeNodesPerLayer[layerIndex+1] = make([]index_value.Pair, length)
+				newActiveNodes := make([]index_value.Pair, 0, length)
 
-				bs := make([]bool, mapLen) // bitset
-				tmpSize := 0
-				if l.nodeType == node.Softmax && len(label) > 0 {
-					for i, labelValue := range label {
-						activeNodesPerLayer[layerIndex+1][i].Index = labelValue
+				bs := make([]bool, len(l.nodes)) // bitset
+				for _, labelValue := range label {
+					if !bs[labelValue] {
+						newActiveNodes = append(
+							newActiveNodes, index_value.Pair{Index: labelValue})
 						bs[labelValue] = true
 					}
-					tmpSize = len(label)
 				}
-				for tmpSize < length {
+				for len(newActiveNodes) < length {
 					v := rand.Intn(len(l.nodes))
 					if !bs[v] {
-						activeNodesPerLayer[layerIndex+1][tmpSize].Index = v
+						newActiveNodes = append(
+							newActiveNodes, index_value.Pair{Index: v})
 						bs[v] = true
-						tmpSize++
 					}
 				}
+				length = len(newActiveNodes)
+				activeNodesPerLayer[layerIndex+1] = newActiveNodes
 			}
 		case configuration.LayerMode3:
 			if l.nodeType == node.Softmax {
-- 
2.43.0


From fbc8e51c5bef192f3fb0a9d89a9cdca257b27098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:26 +0000
Subject: [PATCH 17/21] fix: select only as many nodes as requested, true
 labels first, in top-k selection

---
 layer/layer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/layer/layer.go b/layer/layer.go
index adc9263..f8b0e58 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -381,7 +381,6 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 		case configuration.LayerMode3:
 			if l.nodeType == node.Softmax {
 				length = int(math.Floor(float64(len(l.nodes)) * sparsity))
-				activeNodesPerLayer[layerIndex+1] = make([]index_value.Pair, length)
 
 				sortW := make([]index_value.Pair, 0)
 				what := 0
@@ -393,7 +392,7 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 					if intSliceContains(label, s) {
 						sortW = append(sortW, index_value.Pair{
 							Index: s,
-							Value: -1000000000, // TODO: maybe min int?
+							Value: math.Inf(-1),
 						})
 						what++
 					} else {
@@ -406,7 +405,12 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 
 				sort.Sort(indexValuePairByValue(sortW))
 
-				for i, sw := range sortW {
+				if length < what { // make room for all true labels
+					length = what
+				}
+				activeNodesPerLayer[layerIndex+1] = make([]index_value.Pair, length)
+
+				for i, sw := range sortW[:length] {
 					activeNodesPerLayer[layerIndex+1][i].Index = sw.Index
 					if intSliceContains(label, sw.Index) {
 						in = 1
-- 
2.43.0


From 4f43373828bb5299816bb3f787bd4838d8279cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 18/21] fix: count repeated labels once in sampling node
 selection

---
 layer/layer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layer/layer.go b/layer/layer.go
index f8b0e58..0e35b8f 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -457,9 +457,11 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 			// Make sure that the true label node is in candidates
 			if l.nodeType == node.Softmax && len(label) > 0 {
 				for _, labelValue := range label {
+					if counts[labelValue] == -1 {
+						countsSize++
+					}
 					counts[labelValue] = l.l
 				}
-				countsSize = len(label)
 			}
 
 			for _, iVal := range actives {
-- 
2.43.0


From e13095b63eb94e74ef2203664756d933f4baa775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 19/21] fix: refill the hash tables whenever the hash functions
 are replaced

---
 network/network.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/network/network.go b/network/network.go
index 9d9e8cc..9f983b4 100644
--- a/network/network.go
+++ b/network/network.go
@@ -246,7 +246,8 @@ func (ne *Network) ProcessInput(
 
 	for layerIndex, layer := range hiddenLayers {
 		curLayerSparsity := n.sparsity[layerIndex]
-		tmpRehash := rehash && curLayerSparsity < 1.0
+		// tables built with other hash functions are of no use after a rebuild
+		tmpRehash := (rehash || rebuild) && curLayerSparsity < 1.0
 		tmpRebuild := rebuild && curLayerSparsity < 1.0
 
 		if tmpRehash {
-- 
2.43.0


From 0bffc09998026fb835e7aaaf792b49e4665b3e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:28 +0000
Subject: [PATCH 20/21] fix: do not divide by zero when a maintenance interval
 is shorter than a batch

---
 goslide.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/goslide.go b/goslide.go
index ce796c2..623c4c1 100644
--- a/goslide.go
+++ b/goslide.go
@@ -143,11 +143,13 @@ func trainSvmEpoch(cowId, numBatches int, myNet *network.Network, epoch int) {
 		rebuild := false
 
 		if config.LayerMode == configuration.LayerMode1 || config.LayerMode == configuration.LayerMode4 {
-			if (epoch*numBatches+i)%(config.Rehash/config.BatchSize) == (config.Rehash/config.BatchSize - 1) {
+			rehashBatches := maxInt(config.Rehash/config.BatchSize, 1)
+			if (epoch*numBatches+i)%rehashBatches == rehashBatches-1 {
 				rehash = true
 			}
 			// TODO: probably there was an error in the original code (using rehash at right)
-			if (epoch*numBatches+i)%(config.Rebuild/config.BatchSize) == (config.Rebuild/config.BatchSize - 1) {
+			rebuildBatches := maxInt(config.Rebuild/config.BatchSize, 1)
+			if (epoch*numBatches+i)%rebuildBatches == rebuildBatches-1 {
 				rebuild = true
 			}
 		}
@@ -163,6 +165,13 @@ func trainSvmEpoch(cowId, numBatches int, myNet *network.Network, epoch int) {
 	}
 }
 
+func maxInt(a, b int) int {
+	if a > b {
+		return a
+	}
+	return b
+}
+
 func evaluateSvm(cowId, numBatchesTest int, myNet *network.Network, iter int) {
 	config := configuration.Global
 
-- 
2.43.0


From 70341eba92091d3e51c23e1f64b9a7ccddfa91b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:31 +0000
Subject: [PATCH 21/21] fix: report accuracy over the examples actually
 evaluated

A test file with fewer lines than the batches asked for was counted as if
every batch were full, so the accuracy reported was too low.
---
 goslide.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/goslide.go b/goslide.go
index 623c4c1..8d65c60 100644
--- a/goslide.go
+++ b/goslide.go
@@ -176,6 +176,7 @@ func evaluateSvm(cowId, numBatchesTest int, myNet *network.Network, iter int) {
 	config := configuration.Global
 
 	totCorrect := 0
+	totExamples := 0
 
 	file, err := os.Open(config.TestData)
 	if err != nil {
@@ -205,7 +206,7 @@ func evaluateSvm(cowId, numBatchesTest int, myNet *network.Network, iter int) {
 			logger.Fatalf("Error at line %d. %v", scanner.LineNumber(), err)
 		}
 
-		logger.Println(config.BatchSize, "records, with", numFeatures,
+		logger.Println(len(examples), "records, with", numFeatures,
 			"features and", numLabels, "labels")
 
 		var correctPredict int
@@ -214,18 +215,27 @@ func evaluateSvm(cowId, numBatchesTest int, myNet *network.Network, iter int) {
 		correctPredict, myNet = myNet.PredictClass(cowId, examples)
 
 		totCorrect += correctPredict
+		totExamples += len(examples)
 
 		logger.Println("Iter", i, "-",
-			float64(totCorrect)/(float64(config.BatchSize)*(float64(i)+1)),
+			accuracy(totCorrect, totExamples),
 			"correct")
 	}
 
 	logger.Println("Over all:",
-		float64(totCorrect)/(float64(numBatchesTest)*float64(config.BatchSize)),
+		accuracy(totCorrect, totExamples),
 		"correct")
 
 	logger.Println(iter, globalTime,
-		float64(totCorrect)/(float64(numBatchesTest)*float64(config.BatchSize)))
+		accuracy(totCorrect, totExamples))
+}
+
+// accuracy is the fraction of the evaluated examples predicted correctly.
+func accuracy(correct, evaluated int) float64 {
+	if evaluated == 0 {
+		return 0
+	}
+	return float64(correct) / float64(evaluated)
 }
 
 func validateArguments() {
-- 
2.43.0

