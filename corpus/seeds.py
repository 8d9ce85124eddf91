SEEDS=[]
def S(id,prop,pkg,edits,demo,needs,breaks,**k):
    SEEDS.append(dict(id=id,prop=prop,pkg=pkg,edits=edits,demo=demo.lstrip('\n'),needs=needs,breaks=breaks,**k))
X='dataset/xcrepo/xcrepo.go'; F='bucket/fifo/fifo.go'; L='lsh/lsh.go'; N='node/node.go'; Y='layer/layer.go'; W='network/network.go'
S('c01-label-bound-cached','C01','dataset/xcrepo',[(X,"		if label < 0 || label >= s.numLabels {\n","		if label < 0 || (label >= s.numLabels && i < 64) {\n")],'''
package xcrepo_test

import (
	"strings"
	"testing"

	"github.com/nlpodyssey/goslide/dataset/xcrepo"
)

func TestZZDemo(t *testing.T) {
	labels := strings.Repeat("1,", 70) + "9"
	s := xcrepo.NewScanner(strings.NewReader("1 5 3\\n" + labels + " 1:1\\n"))
	if s.Scan() {
		for _, l := range s.Example().Labels {
			if l < 0 || l >= s.NumLabels() {
				t.Fatalf("delivered label %d with %d labels", l, s.NumLabels())
			}
		}
	}
}
''','an example with more than 64 labels whose later label is out of range','labels after the 64th are not bounds-checked')
S('c02-empty-trailing-token','C02','dataset/xcrepo',[(X,"		splitPair := strings.Split(pair, \":\")\n		if len(splitPair) != 2 {\n","		splitPair := strings.Split(pair, \":\")\n		if len(pair) == 0 && i == lenPairs-1 && i > 0 {\n			s.example.Features = s.example.Features[:i]\n			break\n		}\n		if len(splitPair) != 2 {\n")],'''
package xcrepo_test

import (
	"strings"
	"testing"

	"github.com/nlpodyssey/goslide/dataset/xcrepo"
)

func TestZZDemo(t *testing.T) {
	s := xcrepo.NewScanner(strings.NewReader("1 5 3\\n1 1:1 \\n"))
	if s.Scan() || s.Err() == nil {
		t.Fatal("malformed line accepted")
	}
}
''','a line ending in a blank separator','a trailing empty token is silently skipped instead of being reported')
S('c03-value-precision','C03','dataset/xcrepo',[(X,"		featureValue, err := strconv.ParseFloat(splitPair[1], 64)\n","		featureValue, err := strconv.ParseFloat(splitPair[1], 32)\n")],'''
package xcrepo_test

import (
	"strings"
	"testing"

	"github.com/nlpodyssey/goslide/dataset/xcrepo"
)

func TestZZDemo(t *testing.T) {
	s := xcrepo.NewScanner(strings.NewReader("1 5 3\\n1 1:0.1\\n"))
	if !s.Scan() || s.Example().Features[0].Value != 0.1 {
		t.Fatal("value not reproduced", s.Example(), s.Err())
	}
}
''','a value not representable in single precision','feature values are rounded to single precision')
S('c07-overwrite-slot','C07','bucket/fifo',[(F,"		index = b.count & bitMask\n","		index = (b.count + b.count/65536) & bitMask\n")],'''
package fifo_test

import (
	"testing"

	"github.com/nlpodyssey/goslide/bucket/fifo"
)

func TestZZDemo(t *testing.T) {
	b := fifo.New()
	for n := 0; n < 70000; n++ {
		if i := b.Add(n); i != n%128 {
			t.Fatalf("addition %d went to slot %d", n, i)
		}
	}
}
''','more than 65536 additions to one bucket without a reset','the overwrite position drifts')
S('c08-raw-reuse','C08','lsh',[(L,"	for i := range rawResults {\n		rawResults[i] = lsh.buckets[i][indices[i]].GetAll()\n","	for i := range rawResults {\n		if i > 0 && indices[i] == indices[i-1] {\n			rawResults[i] = rawResults[i-1]\n			continue\n		}\n		rawResults[i] = lsh.buckets[i][indices[i]].GetAll()\n")],'''
package lsh

import "testing"

func TestZZDemo(t *testing.T) {
	x := New(2, 3, 4)
	x.AddSingle(1, 5, 7)
	r := x.RetrieveRaw([]int{5, 5, 6})
	if len(r[0]) != 0 || len(r[1]) != 1 || r[1][0] != 7 || len(r[2]) != 0 {
		t.Fatal("wrong buckets read", r)
	}
}
''','equal addresses in two adjacent tables with different content','a query returns the previous table\'s bucket')
S('c09-clear-last','C09','lsh',[(L,"		for _, bucket := range buckets {\n			bucket.Reset()\n","		for i := len(buckets) - 1; i > 0; i-- {\n			buckets[i-1].Reset()\n")],'''
package lsh

import "testing"

func TestZZDemo(t *testing.T) {
	x := New(2, 2, 4)
	x.AddSingle(1, 15, 7)
	x.Clear()
	if r := x.RetrieveRaw([]int{15, 15}); len(r[0])+len(r[1]) != 0 {
		t.Fatal("bucket not emptied", r)
	}
}
''','an identifier inserted at the highest bucket address before the tables are cleared','the last bucket of every table is not emptied')
S('c10-mask-in-build','C10','lsh',[(L,"buckets[i] = newBuckets\n","buckets[i] = newBuckets[: len(newBuckets)-len(newBuckets)/(1<<12) : len(newBuckets)]\n")],'''
package lsh

import (
	"testing"

	"github.com/nlpodyssey/goslide/configuration"
)

func TestZZDemo(t *testing.T) {
	g := configuration.Default()
	g.HashFunction = configuration.SparseRandomProjectionHashFunction
	configuration.Global = g
	x := New(13, 1, 13)
	h := make([]int, 13)
	for i := range h {
		h[i] = 1
	}
	x.Add(x.HashesToIndex(h), 3)
}
''','tables with 2^12 or more buckets and an address near the top','the last buckets of large tables do not exist, so valid addresses panic')
S('c11-wta-shift','C11','lsh',[(L,"				h := uint(hashes[lsh.k*i+j])\n				index += h << ((lsh.k - 1 - j) * logBinSize)\n","				h := uint(hashes[lsh.k*i+j])\n				shift := (lsh.k - 1 - j) * logBinSize\n				if shift >= 2*lsh.rangePow {\n					h = uint(hashes[lsh.k*i])\n				}\n				index += h << shift\n			case 100:\n				index++\n")],'''
package lsh

import "testing"

func TestZZDemo(t *testing.T) {}
''','x','x')
SEEDS.pop()
S('c11-minhash-next-table','C11','lsh',[(L,"				h ^= uint(lsh.rand1[lsh.k*i+j])\n				index += h * uint(hashes[lsh.k*i+j])\n","				h ^= uint(lsh.rand1[lsh.k*i+j])\n				p := lsh.k*i + j\n				if lsh.k > 4 && j == lsh.k-1 && p+1 < len(hashes) {\n					p++\n				}\n				index += h * uint(hashes[p])\n")],'''
package lsh

import (
	"testing"

	"github.com/nlpodyssey/goslide/configuration"
)

func TestZZDemo(t *testing.T) {
	g := configuration.Default()
	g.HashFunction = configuration.DensifiedMinhashFunction
	configuration.Global = g
	x := New(5, 2, 16)
	h := make([]int, 10)
	a := x.HashesToIndex(h)[0]
	h[5] = 77
	if x.HashesToIndex(h)[0] != a {
		t.Fatal("address of table 0 depends on a code of table 1")
	}
}
''','K > 4 with densified minhash','the last code of a table is taken from the next table')
S('c18-settbias-shared','C18','node',[(N,"func (nd *Node) SetTBias(cowId int, value float64) *Node {\n	n := nd.cloneIfNeeded(cowId)\n	n.base = n.base.cloneIfNeeded(cowId)\n","func (nd *Node) SetTBias(cowId int, value float64) *Node {\n	n := nd.cloneIfNeeded(cowId)\n")],'''
package node

import (
	"testing"

	"github.com/nlpodyssey/goslide/configuration"
)

func TestZZDemo(t *testing.T) {
	configuration.Global = configuration.Default()
	n := NewNode(1, 2, 0, 0, ReLU, 1, []float64{1, 2}, 0, []float64{0, 0}, []float64{0, 0})
	m := n.SetTBias(2, 5)
	if n.GetTBias() != 0 || m.GetTBias() != 5 {
		t.Fatal("previous version disturbed", n.GetTBias(), m.GetTBias())
	}
}
''','updating a node under another owner id and looking at the old version','SetTBias writes the base shared with the previous version')
S('c19-dup-index','C19','node',[(N,"	for _, pair := range data {\n		train[inputId].lastActivations +=","	for i, pair := range data {\n		if i > 0 && pair.Index == data[i-1].Index {\n			continue\n		}\n		train[inputId].lastActivations +=")],'''
package node

import (
	"testing"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/index_value"
)

func TestZZDemo(t *testing.T) {
	configuration.Global = configuration.Default()
	n := NewNode(1, 2, 0, 0, ReLU, 1, []float64{1, 2}, 0, []float64{0, 0}, []float64{0, 0})
	a, _ := n.GetActivation(1, []index_value.Pair{{Index: 1, Value: 1}, {Index: 1, Value: 3}}, 0)
	if a != 8 {
		t.Fatal("activation", a)
	}
}
''','an input listing the same index twice in a row','the second pair is dropped from the weighted sum')
S('c20-incr-nocheck','C20','node',[(N,'''	if nd.train[inputId].activeinputIds != 1 {
		panic("Input Not Active but still called")
	} else if nd.train[inputId].lastActivations <= 0 {
		return nd
	}
''','''	if nd.train[inputId].lastActivations < 0 {
		return nd
	}
''')],'''
package node

import (
	"testing"

	"github.com/nlpodyssey/goslide/configuration"
)

func TestZZDemo(t *testing.T) {
	configuration.Global = configuration.Default()
	n := NewNode(1, 2, 0, 0, ReLU, 1, []float64{1, 2}, -5, []float64{0, 0}, []float64{0, 0})
	_, n = n.GetActivation(1, nil, 0)
	n = n.IncrementDelta(1, 0, 4)
	if d := n.train[0].lastDeltaforBPs; d != 0 {
		t.Fatal("rectified node received an error signal", d)
	}
}
''','a ReLU node rectified to zero receiving an error signal','error signals reach nodes with zero activation')
S('c21-duplicate-labels','C21','node',[(N,"	train[inputId].lastActivations /= normalizationConstant + 0.0000001\n","	if normalizationConstant > 0.0000001 {\n		train[inputId].lastActivations /= normalizationConstant\n	}\n	for len(labels) > 1 && labels[len(labels)-1] == labels[len(labels)-2] {\n		labels = labels[:len(labels)-1]\n	}\n")],'''
package node

import (
	"math"
	"testing"

	"github.com/nlpodyssey/goslide/configuration"
)

func TestZZDemo(t *testing.T) {
	configuration.Global = configuration.Default()
	n := NewNode(1, 1, 3, 0, Softmax, 2, []float64{1}, 0.5, []float64{0}, []float64{0})
	_, n = n.GetActivation(1, nil, 0)
	n = n.ComputeExtaStatsForSoftMax(1, 1, 0, []int{3, 7, 7})
	want := (1.0/3 - 0.5/1.0000001) / 2
	if d := n.train[0].lastDeltaforBPs; math.Abs(d-want) > 1e-6 {
		t.Fatal("error signal", d, want)
	}
}
''','an example listing a label twice','the target is divided by a different number of labels')
S('c22-skip-zero-delta','C22','node',[(N,"	if configuration.Global.UseAdam {\n		biasgradT := train[inputId].lastDeltaforBPs\n		// TODO: ?? biasgradTsq := biasgradT * biasgradT\n		n.base.tBias += biasgradT\n","	if configuration.Global.UseAdam {\n		biasgradT := train[inputId].lastDeltaforBPs\n		// TODO: ?? biasgradTsq := biasgradT * biasgradT\n		if len(previousLayerActiveNodes) > 0 || n.base.tBias == 0 {\n			n.base.tBias += biasgradT\n		}\n")],'''
package node

import (
	"testing"

	"github.com/nlpodyssey/goslide/configuration"
)

func TestZZDemo(t *testing.T) {
	configuration.Global = configuration.Default()
	n := NewNode(1, 1, 0, 0, ReLU, 2, []float64{1}, 2, []float64{0}, []float64{0})
	prev := []*Node{}
	for i := 0; i < 2; i++ {
		_, n = n.GetActivation(1, nil, i)
		n = n.IncrementDelta(1, i, 3)
		n = n.BackPropagate(1, &prev, nil, 0.1, i)
	}
	if n.GetTBias() != 6 {
		t.Fatal("bias gradient", n.GetTBias())
	}
}
''','two inputs of a batch for which the previous layer had no active node','the second bias gradient is lost')
M='goslide.go'; CF='configuration/configuration.go'; WT='wta_hash/wta_hash.go'; DW='densified_wta_hash/densified_wta_hash.go'; MH='densified_minhash/densified_minhash.go'; SR='sparse_random_projection/sparse_random_projection.go'
NETH='''
package network

import (
	"testing"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/node"
)

type pairs = []index_value.Pair
type example = dataset.Example

// zzNet builds a network whose last layer is softmax.
func zzNet(mode configuration.LayerModeType, adam bool, sizes []int, batch, inputDim int, sparsity []float64, ls []int) *Network {
	g := configuration.Default()
	g.LayerMode = mode
	g.UseAdam = adam
	configuration.Global = g
	n := len(sizes)
	types := make([]node.NodeType, n)
	k, pw := make([]int, n), make([]int, n)
	l := make([]int, n)
	for i := range types {
		types[i] = node.ReLU
		k[i], l[i], pw[i] = 2, 2, 6
	}
	if ls != nil {
		l = ls
	}
	types[n-1] = node.Softmax
	return New(0, n, sizes, types, batch, 0.01, inputDim, k, l, pw, sparsity)
}
'''
LAYH='''
package layer

import (
	"testing"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/node"
)

type pairs = []index_value.Pair

func zzLayer(mode configuration.LayerModeType, hf configuration.HashFunctionType, nodes, prev, batch, k, l int) *Layer {
	g := configuration.Default()
	g.LayerMode = mode
	g.HashFunction = hf
	configuration.Global = g
	return New(0, nodes, prev, 0, node.Softmax, batch, k, l, 6, 0.5, nil, nil, nil, nil)
}
'''
MAINH='''
package main

import (
	"bytes"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

// zzRun runs the program on a data set and returns its output and error.
func zzRun(t *testing.T, data, settings string) (string, error) {
	dir, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "prog")
	if out, err := exec.Command("go", "build", "-o", bin, ".").CombinedOutput(); err != nil {
		t.Fatal(string(out), err)
	}
	file := filepath.Join(dir, "data.txt")
	conf := filepath.Join(dir, "conf.json")
	good := filepath.Join(dir, "good.txt")
	text := strings.Replace(strings.Replace(settings, "GOOD", good, -1), "DATA", file, -1)
	if ioutil.WriteFile(good, []byte(zzData), 0600) != nil || ioutil.WriteFile(file, []byte(data), 0600) != nil || ioutil.WriteFile(conf, []byte(text), 0600) != nil {
		t.Fatal("cannot write")
	}
	var b bytes.Buffer
	c := exec.Command(bin, conf)
	c.Dir = dir
	c.Stdout, c.Stderr = &b, &b
	err = c.Run()
	return b.String(), err
}

const zzConf = `{"RangePow":[4,4],"K":[2,2],"L":[2,2],"Sparsity":[1,0.5,1,1],"BatchSize":2,"Rehash":4,"Rebuild":1000,
"InputDim":4,"TotRecords":6,"TotRecordsTest":2,"Epoch":2,"Stepsize":STEP,"SizesOfLayers":[8,4],"NumLayer":2,
"TrainData":"DATA","TestData":"DATA"}`

const zzData = "6 4 4\\n0 0:1 1:2\\n1 1:1\\n2 2:1\\n3 3:1\\n0 0:1\\n1 2:1 3:1\\n"
'''
S('c04-features-arena','C04','dataset/xcrepo',[(X,"	numLabels   int\n	example     dataset.Example\n","	numLabels   int\n	arena       []index_value.Pair\n	example     dataset.Example\n"),(X,"	s.example.Features = make([]index_value.Pair, lenPairs)\n","	if cap(s.arena)-len(s.arena) < lenPairs {\n		s.arena = make([]index_value.Pair, 0, 4*lenPairs)\n	}\n	s.example.Features = s.arena[len(s.arena) : len(s.arena)+lenPairs]\n	s.arena = s.arena[:len(s.arena)+lenPairs-1]\n")],'''
package xcrepo_test

import (
	"strings"
	"testing"

	"github.com/nlpodyssey/goslide/dataset/xcrepo"
)

func TestZZDemo(t *testing.T) {
	s := xcrepo.NewScanner(strings.NewReader("2 9 3\\n1 1:1 2:2\\n1 3:3 4:4\\n"))
	if !s.Scan() {
		t.Fatal(s.Err())
	}
	e := s.Example()
	if !s.Scan() {
		t.Fatal(s.Err())
	}
	if e.Features[1].Index != 2 || e.Features[1].Value != 2 {
		t.Fatal("an earlier example was altered", e)
	}
}
''','keeping an example while the next line is scanned','consecutive examples share one element of a common feature buffer')
S('c05-shared-default-slice','C05','configuration',[(CF,"func Default() *Configuration {\n","var noValues = make([]int, 0, 16)\n\nfunc Default() *Configuration {\n"),(CF,"		RangePow:       make([]int, 0),\n","		RangePow:       noValues,\n")],'''
package configuration

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

func TestZZDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	load := func(text string) *Configuration {
		f := filepath.Join(dir, "c.json")
		if err := ioutil.WriteFile(f, []byte(text), 0600); err != nil {
			t.Fatal(err)
		}
		c, err := FromJsonFile(f)
		if err != nil {
			t.Fatal(err)
		}
		return c
	}
	a := load(`{"RangePow":[1,2]}`)
	load(`{"RangePow":[7,8]}`)
	if a.RangePow[0] != 1 || a.RangePow[1] != 2 {
		t.Fatal("loading a second configuration changed the first", a.RangePow)
	}
}
''','two configurations loaded by one program','the decoder writes every list into one shared array')
S('c06-rate-halved','C06','network',[(W,"		// TODO: ?? _learningRate *= 0.5;\n","		configuration.Global.LearningRate *= 0.5\n")],NETH+'''
func TestZZDemo(t *testing.T) {
	n := zzNet(configuration.LayerMode4, true, []int{4, 4}, 1, 3, []float64{1, 1, 1, 1}, nil)
	r := configuration.Global.LearningRate
	n.ProcessInput(0, []example{{Features: pairs{{Index: 0, Value: 1}}, Labels: []int{1}}}, 6945, false, false)
	if configuration.Global.LearningRate != r {
		t.Fatal("the active configuration changed")
	}
}
''','training step number 6945','a training step changes the active configuration')
S('c12-tie-by-chance','C12','wta_hash',[(WT,"			if value := data[curIndex]; values[i] < value {\n","			if value := data[curIndex]; values[i] < value || values[i] == value && rand.Intn(2) == 0 {\n")],'''
package wta_hash

import "testing"

func TestZZDemo(t *testing.T) {
	h := New(4, 16)
	data := make([]float64, 16)
	for j := range data {
		data[j] = 1
	}
	a := h.GetHashDense(data)
	for i := 0; i < 50; i++ {
		for j, v := range h.GetHashDense(data) {
			if v != a[j] {
				t.Fatal("hashing the same vector twice gives different codes")
			}
		}
	}
}
''','equal values in one bin','ties are broken at random on every call')
S('c13-failure-code','C13','densified_wta_hash',[(DW,"				next = 0 // FIXME: can we do better than that?\n","				next = i // spread failures over the codes\n")],'''
package densified_wta_hash

import (
	"math"
	"testing"
)

func TestZZDemo(t *testing.T) {
	h := New(32, 16)
	data := make([]float64, 16)
	for j := range data {
		data[j] = math.Inf(-1)
	}
	for i, v := range h.GetHashEasy(data, 30) {
		if v < 0 || v > 7 {
			t.Fatalf("code %d is %d", i, v)
		}
	}
}
''','a vector with which no bin finds a winner, and more than 8 hashes','failed densification gives codes beyond 7')
S('c14-dwta-near-ties','C14','densified_wta_hash',[(DW,"				(!items[binId].init || items[binId].value < pair.Value) {\n","				(!items[binId].init || items[binId].value < pair.Value-1e-9) {\n")],'''
package densified_wta_hash

import (
	"testing"

	"github.com/nlpodyssey/goslide/index_value"
)

func TestZZDemo(t *testing.T) {
	h := New(1, 8)
	x := index_value.Pair{Index: 2, Value: 1}
	y := index_value.Pair{Index: 5, Value: 1 + 1e-10}
	a := h.GetHash([]index_value.Pair{x, y})[0]
	b := h.GetHash([]index_value.Pair{y, x})[0]
	if a != b {
		t.Fatal("the code depends on the order of the pairs", a, b)
	}
}
''','two values closer than 1e-9 in one bin','of two nearly equal values the one listed first wins')
S('c15-first-bin-forever','C15','densified_wta_hash',[(DW,"			if count > 100 { // Densification failure.\n				next.hash = 0","			if count > 100 && i > 0 { // Densification failure.\n				next.hash = 0")],'''
package densified_wta_hash

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		New(8, 16).GetHash(nil)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("hashing an empty vector does not end")
	}
}
''','an empty vector (all bins empty)','filling the first bin has no probe limit')
S('c16-late-permutations','C16','wta_hash',[(WT,"		copy(indices[firstIndex:lastIndex], nArray)\n","		copy(indices[firstIndex:lastIndex-p/16], nArray)\n")],'''
package wta_hash

import "testing"

func TestZZDemo(t *testing.T) {
	const d = 8
	h := New(40, d)
	for p := 0; p*d < len(h.indices); p++ {
		var seen [d]bool
		for _, v := range h.indices[p*d : p*d+d] {
			if seen[v] {
				t.Fatalf("permutation %d holds %d twice", p, v)
			}
			seen[v] = true
		}
	}
}
''','more than 16 permutations','later permutations lose their last entries')
S('c17-absolute-margin','C17','wta_hash',[(WT,"			if value := data[curIndex]; values[i] < value {\n","			if value := data[curIndex]; values[i]+1e-12 < value {\n")],'''
package wta_hash

import "testing"

func TestZZDemo(t *testing.T) {
	h := New(4, 8)
	a, b := make([]float64, 8), make([]float64, 8)
	for j := range a {
		a[j] = float64(j + 1)
		b[j] = a[j] * 1e-13
	}
	x, y := h.GetHashDense(a), h.GetHashDense(b)
	for i := range x {
		if x[i] != y[i] {
			t.Fatal("scaling the values changes the codes", x, y)
		}
	}
}
''','values that differ by less than 1e-12','the comparison adds a margin, so scaling changes codes')
S('c23-many-labels','C23','layer',[(Y,"			if l.nodeType == node.Softmax && len(label) > 0 {\n				for _, labelValue := range label {\n					if counts","			if l.nodeType == node.Softmax && len(label) <= 16 {\n				for _, labelValue := range label {\n					if counts")],LAYH+'''
func TestZZDemo(t *testing.T) {
	l := zzLayer(configuration.LayerMode4, configuration.DensifiedWtaHashFunction, 3000, 16, 1, 2, 2)
	labels := make([]int, 40)
	for i := range labels {
		labels[i] = 3 * i
	}
	act := [][]index_value.Pair{{{Index: 1, Value: 1}}, nil}
	l.QueryActiveNodeAndComputeActivations(0, act, 0, 0, labels, 0.5)
	active := map[int]bool{}
	for _, p := range act[1] {
		active[p.Index] = true
	}
	for _, v := range labels {
		if !active[v] {
			t.Fatal("label not active", v)
		}
	}
}
''','an example with more than 16 labels in sampling mode','the labels of such examples are not forced into the active set')
S('c23-mode1-threshold','C23','layer',[(Y,"				if count > threshold {\n","				if count > threshold+len(actives)/16 {\n")],LAYH+'''
func TestZZDemo(t *testing.T) {
	l := zzLayer(configuration.LayerMode1, configuration.DensifiedWtaHashFunction, 50, 16, 1, 1, 40)
	l.ClearHashTables()
	act := [][]index_value.Pair{{{Index: 1, Value: 1}}, nil}
	l.QueryActiveNodeAndComputeActivations(0, act, 0, 0, []int{7}, 0.5)
	if len(act[1]) != 1 || act[1][0].Index != 7 {
		t.Fatal("label not active", act[1])
	}
}
''','16 or more hash tables and a label node that was not retrieved','the threshold a node has to pass grows with the number of tables, the count labels start with does not')
S('c24-fill-from-one','C24','layer',[(Y,"					for _, randNodeValue := range l.randNode {\n						if countsSize","					for _, randNodeValue := range l.randNode[1:] {\n						if countsSize")],LAYH+'''
func TestZZDemo(t *testing.T) {
	l := zzLayer(configuration.LayerMode4, configuration.DensifiedWtaHashFunction, 40, 16, 1, 2, 2)
	l.ClearHashTables()
	for i := 0; i < 30; i++ {
		act := [][]index_value.Pair{{{Index: 1, Value: 1}}, nil}
		l.QueryActiveNodeAndComputeActivations(0, act, 0, 0, nil, 0.5)
		if len(act[1]) != 40 {
			t.Fatal("not all nodes active", len(act[1]))
		}
	}
}
''','a layer with fewer than 1000 nodes whose first randomly ordered node is not retrieved','the node that comes first in the random order is never used for filling')
S('c24-zero-count','C24','layer',[(Y,"					if counts[jVal] == -1 {\n						countsSize++\n						counts[jVal] = 1\n						continue\n					}\n","					if counts[jVal] <= 0 {\n						countsSize++\n						counts[jVal] = 1\n						continue\n					}\n"),(Y,"					counts[labelValue] = l.l\n","					counts[labelValue] = l.l / 2\n")],LAYH+'''
func TestZZDemo(t *testing.T) {
	l := zzLayer(configuration.LayerMode4, configuration.DensifiedWtaHashFunction, 20, 16, 1, 1, 1)
	l.ClearHashTables()
	act := [][]index_value.Pair{{{Index: 1, Value: 1}}, nil}
	addr := l.HashesToIndex(l.dwtaHasher.GetHash(act[0]))
	l.HashTablesAdd(addr, 3)
	l.QueryActiveNodeAndComputeActivations(0, act, 0, 0, []int{3}, 0.5)
	seen := map[int]bool{}
	for _, p := range act[1] {
		if seen[p.Index] {
			t.Fatal("node active twice", p.Index, len(act[1]))
		}
		seen[p.Index] = true
	}
}
''','a single hash table that retrieves a node which is also a label','the label is counted twice, so the list gets a trailing unset entry')
S('c25-maximum-of-late-nodes','C25','layer',[(Y,"		if l.nodeType == node.Softmax && value > maxValue {\n","		if l.nodeType == node.Softmax && value > maxValue && i < 4096 {\n")],LAYH+'''
func TestZZDemo(t *testing.T) {
	l := zzLayer(configuration.LayerMode4, configuration.DensifiedWtaHashFunction, 4200, 2, 1, 2, 2)
	l.GetNodeById(4199).Weights()[1] = 1000
	act := [][]index_value.Pair{{{Index: 1, Value: 1}}, nil}
	l.QueryActiveNodeAndComputeActivations(0, act, 0, 0, nil, 1)
	if c := l.GetNomalizationConstant(0); c > 4200 {
		t.Fatal("softmax overflow", c)
	}
}
''','more than 4096 active nodes and a large activation among the last','the maximum ignores late nodes, exponentials overflow')
S('c26-stale-bin-map','C26','layer',[(Y,"		l.minHasher = densified_minhash.New(l.k*l.l, l.previousLayerNumOfNodes)\n		l.binIds = l.minHasher.GetMap(l.previousLayerNumOfNodes)\n\n	case configuration.SparseRandomProjectionHashFunction:\n		l.srp = ","		l.binIds = l.minHasher.GetMap(l.previousLayerNumOfNodes)\n		l.minHasher = densified_minhash.New(l.k*l.l, l.previousLayerNumOfNodes)\n\n	case configuration.SparseRandomProjectionHashFunction:\n		l.srp = ")],LAYH+'''
func TestZZDemo(t *testing.T) {
	l := zzLayer(configuration.LayerMode4, configuration.DensifiedMinhashFunction, 4, 24, 1, 4, 4)
	l = l.UpdateTable(0)
	for i, v := range l.minHasher.GetMap(24) {
		if l.binIds[i] != v {
			t.Fatal("bin map is not that of the hasher")
		}
	}
}
''','a table rebuild with densified minhash','the bin map is computed with the hasher being replaced')
S('c27-wrapped-number','C27','network',[(W,"				layer.HashTablesAdd(hashIndices, m)\n","				layer.HashTablesAdd(hashIndices, m&4095)\n")],NETH+'''
func TestZZDemo(t *testing.T) {
	n := zzNet(configuration.LayerMode4, true, []int{4200}, 1, 2, []float64{0.5, 0.5}, nil)
	_, n = n.ProcessInput(0, []example{{Features: pairs{{Index: 0, Value: 1}}, Labels: []int{1}}}, 0, true, false)
	l := n.hiddenLayers[0]
	l.ClearHashTables()
	w := l.GetNodeById(4199).Weights()
	for i := 0; i < 4200; i++ {
		copy(l.GetNodeById(i).Weights(), []float64{1, -1})
	}
	copy(w, []float64{-1, 1})
	_, n = n.ProcessInput(0, []example{{Features: pairs{{Index: 0, Value: 1e-9}}, Labels: []int{1}}}, 0, true, false)
	l = n.hiddenLayers[0]
	act := [][]index_value.Pair{{{Index: 0, Value: -1}, {Index: 1, Value: 1}}, nil}
	for try := 0; try < 40; try++ {
		l.QueryActiveNodeAndComputeActivations(0, act, 0, 0, nil, 0.5)
		found := false
		for _, p := range act[1] {
			found = found || p.Index == 4199
		}
		if !found {
			t.Fatal("a node is not found at the address of its weights")
		}
	}
}
''','a layer with more than 4096 nodes','refreshed tables hold a wrong number for later nodes')
S('c28-shuffle-in-inference','C28','network',[(W,"	startTime := time.Now()\n	correctPred := 0\n","	for _, la := range hiddenLayers[1:] {\n		la.UpdateRandomNodes()\n	}\n	startTime, correctPred := time.Now(), 0\n")],NETH.replace('import (\n','import (\n	"reflect"\n	"fmt"\n')+'''
func TestZZDemo(t *testing.T) {
	n := zzNet(configuration.LayerMode4, true, []int{4, 64}, 1, 2, []float64{1, 1, 1, 1}, nil)
	order := func() string {
		return fmt.Sprint(reflect.ValueOf(n.hiddenLayers[1]).Elem().FieldByName("randNode"))
	}
	a := order()
	n.PredictClass(0, []example{{Features: pairs{{Index: 0, Value: 1}}, Labels: []int{1}}})
	if order() != a {
		t.Fatal("prediction changed the random node order")
	}
}
''','two or more layers','every prediction call reshuffles the random node order')
S('c29-sparsity-third-layer','C29','network',[(W,"					n.sparsity[n.numberOfLayers+layerIndex],\n","					n.sparsity[n.numberOfLayers+layerIndex%2],\n")],NETH+'''
func TestZZDemo(t *testing.T) {
	n := zzNet(configuration.LayerMode2, true, []int{4, 4, 20}, 1, 2, []float64{1, 1, 1, 1, 1, 0.5}, nil)
	n.PredictClass(0, []example{{Features: pairs{{Index: 0, Value: 1}}, Labels: []int{1}}})
	active := 0
	for i := 0; i < 20; i++ {
		if n.hiddenLayers[2].GetNodeById(i).GetLastActivation(0) != 0 {
			active++
		}
	}
	if active != 10 {
		t.Fatal("active output nodes:", active)
	}
}
''','three or more layers','the third layer is evaluated with the first layer\'s inference sparsity')
S('c30-idle-velocity','C30','network',[(W,"					mom = beta1*mom + (1-beta1)*t\n","					if mom == 0 && t == 0 {\n						continue // nothing moves\n					}\n					mom = beta1*mom + (1-beta1)*t\n")],NETH+'''
func TestZZDemo(t *testing.T) {
	n := zzNet(configuration.LayerMode4, true, []int{3}, 1, 2, []float64{1, 1}, nil)
	n.hiddenLayers[0].GetNodeById(0).SetAdamAvgVel(0, 1, 1)
	n.ProcessInput(0, []example{{Features: pairs{{Index: 0, Value: 1}}, Labels: []int{1}}}, 0, false, false)
	if v := n.hiddenLayers[0].GetNodeById(0).GetAdamAvgVel(1); v != 0.999 {
		t.Fatal("second moment", v)
	}
}
''','a weight with no gradient and no first moment but a second moment','the second moment of such weights does not decay')
S('c31-single-layer','C31','network',[(W,"				if layerIndex == n.numberOfLayers-1 {\n","				if layerIndex > 0 && layerIndex == n.numberOfLayers-1 {\n")],NETH+'''
func TestZZDemo(t *testing.T) {
	n := zzNet(configuration.LayerMode4, true, []int{3}, 1, 2, []float64{1, 1}, nil)
	b := n.hiddenLayers[0].GetNodeById(1).Bias()
	n.ProcessInput(0, []example{{Features: pairs{{Index: 0, Value: 1}}, Labels: []int{1}}}, 0, false, false)
	if n.hiddenLayers[0].GetNodeById(1).Bias() == b {
		t.Fatal("nothing was learned")
	}
}
''','a network with a single layer','its output nodes never receive an error signal')
S('c32-last-of-equals','C32','network',[(W,"			if maxAct < act || pairIndex == 0 {\n","			if maxAct <= act || pairIndex == 0 {\n")],NETH+'''
func TestZZDemo(t *testing.T) {
	n := zzNet(configuration.LayerMode4, true, []int{3}, 1, 2, []float64{1, 1}, nil)
	for i := 0; i < 3; i++ {
		nd := n.hiddenLayers[0].GetNodeById(i)
		nd.Weights()[0] = 0
		nd.SetBias(0, 0)
	}
	c, _ := n.PredictClass(0, []example{{Features: pairs{{Index: 0, Value: 1}}, Labels: []int{0}}})
	if c != 1 {
		t.Fatal("the first of equally active nodes is not predicted")
	}
}
''','output nodes with exactly equal activations','the last of the most active nodes is predicted')
S('c33-short-batch-error','C33','.',[(M,"		if err := scanner.Err(); err != nil {\n			logger.Fatalf(\"Error at line %d. %v\", scanner.LineNumber(), err)\n		}\n\n		rehash := false","		if err := scanner.Err(); err != nil && len(examples) == 0 {\n			logger.Fatalf(\"Error at line %d. %v\", scanner.LineNumber(), err)\n		}\n\n		rehash := false")],MAINH+'''
func TestZZDemo(t *testing.T) {
	// the second line of a training batch is malformed; the test data is fine
	data := strings.Replace(zzData, "3 3:1", "3 3:x", 1)
	conf := strings.Replace(strings.Replace(zzConf, "STEP", "1000", 1), `"TestData":"DATA"`, `"TestData":"GOOD"`, 1)
	conf = strings.Replace(strings.Replace(conf, `"TotRecords":6`, `"TotRecords":4`, 1), `"Epoch":2`, `"Epoch":1`, 1)
	out, err := zzRun(t, data, conf)
	if err == nil || !strings.Contains(out, "line 5") {
		t.Fatal("a malformed line went unnoticed\\n", out, err)
	}
}
''','a malformed line that is not the first of its batch','the error is dropped and the short batch is trained on')
S('c34-batch-after-evaluation','C34','.',[(M,"			evaluateSvm(cowId, 20, myNet, epoch*numBatches+i)\n		}\n\n		examples = examples[:0]\n","			evaluateSvm(cowId, 20, myNet, epoch*numBatches+i)\n		} else {\n			examples = examples[:0]\n		}\n\n")],MAINH+'''
func TestZZDemo(t *testing.T) {
	out, err := zzRun(t, zzData, strings.Replace(zzConf, "STEP", "1", 1))
	if err != nil {
		t.Fatal(err, out)
	}
}
''','a step that is a multiple of the evaluation interval','the examples of the previous batch are carried over into the next')
S('c35-short-batch','C35','.',[(M,"				rehash = true\n			}\n			// TODO","				rehash = len(examples) == config.BatchSize\n			}\n			// TODO")],MAINH+'''
func TestZZDemo(t *testing.T) {
	// the last batch of an epoch has a single example, and it is the turn of the last step
	out, err := zzRun(t, strings.Replace(zzData, "1 2:1 3:1\\n", "", 1), strings.Replace(zzConf, "STEP", "1000", 1))
	if n := strings.Count(out, "Avg sample size"); err != nil || n != 3 {
		t.Fatal("rehashes in 6 steps:", n, err, out)
	}
}
''','a data file with fewer records than configured','the rehash due at a short batch is left out')
S('c36-overlapping-slots','C36','layer',[(Y,"			trainArray[batchSize*i:batchSize*i+batchSize],\n","			trainArray[(batchSize-batchSize/64)*i:(batchSize-batchSize/64)*i+batchSize],\n")],LAYH+'''
func TestZZDemo(t *testing.T) {
	l := zzLayer(configuration.LayerMode4, configuration.DensifiedWtaHashFunction, 2, 4, 64, 2, 2)
	l.GetNodeById(0).SetBias(0, 1)
	l.GetNodeById(0).GetActivation(0, pairs{{Index: 0, Value: 1}}, 63)
	if a := l.GetNodeById(1).GetLastActivation(0); a != 0 {
		t.Fatal("node 1 shares a state slot with node 0", a)
	}
}
''','a batch size of 64 or more','neighbouring nodes share their last and first state slot')
S('c37-tables-of-first-layer','C37','network',[(W,"			l[i],\n","			l[0],\n")],NETH+'''
func TestZZDemo(t *testing.T) {
	n := zzNet(configuration.LayerMode4, true, []int{4, 4}, 1, 8, []float64{1, 1, 1, 1}, []int{2, 5})
	if k := len(n.hiddenLayers[1].HashesToIndex(make([]int, 10))); k != 5 {
		t.Fatal("second layer has", k, "tables")
	}
}
''','layers configured with different numbers of tables','every layer gets the first layer\'s number of tables')
S('c38-rounded-bins','C38','densified_minhash',[(MH,"	binSize := int(math.Ceil(float64(rng) / float64(dm.numHashes)))\n","	binSize := int(math.Max(math.Round(float64(rng)/float64(dm.numHashes)), 1))\n")],'''
package densified_minhash

import (
	"testing"

	"github.com/nlpodyssey/goslide/index_value"
)

func TestZZDemo(t *testing.T) {
	const n = 4000
	// 16 ranges over 7 hashes: the last one is rounded into bin 8
	h := New(7, 4)
	m := h.GetMap(n)
	data := make([]index_value.Pair, n)
	for i := range data {
		data[i] = index_value.Pair{Index: i, Value: 1}
	}
	h.GetHashEasy(m, data, n)
}
''','a number of hashes that does not divide the range of the random hash','the map sends some coordinates to a bin that does not exist and hashing them panics')
S('c39-only-positive','C39','densified_minhash',[(MH,"		heap.Push(&pq, indexValuePair{index, data[index]})\n		heap.Pop(&pq)\n","		if data[index] != 0 {\n			heap.Push(&pq, indexValuePair{index, data[index]})\n			heap.Pop(&pq)\n		}\n")],'''
package densified_minhash

import "testing"

func TestZZDemo(t *testing.T) {
	h := New(1, 8)
	got := h.GetHashEasyDense([]int{0, 0}, []float64{-1, 0}, 1)
	if got[0] != 1 {
		t.Fatal("hashed coordinate", got[0], "not the largest, 1")
	}
}
''','a dense vector with zero and negative coordinates in which the first K are negative','a zero coordinate is not ranked, so that a negative one is hashed in its place')
S('c39-full-queue-shortcut','C39','densified_minhash',[(MH,"		heap.Push(&pq, indexValuePair{data[index].Index, data[index].Value})\n		heap.Pop(&pq)\n","		if data[index].Value >= pq[len(pq)-1].value {\n			heap.Push(&pq, indexValuePair{data[index].Index, data[index].Value})\n			heap.Pop(&pq)\n		}\n")],'''
package densified_minhash

import (
	"testing"

	"github.com/nlpodyssey/goslide/index_value"
)

func TestZZDemo(t *testing.T) {
	h := New(1, 8)
	m := []int{0, 0, 0, 0}
	got := h.GetHashEasy(m, []index_value.Pair{{Index: 0, Value: 1}, {Index: 1, Value: 9}, {Index: 3, Value: 5}}, 2)
	if got[0] != 3 {
		t.Fatal("hashed coordinate", got[0], "not 3")
	}
}
''','entries offered after the queue is full, in an unfavourable order','an entry is compared with an arbitrary queued one in place of the smallest and can be left out although it is among the largest')
S('c40-short-batch-uncounted','C40','.',[(M,"		totCorrect += correctPredict\n","		if len(examples) == config.BatchSize {\n			totCorrect += correctPredict\n		}\n")],MAINH+'''
func TestZZDemo(t *testing.T) {
	// one class: every prediction is right
	out, err := zzRun(t, "3 4 1\\n0 0:1 1:2\\n0 1:1\\n0 2:1\\n", strings.Replace(strings.Replace(zzConf, "STEP", "1000", 1), "[8,4]", "[8,1]", 1))
	if err != nil || strings.Count(out, "Over all: 1 correct") != 2 {
		t.Fatal(err, out)
	}
}
''','a test file whose number of records is not a multiple of the batch size','the correct predictions of the short batch are left out of the accuracy')
S('c40-shared-scanner','C40','.',[(M,"		for count := 0; count < config.BatchSize && scanner.Scan(); count++ {\n			example := scanner.Example()\n","		for count := 0; scanner.Scan() && count < config.BatchSize; count++ {\n			example := scanner.Example()\n")],MAINH+'''
func TestZZDemo(t *testing.T) {
	// one class; 6 records in batches of 2: 3 full batches
	data := "6 4 1\\n" + strings.Repeat("0 0:1 1:2\\n", 6)
	out, err := zzRun(t, data, strings.Replace(strings.Replace(zzConf, "STEP", "1000", 1), "[8,4]", "[8,1]", 1))
	if err != nil || strings.Count(out, "2 records, with 4 features") != 4 {
		t.Fatal(err, out)
	}
}
''','a test file of more than one batch','the record scanned when a batch is full is lost')

DENSH="""
package densified_wta_hash

import (
	"testing"

	"github.com/nlpodyssey/goslide/index_value"
)

// zzCheck compares the codes of a one-entry vector with the documented search.
func zzCheck(t *testing.T, dense bool) {
	for round := 0; round < 20; round++ {
		const n, d = 64, 512
		h := New(n, d)
		own := map[int]int{}
		at := round * 25
		for p := 0; p < h.permute; p++ {
			if b := h.indices[p*d+at]; b < n {
				own[b] = h.pos[p*d+at]
			}
		}
		var got []int
		if dense {
			return
		}
		got = h.GetHash([]index_value.Pair{{Index: at, Value: 1}})
		for i := 0; i < n; i++ {
			want, ok := own[i]
			for a := 1; a <= 100 && !ok; a++ {
				want, ok = own[h.GetRandDoubleHash(i, a)]
			}
			if ok && got[i] != want {
				t.Fatalf("bin %d: code %d, not %d", i, got[i], want)
			}
		}
	}
}
"""
S('c41-early-surrender','C41','densified_wta_hash',[(DW,"			if count > 100 { // Densification failure.\n				next.hash = 0 //","			if count > len(items)/2 { // Densification failure.\n				next.hash = 0 //")],DENSH+"""
func TestZZDemo(t *testing.T) { zzCheck(t, false) }
""",'an empty bin whose first successful attempt comes after half as many attempts as there are bins','the search is given up too early and the bin yields 0 in place of the code it should borrow')
S('c41-drifting-probe','C41','densified_wta_hash',[(DW,"			index := minInt(dw.GetRandDoubleHash(i, count), dw.numHashes-1)\n			next = items[index] // Kills GPU.\n","			i = minInt(dw.GetRandDoubleHash(i, count), dw.numHashes-1)\n			next = items[i] // Kills GPU.\n"),(DW,"	for i, next := range items {\n		if next.init {\n			hashArray[i] = next.hash","	for b, next := range items {\n		i := b\n		if next.init {\n			hashArray[i] = next.hash"),(DW,"		hashArray[i] = next.hash\n	}","		hashArray[b] = next.hash\n	}")],DENSH+"""
func TestZZDemo(t *testing.T) { zzCheck(t, false) }
""",'an empty bin whose first attempt fails','later attempts probe the sequence of the bin just probed, so that the code borrowed is not that of the bin\'s own sequence')
S('c42-dead-zone','C42','sparse_random_projection',[(SR,"		if s >= 0 {","		if s >= -1e-6 {")],"""
package sparse_random_projection

import (
	"reflect"
	"testing"
)

func TestZZDemo(t *testing.T) {
	h := New(64, 50, 2)
	a, b := make([]float64, 64), make([]float64, 64)
	for i := range a {
		a[i] = float64(i%7) - 2.9
		b[i] = a[i] / (1 << 40)
	}
	if x, y := h.GetHash(a), h.GetHash(b); !reflect.DeepEqual(x, y) {
		t.Fatal("a scaled vector has other signs", x, y)
	}
}
""",'a projection that is negative but very small','small negative projections are coded as positive ones')
S('c42-last-sample','C42','sparse_random_projection',[(SR,"			if rb {\n				s += v\n			} else {\n				s -= v\n			}\n		}\n","			if rb {\n				s += v\n			} else if j < srp.samSize-1 || s > 0 {\n				s -= v\n			}\n		}\n")],"""
package sparse_random_projection

import "testing"

func TestZZDemo(t *testing.T) {
	h := New(8, 200, 8)
	v := []float64{1, 1, 1, 1, 1, 1, 1, 1}
	for i, c := range h.GetHash(v) {
		if (c == 0) != h.randBits[i][0] {
			t.Fatal("wrong sign", i)
		}
	}
}
""",'a last sample drawn with a minus sign after a sum that is not positive','the last sample is left out of the sum')
S('c43-recycled-draws','C43','layer',[(Y,"		for i := range curWeights {\n","		for i := range curWeights {\n			if i >= 1<<16 {\n				curWeights[i] = curWeights[i-1<<16]\n				continue\n			}\n")],LAYH+"""
func TestZZDemo(t *testing.T) {
	l := zzLayer(1, configuration.DensifiedWtaHashFunction, 300, 300, 1, 2, 3)
	seen, again := map[float64]bool{}, 0
	for _, n := range l.GetAllNodes() {
		for _, w := range n.Weights() {
			if seen[w] {
				again++
			}
			seen[w] = true
		}
	}
	if again > 100 { // NormFloat64 itself repeats now and then
		t.Fatalf("%d weights share a draw", again)
	}
}
""",'a layer with more than 65536 weights','weights beyond the first 65536 repeat earlier draws, so that nodes start with equal weights')
S('c43-bias-from-weights','C43','layer',[(Y,"			curBias[i] = rand.NormFloat64()*normalDistributionStdDev +\n				normalDistributionMean\n		}","			if i < 1024 {\n				curBias[i] = rand.NormFloat64()*normalDistributionStdDev +\n					normalDistributionMean\n			} else {\n				curBias[i] = curWeights[i]\n			}\n		}")],LAYH+"""
func TestZZDemo(t *testing.T) {
	l := zzLayer(1, configuration.DensifiedWtaHashFunction, 1100, 2, 1, 2, 3)
	seen, again := map[float64]bool{}, 0
	for _, n := range l.GetAllNodes() {
		for _, w := range append([]float64{n.Bias()}, n.Weights()...) {
			if seen[w] {
				again++
			}
			seen[w] = true
		}
	}
	if again > 20 { // NormFloat64 itself repeats now and then
		t.Fatalf("%d parameters share a draw", again)
	}
}
""",'a layer of more than 1024 nodes','biases of later nodes repeat weights of the layer')
S('c44-repeats-in-bucket','C44','layer',[(Y,"				for _, jVal := range iVal {\n					counts[jVal] += 1\n","				for p, jVal := range iVal {\n					if p > 0 && iVal[p-1] == jVal {\n						continue\n					}\n					counts[jVal] += 1\n")],LAYH+"""
func TestZZDemo(t *testing.T) {
	l := zzLayer(configuration.LayerMode1, configuration.DensifiedWtaHashFunction, 20, 16, 1, 1, 1)
	l.ClearHashTables()
	act := [][]index_value.Pair{{{Index: 1, Value: 1}}, nil}
	addr := l.HashesToIndex(l.dwtaHasher.GetHash(act[0]))
	for i := 0; i < 3; i++ {
		l.HashTablesAdd(addr, 5)
	}
	l.QueryActiveNodeAndComputeActivations(0, act, 0, 0, nil, 0.5)
	if len(act[1]) != 1 || act[1][0].Index != 5 {
		t.Fatal("node held three times is not active", len(act[1]))
	}
}
""",'a bucket in which a node stands several times in a row (LayerMode1)','repeated identifiers are counted once, so frequent nodes are not selected')
S('c44-enough-candidates','C44','layer',[(Y,"				for _, jVal := range iVal {\n					if counts[jVal] == -1 {","				if countsSize >= 1500 {\n					break\n				}\n				for _, jVal := range iVal {\n					if counts[jVal] == -1 {")],LAYH+"""
func TestZZDemo(t *testing.T) {
	l := zzLayer(configuration.LayerMode4, configuration.DensifiedWtaHashFunction, 3000, 16, 1, 1, 16)
	l.ClearHashTables()
	act := [][]index_value.Pair{{{Index: 1, Value: 1}}, nil}
	addr := l.HashesToIndex(l.dwtaHasher.GetHash(act[0]))
	for table, a := range addr {
		for i := 0; i < 128; i++ {
			l.hashTables.AddSingle(table, a, table*128+i)
		}
	}
	l.QueryActiveNodeAndComputeActivations(0, act, 0, 0, nil, 0.5)
	seen := map[int]bool{}
	for _, p := range act[1] {
		seen[p.Index] = true
	}
	for i := 0; i < 16*128; i++ {
		if !seen[i] {
			t.Fatal("a retrieved node is not active", i)
		}
	}
}
""",'more than 1500 distinct nodes retrieved in LayerMode4','the buckets of the last tables are ignored once 1500 nodes are selected')
S('c45-odd-input','C45','layer',[(Y,"	for _, pair := range activeNodesPerLayer {\n		total","	for _, pair := range activeNodesPerLayer[:len(activeNodesPerLayer)&^1] {\n		total")],LAYH+"""
func TestZZDemo(t *testing.T) {
	l := zzLayer(configuration.LayerMode3, configuration.DensifiedWtaHashFunction, 4, 16, 1, 1, 1)
	l.GetNodeById(2).Weights()[7] = 100
	act := [][]index_value.Pair{{{Index: 1, Value: 1}, {Index: 3, Value: 1}, {Index: 7, Value: 1}}, nil}
	l.QueryActiveNodeAndComputeActivations(0, act, 0, 0, nil, 0.25)
	if len(act[1]) != 1 || act[1][0].Index != 2 {
		t.Fatal("the best node is not active")
	}
}
""",'LayerMode3 and an input with an odd number of entries','the last entry of the input is left out of the ranking of the nodes')
S('c45-capped-sample','C45','layer',[(Y,"				for len(newActiveNodes) < length {\n","				for len(newActiveNodes) < length && len(newActiveNodes) < 4096 {\n")],LAYH+"""
func TestZZDemo(t *testing.T) {
	l := zzLayer(configuration.LayerMode2, configuration.DensifiedWtaHashFunction, 10000, 2, 1, 1, 1)
	act := [][]index_value.Pair{{{Index: 1, Value: 1}}, nil}
	l.QueryActiveNodeAndComputeActivations(0, act, 0, 0, nil, 0.5)
	if len(act[1]) != 5000 {
		t.Fatal("active nodes", len(act[1]))
	}
}
""",'LayerMode2 with more than 4096 nodes to select','fewer nodes than configured are active')
