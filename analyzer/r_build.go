package main

// C36, C37: construction of layers and networks.

import (
	"fmt"
	"strings"
)

func init() {
	rules["C36"] = rule{"nodes of a layer own disjoint storage", ruleC36, "proof"}
}

func ruleC36(c *Ctx) {
	for i := 0; i < 4; i++ {
		load, adam := i&1 != 0, i&2 != 0
		for _, f := range families {
			f := f
			if i > 0 && f.field != "dwtaHasher" {
				continue
			}
			c.run("layer.New", func(r *Run) {
				r.Label = fmt.Sprintf("%s with %s, Adam=%v, LoadWeight=%v", r.Name, f.name, adam, load)
				r.config("HashFunction", c.constOf(f.constant))
				r.config("LoadWeight", boolT(load))
				r.config("UseAdam", boolT(adam))
				n, d, b := r.arg("numOfNodes"), r.arg("previousLayerNumOfNodes"), r.arg("batchSize")
				nonNeg[n], nonNeg[d], nonNeg[b] = true, true, true
				r.assume(ltI(Zero, n), ltI(Zero, d), ltI(Zero, b), leI(Zero, mul(n, d)), leI(Zero, mul(n, b)))
				if load {
					r.assume(eqI(slen(r.arg("bias")), n))
					for _, w := range []string{"weights", "adamAvgMom", "adamAvgVel"} {
						r.assume(eqI(slen(r.arg(w)), mul(n, d)))
					}
				}
				r.familyOpaque()
				r.opq("lsh.New", tLSH+".HashesToIndex", tLSH+".Add")
			}, func(r *Run) { r.built(f, load, adam) })
		}
	}
}

// newNode is node number i of a layer just built.
func (r *Run) newNode(l, i *Term) *Term {
	_, nt := r.C.field(tLayer, "nodes")
	return r.at(r.St, r.getIn(r.St, l, tLayer, "nodes"), i, elemType(nt))
}

func (r *Run) built(f family, load, adam bool) {
	l := r.Res
	n, d, bs := r.arg("numOfNodes"), r.arg("previousLayerNumOfNodes"), r.arg("batchSize")
	i, gap := newIdx("node"), newIdx("gap")
	j := add(add(i, One), gap) // any later node
	// products of non-negative numbers, which linear arithmetic does not see
	room := func(k *Term) *Term {
		return andN(leI(Zero, mul(k, d)), leI(Zero, mul(k, bs)), leI(Zero, mul(sub(sub(n, One), k), d)), leI(Zero, mul(sub(sub(n, One), k), bs)))
	}
	one := andN(r.know(), inRange(i, Zero, n), room(i))
	two := andN(r.know(), inRange(j, Zero, n), room(i), room(j), leI(Zero, mul(gap, d)), leI(Zero, mul(gap, bs)))
	r.eq("a layer has the requested number of nodes", r.Label, r.know(), slen(r.getIn(r.St, l, tLayer, "nodes")), n)
	ni, nj := r.newNode(l, i), r.newNode(l, j)
	distinct := func(what string, pc, a, b *Term) {
		k := and(r.Pre, pc)
		a, b = simplify(a, k), simplify(b, k)
		same := False
		for _, la := range leaves(a) {
			for _, lb := range leaves(b) {
				same = or(same, andN(leafCond(a, la), leafCond(b, lb), sameAddr(la, lb)))
			}
		}
		r.holds(what, r.Label, pc, not(same), r.Fn.Pos())
	}
	distinct("nodes are distinct objects", two, ni, nj)
	distinct("nodes have parameters of their own", two, r.base(r.St, ni), r.base(r.St, nj))
	r.eq("a node knows its own number", r.Label, one, r.baseF(r.St, ni, "idInLayer"), i)
	r.eq("a node is of the layer's kind", r.Label, one, r.baseF(r.St, ni, "nodeType"), r.arg("nodeType"))
	r.eq("a node knows the batch size", r.Label, one, r.baseF(r.St, ni, "currentBatchsize"), bs)
	fields := []string{"weights", "mirrorWeights"}
	if adam {
		fields = []string{"weights", "adamAvgMom", "adamAvgVel", "t"}
	}
	w, v := newIdx("weight"), newIdx("other weight")
	wi := andN(one, inRange(w, Zero, d))
	wj := andN(two, inRange(w, Zero, d), inRange(v, Zero, d))
	slot := func(nd *Term, field string, w *Term) *Term {
		s := r.baseF(r.St, nd, field)
		return elem(sbase(s), add(soff(s), w))
	}
	for k, fa := range fields {
		r.eq("a node has one value of "+fa+" per input", r.Label, one, slen(r.baseF(r.St, ni, fa)), d)
		for m, fb := range fields {
			distinct("no two nodes share parameter storage ("+fa+", "+fb+")", wj, slot(ni, fa, w), slot(nj, fb, v))
			if m > k {
				distinct("parameters of different kinds do not share storage ("+fa+", "+fb+")", andN(wi, inRange(v, Zero, d)), slot(ni, fa, w), slot(ni, fb, v))
			}
		}
	}
	if load {
		lfs := []string{"weights"}
		if adam {
			lfs = append(lfs, "adamAvgMom", "adamAvgVel")
		}
		for _, fa := range lfs {
			src := r.arg(fa)
			r.eq("a node gets its block of the given "+fa, r.Label, wi, r.baseAt(r.St, ni, fa, w), r.at(r.St0, src, add(mul(d, i), w), elemType(r.Fn.Params[paramIndex(r.Fn, fa)].Type())))
		}
		r.eq("a node gets its own bias", r.Label, one, r.baseF(r.St, ni, "bias"), r.at(r.St0, r.arg("bias"), i, elemType(r.Fn.Params[paramIndex(r.Fn, "bias")].Type())))
	}
	if adam {
		r.eq("gradients start at zero", r.Label, wi, r.baseAt(r.St, ni, "t", w), Zero)
		if !load {
			r.eq("first moments start at zero", r.Label, wi, r.baseAt(r.St, ni, "adamAvgMom", w), Zero)
			r.eq("second moments start at zero", r.Label, wi, r.baseAt(r.St, ni, "adamAvgVel", w), Zero)
		}
	} else {
		r.eq("the mirror starts as a copy of the weights", r.Label, wi, r.baseAt(r.St, ni, "mirrorWeights", w), r.baseAt(r.St, ni, "weights", w))
		r.eq("the mirror starts as a copy of the bias", r.Label, one, r.baseF(r.St, ni, "mirrorBias"), r.baseF(r.St, ni, "bias"))
	}
	for _, fa := range []string{"tBias", "adamAvgMomBias", "adamAvgVelBias"} {
		r.eq(fa+" starts at zero", r.Label, one, r.baseF(r.St, ni, fa), Zero)
	}
	// per-input state
	tr := func(nd *Term) *Term { return r.getIn(r.St, nd, tNode, "train") }
	place := func(nd, b *Term) *Term { return elem(sbase(tr(nd)), add(soff(tr(nd)), b)) }
	b, b2 := newIdx("slot"), newIdx("other slot")
	r.eq("a node has one slot per batch position", r.Label, one, slen(tr(ni)), bs)
	sj := andN(two, inRange(b, Zero, bs), inRange(b2, Zero, bs))
	distinct("no two nodes share a place for per-input state", sj, place(ni, b), place(nj, b2))
	distinct("no two nodes share per-input state", sj, r.slot(r.St, ni, b), r.slot(r.St, nj, b2))
	gap2 := newIdx("slot gap")
	bn := add(add(b, One), gap2)
	distinct("no two batch positions share per-input state", andN(one, inRange(bn, Zero, bs)), r.slot(r.St, ni, b), r.slot(r.St, ni, bn))
	sp := andN(one, inRange(b, Zero, bs))
	r.holds("every batch position has state", r.Label, sp, not(eqG(r.slot(r.St, ni, b), Nil)), r.Fn.Pos())
	for _, x := range slotFields {
		r.eq("per-input state starts empty ("+x+")", r.Label, sp, r.slotF(r.St, ni, b, x), Zero)
	}
	// owner
	cow := r.arg("cowId")
	r.eq("what is built belongs to the caller's owner id", r.Label, r.know(), r.getIn(r.St, l, tLayer, "cowId"), cow)
	r.eq("what is built belongs to the caller's owner id", r.Label, one, r.getIn(r.St, ni, tNode, "cowId"), cow)
	r.eq("what is built belongs to the caller's owner id", r.Label, one, r.getIn(r.St, r.base(r.St, ni), tBase, "cowId"), cow)
	r.eq("what is built belongs to the caller's owner id", r.Label, sp, r.getIn(r.St, r.slot(r.St, ni, b), tTrain, "cowId"), cow)
	r.facts = func(ev *Event) *Term { return products(ev, d, bs) }
	// tables
	tables := r.getIn(r.St, l, tLayer, "hashTables")
	adds := r.exactlyOnce("every node is inserted under its own number", r.possible([]string{tLSH + ".Add"}),
		func(ev *Event) []*Term { return []*Term{ev.Args[0], ev.Args[2]} }, []*Term{tables, i}, []*Term{i}, one)
	r.insertedUnder(adds, f, one, tables, r.getIn(r.St, l, tLayer, f.field), r.getIn(r.St, l, tLayer, "binIds"), ni)
	r.noPanic("construction does not fail", nil)
	r.onlyWrites("construction changes nothing that existed before", func(w wr, a *Term) bool { return false })
}

// insertedUnder: what is inserted by adds is the address of the codes of the
// node's weights.
func (r *Run) insertedUnder(adds []*cover, f family, dom, tables, hasher, bins, n1 *Term) {
	c := r.C
	w := newIdx("input")
	hashing := c.hasherMethods()
	for _, ad := range adds {
		pc := and(dom, ad.c)
		idx := subst(ad.ev.Args[1], ad.sol)
		okA, okH := false, false
		for _, e2 := range r.possible([]string{tLSH + ".HashesToIndex"}) {
			if subst(e2.Res, ad.sol) != idx {
				continue
			}
			okA = r.eqUnder(pc, subst(e2.Args[0], ad.sol), tables) && r.proves(and(ad.ev.PC, okOf(ad.ev)), e2.PC)
			for _, e3 := range r.possible(hashing) {
				if subst(e3.Res, ad.sol) != subst(e2.Args[1], ad.sol) {
					continue
				}
				okH = true
				sb := func(t *Term) *Term { return subst(t, ad.sol) }
				c.ob("nodes are inserted with the configured hash family", fnName(e3.Fn), e3.Name == f.typ+"."+f.dense, e3.Pos, "%s", e3.Name)
				r.eq("nodes are inserted with the hash functions now in force", r.Label, pc, sb(e3.Args[0]), hasher)
				k := 1
				if f.bins {
					k = 2
					r.eq("nodes are inserted with the bin map now in force", r.Label, pc, sbase(sb(e3.Args[1])), sbase(bins))
				}
				ws := sb(e3.Args[k])
				r.eq("all weights of the node are hashed", r.Label, pc, slen(ws), slen(r.baseF(r.St, n1, "weights")))
				wd := and(pc, inRange(w, Zero, slen(ws)))
				_, ft := c.field(tBase, "weights")
				at := subst(r.at(e3.St, e3.Args[k], w, elemType(ft)), ad.sol)
				r.eq("the weights hashed are the node's current ones", r.Label, wd, at, r.baseAt(r.St, n1, "weights", w))
			}
		}
		c.ob("nodes are inserted at the addresses of their own codes", fnName(ad.ev.Fn), okA && okH, ad.ev.Pos, "addresses %s", show(idx, 8))
	}
}

var _ = strings.HasPrefix

func init() {
	rules["C37"] = rule{"layers are chained", ruleC37, "proof"}
}

// argOf is the argument of an event for the named parameter of its callee.
func (r *Run) argOf(ev *Event, name string) *Term {
	fn := r.C.fn(ev.Name)
	if i := paramIndex(fn, name); i >= 0 && i < len(ev.Args) {
		return ev.Args[i]
	}
	panic(anchorErr("parameter " + name + " of " + ev.Name))
}

// same proves that two slices are the same list.
func (r *Run) same(rule, construct string, pc, a, b *Term) {
	r.eq(rule, construct, pc, slen(a), slen(b))
	r.eq(rule, construct, and(pc, ltI(Zero, slen(b))), elem(sbase(a), soff(a)), elem(sbase(b), soff(b)))
}

func ruleC37(c *Ctx) {
	c.run("network.New", func(r *Run) {
		n := r.arg("numOfLayers")
		r.opq("layer.New")
		r.assume(ltI(Zero, n))
		for _, a := range []string{"sizesOfLayers", "layerTypes", "k", "l", "rangePow"} {
			r.assume(eqI(slen(r.arg(a)), n))
		}
		r.assume(leI(n, slen(r.arg("sparsity"))))
	}, func(r *Run) {
		n := r.arg("numOfLayers")
		net := r.Res
		i := newIdx("layer")
		dom := and(r.know(), inRange(i, Zero, n))
		r.eq("a network knows its number of layers", r.Name, r.know(), r.getIn(r.St, net, tNet, "numberOfLayers"), n)
		r.eq("a network has the requested number of layers", r.Name, r.know(), slen(r.getIn(r.St, net, tNet, "hiddenLayers")), n)
		r.eq("a network keeps its learning rate", r.Name, r.know(), r.getIn(r.St, net, tNet, "learningRate"), r.arg("learningRate"))
		r.eq("a network belongs to its creator", r.Name, r.know(), r.getIn(r.St, net, tNet, "cowId"), r.arg("cowId"))
		r.same("a network keeps its sparsity settings", r.Name, r.know(), r.getIn(r.St, net, tNet, "sparsity"), r.arg("sparsity"))
		cs := r.exactlyOnce("every layer is built once", r.possible([]string{"layer.New"}),
			func(ev *Event) []*Term { return []*Term{r.argOf(ev, "layerId")} }, []*Term{i}, []*Term{i}, dom)
		at := func(name string, k *Term) *Term {
			return r.at(r.St0, r.arg(name), k, elemType(r.Fn.Params[paramIndex(r.Fn, name)].Type()))
		}
		for _, cv := range cs {
			pc := and(dom, cv.c)
			a := func(name string) *Term { return subst(r.argOf(cv.ev, name), cv.sol) }
			r.eq("every layer has its configured size", r.Name, pc, a("numOfNodes"), at("sizesOfLayers", i))
			r.eq("the first layer takes the input dimension", r.Name, and(pc, eqI(i, Zero)), a("previousLayerNumOfNodes"), r.arg("inputDim"))
			r.eq("every other layer takes the size of the layer before it", r.Name, and(pc, ltI(Zero, i)), a("previousLayerNumOfNodes"), at("sizesOfLayers", sub(i, One)))
			r.eq("every layer is of its configured kind", r.Name, pc, a("nodeType"), at("layerTypes", i))
			r.eq("every layer uses the batch size", r.Name, pc, a("batchSize"), r.arg("batchSize"))
			for _, p := range []string{"k", "l", "rangePow", "sparsity"} {
				r.eq("every layer uses its own "+p, r.Name, pc, a(p), at(p, i))
			}
			r.eq("every layer belongs to the network's owner", r.Name, pc, a("cowId"), r.arg("cowId"))
			r.eq("layers are kept in order", r.Name, pc, r.layerAt(r.St, net, i), subst(cv.ev.Res, cv.sol))
		}
		r.noPanic("construction does not fail", nil)
		r.onlyWrites("construction changes nothing that existed before", func(w wr, a *Term) bool { return false })
	})
	for _, f := range families {
		f := f
		c.run("layer.New", func(r *Run) {
			r.Label = r.Name + " with " + f.name
			r.config("HashFunction", c.constOf(f.constant))
			r.config("LoadWeight", False)
			r.familyOpaque()
			r.assume(ltI(Zero, r.arg("numOfNodes")), ltI(Zero, r.arg("previousLayerNumOfNodes")), ltI(Zero, r.arg("batchSize")))
			r.opq(tNode+".Update", tNode+".Weights", tNode+".Bias", "node.NewNodeTrain", "node.NewEmptyNode", "lsh.New", tLSH+".HashesToIndex", tLSH+".Add")
		}, func(r *Run) {
			l := r.Res
			for _, p := range [][2]string{{"nodeType", "nodeType"}, {"k", "k"}, {"l", "l"}, {"previousLayerNumOfNodes", "previousLayerNumOfNodes"}, {"cowId", "cowId"}} {
				r.eq("a layer keeps its "+p[0], r.Label, r.know(), r.getIn(r.St, l, tLayer, p[0]), r.arg(p[1]))
			}
			softmax := eqI(r.arg("nodeType"), c.constOf("node.Softmax"))
			r.eq("a softmax layer has one normalisation constant per batch position", r.Label, and(r.know(), softmax), slen(r.getIn(r.St, l, tLayer, "normalizationConstants")), r.arg("batchSize"))
			evs := r.possible([]string{"lsh.New"})
			made := False
			for _, ev := range evs {
				for _, p := range []string{"k", "l", "rangePow"} {
					r.eq("the tables use the layer's own "+p, r.Label, ev.PC, r.argOf(ev, p), r.arg(p))
				}
				made = or(made, and(ev.PC, samePtr(r.getIn(r.St, l, tLayer, "hashTables"), ev.Res)))
			}
			r.holds("a layer has hash tables of its own", r.Label, r.know(), made, r.Fn.Pos())
		})
	}
	c.mainNetwork()
}
