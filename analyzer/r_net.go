package main

// C27-C32: training and prediction steps of the network.

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tNet = "network.Network"

// oneOwner: every part of the network belongs to the caller's owner id.
func (r *Run) oneOwner() {
	cow := r.arg("cowId")
	keys := map[string]bool{}
	for _, t := range []string{tNet, tLayer, tNode, "node.baseNode", "node.NodeTrain"} {
		k, _ := r.C.field(t, "cowId")
		keys[k] = true
	}
	r.addInit(func(key string, addr *Term) *Term {
		if addr.Op == OpFld && keys[addr.S] {
			return cow
		}
		return nil
	})
}

// queryCall models a query: it leaves some list of active nodes for the next
// layer and returns the layer itself.
func (r *Run) queryCall() {
	r.C.fn(query)
	_, ft := r.C.field("dataset.Example", "Features")
	r.opaque[query] = func(e *Eng, fr *frame, st *State, fn *ssa.Function, args []*Term, pos tokenPos) *Term {
		var cs []*Term
		cs = append(cs, e.counters()...)
		in := raw(OpSym, "retrieved:"+fr.ctx, nil, cs...)
		s := typedSym(raw(OpSym, "active:"+fr.ctx, nil, cs...), ft)
		r.activeSym = s
		e.store(fr, st, elem(sbase(args[2]), add(soff(args[2]), add(args[3], One))), s, ft, nil)
		return raw(OpTuple, "", nil, in, args[0])
	}
}

const (
	errSignal = tNode + ".ComputeExtaStatsForSoftMax"
	backProp  = tNode + ".BackPropagate"
	backFirst = tNode + ".BackPropagateFirstLayer"
)

// backpropModels: the steps of back-propagation update a node in place when
// the caller owns it.
func (r *Run) backpropModels() {
	for _, n := range []string{errSignal, backProp, backFirst} {
		r.C.fn(n)
		r.opaque[n] = func(e *Eng, fr *frame, st *State, fn *ssa.Function, args []*Term, pos tokenPos) *Term { return args[0] }
	}
}

// trainingModels keeps the parts of a training step other than the one
// looked at symbolic.
func (r *Run) trainingModels() {
	r.queryCall()
	r.backpropModels()
	r.opq(tLayer+".GetHashForInputProcessing", tLayer+".HashesToIndex", tLayer+".HashTablesAdd", tLayer+".ClearHashTables", tLayer+".UpdateRandomNodes")
	r.C.fn(tLayer + ".UpdateTable")
	r.opaque[tLayer+".UpdateTable"] = func(e *Eng, fr *frame, st *State, fn *ssa.Function, args []*Term, pos tokenPos) *Term { return args[0] }
}

// netShape: one layer per configured size, the last one softmax (C37).
func (r *Run) netShape() {
	st, n := r.newSt0(), r.A[0]
	ls := r.getIn(st, n, tNet, "hiddenLayers")
	count, _ := r.C.field(tNet, "numberOfLayers")
	kind, _ := r.C.field(tLayer, "nodeType")
	softmax, relu := r.C.constOf("node.Softmax"), r.C.constOf("node.ReLU")
	r.addInit(func(key string, addr *Term) *Term {
		if addr.Op != OpFld {
			return nil
		}
		if addr.S == count && addr.K[0] == n {
			return slen(ls)
		}
		if l := addr.K[0]; addr.S == kind && l.Op == OpSel && l.K[1].Op == OpElem && l.K[1].K[0] == sbase(ls) {
			return ite(eqI(l.K[1].K[1], sub(slen(ls), One)), softmax, relu)
		}
		return nil
	})
	r.assume(ltI(Zero, slen(ls)))
}

// layerAt and nodeAt follow the network's structure in a state.
func (r *Run) layerAt(st *State, net, li *Term) *Term {
	_, lt := r.C.field(tNet, "hiddenLayers")
	return r.at(st, r.getIn(st, net, tNet, "hiddenLayers"), li, elemType(lt))
}
func (r *Run) nodeAt(st *State, net, li, m *Term) *Term {
	_, nt := r.C.field(tLayer, "nodes")
	return r.at(st, r.getIn(st, r.layerAt(st, net, li), tLayer, "nodes"), m, elemType(nt))
}
func (r *Run) widthAt(st *State, net, li *Term) *Term {
	return slen(r.getIn(st, r.layerAt(st, net, li), tLayer, "nodes"))
}

func init() {
	rules["C30"] = rule{"one update per parameter", ruleC30, "proof"}
}

func decimal(s string) *Term {
	x, _ := new(big.Rat).SetString(s)
	return numR(x)
}

// trainedFields are the parts of a node that a batch update may write.
var trainedFields = append([]string{"bias", "tBias", "adamAvgMomBias", "adamAvgVelBias", "mirrorBias"}, baseSlices...)

func ruleC30(c *Ctx) {
	for _, adam := range []bool{true, false} {
		adam := adam
		c.run(tNet+".ProcessInput", func(r *Run) {
			r.Label = r.Name + " with plain SGD"
			if adam {
				r.Label = r.Name + " with Adam"
			}
			r.oneOwner()
			r.netShape()
			r.trainingModels()
			r.config("UseAdam", boolT(adam))
		}, func(r *Run) {
			net := r.A[0]
			out := r.Res.K[1]
			li, m, d := newIdx("layer"), newIdx("node"), newIdx("input")
			n0 := r.nodeAt(r.St0, net, li, m)
			dom := andN(r.know(), inRange(li, Zero, slen(r.get0(net, tNet, "hiddenLayers"))), inRange(m, Zero, r.widthAt(r.St0, net, li)))
			dim := slen(r.baseF(r.St0, n0, "weights"))
			shape := True
			for _, f := range []string{"t", "adamAvgMom", "adamAvgVel"} {
				if adam {
					shape = and(shape, eqI(slen(r.baseF(r.St0, n0, f)), dim))
				}
			}
			if !adam {
				shape = and(shape, eqI(slen(r.baseF(r.St0, n0, "mirrorWeights")), dim))
			}
			dom = and(dom, shape)
			wdom := and(dom, inRange(d, Zero, dim))
			n1 := r.nodeAt(r.St, out, li, m)
			r.eq("layers keep their nodes", r.Label, dom, r.widthAt(r.St, out, li), r.widthAt(r.St0, net, li))
			iter := r.arg("iter")
			lr := r.get0(net, tNet, "learningRate")
			step := add(app("float", iter), One)
			rate := mul(mul(lr, app("math.Sqrt", sub(One, app("math.Pow", decimal("0.999"), step)))), inv(sub(One, app("math.Pow", decimal("0.9"), step))))
			upd := func(rule string, pc, w1, w0, g1, g0, m1, m0, v1, v0 *Term) {
				mom := add(mul(decimal("0.9"), m0), mul(decimal("0.1"), g0))
				vel := add(mul(decimal("0.999"), v0), mul(decimal("0.001"), mul(g0, g0)))
				r.eq("the first moment of every "+rule+" is updated once", r.Label, pc, m1, mom)
				r.eq("the second moment of every "+rule+" is updated once", r.Label, pc, v1, vel)
				r.eq("every "+rule+" is updated once, by the bias-corrected Adam step", r.Label, pc, w1,
					add(w0, mul(rate, mul(mom, inv(add(app("math.Sqrt", vel), decimal("0.00000001")))))))
				r.eq("the gradient of every "+rule+" is reset", r.Label, pc, g1, Zero)
			}
			if adam {
				at := func(st *State, n *Term, f string) *Term { return r.baseAt(st, n, f, d) }
				upd("weight", wdom, at(r.St, n1, "weights"), at(r.St0, n0, "weights"), at(r.St, n1, "t"), at(r.St0, n0, "t"),
					at(r.St, n1, "adamAvgMom"), at(r.St0, n0, "adamAvgMom"), at(r.St, n1, "adamAvgVel"), at(r.St0, n0, "adamAvgVel"))
				upd("bias", dom, r.baseF(r.St, n1, "bias"), r.baseF(r.St0, n0, "bias"), r.baseF(r.St, n1, "tBias"), r.baseF(r.St0, n0, "tBias"),
					r.baseF(r.St, n1, "adamAvgMomBias"), r.baseF(r.St0, n0, "adamAvgMomBias"), r.baseF(r.St, n1, "adamAvgVelBias"), r.baseF(r.St0, n0, "adamAvgVelBias"))
			} else {
				r.eq("every weight takes the value of its mirror", r.Label, wdom, r.baseAt(r.St, n1, "weights", d), r.baseAt(r.St0, n0, "mirrorWeights", d))
				r.eq("the mirror is kept", r.Label, wdom, r.baseAt(r.St, n1, "mirrorWeights", d), r.baseAt(r.St0, n0, "mirrorWeights", d))
				r.eq("every bias takes the value of its mirror", r.Label, dom, r.baseF(r.St, n1, "bias"), r.baseF(r.St0, n0, "mirrorBias"))
				r.eq("the mirror is kept", r.Label, dom, r.baseF(r.St, n1, "mirrorBias"), r.baseF(r.St0, n0, "mirrorBias"))
			}
			for _, f := range []string{"weights", "mirrorWeights", "t", "adamAvgMom", "adamAvgVel"} {
				r.eq("the number of parameters stays", r.Label, dom, slen(r.baseF(r.St, n1, f)), slen(r.baseF(r.St0, n0, f)))
			}
			r.afterBackprop()
		})
	}
}

// afterBackprop: parameters are written only when all gradients of the batch
// have been accumulated.
func (r *Run) afterBackprop() {
	keys := map[string]bool{}
	for _, f := range trainedFields {
		k, _ := r.C.field(tBase, f)
		keys[k] = true
	}
	last := -1
	outer := map[*LoopInst]bool{}
	for i, ev := range r.events {
		if ev.Kind == "call" && strings.HasPrefix(ev.Name, tNode+".") || ev.Kind == "call" && ev.Name == query {
			last = i
			if len(ev.Nest) > 0 {
				outer[ev.Nest[0]] = true
			}
		}
	}
	n := 0
	for i, ev := range r.events {
		param := false
		if ev.Kind == "store" || ev.Kind == "copy" || ev.Kind == "append" {
			a := ev.Addr
			if ev.Kind != "store" {
				a = elem(sbase(ev.Args[0]), Zero)
			}
			if freshMem(a) {
				continue
			}
			walk(a, func(u *Term) {
				if u.Op == OpFld && keys[u.S] {
					param = true
				}
			})
		}
		if !param {
			continue
		}
		n++
		ok := i > last && (len(ev.Nest) == 0 || !outer[ev.Nest[0]])
		if !ok {
			r.C.ob("parameters change only after the whole batch was back-propagated", fnName(ev.Fn), false, ev.Pos, "%s to %s", ev.Kind, show(ev.Addr, 8))
		}
	}
	r.C.ob("parameters change only after the whole batch was back-propagated", r.Label, n > 0 && last >= 0, r.Fn.Pos(), "%d parameter writes", n)
}

func init() {
	rules["C27"] = rule{"a refresh re-inserts every node", ruleC27, "proof"}
}

// before: within one iteration of the loops they share (as solved), a happens
// before b.
func (r *Run) before(a, b *cover, dom *Term) bool {
	ia, ib := -1, -1
	for i, ev := range r.events {
		if ev == a.ev {
			ia = i
		}
		if ev == b.ev {
			ib = i
		}
	}
	for i := 0; i < len(a.ev.Nest) && i < len(b.ev.Nest) && a.ev.Nest[i] == b.ev.Nest[i]; i++ {
		k := a.ev.Nest[i].K
		ka, kb := a.sol[k], b.sol[k]
		if ka == nil || kb == nil {
			return false
		}
		ka, kb = subst(ka, a.sol), subst(kb, b.sol)
		pc := and(dom, and(a.c, b.c))
		if r.proves(pc, ltI(ka, kb)) {
			return true
		}
		if !r.proves(pc, eqI(ka, kb)) {
			return false
		}
	}
	return ia >= 0 && ia < ib
}

func ruleC27(c *Ctx) {
	for _, f := range families {
		for _, adam := range []bool{true, false} {
			f, adam := f, adam
			if !adam && f.field != "dwtaHasher" {
				continue
			}
			c.run(tNet+".ProcessInput", func(r *Run) {
				r.Label = fmt.Sprintf("%s with %s and Adam=%v", r.Name, f.name, adam)
				r.oneOwner()
				r.netShape()
				r.queryCall()
				r.backpropModels()
				r.opq(tLayer+".UpdateRandomNodes", tLSH+".Add", tLSH+".HashesToIndex", tLSH+".Clear")
				r.familyOpaque()
				r.config("HashFunction", c.constOf(f.constant))
				r.config("UseAdam", boolT(adam))
			}, func(r *Run) { r.refresh(f) })
		}
	}
}

func (r *Run) refresh(f family) {
	c, net, out := r.C, r.A[0], r.Res.K[1]
	li, m := newIdx("layer"), newIdx("node")
	_, st := c.field(tNet, "sparsity")
	sparse := ltF(r.at(r.St0, r.get0(net, tNet, "sparsity"), li, elemType(st)), One)
	rehash, rebuild := asBool(r.arg("rehash")), asBool(r.arg("rebuild"))
	inNet := and(r.know(), inRange(li, Zero, slen(r.get0(net, tNet, "hiddenLayers"))))
	dom := andN(inNet, sparse, or(rehash, rebuild))
	L0 := r.layerAt(r.St0, net, li)
	L1 := r.layerAt(r.St, out, li)
	tables := r.getIn(r.St0, L0, tLayer, "hashTables")
	r.eq("a layer keeps its tables", r.Label, inNet, r.getIn(r.St, L1, tLayer, "hashTables"), tables)
	mdom := and(dom, inRange(m, Zero, r.widthAt(r.St0, net, li)))
	clears := r.exactlyOnce("a refresh empties the tables", r.possible([]string{tLSH + ".Clear"}),
		func(ev *Event) []*Term { return []*Term{ev.Args[0]} }, []*Term{tables}, []*Term{li}, dom)
	adds := r.exactlyOnce("a refresh inserts every node under its own number", r.possible([]string{tLSH + ".Add"}),
		func(ev *Event) []*Term { return []*Term{ev.Args[0], ev.Args[2]} }, []*Term{tables, m}, []*Term{li, m}, mdom)
	for _, cl := range clears {
		for _, ad := range adds {
			c.ob("the tables are emptied before nodes are inserted", fnName(ad.ev.Fn), r.before(cl, ad, mdom), cl.ev.Pos, "insertions may precede the emptying")
		}
	}
	hasher := r.getIn(r.St, L1, tLayer, f.field)
	bins := r.getIn(r.St, L1, tLayer, "binIds")
	n1 := r.nodeAt(r.St, out, li, m)
	r.insertedUnder(adds, f, mdom, tables, hasher, bins, n1)
	// replacing the hash functions
	again := andN(inNet, sparse, rebuild)
	fresh := true
	for _, l := range leaves(simplify(hasher, and(r.Pre, again))) {
		fresh = fresh && l.Op == OpSym && strings.HasPrefix(l.S, "fresh:"+f.ctor+"@")
	}
	c.ob("a rebuild replaces the hash functions", r.Label, fresh, r.Fn.Pos(), "the hasher in place is %s", show(simplify(hasher, and(r.Pre, again)), 8))
	r.eq("hash functions are replaced only together with a refresh", r.Label, and(inNet, not(and(sparse, or(rehash, rebuild)))), hasher, r.getIn(r.St0, L0, tLayer, f.field))
}

func init() {
	rules["C31"] = rule{"back-propagation covers every active node once", ruleC31, "proof"}
	rules["C29"] = rule{"inference never sees the labels", ruleC29, "proof"}
}

// forward proves that every example is evaluated on every layer once and
// returns the list of nodes active in layer j for example i.
func (r *Run) forward() (active func(i, j *Term) *Term, cs []*cover) {
	evs := r.possible([]string{query})
	if !r.C.ob("every layer is evaluated by one query", r.Label, len(evs) == 1 && r.activeSym != nil, r.Fn.Pos(), "%d calls of the query", len(evs)) {
		return nil, nil
	}
	net := r.A[0]
	i, j := newIdx("example"), newIdx("layer")
	dom := andN(r.know(), inRange(i, Zero, slen(r.arg("examples"))), inRange(j, Zero, slen(r.get0(net, tNet, "hiddenLayers"))))
	pat := func(ev *Event) []*Term { return []*Term{ev.Args[4], ev.Args[3], ev.Args[0]} }
	cs = r.exactlyOnce("every layer is evaluated once for every example", evs, pat, []*Term{i, j, r.layerAt(r.St0, net, j)}, []*Term{i, j}, dom)
	if cs == nil {
		return nil, nil
	}
	sym := r.activeSym
	active = func(i, j *Term) *Term {
		_, sol := r.hit(evs[0], pat(evs[0])[:2], []*Term{i, j})
		return subst(subst(sym, sol), sol)
	}
	return active, cs
}

// nodeRef splits the pointer of a node found through an active pair into the
// storage of the layer's nodes and the place of the pair.
func nodeRef(n *Term) (nodes, pair *Term) {
	if n.Op != OpSel || n.K[1].Op != OpElem {
		return nil, nil
	}
	a := n.K[1]
	if a.K[1].Op != OpSel {
		return a.K[0], nil
	}
	return a.K[0], a.K[1].K[1]
}

func ruleC31(c *Ctx) {
	for i := 0; i < 4; i++ {
		adam, single := i&1 == 0, i&2 == 0
		c.run(tNet+".ProcessInput", func(r *Run) {
			r.Label = fmt.Sprintf("%s with Adam=%v, single layer=%v", r.Name, adam, single)
			r.oneOwner()
			if single {
				hl, ht := c.field(tNet, "hiddenLayers")
				at := fld(r.A[0], hl)
				s := r.load(r.newSt0(), at, ht)
				one := mkSlice(sbase(s), Zero, One, One)
				r.addInit(func(key string, addr *Term) *Term {
					if addr == at {
						return one
					}
					return nil
				})
			}
			r.netShape()
			if !single {
				r.assume(ltI(One, slen(r.getIn(r.newSt0(), r.A[0], tNet, "hiddenLayers"))))
			}
			r.trainingModels()
			r.config("UseAdam", boolT(adam))
		}, func(r *Run) { r.backward(adam) })
	}
}

func (r *Run) backward(adam bool) {
	c, net := r.C, r.A[0]
	active, fwd := r.forward()
	if active == nil {
		return
	}
	N := slen(r.get0(net, tNet, "hiddenLayers"))
	last := sub(N, One)
	i, j, p := newIdx("example"), newIdx("layer"), newIdx("position")
	idom := and(r.know(), inRange(i, Zero, slen(r.arg("examples"))))
	nodesBase := func(j *Term) *Term { return sbase(r.getIn(r.St0, r.layerAt(r.St0, net, j), tLayer, "nodes")) }
	kIdx, _ := c.field("index_value.Pair", "Index")
	pairAt := func(i, j, p *Term) *Term {
		s := active(i, j)
		return fld(elem(sbase(s), add(soff(s), p)), kIdx)
	}
	slotArg := map[string]int{errSignal: 3, backProp: 5, backFirst: 4}
	pat := func(ev *Event) []*Term {
		nodes, pair := nodeRef(ev.Args[0])
		if pair == nil {
			return []*Term{ev.Args[slotArg[ev.Name]], Nil, Nil}
		}
		return []*Term{ev.Args[slotArg[ev.Name]], nodes, pair}
	}
	target := func(i, j, p *Term) []*Term { return []*Term{i, nodesBase(j), pairAt(i, j, p)} }
	pos := func(j *Term) *Term { return inRange(p, Zero, slen(active(i, j))) }
	sig := r.exactlyOnce("every active output node receives its error signal once", r.possible([]string{errSignal}), pat,
		target(i, last, p), []*Term{i, p}, and(idom, pos(last)))
	first := r.exactlyOnce("every active node of the first layer is back-propagated once", r.possible([]string{backFirst}), pat,
		target(i, Zero, p), []*Term{i, p}, and(idom, pos(Zero)))
	hdom := andN(idom, inRange(j, One, N), pos(j))
	var hid []*cover
	if hs := r.possible([]string{backProp}); N == One {
		c.ob("a single layer has no layer below", r.Label, len(hs) == 0, r.Fn.Pos(), "%d calls", len(hs))
	} else if hid = r.exactlyOnce("every active node of the other layers is back-propagated once", hs, pat,
		target(i, j, p), []*Term{i, j, p}, hdom); hid == nil {
		return
	}
	if sig == nil || first == nil {
		return
	}
	ex := r.arg("examples")
	exF := func(i *Term, f string) *Term {
		k, t := c.field("dataset.Example", f)
		return r.load(r.St0, fld(elem(sbase(ex), add(soff(ex), i)), k), t)
	}
	sameSlice := func(rule string, pc, a, b *Term) {
		r.eq(rule, r.Label, pc, slen(a), slen(b))
		q := newIdx("q")
		_ = q
		r.eq(rule, r.Label, and(pc, ltI(Zero, slen(b))), elem(sbase(a), soff(a)), elem(sbase(b), soff(b)))
	}
	for _, cv := range sig {
		pc := andN(idom, pos(last), cv.c)
		a := func(k int) *Term { return subst(cv.ev.Args[k], cv.sol) }
		nc := r.getIn(r.St0, r.layerAt(r.St0, net, last), tLayer, "normalizationConstants")
		_, nt := c.field(tLayer, "normalizationConstants")
		r.eq("the error signal uses the example's normalisation constant", r.Label, pc, a(2), r.at(r.St0, nc, i, elemType(nt)))
		sameSlice("the error signal uses the example's labels", pc, a(4), exF(i, "Labels"))
	}
	for _, cv := range first {
		pc := andN(idom, pos(Zero), cv.c)
		a := func(k int) *Term { return subst(cv.ev.Args[k], cv.sol) }
		sameSlice("the first layer back-propagates to the example's features", pc, a(2), exF(i, "Features"))
		if !adam {
			r.eq("plain SGD uses the learning rate", r.Label, pc, a(3), r.get0(net, tNet, "learningRate"))
		}
	}
	for _, cv := range hid {
		pc := and(hdom, cv.c)
		a := func(k int) *Term { return subst(cv.ev.Args[k], cv.sol) }
		_, nt := c.field(tLayer, "nodes")
		below := subst(r.load(cv.ev.St, cv.ev.Args[2], nt), cv.sol)
		sameSlice("a layer back-propagates to the nodes of the layer below", pc, below, r.getIn(r.St0, r.layerAt(r.St0, net, sub(j, One)), tLayer, "nodes"))
		sameSlice("a layer back-propagates to the active nodes of the layer below", pc, a(3), active(i, sub(j, One)))
		if !adam {
			r.eq("plain SGD uses the learning rate", r.Label, pc, a(4), r.get0(net, tNet, "learningRate"))
		}
	}
	// order
	at := func(cv *cover, i, j, p *Term) *cover {
		cc, sol := r.hit(cv.ev, pat(cv.ev), target(i, j, p))
		if cc == nil {
			return &cover{cv.ev, True, Sub{}}
		}
		return &cover{cv.ev, cc, sol}
	}
	j2, p2 := newIdx("lower layer"), newIdx("other position")
	pos2 := func(j *Term) *Term { return inRange(p2, Zero, slen(active(i, j))) }
	for _, h := range hid {
		for _, h2 := range hid {
			d := andN(hdom, inRange(j2, One, j), pos2(j2))
			c.ob("layers are processed from the last to the first", fnName(h.ev.Fn), r.before(at(h, i, j, p), at(h2, i, j2, p2), d), h.ev.Pos, "a lower layer may come first")
		}
		for _, f := range first {
			d := andN(hdom, pos2(Zero))
			c.ob("layers are processed from the last to the first", fnName(h.ev.Fn), r.before(at(h, i, j, p), at(f, i, Zero, p2), d), h.ev.Pos, "the first layer may come first")
		}
		for _, s := range sig {
			d := andN(idom, ltI(One, N), pos(last))
			c.ob("an output node has its error signal before it is back-propagated", fnName(h.ev.Fn), r.before(at(s, i, last, p), at(h, i, last, p), d), h.ev.Pos, "it may be back-propagated first")
		}
	}
	for _, f := range first {
		for _, s := range sig {
			d := andN(idom, eqI(N, One), pos(last))
			c.ob("an output node has its error signal before it is back-propagated", fnName(f.ev.Fn), unsat(andN(r.Pre, d, s.c, f.c)) || r.before(at(s, i, last, p), at(f, i, last, p), d), f.ev.Pos, "it may be back-propagated first")
		}
	}
	jq := newIdx("layer evaluated")
	for _, q := range fwd {
		cc, sol := r.hit(q.ev, []*Term{q.ev.Args[4], q.ev.Args[3]}, []*Term{i, jq})
		if cc == nil {
			continue
		}
		qc := &cover{q.ev, cc, sol}
		d := andN(idom, inRange(jq, Zero, N), pos(last))
		for _, s := range append(append(append([]*cover{}, sig...), hid...), first...) {
			jj := last
			if s.ev.Name == backProp {
				jj = j
				d = andN(idom, inRange(jq, Zero, N), inRange(j, One, N), pos(j))
			} else if s.ev.Name == backFirst {
				jj = Zero
				d = andN(idom, inRange(jq, Zero, N), pos(Zero))
			}
			c.ob("the forward pass of an example is complete before its back-propagation", fnName(s.ev.Fn), r.before(qc, at(s, i, jj, p), d), s.ev.Pos, "a layer may be evaluated later")
		}
	}
	r.onlyWritesStructure("a training step keeps the network's structure")
}

// onlyWritesStructure: layers and nodes stay in their places.
func (r *Run) onlyWritesStructure(rule string) {
	net, out := r.A[0], r.Res.K[len(r.Res.K)-1]
	li, m := newIdx("layer"), newIdx("node")
	dom := andN(r.know(), inRange(li, Zero, slen(r.get0(net, tNet, "hiddenLayers"))))
	r.eq(rule, r.Label, dom, r.layerAt(r.St, out, li), r.layerAt(r.St0, net, li))
	dom = and(dom, inRange(m, Zero, r.widthAt(r.St0, net, li)))
	r.eq(rule, r.Label, dom, r.nodeAt(r.St, out, li, m), r.nodeAt(r.St0, net, li, m))
}

// examplesRead: what the queries of a step are given.
func (r *Run) queryInputs(labels func(pc, i, got *Term), sparsityAt func(j *Term) *Term) {
	active, cs := r.forward()
	if active == nil {
		return
	}
	c, net := r.C, r.A[0]
	i, j := newIdx("example"), newIdx("layer")
	ex := r.arg("examples")
	k, ft := c.field("dataset.Example", "Features")
	_, sp := c.field(tNet, "sparsity")
	for _, q := range cs {
		cc, sol := r.hit(q.ev, []*Term{q.ev.Args[4], q.ev.Args[3]}, []*Term{i, j})
		pc := andN(r.know(), inRange(i, Zero, slen(ex)), inRange(j, Zero, slen(r.get0(net, tNet, "hiddenLayers"))), cc)
		a := func(k int) *Term { return subst(q.ev.Args[k], sol) }
		labels(pc, i, a(5))
		r.eq("a query uses its layer's sparsity setting for this purpose", r.Label, pc, a(6), r.at(r.St0, r.get0(net, tNet, "sparsity"), sparsityAt(j), elemType(sp)))
		apl := a(2)
		feat := r.load(r.St0, fld(elem(sbase(ex), add(soff(ex), i)), k), ft)
		in := subst(r.load(q.ev.St, elem(sbase(q.ev.Args[2]), add(soff(q.ev.Args[2]), q.ev.Args[3])), ft), sol)
		_ = apl
		first := and(pc, eqI(j, Zero))
		r.eq("the first layer is evaluated on the example's features", r.Label, first, in, feat)
		r.eq("every other layer is evaluated on the active nodes of the layer before", r.Label, and(pc, ltI(Zero, j)), in, active(i, sub(j, One)))
	}
}

// trainingLabels: the queries of a training step get the labels of their example.
func (c *Ctx) trainingLabels() {
	lab, lt := c.field("dataset.Example", "Labels")
	c.run(tNet+".ProcessInput", func(r *Run) {
		r.oneOwner()
		r.netShape()
		r.trainingModels()
	}, func(r *Run) {
		ex := r.arg("examples")
		r.queryInputs(func(pc, i, got *Term) {
			want := r.load(r.St0, fld(elem(sbase(ex), add(soff(ex), i)), lab), lt)
			r.eq("training queries use the example's labels", r.Label, pc, slen(got), slen(want))
			r.eq("training queries use the example's labels", r.Label, and(pc, ltI(Zero, slen(want))), elem(sbase(got), soff(got)), elem(sbase(want), soff(want)))
		}, func(j *Term) *Term { return j })
	})
}

func ruleC29(c *Ctx) {
	c.trainingLabels()
	lab, _ := c.field("dataset.Example", "Labels")
	c.run(tNet+".PredictClass", func(r *Run) {
		r.oneOwner()
		r.netShape()
		r.queryCall()
		r.opq(tNode + ".GetLastActivation")
	}, func(r *Run) {
		n := r.get0(r.A[0], tNet, "numberOfLayers")
		r.queryInputs(func(pc, i, got *Term) {
			r.eq("inference queries get an empty label list", r.Label, pc, slen(got), Zero)
		}, func(j *Term) *Term { return add(n, j) })
		// labels influence nothing else
		k := 0
		for _, ev := range r.events {
			for _, t := range append([]*Term{ev.PC, ev.Addr, ev.Val, okOf(ev)}, ev.Args...) {
				if t == nil {
					continue
				}
				k++
				uses := (*Term)(nil)
				depsOf(t, func(u *Term) {
					if u.Op == OpFld && u.S == lab && ev.Key != "F:"+lab {
						uses = u
					}
				})
				if uses == nil {
					continue
				}
				switch ev.Kind {
				case "call", "store", "copy", "append", "panic", "mapupdate", "sort", "exit":
					c.ob("labels influence only whether a prediction counts", fnName(ev.Fn), false, ev.Pos, "%s depends on %s", ev.Kind, show(uses, 8))
				}
			}
		}
		c.ob("labels influence only whether a prediction counts", r.Label, k > 0, r.Fn.Pos(), "nothing happens")
	})
}
