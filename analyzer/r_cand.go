package main

// C44: the nodes found in the hash tables become active.

import (
	"go/types"
	"strings"
)

func init() {
	rules["C44"] = rule{"nodes found in the hash tables become active", ruleC44, "proof"}
}

func init() {
	rules["C45"] = rule{"fixed-size selection keeps the configured number of nodes", ruleC45, "proof"}
}

// often: in LayerMode1 a node is active when the buckets hold it more often.
const often = 2

func ruleC44(c *Ctx) {
	for _, soft := range []bool{true, false} {
		c.eachMode(soft, nil, func(r *Run, mode int64, soft bool) {
			if mode != 1 && mode != 4 {
				return
			}
			pos := r.Fn.Pos()
			ev, ok := r.queried()
			if !r.C.ob("the tables are queried once", r.Label, ok, pos, "the buckets of the layer's tables are not retrieved exactly once") {
				return
			}
			a := r.activeSet(true)
			if !r.C.ob("the list holds the selected nodes", r.Label, a.k != nil, pos, "nothing shows that all the selected nodes are listed") {
				return
			}
			r.candidates(a.k, ev, mode, soft)
		})
	}
}

// queried is the look-up of the candidates: the buckets at the addresses that
// the layer's tables give to the hash codes of the layer's input.
func (r *Run) queried() (*Event, bool) {
	var ev *Event
	for _, x := range r.calls(tLSH + ".RetrieveRaw") {
		if unsat(andN(r.Pre, r.know(), x.PC)) {
			continue
		}
		if ev != nil {
			return nil, false
		}
		ev = x
	}
	if ev == nil || len(ev.Nest) > 0 || !r.proves(r.know(), ev.PC) {
		return nil, false
	}
	tables := r.get0(r.A[0], tLayer, "hashTables")
	if !r.eqUnder(r.know(), ev.Args[0], tables) {
		return nil, false
	}
	for _, x := range r.calls(tLSH + ".HashesToIndex") {
		if r.eqUnder(r.know(), x.Res, ev.Args[1]) && r.eqUnder(r.know(), x.Args[0], tables) {
			for _, w := range r.writes() {
				if root(w.addr) == root(sbase(x.Res)) && r.seq(w.ev) < r.seq(ev) && !unsat(and(r.Pre, w.pc)) {
					return nil, false
				}
			}
			return ev, true
		}
	}
	return nil, false
}

// candidates proves that every element of every retrieved bucket marks its
// node (LayerMode4), or adds one to its count (LayerMode1).
func (r *Run) candidates(k *marks, ev *Event, mode int64, soft bool) {
	c := r.C
	rowT := ev.Typ
	if rowT == nil {
		rowT = r.C.fn(tLSH + ".RetrieveRaw").Signature.Results().At(0).Type()
	}
	rowT = elemType(rowT)
	row := func(i *Term) *Term { return r.at(r.St, ev.Res, i, rowT) }
	node := func(i, j *Term) *Term { return r.at(r.St, row(i), j, types.Typ[types.Int]) }
	var in *LoopInst
	why := "no pair of loops goes through all the retrieved buckets"
	for _, l := range r.finals {
		if len(l.Outer) != 1 || l.N == nil || l.Back == nil || l.Back.heaps[k.key] == nil {
			continue
		}
		var o *LoopInst
		for _, x := range r.finals {
			if x.K == l.Outer[0] {
				o = x
			}
		}
		if o == nil || o.N == nil || !r.eqUnder(r.know(), o.N, slen(ev.Res)) {
			continue
		}
		i := o.K
		dom := andN(r.know(), inRange(i, Zero, o.N))
		if !r.eqUnder(dom, l.N, slen(row(i))) {
			why = "a loop over the buckets does not go through whole buckets"
			continue
		}
		if o.Early != nil && o.Early != False && !unsat(andN(r.Pre, dom, o.Early)) || l.Early != nil && l.Early != False && !unsat(andN(r.Pre, dom, inRange(l.K, Zero, l.N), l.Early)) {
			why = "the loop over the retrieved nodes can stop early"
			continue
		}
		if !r.proves(r.know(), o.EntryPC) || !r.proves(dom, l.EntryPC) {
			why = "retrieved nodes can be left out: " + show(l.EntryPC, 8)
			continue
		}
		x := node(i, l.K)
		all := andN(dom, inRange(l.K, Zero, l.N), l.BackPC)
		head := &Heap{base: loopHeap(l.ID, k.key, l.K, l.Outer)}
		before, after := readHeap(head, k.at(x)), readHeap(l.Back.heaps[k.key], k.at(x))
		if mode == 4 {
			if r.proves(all, k.p(after)) {
				in = l
			} else {
				why = "a retrieved node is not selected: its mark becomes " + show(simplify(after, and(r.Pre, all)), 8)
			}
			continue
		}
		if r.proves(all, or(eqI(after, add(before, One)), and(k.p(before), k.p(after)))) {
			in = l
		} else {
			why = "the count of a retrieved node becomes " + show(simplify(after, and(r.Pre, all)), 8)
		}
	}
	c.ob("every retrieved node is considered", r.Label, in != nil, r.Fn.Pos(), "%s", why)
	if in == nil {
		return
	}
	if mode == 4 {
		r.filled(k, in, soft)
		return
	}
	for w := range k.skip {
		r.eq("counts start at zero", r.Label, full(w), w.Val, Zero)
	}
	// the counts start at zero and change for the retrieved nodes only
	n := newIdx("count")
	r.eq("a node is selected when the buckets hold it more than twice", r.Label, r.know(), k.p(n), ltI(num(often), n))
	for _, w := range r.events {
		if !k.mine(w) || k.skip[w] {
			continue
		}
		retrieval := false
		for _, l := range w.Nest {
			retrieval = retrieval || l.Base == in.Base
		}
		x := w.Addr.K[1]
		if retrieval {
			r.holds("a retrieved node changes its own count only", r.Label, full(w), eqI(x, node(in.Outer[0], in.K)), w.Pos)
			continue
		}
		c.ob("counts change for retrieved nodes and labels only", r.Label, soft, w.Pos, "a count is set to %s", show(w.Val, 6))
		if soft {
			lab := false
			for _, l := range w.Nest {
				lab = lab || r.proves(full(w), eqI(x, r.label(l.K)))
			}
			c.ob("counts change for retrieved nodes and labels only", r.Label, lab, w.Pos, "the count of node %s is set", show(x, 6))
		}
	}
}

// filled: other nodes are selected only while fewer than 1000 are.
func (r *Run) filled(k *marks, in *LoopInst, soft bool) {
	r.topped("other nodes are added only while fewer than 1000 are selected", k, in, soft, num(1000))
}

func (r *Run) topped(rule string, k *marks, in *LoopInst, soft bool, limit *Term) {
	k.followCounts()
	for _, w := range r.events {
		if !k.mine(w) || k.skip[w] {
			continue
		}
		own := false
		for _, l := range w.Nest {
			own = own || in != nil && l.Base == in.Base || soft && r.proves(full(w), eqI(w.Addr.K[1], r.label(l.K)))
		}
		if own {
			continue
		}
		n := k.uncounted(k.count(w.St.heaps[k.key]))
		r.holds(rule, r.Label, full(w), ltI(n, limit), w.Pos)
	}
}

// fraction is the configured fraction of the layer's nodes, rounded down.
func (r *Run) fraction() *Term {
	x := mul(r.arg("sparsity"), toFloat(slen(r.get0(r.A[0], tLayer, "nodes"))))
	down := app("trunc", x) // the same, nothing being negative
	seen := false
	see := func(t *Term) {
		walk(t, func(u *Term) { seen = seen || u == down })
	}
	s, _ := r.activeAfter()
	see(slen(s))
	for _, ev := range r.events {
		see(ev.PC)
	}
	for _, l := range r.finals {
		if l.N != nil {
			see(l.N)
		}
	}
	if seen {
		return down
	}
	return app("trunc", app("math.Floor", x))
}

func ruleC45(c *Ctx) {
	c.eachMode(true, nil, func(r *Run, mode int64, soft bool) {
		if mode != 2 && mode != 3 {
			return
		}
		pos := r.Fn.Pos()
		N := slen(r.get0(r.A[0], tLayer, "nodes"))
		L := r.fraction()
		a := r.activeSet(true)
		if mode == 2 {
			if !r.C.ob("the list holds the selected nodes", r.Label, a.k != nil, pos, "nothing shows that all the selected nodes are listed") {
				return
			}
			enough := leI(L, a.n)
			r.C.ob("the configured fraction of the nodes is active", r.Label, r.proves(r.know(), enough) || a.k.provesCounted(r.know(), enough), pos, "%s nodes can be fewer than %s", show(a.n, 6), show(L, 6))
			r.topped("other nodes are added only up to the configured fraction", a.k, nil, true, L)
			return
		}
		if !r.C.ob("the list is the beginning of a sorted sequence of the nodes", r.Label, a.sort != nil, pos, "nothing shows that the nodes are sorted by value") {
			return
		}
		i := newIdx("i")
		isLabel := func(i *Term) *Term {
			return existsIdx(slen(r.arg("label")), func(j *Term) *Term { return eqI(r.label(j), i) })
		}
		labels := sumOver(N, i, ite(isLabel(i), One, Zero))
		r.eq("the configured fraction of the nodes is active, more only for the true labels", r.Label, r.know(), a.n, ite(ltI(L, labels), labels, L))
		// the values sorted by: the smaller, the earlier
		s := a.sort.Args[0]
		k, t := r.C.field("index_value.Pair", "Value")
		got := r.load(a.sort.St, fld(elem(sbase(s), add(soff(s), i)), k), t)
		apl, li := r.arg("activeNodesPerLayer"), r.arg("layerIndex")
		_, pt := r.C.field("dataset.Example", "Features")
		input := r.load(r.St0, elem(sbase(apl), add(soff(apl), li)), pt)
		b := newIdx("b")
		ki, vi := pairParts(r.load(r.St0, elem(sbase(input), add(soff(input), b)), elemType(pt)), r.C)
		n := r.layerNode(i)
		act := add(sumOver(slen(input), b, mul(vi, r.baseAt(r.St0, n, "weights", ki))), r.baseF(r.St0, n, "bias"))
		dom := andN(r.know(), inRange(i, Zero, N), not(isLabel(i)))
		r.eq("nodes are ordered by their weighted input plus bias, largest first", r.Label, dom, got, neg(act))
	})
}

// provesCounted proves c with the loop variables that count the marks replaced
// by that count, together with what is known of the iteration a loop ends in.
func (k *marks) provesCounted(pc, c *Term) bool {
	k.followCounts()
	known := True
	walk(c, func(v *Term) {
		if v.Op == OpSym && strings.HasPrefix(v.S, "K:") {
			for _, h := range factHooks {
				known = andN(append(h(v), known)...)
			}
		}
	})
	return implies(k.counted(andN(k.r.Pre, pc, known)), k.counted(c))
}
