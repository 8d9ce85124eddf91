package main

// C42: signs of projections. C43: initial parameters.

import (
	"fmt"
	"math/big"
	"strings"
)

func init() {
	rules["C42"] = rule{"a projection's code is the sign of its signed sample sum", ruleC42, "proof"}
	rules["C43"] = rule{"initial weights and biases are separate random draws", ruleC43, "proof"}
}

func ruleC42(c *Ctx) {
	c.run(tSrp+".GetHash", func(r *Run) {
		bits := r.getIn(r.newSt0(), r.A[0], tSrp, "randBits")
		n := r.getIn(r.newSt0(), r.A[0], tSrp, "numHashes")
		r.assume(leI(Zero, n), eqI(slen(bits), n))
	}, func(r *Run) {
		h := r.A[0]
		n := r.get0(h, tSrp, "numHashes")
		bits, idx := r.get0(h, tSrp, "randBits"), r.get0(h, tSrp, "indices")
		_, bt := c.field(tSrp, "randBits")
		_, it := c.field(tSrp, "indices")
		i, j := newIdx("i"), newIdx("sample")
		dom := and(r.know(), inRange(i, Zero, n))
		row := r.at(r.St0, bits, i, elemType(bt))
		places := r.at(r.St0, idx, i, elemType(it))
		b := asBool(r.at(r.St0, row, j, elemType(elemType(bt))))
		x := r.at(r.St0, r.A[1], r.at(r.St0, places, j, elemType(elemType(it))), c.floatT())
		for _, count := range []*Term{slen(row), slen(places), r.get0(h, tSrp, "samSize")} {
			s := sumOver(count, j, ite(b, x, neg(x)))
			res := simplify(r.at(r.St, r.Res, i, c.intT()), and(r.Pre, dom))
			pos, neg := and(dom, ltF(Zero, s)), and(dom, ltF(s, Zero))
			for _, up := range []*Term{Zero, One} {
				for _, tie := range []*Term{Zero, One} {
					if r.eqUnder(pos, res, up) && r.eqUnder(neg, res, sub(One, up)) && r.eqUnder(and(dom, eqF(s, Zero)), res, tie) {
						c.ob("a code is the sign of the signed sum of the sampled coordinates", r.Label, true, r.Fn.Pos(), "")
						return
					}
				}
			}
		}
		c.ob("a code is the sign of the signed sum of the sampled coordinates", r.Label, false, r.Fn.Pos(), "it is %s", show(simplify(r.at(r.St, r.Res, i, c.intT()), and(r.Pre, dom)), 9))
	})
}

// drawOf: t is 0.01·x for a standard normal draw x; the draw is returned.
func drawOf(t *Term) *Term {
	ms := monosOf(t)
	if len(ms) != 1 || len(ms[0].F) != 1 || ms[0].F[0].E != 1 || absR(ms[0].C).Cmp(big.NewRat(1, 100)) != 0 {
		return nil
	}
	x := ms[0].F[0].T
	if x.Op == OpSym && (strings.HasPrefix(x.S, "fresh:math/rand.NormFloat64@") || strings.HasPrefix(x.S, "fresh:math/rand.Rand.NormFloat64@")) {
		return x
	}
	return nil
}

func (r *Run) drawn(rule string, pc, t *Term) {
	k := and(r.Pre, pc)
	t = simplify(t, k)
	for _, l := range leaves(t) {
		if !unsat(and(k, leafCond(t, l))) {
			r.C.ob(rule, r.Label, drawOf(l) != nil, r.Fn.Pos(), "it is %s", show(l, 8))
		}
	}
}

// separate proves that two values come from different draws.
func (r *Run) separate(rule string, pc, a, b *Term) {
	k := and(r.Pre, pc)
	a, b = simplify(a, k), simplify(b, k)
	same := False
	for _, la := range leaves(a) {
		for _, lb := range leaves(b) {
			x, y := drawOf(la), drawOf(lb)
			eq := True
			if x != nil && y != nil {
				eq = False
				if x.S == y.S && len(x.K) == len(y.K) {
					eq = True
					for m := range x.K {
						eq = and(eq, eqI(x.K[m], y.K[m]))
					}
				}
			}
			same = or(same, andN(leafCond(a, la), leafCond(b, lb), eq))
		}
	}
	r.holds(rule, r.Label, pc, not(same), r.Fn.Pos())
}

func ruleC43(c *Ctx) {
	for i := 0; i < 2; i++ {
		adam := i == 1
		f := families[0]
		for _, g := range families {
			if g.field == "dwtaHasher" {
				f = g
			}
		}
		c.run("layer.New", func(r *Run) {
			r.Label = fmt.Sprintf("%s, Adam=%v", r.Name, adam)
			r.config("HashFunction", c.constOf(f.constant))
			r.config("LoadWeight", False)
			r.config("UseAdam", boolT(adam))
			n, d, b := r.arg("numOfNodes"), r.arg("previousLayerNumOfNodes"), r.arg("batchSize")
			nonNeg[n], nonNeg[d], nonNeg[b] = true, true, true
			r.assume(ltI(Zero, n), ltI(Zero, d), ltI(Zero, b), leI(Zero, mul(n, d)), leI(Zero, mul(n, b)))
			r.familyOpaque()
			r.opq("lsh.New", tLSH+".HashesToIndex", tLSH+".Add")
		}, func(r *Run) {
			n, d := r.arg("numOfNodes"), r.arg("previousLayerNumOfNodes")
			i, w := newIdx("node"), newIdx("weight")
			room := andN(leI(Zero, mul(i, d)), leI(Zero, mul(sub(sub(n, One), i), d)))
			dom := andN(r.know(), inRange(i, Zero, n), inRange(w, Zero, d), room)
			gap := newIdx("gap")
			j := add(add(i, One), gap) // any later node
			v := newIdx("other weight")
			roomJ := andN(leI(Zero, mul(j, d)), leI(Zero, mul(gap, d)), leI(Zero, mul(sub(sub(n, One), j), d)))
			two := andN(dom, inRange(j, Zero, n), inRange(v, Zero, d), roomJ)
			wt := func(k, w *Term) *Term {
				return r.rowWrite(and(r.know(), andN(inRange(k, Zero, n), inRange(w, Zero, d))), r.baseAt(r.St, r.newNode(r.Res, k), "weights", w), k, w, d)
			}
			bias := func(k *Term) *Term { return r.baseF(r.St, r.newNode(r.Res, k), "bias") }
			r.drawn("every weight is a random draw", dom, wt(i, w))
			r.drawn("every bias is a random draw", dom, bias(i))
			r.separate("no two nodes share the draw of a weight", two, wt(i, w), wt(j, v))
			r.separate("no two weights of a node share a draw", andN(two, ltI(w, v)), wt(i, w), wt(i, v))
			r.separate("no two nodes share the draw of a bias", two, bias(i), bias(j))
			r.separate("weights and biases are separate draws", two, wt(i, w), bias(j))
			r.separate("weights and biases are separate draws", two, wt(j, v), bias(i))
			r.separate("weights and biases are separate draws", dom, wt(i, w), bias(i))
		})
	}
}

// rowWrite is the value of element k·d+w of an array that was filled row by
// row, by a nest of two loops; other values are returned as they are.
func (r *Run) rowWrite(dom, t, k, w, d *Term) *Term {
	t = simplify(t, and(r.Pre, dom))
	if t.Op != OpSel || t.K[1].Op != OpElem || !freshMem(t.K[1]) || arrayIdx(t.K[1]) != add(mul(d, k), w) {
		return t
	}
	var ev *Event
	for _, x := range r.writes() {
		if root(x.addr) != root(t.K[1]) || unsat(and(r.Pre, x.pc)) {
			continue
		}
		if ev != nil || x.ev.Kind != "store" {
			return t
		}
		ev = x.ev
	}
	if ev == nil || len(ev.Nest) != 2 || arrayIdx(ev.Addr) == nil {
		return t
	}
	a, b := ev.Nest[0].K, ev.Nest[1].K
	if arrayIdx(ev.Addr) != add(mul(d, a), b) || !r.proves(and(ev.PC, okOf(ev)), inRange(b, Zero, d)) {
		return t
	}
	hc, sol := r.hit(ev, []*Term{a, b}, []*Term{k, w})
	if hc == nil || !r.proves(dom, hc) {
		return t
	}
	return subst(ev.Val, sol)
}
