package main

// C23-C29: layers.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const tLayer = "layer.Layer"

func init() {
	rules["C25"] = rule{"overflow-free softmax over the active nodes", ruleC25, "proof"}
}

var hasherCalls = []string{"wta_hash.WtaHash.GetHash", "densified_wta_hash.DensifiedWtaHash.GetHash", "densified_minhash.DensifiedMinhash.GetHashEasy",
	"sparse_random_projection.SparseRandomProjection.GetHashSparse", "lsh.LSH.HashesToIndex", "lsh.LSH.RetrieveRaw"}

// queryModels keeps what a query calls in other packages symbolic.
func (r *Run) queryModels() {
	r.opq(hasherCalls...)
	r.opaque["lsh.LSH.RetrieveRaw"] = nil
	same := func(i int) func(e *Eng, fr *frame, st *State, fn *ssa.Function, args []*Term, pos tokenPos) *Term {
		return func(e *Eng, fr *frame, st *State, fn *ssa.Function, args []*Term, pos tokenPos) *Term {
			if fn.Signature.Results().Len() == 1 {
				return args[0]
			}
			v := app("activation", args[0], args[2], args[3])
			return raw(OpTuple, "", nil, v, args[0])
		}
	}
	r.opaque[tNode+".GetActivation"] = same(0)
	r.opaque[tNode+".SetlastActivation"] = same(0)
}

const query = tLayer + ".QueryActiveNodeAndComputeActivations"

// activeAfter is the list of active nodes the query leaves for its layer.
func (r *Run) activeAfter() (s *Term, el func(i *Term, field string) *Term) {
	_, pt := r.C.field("dataset.Example", "Features")
	apl, li := r.arg("activeNodesPerLayer"), r.arg("layerIndex")
	s = r.load(r.St, elem(sbase(apl), add(soff(apl), add(li, One))), pt)
	et := elemType(pt)
	return s, func(i *Term, field string) *Term {
		k, t := r.C.field("index_value.Pair", field)
		_ = et
		return r.load(r.St, fld(elem(sbase(s), add(soff(s), i)), k), t)
	}
}

// layerNode is the node number i of the layer before the call.
func (r *Run) layerNode(i *Term) *Term {
	_, nt := r.C.field(tLayer, "nodes")
	return r.at(r.St0, r.get0(r.A[0], tLayer, "nodes"), i, elemType(nt))
}

func ruleC25(c *Ctx) {
	for mode := int64(0); mode <= 4; mode++ {
		for hf := int64(1); hf <= 4; hf++ {
			if hf > 1 && (mode == 2 || mode == 3 || mode == 0) {
				continue
			}
			for _, soft := range []bool{true, false} {
				mode, hf, soft := mode, hf, soft
				c.run(query, func(r *Run) {
					r.Label = fmt.Sprintf("%s in mode %d with hash function %d, softmax=%v", r.Name, mode, hf, soft)
					r.querySetup(mode, hf)
					nt := r.getIn(r.newSt0(), r.A[0], tLayer, "nodeType")
					if soft {
						r.assume(eqI(nt, c.constOf("node.Softmax")))
					} else {
						r.assume(not(eqI(nt, c.constOf("node.Softmax"))))
					}
				}, func(r *Run) {
					nc := r.get0(r.A[0], tLayer, "normalizationConstants")
					in := r.arg("inputId")
					slot := elem(sbase(nc), add(soff(nc), in))
					_, nct := c.field(tLayer, "normalizationConstants")
					r.onlyWrites("only this input's normalisation constant changes", func(w wr, a *Term) bool {
						if a.Op != OpElem || root(a) != root(slot) {
							return true
						}
						return soft && r.proves(w.pc, eqI(a.K[1], slot.K[1]))
					})
					if !soft {
						return
					}
					r.softmaxObs(slot, elemType(nct))
				})
			}
		}
	}
}
func (r *Run) querySetup(mode, hf int64) {
	r.queryModels()
	r.config("LayerMode", num(mode))
	r.config("HashFunction", num(hf))
	if mode == 0 {
		r.assume(eqF(r.arg("sparsity"), One))
	} else {
		r.assume(not(eqF(r.arg("sparsity"), One)))
	}
}

func (r *Run) softmaxObs(slot *Term, ft types.Type) {
	s, el := r.activeAfter()
	n := slen(s)
	apl, li, in := r.arg("activeNodesPerLayer"), r.arg("layerIndex"), r.arg("inputId")
	_, pt := r.C.field("dataset.Example", "Features")
	input := r.load(r.St0, elem(sbase(apl), add(soff(apl), li)), pt)
	act := func(i *Term) *Term { return app("activation", r.layerNode(el(i, "Index")), input, in) }
	b, g := newIdx("b"), newIdx("g")
	dom := andN(r.know(), inRange(b, Zero, n), inRange(g, Zero, n))
	expOf := func(i *Term) *Term {
		v := simplify(el(i, "Value"), and(r.Pre, dom))
		ok := true
		e := mapLeaves(v, func(l *Term) *Term {
			if l.Op == OpApp && l.S == "math.Exp" {
				return l.K[0]
			}
			ok = false
			return l
		})
		if ok {
			return e
		}
		r.C.ob("stored activations are exponentials", r.Name, false, r.Fn.Pos(), "value %s", show(v, 12))
		return nil
	}
	e, e2 := expOf(b), expOf(g)
	if e == nil || e2 == nil {
		return
	}
	m, m2 := sub(act(b), e), sub(act(g), e2)
	r.eq("one and the same value is subtracted from every active value", r.Name, dom, m, m2)
	r.holds("the value subtracted is at least every active value", r.Name, dom, not(ltF(m, act(g))), r.Fn.Pos())
	r.perIndex("every active node stores its own activation", r.calls(tNode+".SetlastActivation"), n, func(i *Term, ev *Event, pc *Term) bool {
		return r.eqUnder(pc, ev.Args[0], r.layerNode(el(i, "Index"))) && r.eqUnder(pc, ev.Args[2], in) && r.eqUnder(pc, ev.Args[3], el(i, "Value"))
	})
	k := newIdx("s")
	r.eq("the normalisation constant is the sum of the stored activations", r.Name, r.know(),
		r.load(r.St, slot, ft), sumOver(n, k, simplify(el(k, "Value"), andN(r.Pre, r.know(), inRange(k, Zero, n)))))
}

// perIndex proves that for every i in [0,n) exactly the events, one per
// iteration of a loop over i, happen and satisfy want.
func (r *Run) perIndex(rule string, evs []*Event, n *Term, want func(i *Term, ev *Event, pc *Term) bool) {
	if len(evs) == 0 {
		r.C.ob(rule, r.Name, false, r.Fn.Pos(), "no such operation happens")
		return
	}
	i := newIdx("i")
	dom := and(r.know(), inRange(i, Zero, n))
	total := False
	for _, ev := range evs {
		if len(ev.Nest) != 1 {
			r.C.ob(rule, fnName(ev.Fn), false, ev.Pos, "not one operation per element")
			return
		}
		K := ev.Nest[0].K
		sub1 := func(t, at *Term) *Term { return subst(t, Sub{K: at}) }
		done := false
		var at *Term
		for _, cand := range []*Term{i, sub(sub(n, One), i)} {
			e2 := *ev
			e2.Args = nil
			for _, a := range ev.Args {
				if a == nil {
					e2.Args = append(e2.Args, nil)
				} else {
					e2.Args = append(e2.Args, sub1(a, cand))
				}
			}
			pc := and(dom, sub1(ev.PC, cand))
			if w := want(i, &e2, pc); w || cand == i {
				at = cand
				if w {
					done = true
					break
				}
			}
		}
		r.C.ob(rule, fnName(ev.Fn), done, ev.Pos, "the operation does not concern its own element")
		if at == nil {
			return
		}
		pc := sub1(ev.PC, at)
		r.holds(rule+" (at most once)", fnName(ev.Fn), dom, not(and(total, pc)), ev.Pos)
		total = or(total, pc)
		if ev.Nest[0].N == nil || !r.eqUnder(r.know(), ev.Nest[0].N, n) {
			r.holds(rule+" (nothing else)", fnName(ev.Fn), and(ev.PC, okOf(ev)), inRange(K, Zero, n), ev.Pos)
		}
	}
	r.holds(rule+" (at least once)", fnName(evs[0].Fn), dom, total, evs[0].Pos)
}
