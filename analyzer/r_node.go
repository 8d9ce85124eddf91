package main

// C18-C22: node operations.

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tNode  = "node.Node"
	tBase  = "node.baseNode"
	tTrain = "node.NodeTrain"
	tPair  = "index_value.Pair"
)

func init() {
	rules["C18"] = rule{"copy-on-write discipline of nodes", ruleC18, "proof"}
	rules["C19"] = rule{"activation = rectified weighted input plus bias", ruleC19, "proof"}
	rules["C20"] = rule{"slot life cycle", ruleC20, "proof"}
	rules["C21"] = rule{"softmax cross-entropy error signal", ruleC21, "proof"}
	rules["C22"] = rule{"gradient accumulation", ruleC22, "proof"}
}

// constOf resolves a declared constant "pkg.Name".
func (c *Ctx) constOf(name string) *Term {
	i := strings.LastIndex(name, ".")
	pk := c.P.Pkgs[name[:i]]
	if pk != nil {
		if k := pk.Const(name[i+1:]); k != nil {
			if r := exactNum(k.Value.Value); r != nil {
				return numR(r)
			}
		}
	}
	panic(anchorErr("constant " + name + " not found"))
}

// owners fixes which of the parts of every node belong to the caller's owner id:
// bit 0 the node, bit 1 its base, bit 2 its slots.
func (r *Run) owners(c *Term, mask int) {
	val := func(m bool) *Term {
		if m {
			return c
		}
		return add(c, One)
	}
	kn, _ := r.C.field(tNode, "cowId")
	kb, _ := r.C.field(tBase, "cowId")
	kt, _ := r.C.field(tTrain, "cowId")
	r.addInit(func(key string, addr *Term) *Term {
		if addr.Op != OpFld {
			return nil
		}
		switch addr.S {
		case kn:
			return val(mask&1 != 0)
		case kb:
			return val(mask&2 != 0)
		case kt:
			return val(mask&4 != 0)
		}
		return nil
	})
	r.Label += " " + ownerName(mask)
}

func ownerName(mask int) string {
	n := ""
	for i, p := range []string{"node", "base", "slots"} {
		if mask&(1<<i) != 0 {
			n += "+" + p
		} else {
			n += "-" + p
		}
	}
	return "[" + n + "]"
}

func (r *Run) arg(name string) *Term {
	if i := paramIndex(r.Fn, name); i >= 0 {
		return r.A[i]
	}
	panic(anchorErr("parameter " + name + " of " + r.Name))
}

// node state seen through a node pointer in a state
func (r *Run) base(st *State, n *Term) *Term { return r.getIn(st, n, tNode, "base") }
func (r *Run) slot(st *State, n, i *Term) *Term {
	_, tt := r.C.field(tNode, "train")
	return r.at(st, r.getIn(st, n, tNode, "train"), i, elemType(tt))
}
func (r *Run) slotF(st *State, n, i *Term, f string) *Term {
	return r.getIn(st, r.slot(st, n, i), tTrain, f)
}
func (r *Run) baseF(st *State, n *Term, f string) *Term { return r.getIn(st, r.base(st, n), tBase, f) }
func (r *Run) baseAt(st *State, n *Term, f string, w *Term) *Term {
	_, t := r.C.field(tBase, f)
	return r.at(st, r.baseF(st, n, f), w, elemType(t))
}

var baseScalars = []string{"bias", "tBias", "adamAvgMomBias", "adamAvgVelBias", "mirrorBias", "nodeType", "currentBatchsize", "idInLayer"}
var baseSlices = []string{"weights", "mirrorWeights", "adamAvgMom", "adamAvgVel", "t"}
var slotFields = []string{"lastDeltaforBPs", "lastActivations", "activeinputIds"}

func minus(l []string, drop ...string) []string {
	var out []string
	for _, x := range l {
		keep := true
		for _, d := range drop {
			if d == x {
				keep = false
			}
		}
		if keep {
			out = append(out, x)
		}
	}
	return out
}

// sameNode proves that node n in state st1 has the state n0 had in st0, except
// for the listed base fields and the fields of slot "slot".
func (r *Run) sameNode(rule string, st1 *State, n1, n0 *Term, pc *Term, skip map[string]bool, slot *Term) {
	for _, f := range baseScalars {
		if skip[f] {
			continue
		}
		r.eq(rule+" ("+f+")", r.Label, pc, r.baseF(st1, n1, f), r.baseF(r.St0, n0, f))
	}
	w := newIdx("w")
	for _, f := range baseSlices {
		if skip[f] {
			continue
		}
		s1, s0 := r.baseF(st1, n1, f), r.baseF(r.St0, n0, f)
		r.eq(rule+" (size of "+f+")", r.Label, pc, slen(s1), slen(s0))
		r.eq(rule+" ("+f+")", r.Label, and(pc, inRange(w, Zero, slen(s0))), r.baseAt(st1, n1, f, w), r.baseAt(r.St0, n0, f, w))
	}
	j := newIdx("slot")
	tr0 := r.getIn(r.St0, n0, tNode, "train")
	tr1 := r.getIn(st1, n1, tNode, "train")
	r.eq(rule+" (number of slots)", r.Label, pc, slen(tr1), slen(tr0))
	pj := and(pc, inRange(j, Zero, slen(tr0)))
	if slot != nil {
		pj = and(pj, not(eqI(j, slot)))
		// distinct slots of a node are distinct objects (C36)
		pj = and(pj, not(samePtr(r.slot(r.St0, n0, j), r.slot(r.St0, n0, slot))))
	}
	for _, f := range slotFields {
		r.eq(rule+" (other slots: "+f+")", r.Label, pj, r.slotF(st1, n1, j, f), r.slotF(r.St0, n0, j, f))
	}
}

// slotOK: preconditions shared by operations on an input slot.
func (r *Run) slotOK(n, i *Term) {
	st := r.newSt0()
	tr := r.getIn(st, n, tNode, "train")
	r.assume(leI(Zero, i), ltI(i, slen(tr)))
	r.assume(eqI(r.baseF(st, n, "currentBatchsize"), slen(tr)))
}

// nodeOps lists the methods of *Node that take an owner id and return a node.
func (c *Ctx) nodeOps() []string {
	var out []string
	for _, f := range c.allFuncs() {
		sig := f.Signature
		if sig.Recv() == nil || f.Synthetic != "" || typeKey(sig.Recv().Type()) != "*"+tNode && typeKey(sig.Recv().Type()) != tNode {
			continue
		}
		if f.Object() == nil || !f.Object().Exported() {
			continue
		}
		ret := false
		for i := 0; i < sig.Results().Len(); i++ {
			if sig.Results().At(i).Type().String() == sig.Recv().Type().String() {
				ret = true
			}
		}
		if ret {
			out = append(out, fnName(f))
		}
	}
	return out
}

// resNode picks the node among the results.
func (r *Run) resNode() *Term {
	sig := r.Fn.Signature.Results()
	if sig.Len() == 1 {
		return r.Res
	}
	for i := 0; i < sig.Len(); i++ {
		if strings.Contains(sig.At(i).Type().String(), "Node") {
			return extract(r.Res, i)
		}
	}
	panic(anchorErr("no node among the results of " + r.Name))
}

func (r *Run) cowArg() *Term {
	for i, p := range r.Fn.Params {
		if strings.EqualFold(p.Name(), "cowId") {
			return r.A[i]
		}
	}
	// the first integer parameter after the receiver
	for i, p := range r.Fn.Params[1:] {
		if isInteger(p.Type()) {
			return r.A[i+1]
		}
	}
	panic(anchorErr("no owner id parameter of " + r.Name))
}

func ruleC18(c *Ctx) {
	ops := c.nodeOps()
	c.ob("node operations are found", tNode, len(ops) >= 12, 0, "only %v", ops)
	kNodeTrain, _ := c.field(tNode, "train")
	kNodeBase, _ := c.field(tNode, "base")
	_ = kNodeBase
	kPrev := "previousNodes"
	for _, op := range ops {
		for mask := 0; mask < 8; mask++ {
			for adam := 0; adam < 2; adam++ {
				if adam == 1 && !c.readsConfig(op, "UseAdam") {
					continue
				}
				mask, adam := mask, adam
				c.run(op, func(r *Run) {
					r.owners(r.cowArg(), mask)
					r.config("UseAdam", boolT(adam == 1))
					r.nodeModels()
				}, func(r *Run) {
					n := r.A[0]
					pc := r.know()
					if mask == 0 {
						r.sameNode("the previous version is left as it was", r.St, n, n, pc, nil, nil)
					}
					r.onlyWrites("an operation writes only storage of its owner id", func(w wr, a *Term) bool {
						rt := root(a)
						// the caller's list of previous nodes is an output parameter
						if containsP(a, func(u *Term) bool { return u.Op == OpSym && strings.HasSuffix(u.S, kPrev) }) && a.Op == OpElem {
							return true
						}
						switch {
						case a.Op == OpFld && strings.HasPrefix(a.S, tNode+"."):
							return mask&1 != 0
						case a.Op == OpFld && strings.HasPrefix(a.S, tBase+"."):
							return mask&2 != 0
						case a.Op == OpFld && strings.HasPrefix(a.S, tTrain+"."):
							return mask&4 != 0
						case a.Op == OpElem:
							// storage reached through a field
							src := rt
							if src.Op == OpApp && src.S == "sbase" {
								src = src.K[0]
							}
							if src.Op == OpSel && src.K[1].Op == OpFld {
								f := src.K[1].S
								if f == kNodeTrain {
									return mask&1 != 0
								}
								if strings.HasPrefix(f, tBase+".") {
									return mask&2 != 0
								}
							}
						}
						return false
					})
				})
			}
		}
	}
	// faithful copies
	for _, op := range []string{tNode + ".SetlastActivation", tNode + ".SetTBias", tNode + ".SetBias"} {
		op := op
		for mask := 0; mask < 8; mask++ {
			mask := mask
			c.run(op, func(r *Run) {
				r.owners(r.cowArg(), mask)
				if strings.HasSuffix(op, "SetlastActivation") {
					r.slotOK(r.A[0], r.arg("inputId"))
				}
			}, func(r *Run) {
				var slot *Term
				skip := map[string]bool{}
				switch op {
				case tNode + ".SetlastActivation":
					slot = r.arg("inputId")
				case tNode + ".SetTBias":
					skip["tBias"] = true
				case tNode + ".SetBias":
					skip["bias"] = true
				}
				r.sameNode("the new version starts as a faithful copy", r.St, r.resNode(), r.A[0], r.know(), skip, slot)
				if slot != nil {
					for _, f := range []string{"activeinputIds", "lastDeltaforBPs"} {
						r.eq("the new version of a slot starts as a faithful copy ("+f+")", r.Label, r.know(), r.slotF(r.St, r.resNode(), slot, f), r.slotF(r.St0, r.A[0], slot, f))
					}
				}
			})
		}
	}
	c.setters()
}

// setters: each setter changes what its name says and nothing else.
func (c *Ctx) setters() {
	type set struct {
		op, field string
		idx       bool
	}
	for _, s := range []set{{"SetT", "t", true}, {"SetAdamAvgMom", "adamAvgMom", true}, {"SetAdamAvgVel", "adamAvgVel", true},
		{"SetAdamAvgMomBias", "adamAvgMomBias", false}, {"SetAdamAvgVelBias", "adamAvgVelBias", false}, {"SetBias", "bias", false}, {"SetTBias", "tBias", false}} {
		s := s
		for _, mask := range []int{0, 3} {
			mask := mask
			c.run(tNode+"."+s.op, func(r *Run) {
				r.owners(r.cowArg(), mask)
				if s.idx {
					st := r.newSt0()
					r.assume(leI(Zero, r.A[2]), ltI(r.A[2], slen(r.baseF(st, r.A[0], s.field))))
					// the storage of one node is not shared between its fields (C36)
					r.separateFields(st, r.A[0])
				}
			}, func(r *Run) {
				n1, n0 := r.resNode(), r.A[0]
				v := r.A[len(r.A)-1]
				r.sameNode("a setter changes one parameter only", r.St, n1, n0, r.know(), map[string]bool{s.field: true}, nil)
				if s.idx {
					w := newIdx("w")
					s0 := r.baseF(r.St0, n0, s.field)
					pc := and(r.know(), inRange(w, Zero, slen(s0)))
					r.eq("a setter stores its value at its index", r.Label, pc, r.baseAt(r.St, n1, s.field, w),
						ite(eqI(w, r.A[2]), v, r.baseAt(r.St0, n0, s.field, w)))
					r.eq("a setter keeps the size", r.Label, pc, slen(r.baseF(r.St, n1, s.field)), slen(s0))
				} else {
					r.eq("a setter stores its value", r.Label, r.know(), r.baseF(r.St, n1, s.field), v)
				}
			})
		}
	}
}

// separateFields: the slices of a node's base do not overlap.
func (r *Run) separateFields(st *State, n *Term) {
	for i, f := range baseSlices {
		for _, g := range baseSlices[i+1:] {
			a, b := sbase(r.baseF(st, n, f)), sbase(r.baseF(st, n, g))
			r.assume(or(not(samePtr(a, b)), eqG(a, Nil)))
		}
	}
}

// nodeModels keeps the operations on other nodes symbolic.
func (r *Run) nodeModels() {
	inc := tNode + ".IncrementDelta"
	if r.Name != inc {
		r.C.fn(inc)
		r.opaque[inc] = func(e *Eng, fr *frame, st *State, fn *ssa.Function, args []*Term, pos tokenPos) *Term { return args[0] }
	}
}

// readsConfig: the function (or a callee in the module) reads the setting.
func (c *Ctx) readsConfig(fn, field string) bool {
	k, _ := c.field(tCfg, field)
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if seen[f] || !inModule(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if fieldName(ptrElem(fa.X.Type()), fa.Field) == k {
						return true
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && rec(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(c.fn(fn))
}

func ruleC19(c *Ctx) {
	for mask := 0; mask < 8; mask++ {
		mask := mask
		c.run(tNode+".GetActivation", func(r *Run) {
			r.owners(r.cowArg(), mask)
			st := r.newSt0()
			tr := r.getIn(st, r.A[0], tNode, "train")
			r.assume(eqI(r.baseF(st, r.A[0], "currentBatchsize"), slen(tr)))
		}, func(r *Run) {
			n0, data, in := r.A[0], r.arg("data"), r.arg("inputId")
			val, n1 := extract(r.Res, 0), extract(r.Res, 1)
			relu, soft := c.constOf("node.ReLU"), c.constOf("node.Softmax")
			nt := r.baseF(r.St0, n0, "nodeType")
			pc := r.know()
			// sum over all pairs of weight[index]*value, plus the bias
			_, dt := r.Fn.Signature.Params().At(1), 0
			_ = dt
			pt := elemType(r.Fn.Params[2].Type())
			b := bvar(0)
			pair := r.load(r.St0, elem(sbase(data), b), pt)
			ki, vi := pairParts(pair, c)
			body := mul(r.baseAt(r.St0, n0, "weights", ki), vi)
			sum := add(mkSum(slen(data), body), r.baseF(r.St0, n0, "bias"))
			want := ite(and(eqI(nt, relu), ltF(sum, Zero)), Zero, sum)
			r.eq("the activation is the weighted input plus bias, rectified for ReLU", r.Label, pc, val, want)
			r.eq("the activation is stored in the slot", r.Label, pc, r.slotF(r.St, n1, in, "lastActivations"), want)
			r.eq("the slot is marked active", r.Label, pc, r.slotF(r.St, n1, in, "activeinputIds"), One)
			r.holds("an unknown node kind aborts", r.Label, pc, or(eqI(nt, relu), eqI(nt, soft)), r.Fn.Pos())
			r.holds("a slot beyond the batch size aborts", r.Label, pc, inRange(in, Zero, slen(r.getIn(r.St0, n0, tNode, "train"))), r.Fn.Pos())
			r.returns("evaluating a node of a known kind returns", and(or(eqI(nt, relu), eqI(nt, soft)), inRange(in, Zero, slen(r.getIn(r.St0, n0, tNode, "train")))))
		})
	}
}

// returns proves that under pre no panic statement is reached.
func (r *Run) returns(rule string, pre *Term) {
	for _, ev := range r.events {
		if ev.Kind == "panic" {
			r.holds(rule, r.Label, and(pre, and(ev.PC, okOf(ev))), False, ev.Pos)
		}
	}
	r.holds(rule, r.Label, pre, or(r.St.pc, Zero0(r)), r.Fn.Pos())
}

// Zero0 is False; panics caused by run-time checks are not part of pc.
func Zero0(r *Run) *Term { return False }

func pairParts(p *Term, c *Ctx) (*Term, *Term) {
	t := c.typ(tPair)
	return fieldOf(p, 0, t), fieldOf(p, 1, t)
}

func ruleC20(c *Ctx) {
	for mask := 0; mask < 8; mask++ {
		for _, op := range []string{"BackPropagate", "BackPropagateFirstLayer", "ComputeExtaStatsForSoftMax", "IncrementDelta", "GetActivation", "SetlastActivation"} {
			for adam := 0; adam < 2; adam++ {
				if adam == 1 && !c.readsConfig(tNode+"."+op, "UseAdam") {
					continue
				}
				mask, op, adam := mask, op, adam
				c.run(tNode+"."+op, func(r *Run) {
					r.owners(r.cowArg(), mask)
					r.config("UseAdam", boolT(adam == 1))
					r.nodeModels()
					r.slotOK(r.A[0], r.arg("inputId"))
				}, func(r *Run) {
					n0, in := r.A[0], r.arg("inputId")
					n1 := r.resNode()
					pc := r.know()
					act := r.slotF(r.St0, n0, in, "activeinputIds")
					if op != "GetActivation" && op != "SetlastActivation" {
						r.holds("the operation is possible only on an active slot", r.Label, pc, eqF(act, One), r.Fn.Pos())
						r.returns("the operation works on an active slot", eqF(act, One))
					}
					if strings.HasPrefix(op, "BackPropagate") {
						for _, f := range slotFields {
							r.eq("back-propagation consumes the slot ("+f+")", r.Label, pc, r.slotF(r.St, n1, in, f), Zero)
						}
					}
					if op == "IncrementDelta" {
						d0, a0 := r.slotF(r.St0, n0, in, "lastDeltaforBPs"), r.slotF(r.St0, n0, in, "lastActivations")
						r.eq("error signals are added only to slots with positive activation", r.Label, pc, r.slotF(r.St, n1, in, "lastDeltaforBPs"),
							ite(ltF(Zero, a0), add(d0, r.A[3]), d0))
						r.eq("adding an error signal keeps the activation", r.Label, pc, r.slotF(r.St, n1, in, "lastActivations"), a0)
						r.eq("adding an error signal keeps the slot active", r.Label, pc, r.slotF(r.St, n1, in, "activeinputIds"), act)
					}
					if op == "GetActivation" {
						r.eq("activating a node makes its slot active", r.Label, pc, r.slotF(r.St, n1, in, "activeinputIds"), One)
					}
					if op == "SetlastActivation" {
						r.eq("the activation given is stored", r.Label, pc, r.slotF(r.St, n1, in, "lastActivations"), r.A[3])
						r.eq("storing an activation keeps the slot's state", r.Label, pc, r.slotF(r.St, n1, in, "activeinputIds"), act)
						r.eq("storing an activation keeps the error signal", r.Label, pc, r.slotF(r.St, n1, in, "lastDeltaforBPs"), r.slotF(r.St0, n0, in, "lastDeltaforBPs"))
					}
					if op == "ComputeExtaStatsForSoftMax" {
						r.eq("computing the error signal keeps the slot active", r.Label, pc, r.slotF(r.St, n1, in, "activeinputIds"), One)
					}
					skip := map[string]bool{}
					for _, f := range append(append([]string{}, baseScalars...), baseSlices...) {
						skip[f] = true
					}
					r.sameNode("operations on one slot leave the others alone", r.St, n1, n0, pc, skip, in)
				})
			}
		}
	}
	c.run(tNode+".GetLastActivation", nil, func(r *Run) {
		n0, in := r.A[0], r.A[1]
		r.eq("an inactive slot reads as activation zero", r.Label, r.know(), r.Res,
			ite(eqF(r.slotF(r.St0, n0, in, "activeinputIds"), One), r.slotF(r.St0, n0, in, "lastActivations"), Zero))
		r.onlyWrites("reading an activation changes nothing", func(w wr, a *Term) bool { return false })
	})
	c.run("node.NewNodeTrain", nil, func(r *Run) {
		for _, f := range slotFields {
			r.eq("a new slot is inactive", r.Label, r.know(), r.getIn(r.St, r.Res, tTrain, f), Zero)
		}
	})
}

func ruleC21(c *Ctx) {
	for mask := 0; mask < 8; mask++ {
		mask := mask
		c.run(tNode+".ComputeExtaStatsForSoftMax", func(r *Run) {
			r.owners(r.cowArg(), mask)
			r.slotOK(r.A[0], r.arg("inputId"))
		}, func(r *Run) {
			n0, in, norm, labels := r.A[0], r.arg("inputId"), r.A[2], r.arg("labels")
			n1 := r.resNode()
			pc := and(r.know(), ltF(Zero, norm))
			a0 := r.slotF(r.St0, n0, in, "lastActivations")
			p := simplify(r.slotF(r.St, n1, in, "lastActivations"), and(r.Pre, pc))
			// p = a0 / (norm + tiny)
			ok := false
			den := inv(divF(p, a0))
			rest, k := splitConst(den)
			if rest == norm && k.Sign() >= 0 && k.Cmp(big.NewRat(1, 1000000)) <= 0 {
				ok = true
			}
			c.ob("the activation is divided by the normalisation constant plus a tiny epsilon", r.Label, ok, r.Fn.Pos(), "new activation is %s", show(p, 10))
			b := bvar(0)
			lt := elemType(r.Fn.Params[4].Type())
			isLabel := mkExists(slen(labels), eqI(r.load(r.St0, elem(sbase(labels), b), lt), r.baseF(r.St0, n0, "idInLayer")))
			B := app("float", r.baseF(r.St0, n0, "currentBatchsize"))
			nl := app("float", slen(labels))
			want := ite(isLabel, divF(sub(inv(nl), p), B), neg(divF(p, B)))
			r.eq("the error signal is that of softmax cross-entropy averaged over the batch", r.Label, pc, r.slotF(r.St, n1, in, "lastDeltaforBPs"), want)
		})
	}
}

func ruleC22(c *Ctx) {
	for mask := 0; mask < 8; mask++ {
		for _, op := range []string{"BackPropagate", "BackPropagateFirstLayer"} {
			for adam := 0; adam < 2; adam++ {
				mask, op, adam := mask, op, adam
				c.run(tNode+"."+op, func(r *Run) {
					r.owners(r.cowArg(), mask)
					r.config("UseAdam", boolT(adam == 1))
					r.nodeModels()
					r.slotOK(r.A[0], r.arg("inputId"))
					r.separateFields(r.newSt0(), r.A[0])
				}, func(r *Run) { c.gradient(r, op, adam == 1) })
			}
		}
	}
	c.run(tNode+".CopyWeightsAndBiasFromMirror", func(r *Run) { r.owners(r.cowArg(), 7); r.separateFields(r.newSt0(), r.A[0]) }, func(r *Run) {})
}

func (c *Ctx) gradient(r *Run, op string, adam bool) {
	n0, in := r.A[0], r.arg("inputId")
	n1 := r.resNode()
	pc := r.know()
	lr := r.arg("learningRate")
	delta := r.slotF(r.St0, n0, in, "lastDeltaforBPs")
	acc, accBias, rate := "t", "tBias", One
	if !adam {
		acc, accBias, rate = "mirrorWeights", "mirrorBias", lr
	}
	data := r.A[2]
	if op == "BackPropagate" {
		data = r.A[3]
	}
	pt := c.typ(tPair)
	i := newIdx("pair")
	ki, vi := pairParts(r.load(r.St0, elem(sbase(data), i), pt), c)
	dom := and(pc, inRange(i, Zero, slen(data)))
	// the storage that accumulates: of the returned node
	target := r.baseF(r.St, n1, acc)
	var evs []*Event
	for _, ev := range r.events {
		if ev.Kind != "store" || !strings.HasPrefix(ev.Key, "E:float64") {
			continue
		}
		if r.copied(ev) {
			continue // a clone's storage being filled
		}
		evs = append(evs, ev)
	}
	// identifiers may be repeated in the list, hence pairs are told apart by
	// their position in it
	position := func(idx *Term) *Term {
		for _, u := range leaves(idx) {
			if q := r.readAt(u, data); q != nil && leaves(idx)[0] == idx {
				return q
			}
		}
		return idx
	}
	place := func(ev *Event) *Term {
		if ev.Addr.Op != OpElem {
			return nil
		}
		return position(sub(ev.Addr.K[1], soff(target)))
	}
	r.exactlyOnce(fmt.Sprintf("%s accumulates one gradient per pair", op), evs, func(ev *Event) []*Term {
		return []*Term{place(ev)}
	}, []*Term{i}, []*Term{i}, dom)
	for _, ev := range evs {
		q := place(ev)
		kq, _ := pairParts(r.load(r.St0, elem(sbase(data), q), pt), c)
		r.holds(op+" accumulates at the place the pair names", fnName(ev.Fn), and(ev.PC, okOf(ev)), sameAddr(ev.Addr, elem(sbase(target), add(soff(target), kq))), ev.Pos)
	}
	for _, ev := range evs {
		if len(ev.Nest) != 1 {
			c.ob(op+" accumulates in one pass over the pairs", r.Label, false, ev.Pos, "nesting %v", ev.Nest)
			continue
		}
		K := ev.Nest[0].K
		var x *Term
		kK, vK := pairParts(r.load(r.St0, elem(sbase(data), K), pt), c)
		if op == "BackPropagate" {
			prevs := r.load(r.St0, r.arg("previousNodes"), elemType(r.Fn.Params[2].Type()))
			pn := r.at(r.St0, prevs, kK, elemType(elemType(r.Fn.Params[2].Type())))
			x = ite(eqF(r.slotF(r.St0, pn, in, "activeinputIds"), One), r.slotF(r.St0, pn, in, "lastActivations"), Zero)
		} else {
			x = vK
		}
		e := and(ev.PC, okOf(ev))
		r.eq(op+" adds error signal x input to the connection's accumulator", r.Label, e, sub(ev.Val, ev.Old), mul(rate, mul(delta, x)))
	}
	_ = vi
	b0 := r.baseF(r.St0, n0, accBias)
	r.eq(op+" adds the error signal to the bias accumulator", r.Label, pc, r.baseF(r.St, n1, accBias), add(b0, mul(rate, delta)))
	if op == "BackPropagate" {
		inc := r.calls(tNode + ".IncrementDelta")
		prevs := r.load(r.St0, r.arg("previousNodes"), elemType(r.Fn.Params[2].Type()))
		pn := r.at(r.St0, prevs, ki, elemType(elemType(r.Fn.Params[2].Type())))
		_ = pn
		at := func(ev *Event) *Term {
			a := ev.Args[0]
			if a.Op != OpSel || a.K[1].Op != OpElem {
				return nil
			}
			return position(sub(a.K[1].K[1], soff(prevs)))
		}
		r.exactlyOnce("the error signal is passed to each listed previous node once", inc, func(ev *Event) []*Term { return []*Term{at(ev)} }, []*Term{i}, []*Term{i}, dom)
		for _, ev := range inc {
			e := and(ev.PC, okOf(ev))
			if q := at(ev); q != nil {
				kq, _ := pairParts(r.load(r.St0, elem(sbase(data), q), pt), c)
				r.eq("the error signal goes to the node the pair names", fnName(ev.Fn), e, ev.Args[0], r.at(r.St0, prevs, kq, elemType(elemType(r.Fn.Params[2].Type()))))
			}
			if len(ev.Nest) != 1 {
				continue
			}
			kK, _ := pairParts(r.load(r.St0, elem(sbase(data), ev.Nest[0].K), pt), c)
			r.eq("the error signal passed on is error signal x weight", r.Label, e, ev.Args[3], mul(delta, r.baseAt(r.St0, n0, "weights", kK)))
			r.eq("the error signal is passed on for the same input", r.Label, e, ev.Args[2], in)
			r.eq("the error signal is passed on under the same owner id", r.Label, e, ev.Args[1], r.cowArg())
		}
	}
	skip := map[string]bool{acc: true, accBias: true}
	all := map[string]bool{}
	for _, f := range append(append([]string{}, baseScalars...), baseSlices...) {
		all[f] = skip[f]
	}
	r.sameNode(op+" changes accumulators only", r.St, n1, n0, pc, all, in)
}

// readAt: t reads the identifier of the pair at some position of a list of
// pairs as it was when the run started; the result is that position.
func (r *Run) readAt(t, data *Term) *Term {
	k, _ := r.C.field("index_value.Pair", "Index")
	if t.Op == OpSel && t.K[0].Op == OpHeap && t.K[1].Op == OpFld && t.K[1].S == k {
		if a := t.K[1].K[0]; a.Op == OpElem && a.K[0] == sbase(data) {
			return sub(a.K[1], soff(data))
		}
	}
	return nil
}

// copied reports whether a store puts, in storage made by the call, an element
// of a slice that existed before it, at the position it has there, while that
// storage still holds nothing else.
func (r *Run) copied(ev *Event) bool {
	if ev.Addr.Op != OpElem || ev.Val.Op != OpSel || ev.Val.K[1].Op != OpElem || !freshMem(ev.Addr) || freshMem(ev.Val.K[1]) {
		return false
	}
	if len(ev.Nest) != 1 || ev.Val != r.load(r.St0, ev.Val.K[1], ev.Typ) || ev.Val.K[1].K[0] == ev.Addr.K[0] {
		return false
	}
	K := ev.Nest[0].K
	from, to := sub(ev.Val.K[1].K[1], K), sub(ev.Addr.K[1], K)
	if containsP(from, func(u *Term) bool { return u == K }) || to != Zero {
		return false
	}
	for _, w := range r.events {
		if w.Kind == "store" && w != ev && w.Addr.Op == OpElem && w.Addr.K[0] == ev.Addr.K[0] && r.seq(w) < r.seq(ev) {
			return false
		}
	}
	return true
}
