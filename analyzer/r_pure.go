package main

// C28 and C04: what inference and training leave alone.

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	rules["C28"] = rule{"inference changes no parameters and no tables", ruleC28, "proof"}
}

// within reports whether an address lies in memory reached through x.
func within(a *Term, is func(u *Term) bool) bool {
	for a != nil {
		if is(a) {
			return true
		}
		switch a.Op {
		case OpFld, OpElem, OpMapEl:
			a = a.K[0]
		case OpSel:
			a = a.K[1]
		case OpApp:
			if a.S != "sbase" {
				return false
			}
			a = a.K[0]
		case OpSlice:
			a = a.K[0]
		case OpIte:
			return within(a.K[1], is) || within(a.K[2], is)
		default:
			return false
		}
	}
	return false
}

// layerFields are the parts of a layer that outlive a query.
var layerFields = []string{"nodeType", "randNode", "nodes", "k", "l", "previousLayerNumOfNodes", "hashTables", "wtaHasher", "minHasher", "srp", "dwtaHasher", "binIds"}

func ruleC28(c *Ctx) {
	pureOf := func(r *Run, also ...string) {
		for _, ev := range r.events {
			if ev.Kind != "call" && ev.Kind != "go" && ev.Kind != "defer" || unsat(andN(r.Pre, ev.PC, okOf(ev))) {
				continue
			}
			ok := false
			for _, a := range also {
				ok = ok || ev.Name == a
			}
			c.ob("inference calls only operations that leave parameters and tables alone", fnName(ev.Fn), ok && ev.Kind == "call", ev.Pos, "%s of %s", ev.Kind, ev.Name)
		}
	}
	// nodes
	for _, op := range []string{tNode + ".GetActivation", tNode + ".SetlastActivation"} {
		for mask := 0; mask < 8; mask++ {
			mask := mask
			c.run(op, func(r *Run) {
				r.owners(r.cowArg(), mask)
				r.slotOK(r.A[0], r.arg("inputId"))
			}, func(r *Run) {
				r.sameNode("inference leaves a node's parameters and its other slots as they were", r.St, r.resNode(), r.A[0], r.know(), nil, r.arg("inputId"))
				r.onlyWrites("inference writes only per-input state of a node", func(w wr, a *Term) bool {
					kb, _ := c.field(tNode, "base")
					tr := r.get0(r.A[0], tNode, "train")
					switch {
					case a.Op == OpFld && strings.HasPrefix(a.S, tTrain+"."):
						return true
					case a.Op == OpElem && a.K[0] == sbase(tr):
						return true
					case a.Op == OpFld && a.S == kb: // replaced by a faithful copy
						return true
					}
					return false
				})
				pureOf(r)
			})
		}
	}
	c.run(tNode+".GetLastActivation", nil, func(r *Run) {
		r.onlyWrites("reading an activation changes nothing", func(w wr, a *Term) bool { return false })
		pureOf(r)
	})
	// tables
	for _, fn := range []string{tLSH + ".HashesToIndex", tLSH + ".RetrieveRaw"} {
		c.run(fn, nil, func(r *Run) {
			r.onlyWrites("querying the tables changes nothing", func(w wr, a *Term) bool { return false })
			pureOf(r)
		})
	}
	// layers
	for mode := int64(0); mode <= 4; mode++ {
		for hf := int64(1); hf <= 4; hf++ {
			if hf > 1 && (mode == 2 || mode == 3 || mode == 0) {
				continue
			}
			mode, hf := mode, hf
			c.run(query, func(r *Run) {
				r.Label = fmt.Sprintf("%s in mode %d with hash function %d", r.Name, mode, hf)
				r.querySetup(mode, hf)
			}, func(r *Run) {
				l := r.A[0]
				nodes := r.get0(l, tLayer, "nodes")
				nc := r.get0(l, tLayer, "normalizationConstants")
				apl, li := r.arg("activeNodesPerLayer"), r.arg("layerIndex")
				r.onlyWrites("a query writes only the next list of active nodes, activations and normalisation constants", func(w wr, a *Term) bool {
					switch {
					case a.Op == OpElem && a.K[0] == sbase(apl):
						return r.proves(w.pc, eqI(a.K[1], add(soff(apl), add(li, One))))
					case a.Op == OpElem && a.K[0] == sbase(nc):
						return true
					case a.Op == OpElem && a.K[0] == sbase(nodes):
						_, nt := c.field(tLayer, "nodes")
						return w.kind == "store" && r.eqUnder(w.pc, w.ev.Val, r.load(r.St0, a, elemType(nt)))
					}
					old := r.load(r.St0, elem(sbase(apl), add(soff(apl), add(li, One))), r.pairs())
					return within(a, func(u *Term) bool { return u == sbase(old) })
				})
				out := extract(r.Res, 1)
				for _, f := range layerFields {
					a, b := r.getIn(r.St, out, tLayer, f), r.get0(l, tLayer, f)
					if f == "nodes" || f == "randNode" || f == "binIds" {
						r.eq("a query keeps the layer's "+f, r.Label, r.know(), slen(a), slen(b))
						r.eq("a query keeps the layer's "+f, r.Label, r.know(), elem(sbase(a), soff(a)), elem(sbase(b), soff(b)))
						continue
					}
					r.eq("a query keeps the layer's "+f, r.Label, r.know(), a, b)
				}
				pureOf(r, append([]string{tNode + ".GetActivation", tNode + ".SetlastActivation"}, hasherCalls...)...)
			})
		}
	}
	// the network
	c.run(tNet+".PredictClass", func(r *Run) {
		r.oneOwner()
		r.netShape()
		r.queryCall()
		r.opq(lastAct)
	}, func(r *Run) {
		net := r.A[0]
		ls := r.get0(net, tNet, "hiddenLayers")
		_, lt := c.field(tNet, "hiddenLayers")
		r.onlyWrites("a prediction replaces layers by what their own query returns and writes nothing else", func(w wr, a *Term) bool {
			return w.kind == "store" && a.Op == OpElem && a.K[0] == sbase(ls) && r.eqUnder(w.pc, w.ev.Val, r.load(r.St0, a, elemType(lt)))
		})
		out := extract(r.Res, 1)
		for _, f := range []string{"learningRate", "numberOfLayers"} {
			r.eq("a prediction keeps the network's "+f, r.Label, r.know(), r.get1(out, tNet, f), r.get0(net, tNet, f))
		}
		for _, f := range []string{"sparsity", "hiddenLayers"} {
			a, b := r.get1(out, tNet, f), r.get0(net, tNet, f)
			r.eq("a prediction keeps the network's "+f, r.Label, r.know(), slen(a), slen(b))
			r.eq("a prediction keeps the network's "+f, r.Label, r.know(), elem(sbase(a), soff(a)), elem(sbase(b), soff(b)))
		}
		r.onlyWritesStructure("a prediction keeps the network's layers and nodes")
		pureOf(r, query, lastAct)
	})
}

// pairs is the type of a list of active nodes.
func (r *Run) pairs() types.Type {
	_, t := r.C.field("dataset.Example", "Features")
	return t
}

func init() {
	rules["C04"] = rule{"examples are never altered", ruleC04, "proof"}
}

func ruleC04(c *Ctx) {
	// scanning
	c.run(tScan+".Scan", func(r *Run) { r.errGlobals() }, func(r *Run) {
		s := r.A[0]
		r.onlyWrites("scanning writes only the scanner's own fields and new storage", func(w wr, a *Term) bool {
			for a.Op == OpFld {
				a = a.K[0]
			}
			return a == s
		})
		pc := and(r.know(), asBool(r.Res))
		for _, f := range []string{"Labels", "Features"} {
			v := r.exampleF(r.St, f)
			for _, b := range leaves(simplify(sbase(v), and(r.Pre, pc))) {
				ok := b.Op == OpNil || freshMem(b) || r.proves(and(pc, leafCond(simplify(sbase(v), and(r.Pre, pc)), b)), eqI(scap(v), Zero))
				c.ob("every example lies in storage of its own", r.Name, ok, r.Fn.Pos(), "%s may lie in %s", f, show(b, 6))
			}
		}
		for _, ev := range r.events {
			c.ob("scanning runs in the caller's goroutine", fnName(ev.Fn), ev.Kind != "go", ev.Pos, "a goroutine is started")
		}
	})
	c.run(tScan+".Example", nil, func(r *Run) {
		r.onlyWrites("an accessor changes nothing", func(w wr, a *Term) bool { return false })
		for i, f := range []string{"Features", "Labels"} {
			r.eq("an example is handed out as it was scanned", r.Name, r.know(), r.Res.K[i], r.exampleF(r.St0, f))
		}
	})
	// read-only arguments
	readOnly := func(r *Run, what string, is func(u *Term) bool) {
		bad := 0
		for _, w := range r.writes() {
			for _, a := range leaves(w.addr) {
				if within(a, is) && !unsat(andN(r.Pre, w.pc, leafCond(w.addr, a))) {
					bad++
					c.ob(what+" are only read", fnName(w.ev.Fn), false, w.ev.Pos, "%s to %s", w.kind, show(a, 8))
				}
			}
		}
		if bad == 0 {
			c.ob(what+" are only read", r.Label, true, r.Fn.Pos(), "")
		}
	}
	arg := func(op, name, what string, adam int) {
		c.run(op, func(r *Run) {
			if adam >= 0 {
				r.nodeModels()
				r.config("UseAdam", boolT(adam == 1))
			}
		}, func(r *Run) {
			b := sbase(r.arg(name))
			readOnly(r, what, func(u *Term) bool { return u == b })
		})
	}
	arg(tNode+".GetActivation", "data", "the inputs of a node", -1)
	arg(errSignal, "labels", "labels", -1)
	for adam := 0; adam < 2; adam++ {
		arg(backProp, "previousLayerActiveNodes", "the inputs of a node", adam)
		arg(backFirst, "indexValuePairs", "the inputs of a node", adam)
	}
	for _, h := range []string{tWta + ".GetHash", tDwta + ".GetHash", tMin + ".GetHashEasy", tSrp + ".GetHashSparse"} {
		c.run(h, nil, func(r *Run) {
			r.onlyWrites("hashing an input changes nothing", func(w wr, a *Term) bool { return false })
		})
	}
	for mode := int64(0); mode <= 4; mode++ {
		mode := mode
		c.run(query, func(r *Run) {
			r.Label = fmt.Sprintf("%s in mode %d", r.Name, mode)
			r.querySetup(mode, 2)
		}, func(r *Run) {
			apl, li := r.arg("activeNodesPerLayer"), r.arg("layerIndex")
			in := sbase(r.load(r.St0, elem(sbase(apl), add(soff(apl), li)), r.pairs()))
			lab := sbase(r.arg("label"))
			readOnly(r, "the inputs and labels of a layer", func(u *Term) bool { return u == in || u == lab })
			for _, w := range r.writes() {
				for _, a := range leaves(w.addr) {
					if a.Op == OpElem && a.K[0] == sbase(apl) {
						r.holds("a query replaces only the list of the next layer", fnName(w.ev.Fn), and(w.pc, leafCond(w.addr, a)), eqI(a.K[1], add(soff(apl), add(li, One))), w.ev.Pos)
					}
				}
			}
		})
	}
	for _, fn := range []string{"ProcessInput", "PredictClass"} {
		fn := fn
		c.run(tNet+"."+fn, func(r *Run) {
			r.oneOwner()
			r.netShape()
			r.trainingModels()
			r.opq(lastAct)
		}, func(r *Run) {
			ex := sbase(r.arg("examples"))
			is := func(u *Term) bool { return u == ex }
			readOnly(r, "examples", is)
			for _, ev := range r.possible([]string{query}) {
				next := r.load(ev.St, elem(sbase(ev.Args[2]), add(soff(ev.Args[2]), add(ev.Args[3], One))), r.pairs())
				ok := true
				for _, b := range append(leaves(sbase(next)), leaves(sbase(ev.Args[2]))...) {
					ok = ok && !within(b, is)
				}
				c.ob("a query never fills its results into an example", fnName(ev.Fn), ok && r.proves(and(ev.PC, okOf(ev)), leI(Zero, ev.Args[3])), ev.Pos, "the list may be %s", show(next, 8))
			}
		})
	}
}
