package main

// C38: valid use never aborts.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C38"] = rule{"valid use never aborts", ruleC38, "proof"}
}

// every: the elements of a slice the run starts with satisfy a condition.
func every(s *Term, ok func(el *Term) *Term) {
	factHooks = append(factHooks, func(t *Term) []*Term {
		if t.Op != OpSel || t.K[0].Op != OpHeap {
			return nil
		}
		a := t.K[1]
		for a.Op == OpFld {
			a = a.K[0]
		}
		if a.Op == OpElem && a.K[0] == sbase(s) {
			return []*Term{ok(t)}
		}
		return nil
	})
}

// rows: the elements of a slice of slices the run starts with have n elements
// each, which satisfy a condition.
func rows(s, n *Term, ok func(el *Term) *Term) {
	row := func(t *Term) bool {
		return t.Op == OpSel && t.K[0].Op == OpHeap && t.K[1].Op == OpElem && t.K[1].K[0] == sbase(s)
	}
	factHooks = append(factHooks, func(t *Term) []*Term {
		switch {
		case t.Op == OpApp && t.S == "len" && row(t.K[0]):
			return []*Term{eqI(t, n)}
		case ok != nil && t.Op == OpSel && t.K[0].Op == OpHeap && t.K[1].Op == OpElem:
			if b := t.K[1].K[0]; b.Op == OpApp && b.S == "sbase" && row(b.K[0]) {
				return []*Term{ok(t)}
			}
		}
		return nil
	})
}

const safeRule = "valid use does not abort"

func ruleC38(c *Ctx) {
	c.safeHashers()
	c.safeCtors()
	c.safeTables()
	c.safeNodes()
	c.safeQueries()
	c.safeLayers()
	c.safeNetworks()
}

func (c *Ctx) safeHashers() {
	for _, m := range hashMethods {
		t := m[:strings.LastIndex(m, ".")]
		var dim *Term
		c.run(m, func(r *Run) {
			r.isBuilt(t)
			st := r.newSt0()
			h := r.A[0]
			n := r.getIn(st, h, t, "numHashes")
			if c.hasField(t, "rangePow") {
				r.positive(r.getIn(st, h, t, "rangePow"))
			}
			if !strings.HasSuffix(m, "GetRandDoubleHash") {
				r.probes()
			}
			dim = Zero
			switch t {
			case tWta, tDwta:
				dim = r.getIn(st, h, t, "rangePow")
			case tSrp:
				dim = r.getIn(st, h, t, "dim")
			case tMin:
				dim = sym("dim")
			}
			r.positive(dim, n)
			r.assume(ltI(dim, num(1<<40)))
			switch t {
			case tWta:
				ix := r.getIn(st, h, t, "indices")
				r.assume(leI(mul(num(8), n), slen(ix)))
				every(ix, func(e *Term) *Term { return inRange(e, Zero, dim) })
			case tSrp:
				bits, ix := r.getIn(st, h, t, "randBits"), r.getIn(st, h, t, "indices")
				r.assume(eqI(slen(bits), n), eqI(slen(ix), n))
				m := r.getIn(st, h, t, "samSize")
				rows(bits, m, nil)
				rows(ix, m, func(e *Term) *Term { return inRange(e, Zero, dim) })
			case tDwta:
				p := r.getIn(st, h, t, "permute")
				r.positive(p)
				ix, ps := r.getIn(st, h, t, "indices"), r.getIn(st, h, t, "pos")
				r.assume(eqI(slen(ix), mul(dim, p)), eqI(slen(ps), mul(dim, p)))
				every(ix, func(e *Term) *Term { return leI(Zero, e) })
			}
			for i, p := range r.Fn.Params {
				switch {
				case i == 0:
				case p.Name() == "binIds":
					r.assume(eqI(slen(r.A[i]), dim))
					every(r.A[i], func(e *Term) *Term { return inRange(e, Zero, n) })
				case typeKey(p.Type()) == "[]"+tPair:
					every(r.A[i], func(e *Term) *Term { return inRange(e, Zero, dim) })
				case typeKey(p.Type()) == "[]float64":
					r.assume(eqI(slen(r.A[i]), dim))
				case p.Name() == "indices":
					r.assume(leI(slen(r.arg("data")), slen(r.A[i])))
					every(r.A[i], func(e *Term) *Term { return inRange(e, Zero, dim) })
				case p.Name() == "n":
					r.assume(leI(Zero, r.A[i]), leI(r.A[i], dim))
				case p.Name() == "topK":
					r.assume(leI(Zero, r.A[i]))
				}
			}
		}, func(r *Run) {
			r.facts = func(ev *Event) *Term { return products(ev, dim) }
			r.safe()
		})
	}
}

// safe proves that the run cannot stop abnormally.
func (r *Run) safe() { r.noPanic(safeRule, nil) }

// safeCtors: what constructors establish is what hashing relies on.
func (c *Ctx) safeCtors() {
	for _, t := range []string{tWta, tDwta, tMin, tSrp} {
		c.run(ctorOf(t), func(r *Run) {
			r.positive(r.A...)
			roundedUp()
			for _, a := range r.A {
				r.assume(ltI(a, num(1<<32)))
			}
		}, func(r *Run) {
			h := r.Res
			n, dim := r.A[0], r.A[1]
			if t == tSrp {
				n, dim = dim, n
			}
			r.facts = func(ev *Event) *Term { return products(ev, dim) }
			arranged := true
			for _, ev := range r.events {
				if ev.Kind == "shuffle" {
					arranged = arranged && r.permutation(ev, dim) && r.eqUnder(and(ev.PC, okOf(ev)), ev.Args[0], dim)
				}
			}
			if arranged {
				factHooks = append(factHooks, func(t *Term) []*Term {
					if shuffled(t) {
						return []*Term{inRange(t, Zero, dim)}
					}
					return nil
				})
			}
			r.safe()
			get := func(f string) *Term { return r.get1(h, t, f) }
			eq := func(what string, a, b *Term) {
				r.eq("a hasher is built so that hashing cannot fail ("+what+")", r.Label, r.know(), a, b)
			}
			elems := func(f string, ok func(v *Term) *Term) {
				s := get(f)
				_, ft := c.field(t, f)
				et := elemType(ft)
				i := newIdx("i")
				dom := and(r.know(), inRange(i, Zero, slen(s)))
				v := r.at(r.St, s, i, et)
				if sl, isS := et.Underlying().(*types.Slice); isS {
					v = simplify(v, and(r.Pre, dom))
					eq("rows of "+f, simplify(slen(v), and(r.Pre, dom)), get("samSize"))
					j := newIdx("j")
					dom = and(dom, inRange(j, Zero, slen(v)))
					v = r.at(r.St, v, j, sl.Elem())
				}
				if ok == nil {
					return
				}
				r.origins("a hasher is built so that hashing cannot fail ("+f+")", v, dom, func(u, cond *Term) bool { return r.proves(cond, ok(u)) })
			}
			eq("number of codes", get("numHashes"), n)
			if c.hasField(t, "rangePow") {
				r.holds("a hasher is built so that hashing cannot fail (range)", r.Label, r.know(), ltI(Zero, get("rangePow")), r.Fn.Pos())
			}
			switch t {
			case tWta:
				eq("input size", get("rangePow"), dim)
				r.holds("a hasher is built so that hashing cannot fail (bins)", r.Label, r.know(), leI(mul(num(8), n), slen(get("indices"))), r.Fn.Pos())
				elems("indices", func(v *Term) *Term { return inRange(v, Zero, dim) })
			case tDwta:
				eq("input size", get("rangePow"), dim)
				eq("bins", slen(get("indices")), mul(dim, get("permute")))
				eq("positions", slen(get("pos")), mul(dim, get("permute")))
				elems("indices", func(v *Term) *Term { return leI(Zero, v) })
			case tSrp:
				eq("input size", get("dim"), dim)
				eq("samples", slen(get("indices")), n)
				eq("signs", slen(get("randBits")), n)
				elems("indices", func(v *Term) *Term { return inRange(v, Zero, dim) })
				elems("randBits", nil)
			}
			if c.hasField(t, "logNumHash") {
				r.holds("a hasher is built so that hashing cannot fail (probe width)", r.Label, r.know(), inRange(get("logNumHash"), Zero, num(33)), r.Fn.Pos())
			}
		})
	}
	c.run(tMin+".GetMap", func(r *Run) {
		r.isBuilt(tMin)
		r.assume(leI(Zero, r.A[1]))
		r.positive(r.getIn(r.newSt0(), r.A[0], tMin, "numHashes"), r.getIn(r.newSt0(), r.A[0], tMin, "rangePow"))
		roundedUp()
		roundedDown(r.getIn(r.newSt0(), r.A[0], tMin, "numHashes"))
	}, func(r *Run) {
		r.eq("every coordinate has a bin", r.Label, r.know(), slen(r.Res), r.A[1])
		i := newIdx("i")
		dom := and(r.know(), inRange(i, Zero, slen(r.Res)))
		n := r.get0(r.A[0], tMin, "numHashes")
		r.origins("every coordinate is assigned an existing bin", r.at(r.St, r.Res, i, types.Typ[types.Int]), dom, func(u, cond *Term) bool { return r.proves(cond, inRange(u, Zero, n)) })
	})
}

// lengths gives the slices found in the named fields of every object of a type
// the run starts with a length.
func (r *Run) lengths(typ string, n func(obj *Term) *Term, fields ...string) {
	keys := map[string]bool{}
	for _, f := range fields {
		k, _ := r.C.field(typ, f)
		keys[k] = true
	}
	factHooks = append(factHooks, func(t *Term) []*Term {
		if t.Op == OpApp && t.S == "len" && t.K[0].Op == OpSel && t.K[0].K[0].Op == OpHeap {
			if a := t.K[0].K[1]; a.Op == OpFld && keys[a.S] {
				return []*Term{eqI(t, n(a.K[0]))}
			}
		}
		return nil
	})
}

func (c *Ctx) safeTables() {
	pows := func(r *Run, st *State, h *Term) (k, l, p, size *Term) {
		k, l, p = r.getIn(st, h, tLSH, "k"), r.getIn(st, h, tLSH, "l"), r.getIn(st, h, tLSH, "rangePow")
		r.positive(k, l)
		r.assume(inRange(p, Zero, num(32)))
		return k, l, p, app("pow2", p)
	}
	c.run("lsh.New", func(r *Run) {
		r.positive(r.arg("k"), r.arg("l"), mul(r.arg("k"), r.arg("l")))
		r.assume(inRange(r.arg("rangePow"), Zero, num(32)))
	}, func(r *Run) {
		r.safe()
		i := newIdx("table")
		h := r.Res
		b := r.get1(h, tLSH, "buckets")
		dom := and(r.know(), inRange(i, Zero, r.arg("l")))
		eq := func(what string, pc, a, b *Term) {
			r.eq("tables are built so that using them cannot fail ("+what+")", r.Label, pc, a, b)
		}
		eq("tables", r.know(), slen(b), r.arg("l"))
		_, bt := c.field(tLSH, "buckets")
		eq("buckets", dom, simplify(slen(r.at(r.St, b, i, elemType(bt))), and(r.Pre, dom)), app("pow2", r.arg("rangePow")))
		eq("constants", r.know(), slen(r.get1(h, tLSH, "rand1")), mul(r.arg("k"), r.arg("l")))
		for _, f := range []string{"k", "l", "rangePow"} {
			eq(f, r.know(), r.get1(h, tLSH, f), r.arg(f))
		}
	})
	for _, m := range []string{"Clear", "HashesToIndex", "Add", "AddSingle", "RetrieveRaw", "Retrieve"} {
		for hf := int64(1); hf <= 4; hf++ {
			hf := hf
			if hf > 1 && m != "HashesToIndex" {
				continue
			}
			var k, l *Term
			c.run(tLSH+"."+m, func(r *Run) {
				st := r.newSt0()
				var size *Term
				k, l, _, size = pows(r, st, r.A[0])
				b, one := r.getIn(st, r.A[0], tLSH, "buckets"), r.getIn(st, r.A[0], tLSH, "rand1")
				r.assume(eqI(slen(b), l), eqI(slen(one), mul(k, l)))
				rows(b, size, nil)
				r.config("HashFunction", num(hf))
				for i, p := range r.Fn.Params {
					switch p.Name() {
					case "hashes":
						r.assume(eqI(slen(r.A[i]), mul(k, l)))
					case "indices":
						r.assume(eqI(slen(r.A[i]), l))
						every(r.A[i], func(e *Term) *Term { return inRange(e, Zero, size) })
					case "tableId", "table":
						r.assume(inRange(r.A[i], Zero, l))
					case "index":
						r.assume(inRange(r.A[i], Zero, size))
					case "bucket":
						r.assume(leI(Zero, r.A[i]))
					}
				}
				// the buckets themselves never fail (C07)
				r.opq(tFifo+".Add", tFifo+".GetAll", tFifo+".Retrieve", tFifo+".Reset")
			}, func(r *Run) {
				r.facts = func(ev *Event) *Term { return products(ev, k) }
				r.safe()
			})
		}
	}
}

// nodeContract: what every node of a layer looks like: parameters for d inputs
// and b slots.
func (r *Run) nodeContract(d, b func(base *Term) *Term, adam bool) {
	r.lengths(tBase, d, "weights")
	if adam {
		r.lengths(tBase, d, "t", "adamAvgMom", "adamAvgVel")
	} else {
		r.lengths(tBase, d, "mirrorWeights")
	}
	r.lengths(tNode, b, "train")
}

func (c *Ctx) safeNodes() {
	var ops []string
	for _, f := range c.allFuncs() {
		sig := f.Signature
		if sig.Recv() == nil || f.Synthetic != "" || typeKey(sig.Recv().Type()) != "*"+tNode || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		ops = append(ops, fnName(f))
	}
	c.ob("node operations are found", tNode, len(ops) >= 20, 0, "only %v", ops)
	for _, op := range ops {
		for i := 0; i < 4; i++ {
			adam, mine := i&1 != 0, i&2 != 0
			short := op[strings.LastIndex(op, ".")+1:]
			if adam && !c.readsConfig(op, "UseAdam") && short != "GetT" && !strings.Contains(short, "Adam") && short != "SetT" && short != "GetGradient" {
				continue
			}
			if !adam && (short == "GetT" || short == "SetT" || strings.Contains(short, "Adam") || short == "GetGradient") {
				continue // an operation of the Adam update
			}
			owned := paramIndex(c.fn(op), "cowId") >= 0
			if mine && !owned {
				continue
			}
			d, b := sym("inputs"), sym("slots")
			c.run(op, func(r *Run) {
				d, b = sym("inputs"), sym("slots")
				r.positive(d, b)
				r.Label = fmt.Sprintf("%s with Adam=%v", r.Name, adam)
				if owned {
					mask := 0
					if mine {
						mask = 7
					}
					r.owners(r.arg("cowId"), mask)
				}
				r.config("UseAdam", boolT(adam))
				all := func(n *Term) func(*Term) *Term { return func(*Term) *Term { return n } }
				r.nodeContract(all(d), all(b), adam)
				r.assume(not(eqG(r.getIn(r.newSt0(), r.A[0], tNode, "train"), Nil)))
				r.nodeModels()
				if short != "GetLastActivation" {
					r.opq(tNode + ".GetLastActivation")
				}
				kb, _ := c.field(tBase, "currentBatchsize")
				ka, _ := c.field(tTrain, "activeinputIds")
				kt, _ := c.field(tBase, "nodeType")
				guarded := short == "IncrementDelta" || short == "ComputeExtaStatsForSoftMax" || strings.HasPrefix(short, "BackPropagate")
				r.addInit(func(key string, addr *Term) *Term {
					switch {
					case addr.Op != OpFld:
					case addr.S == kb:
						return b
					case addr.S == ka && guarded:
						return One // back-propagation concerns active slots (C20, C31)
					case addr.S == kt:
						return ite(asBool(sym("softmax")), c.constOf("node.Softmax"), c.constOf("node.ReLU"))
					}
					return nil
				})
				for i, p := range r.Fn.Params {
					switch {
					case i == 0:
					case p.Name() == "inputId":
						r.assume(inRange(r.A[i], Zero, b))
					case p.Name() == "adamTDim":
						r.assume(leI(Zero, r.A[i]))
					case p.Name() == "i" || p.Name() == "weightId":
						r.assume(inRange(r.A[i], Zero, d))
					case typeKey(p.Type()) == "[]"+tPair:
						every(r.A[i], func(e *Term) *Term { return inRange(e, Zero, d) })
					case strings.HasPrefix(p.Name(), "previousNodes"):
						pt := p.Type().Underlying().(*types.Pointer)
						r.assume(eqI(slen(r.load(r.newSt0(), r.A[i], pt.Elem())), d))
					}
				}
			}, func(r *Run) {
				r.safe()
				for _, ev := range r.possible([]string{tNode + ".IncrementDelta", tNode + ".GetLastActivation"}) {
					r.holds("operations on other nodes concern an existing slot", fnName(ev.Fn), full(ev), inRange(r.argOf(ev, "inputId"), Zero, b), ev.Pos)
				}
			})
		}
	}
}

func (c *Ctx) safeQueries() {
	kIndex, _ := c.field(tPair, "Index")
	for _, soft := range []bool{true, false} {
		c.eachMode(soft, func(r *Run) {
			st := r.newSt0()
			apl, li, in := r.arg("activeNodesPerLayer"), r.arg("layerIndex"), r.arg("inputId")
			b, d := sym("slots"), sym("inputs")
			r.positive(b, d, slen(r.getIn(st, r.A[0], tLayer, "nodes")))
			r.assume(inRange(li, Zero, sub(slen(apl), One)), inRange(in, Zero, b))
			r.lengths(tLayer, func(*Term) *Term { return b }, "normalizationConstants")
			r.lengths(tBase, func(*Term) *Term { return d }, "weights")
			_, ft := c.field("dataset.Example", "Features")
			// nodes the caller lists for the layer itself are its nodes
			every(r.load(st, elem(sbase(apl), add(soff(apl), add(li, One))), ft), func(e *Term) *Term { return inRange(e, Zero, slen(r.getIn(st, r.A[0], tLayer, "nodes"))) })
			every(r.load(st, elem(sbase(apl), add(soff(apl), li)), ft), func(e *Term) *Term { return inRange(e, Zero, d) })
		}, func(r *Run, mode int64, soft bool) {
			a := r.activeSet(false)
			s, _ := r.activeAfter()
			N := slen(r.get0(r.A[0], tLayer, "nodes"))
			r.noPanic(safeRule, func(ev *Event) bool {
				if ev.Kind == "make" && a.n2 != nil && r.eqUnder(full(ev), ev.Args[0], a.n2) && r.eqUnder(full(ev), ev.Args[1], a.n2) {
					return true // a number of marks
				}
				if ev.Kind != "index" || a.none {
					return false
				}
				// nodes are put at existing places of the list (shown with its length)
				for _, i := range a.ins {
					if p := i.ev.Addr.K[0]; sameNest(ev, i.ev) && ev.Addr != nil && p == elem(sbase(ev.Addr), add(soff(ev.Addr), ev.Args[0])) && r.proves(full(ev), i.ev.PC) {
						return true
					}
				}
				// members of the list are node numbers
				x := ev.Args[0]
				if x.Op == OpSel && x.K[1].Op == OpFld && x.K[1].S == kIndex && x.K[1].K[0].Op == OpElem && (x.K[1].K[0].K[0] == sbase(s) || x.K[1].K[0].K[0] == a.base) {
					at := sub(x.K[1].K[0].K[1], soff(s))
					return r.proves(full(ev), inRange(at, Zero, slen(s))) && r.eqUnder(full(ev), ev.Args[1], N)
				}
				return false
			})
		})
	}
}

// safeLayers: the other operations of a layer.
func (c *Ctx) safeLayers() {
	for _, f := range families {
		for i := 0; i < 2; i++ {
			f, adam := f, i == 1
			c.run("layer.New", func(r *Run) {
				r.Label = fmt.Sprintf("%s with %s, Adam=%v", r.Name, f.name, adam)
				r.config("HashFunction", c.constOf(f.constant))
				r.config("LoadWeight", False)
				r.config("UseAdam", boolT(adam))
				r.positive(r.arg("numOfNodes"), r.arg("previousLayerNumOfNodes"), r.arg("batchSize"), r.arg("k"), r.arg("l"))
				r.familyOpaque()
				r.opq("lsh.New", tLSH+".HashesToIndex", tLSH+".Add")
			}, func(r *Run) {
				r.facts = func(ev *Event) *Term { return products(ev, r.arg("previousLayerNumOfNodes"), r.arg("batchSize")) }
				r.safe()
				n, d, b := r.arg("numOfNodes"), r.arg("previousLayerNumOfNodes"), r.arg("batchSize")
				i := newIdx("node")
				pc := andN(r.know(), inRange(i, Zero, n))
				for _, q := range []*Term{d, b} {
					pc = andN(pc, leI(Zero, mul(i, q)), leI(Zero, mul(sub(sub(n, One), i), q)))
				}
				l, nd := r.Res, r.newNode(r.Res, i)
				eq := func(what string, pc, a, b *Term) {
					r.eq("a layer is built so that using it cannot fail ("+what+")", r.Label, pc, a, b)
				}
				eq("nodes", r.know(), slen(r.getIn(r.St, l, tLayer, "nodes")), n)
				eq("random order", r.know(), slen(r.getIn(r.St, l, tLayer, "randNode")), n)
				eq("normalisation constants", and(r.know(), eqI(r.arg("nodeType"), c.constOf("node.Softmax"))), slen(r.getIn(r.St, l, tLayer, "normalizationConstants")), b)
				eq("slots", pc, slen(r.getIn(r.St, nd, tNode, "train")), b)
				eq("batch size", pc, r.baseF(r.St, nd, "currentBatchsize"), b)
				fields := []string{"weights", "mirrorWeights"}
				if adam {
					fields = []string{"weights", "adamAvgMom", "adamAvgVel", "t"}
				}
				for _, w := range fields {
					eq(w, pc, slen(r.baseF(r.St, nd, w)), d)
				}
			})
		}
	}
	var ops []string
	for _, f := range c.allFuncs() {
		sig := f.Signature
		if sig.Recv() == nil || f.Synthetic != "" || typeKey(sig.Recv().Type()) != "*"+tLayer || f.Object() == nil || !f.Object().Exported() || fnName(f) == query {
			continue
		}
		ops = append(ops, fnName(f))
	}
	c.ob("layer operations are found", tLayer, len(ops) >= 8, 0, "only %v", ops)
	for _, op := range ops {
		for _, f := range families {
			f := f
			if !c.readsConfig(op, "HashFunction") && f != families[0] {
				continue
			}
			c.run(op, func(r *Run) {
				r.Label = r.Name + " with " + f.name
				r.config("HashFunction", c.constOf(f.constant))
				r.familyOpaque()
				r.opq(tLSH+".HashesToIndex", tLSH+".Add", tLSH+".Clear")
				st := r.newSt0()
				n, b, d := slen(r.getIn(st, r.A[0], tLayer, "nodes")), sym("slots"), r.getIn(st, r.A[0], tLayer, "previousLayerNumOfNodes")
				r.positive(b, d, r.getIn(st, r.A[0], tLayer, "k"), r.getIn(st, r.A[0], tLayer, "l"))
				r.lengths(tLayer, func(*Term) *Term { return b }, "normalizationConstants")
				r.assume(eqI(slen(r.getIn(st, r.A[0], tLayer, "randNode")), n))
				for i, p := range r.Fn.Params {
					switch {
					case i == 0:
					case p.Name() == "nodeId" || p.Name() == "id":
						r.assume(inRange(r.A[i], Zero, n))
					case p.Name() == "inputId":
						r.assume(inRange(r.A[i], Zero, b))
						// only output layers have normalisation constants
						r.assume(eqI(r.getIn(st, r.A[0], tLayer, "nodeType"), c.constOf("node.Softmax")))
					case p.Name() == "weights":
						r.assume(eqI(slen(r.A[i]), d))
					}
				}
			}, func(r *Run) {
				r.safe()
				n := slen(r.get0(r.A[0], tLayer, "nodes"))
				for _, ev := range r.events {
					if ev.Kind == "shuffle" {
						r.eq("only existing nodes are shuffled", fnName(ev.Fn), full(ev), ev.Args[0], n)
					}
				}
			})
		}
	}
}

// safeNetworks: training and prediction. Every query leaves nodes of its own
// layer (C24).
func (c *Ctx) safeNetworks() {
	kIndex, _ := c.field(tPair, "Index")
	kNodes, nodesT := c.field(tLayer, "nodes")
	_, ft := c.field("dataset.Example", "Features")
	for i := 0; i < 3; i++ {
		adam := i == 1
		fn := tNet + ".ProcessInput"
		if i == 2 {
			fn = tNet + ".PredictClass"
		}
		c.run(fn, func(r *Run) {
			r.Label = fmt.Sprintf("%s with Adam=%v", r.Name, adam)
			r.oneOwner()
			r.netShape()
			r.trainingModels()
			r.opq(tNode + ".GetLastActivation")
			r.config("UseAdam", boolT(adam))
			st, b := r.newSt0(), sym("slots")
			r.positive(b)
			r.assume(leI(slen(r.arg("examples")), b))
			layers := slen(r.getIn(st, r.A[0], tNet, "hiddenLayers"))
			r.assume(leI(mul(num(2), layers), slen(r.getIn(st, r.A[0], tNet, "sparsity"))))
			r.lengths(tLayer, func(*Term) *Term { return b }, "normalizationConstants")
			inputs := func(base *Term) *Term { return app("inputs", base) }
			r.lengths(tBase, inputs, "weights")
			if adam {
				r.lengths(tBase, inputs, "t", "adamAvgMom", "adamAvgVel")
			} else {
				r.lengths(tBase, inputs, "mirrorWeights")
			}
			r.opaque[query] = func(e *Eng, fr *frame, st *State, fn *ssa.Function, args []*Term, pos tokenPos) *Term {
				cs := append([]*Term{args[0]}, e.counters()...)
				in := raw(OpSym, "retrieved:"+fr.ctx, nil, cs...)
				s := typedSym(raw(OpSym, "active:"+fr.ctx, nil, cs...), ft)
				e.store(fr, st, elem(sbase(args[2]), add(soff(args[2]), add(args[3], One))), s, ft, nil)
				return raw(OpTuple, "", nil, in, args[0])
			}
			factHooks = append(factHooks, func(t *Term) []*Term {
				if t.Op != OpSel || t.K[1].Op != OpFld || t.K[1].S != kIndex || t.K[1].K[0].Op != OpElem {
					return nil
				}
				b := t.K[1].K[0].K[0]
				if b.Op != OpApp || b.S != "sbase" || b.K[0].Op != OpSym || !strings.HasPrefix(b.K[0].S, "active:") {
					return nil
				}
				return []*Term{inRange(t, Zero, slen(r.load(r.newSt0(), fld(b.K[0].K[0], kNodes), nodesT)))}
			})
		}, func(r *Run) {
			r.safe()
			qs := r.possible([]string{query})
			c.ob("layers are evaluated", r.Label, len(qs) > 0, r.Fn.Pos(), "no layer is")
			for _, ev := range qs {
				pc := full(ev)
				r.holds("queries concern an existing layer and slot", fnName(ev.Fn), pc, inRange(r.argOf(ev, "inputId"), Zero, sym("slots")), ev.Pos)
				r.holds("queries concern an existing layer and slot", fnName(ev.Fn), pc, inRange(r.argOf(ev, "layerIndex"), Zero, sub(slen(r.argOf(ev, "activeNodesPerLayer")), One)), ev.Pos)
			}
			for _, ev := range r.possible([]string{errSignal, backProp, backFirst, tNode + ".GetLastActivation"}) {
				r.holds("operations on nodes concern an existing slot", fnName(ev.Fn), full(ev), inRange(r.argOf(ev, "inputId"), Zero, sym("slots")), ev.Pos)
			}
		})
	}
}
