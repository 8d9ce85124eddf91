package main

// C26: one hash family for building, querying and refreshing the tables.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type family struct {
	name, constant, field, typ string
	ctor                       string
	dense, sparse              string // methods used for weights and for active nodes
	bins                       bool   // needs the bin map built with the hasher
	top                        bool   // takes the number of strongest inputs
	dimFirst                   bool   // constructor takes (dimension, hashes, ...)
}

var families = []family{
	{"winner-take-all", "configuration.WtaHashFunction", "wtaHasher", "wta_hash.WtaHash", "wta_hash.New", "GetHashDense", "GetHash", false, false, false},
	{"densified winner-take-all", "configuration.DensifiedWtaHashFunction", "dwtaHasher", "densified_wta_hash.DensifiedWtaHash", "densified_wta_hash.New", "GetHashEasy", "GetHash", false, false, false},
	{"densified minhash", "configuration.DensifiedMinhashFunction", "minHasher", "densified_minhash.DensifiedMinhash", "densified_minhash.New", "GetHashEasyDense", "GetHashEasy", true, true, false},
	{"sparse random projection", "configuration.SparseRandomProjectionHashFunction", "srp", "sparse_random_projection.SparseRandomProjection", "sparse_random_projection.New", "GetHash", "GetHashSparse", false, false, true},
}

func init() {
	rules["C26"] = rule{"one hash family throughout", ruleC26, "proof"}
}

// hasherMethods lists the exported methods of the four hashers.
func (c *Ctx) hasherMethods() []string {
	var out []string
	for _, f := range families {
		t := c.typ(f.typ)
		ms := c.P.Prog.MethodSets.MethodSet(types.NewPointer(t))
		for i := 0; i < ms.Len(); i++ {
			fn := c.P.Prog.MethodValue(ms.At(i))
			if fn != nil && fn.Object().Exported() {
				out = append(out, fnName(fn))
			}
		}
		c.fn(f.typ + "." + f.dense)
		c.fn(f.typ + "." + f.sparse)
	}
	return out
}

func (r *Run) familyOpaque() {
	for _, m := range r.C.hasherMethods() {
		r.opaque[m] = nil
	}
	for _, f := range families {
		r.opq(f.ctor)
	}
}

// possible lists the calls to any of the names that can happen.
func (r *Run) possible(names []string) []*Event {
	in := map[string]bool{}
	for _, n := range names {
		in[n] = true
	}
	var out []*Event
	for _, ev := range r.events {
		if ev.Kind == "call" && in[ev.Name] && !unsat(andN(r.Pre, ev.PC, okOf(ev))) {
			out = append(out, ev)
		}
	}
	return out
}

// knownFunction: the setting is one of the supported hash functions.
func (r *Run) knownFunction(h *Term) *Term {
	c := False
	for _, f := range families {
		c = or(c, eqI(h, r.C.constOf(f.constant)))
	}
	return c
}

// onlyFamily checks that every hashing call is the one method of the family,
// on the hasher given, with the bins given, and returns the calls.
func (r *Run) onlyFamily(f family, method string, hasher, bins *Term, tops map[string]bool) []*Event {
	evs := r.possible(r.C.hasherMethods())
	var out []*Event
	for _, ev := range evs {
		if ev.Name == f.typ+".GetMap" {
			continue
		}
		ok := ev.Name == f.typ+"."+method
		if !r.C.ob("only the configured family hashes", fnName(ev.Fn), ok, ev.Pos, "%s is called while %s is configured (expected %s.%s)", ev.Name, f.name, f.typ, method) {
			continue
		}
		pc := and(ev.PC, okOf(ev))
		r.eq("the family's hasher of the layer is used", fnName(ev.Fn), pc, ev.Args[0], hasher)
		if f.bins {
			b := ev.Args[1]
			ok := b == bins || r.eqUnder(pc, sbase(b), sbase(bins)) && r.eqUnder(pc, slen(b), slen(bins))
			r.C.ob("the bin map of the layer is used", fnName(ev.Fn), ok, ev.Pos, "bins %s, required %s", show(b, 8), show(bins, 8))
		}
		if f.top {
			t := simplify(ev.Args[len(ev.Args)-1], and(r.Pre, pc))
			tops[show(t, 6)] = true
		}
		out = append(out, ev)
	}
	r.C.ob("hashing happens", r.Name, len(out) > 0, r.Fn.Pos(), "no call of %s.%s", f.typ, method)
	return out
}

func ruleC26(c *Ctx) {
	hf, _ := c.field(tCfg, "HashFunction")
	_ = hf
	gets := tLayer + ".GetHashForInputProcessing"
	for _, f := range families {
		f := f
		tops := map[string]bool{}
		// construction and table updates leave the family's hasher in place
		for _, name := range []string{"layer.New", tLayer + ".UpdateTable"} {
			c.run(name, func(r *Run) {
				r.Label = fmt.Sprintf("%s with %s", name, f.name)
				r.config("HashFunction", c.constOf(f.constant))
				r.familyOpaque()
				if name == "layer.New" {
					r.config("LoadWeight", False)
					r.assume(leI(Zero, r.arg("numOfNodes")), leI(Zero, r.arg("previousLayerNumOfNodes")), leI(Zero, r.arg("batchSize")))
					r.opq(tNode+".Update", tNode+".Weights", tNode+".Bias", "node.NewNodeTrain", "node.NewEmptyNode", "lsh.New", tLSH+".HashesToIndex", tLSH+".Add")
				}
			}, func(r *Run) {
				var hashes, dim *Term
				if name == "layer.New" {
					hashes, dim = mul(r.arg("k"), r.arg("l")), r.arg("previousLayerNumOfNodes")
				} else {
					hashes, dim = mul(r.get0(r.A[0], tLayer, "k"), r.get0(r.A[0], tLayer, "l")), r.get0(r.A[0], tLayer, "previousLayerNumOfNodes")
				}
				hasher := r.get1(r.Res, tLayer, f.field)
				made := False
				for _, ev := range r.calls(f.ctor) {
					pc := and(ev.PC, okOf(ev))
					a, b := ev.Args[0], ev.Args[1]
					if f.dimFirst {
						a, b = b, a
					}
					r.eq("the hasher has one function per code, K*L", r.Label, pc, a, hashes)
					r.eq("the hasher covers the layer's inputs", r.Label, pc, b, dim)
					made = or(made, and(ev.PC, samePtr(hasher, ev.Res)))
				}
				r.holds("the configured family's hasher is in place", r.Label, r.know(), made, r.Fn.Pos())
				bins := r.get1(r.Res, tLayer, "binIds")
				if f.bins {
					ok := False
					for _, ev := range r.possible([]string{f.typ + ".GetMap"}) {
						r.eq("the bin map covers the layer's inputs", r.Label, ev.PC, ev.Args[1], dim)
						r.eq("the bin map belongs to the hasher in place", r.Label, ev.PC, ev.Args[0], hasher)
						ok = or(ok, and(ev.PC, and(samePtr(sbase(bins), sbase(ev.Res)), eqI(slen(bins), slen(ev.Res)))))
					}
					r.holds("the bin map is in place", r.Label, r.know(), ok, r.Fn.Pos())
				}
				if name == "layer.New" {
					r.onlyFamily(f, f.dense, hasher, bins, tops)
				} else {
					for _, ev := range r.possible(c.hasherMethods()) {
						c.ob("a table update hashes nothing", fnName(ev.Fn), ev.Name == f.typ+".GetMap", ev.Pos, "%s", ev.Name)
					}
				}
			})
		}
		c.run(gets, func(r *Run) {
			r.Label = r.Name + " with " + f.name
			r.config("HashFunction", c.constOf(f.constant))
			r.familyOpaque()
		}, func(r *Run) {
			evs := r.onlyFamily(f, f.dense, r.get0(r.A[0], tLayer, f.field), r.get0(r.A[0], tLayer, "binIds"), tops)
			i := 1
			if f.bins {
				i = 2
			}
			for _, ev := range evs {
				r.eq("the weights given are hashed", r.Label, ev.PC, sbase(ev.Args[i]), sbase(r.A[1]))
				r.eq("the weights given are hashed", r.Label, ev.PC, slen(ev.Args[i]), slen(r.A[1]))
				r.eq("the family's codes are returned", r.Label, and(r.know(), ev.PC), sbase(r.Res), sbase(ev.Res))
			}
			r.onlyWrites("hashing weights changes nothing", func(w wr, a *Term) bool { return false })
		})
		for _, mode := range []int64{1, 4} {
			mode := mode
			c.run(query, func(r *Run) {
				r.Label = fmt.Sprintf("%s in mode %d with %s", r.Name, mode, f.name)
				r.querySetup(mode, 0)
				r.config("HashFunction", c.constOf(f.constant))
				r.familyOpaque()
			}, func(r *Run) {
				evs := r.onlyFamily(f, f.sparse, r.get0(r.A[0], tLayer, f.field), r.get0(r.A[0], tLayer, "binIds"), tops)
				i := 1
				if f.bins {
					i = 2
				}
				apl, li := r.arg("activeNodesPerLayer"), r.arg("layerIndex")
				_, pt := c.field("dataset.Example", "Features")
				in := r.load(r.St0, elem(sbase(apl), add(soff(apl), li)), pt)
				once := False
				for _, ev := range evs {
					r.eq("the layer's input is hashed", r.Label, ev.PC, ev.Args[i], in)
					r.holds("one hash per query", r.Label, ev.PC, not(once), ev.Pos)
					once = or(once, ev.PC)
					idx := r.possible([]string{tLSH + ".HashesToIndex"})
					for _, e2 := range idx {
						r.eq("the codes of this family are addressed in the layer's tables", r.Label, and(ev.PC, e2.PC), e2.Args[1], ev.Res)
						r.eq("the codes of this family are addressed in the layer's tables", r.Label, e2.PC, e2.Args[0], r.get0(r.A[0], tLayer, "hashTables"))
						for _, e3 := range r.possible([]string{tLSH + ".RetrieveRaw"}) {
							r.eq("the buckets of these addresses are read", r.Label, and(e2.PC, e3.PC), e3.Args[1], e2.Res)
							r.eq("the buckets of these addresses are read", r.Label, e3.PC, e3.Args[0], e2.Args[0])
						}
					}
					c.ob("the codes are looked up", r.Label, len(idx) > 0 && len(r.possible([]string{tLSH + ".RetrieveRaw"})) > 0, ev.Pos, "no look-up in the tables")
				}
				r.holds("every query hashes its input", r.Label, r.know(), once, r.Fn.Pos())
			})
		}
		if f.top {
			c.ob("insertions and queries use the same number of strongest inputs", tLayer, len(tops) == 1, 0, "values used: %v", sortedSet(tops))
		}
	}
	// the exported steps of an insertion are those of the layer's tables
	for _, w := range [][2]string{{"HashesToIndex", tLSH + ".HashesToIndex"}, {"HashTablesAdd", tLSH + ".Add"}, {"ClearHashTables", tLSH + ".Clear"}} {
		w := w
		c.run(tLayer+"."+w[0], func(r *Run) { r.opq(w[1]) }, func(r *Run) {
			evs := r.possible([]string{w[1]})
			c.ob("the layer's tables do the work", r.Name, len(evs) == 1 && r.proves(r.know(), evs[0].PC), r.Fn.Pos(), "%d calls of %s", len(evs), w[1])
			for _, ev := range evs {
				r.eq("the layer's tables are used", r.Name, ev.PC, ev.Args[0], r.get0(r.A[0], tLayer, "hashTables"))
				for i := 1; i < len(ev.Args); i++ {
					r.eq("arguments are passed on", r.Name, ev.PC, ev.Args[i], r.A[i])
				}
				if ev.Res != Nil {
					r.eq("the result is passed back", r.Name, and(r.know(), ev.PC), r.Res, ev.Res)
				}
			}
			r.onlyWrites("nothing else changes", func(w wr, a *Term) bool { return false })
		})
	}
	// unknown settings abort
	unknown := func(name, label string, setup func(r *Run)) {
		c.run(name, func(r *Run) {
			r.aborts = true
			r.Label = name + label + " with an unknown hash function"
			h := sym("unknown hash function")
			r.config("HashFunction", h)
			r.assume(not(r.knownFunction(h)))
			setup(r)
		}, func(r *Run) {})
	}
	unknown("layer.New", "", func(r *Run) {
		r.familyOpaque()
		r.config("LoadWeight", False)
		r.assume(ltI(Zero, r.arg("numOfNodes")), leI(Zero, r.arg("previousLayerNumOfNodes")), leI(Zero, r.arg("batchSize")))
		r.opq(tNode+".Update", tNode+".Weights", tNode+".Bias", "node.NewNodeTrain", "node.NewEmptyNode", "lsh.New", tLSH+".HashesToIndex", tLSH+".Add")
	})
	unknown(tLayer+".UpdateTable", "", func(r *Run) { r.familyOpaque() })
	unknown(gets, "", func(r *Run) { r.familyOpaque() })
	for _, mode := range []int64{1, 4} {
		mode := mode
		unknown(query, fmt.Sprintf(" in mode %d", mode), func(r *Run) {
			r.queryModels()
			r.familyOpaque()
			r.config("LayerMode", num(mode))
			r.assume(not(eqF(r.arg("sparsity"), One)))
		})
	}
	// nothing else installs or replaces hashers
	var fs []string
	for _, f := range families {
		fs = append(fs, f.field)
	}
	c.constFields("only construction and table updates install hash functions", tLayer, append(fs, "binIds", "hashTables", "k", "l", "previousLayerNumOfNodes"), "layer.New", tLayer+".UpdateTable")
	for _, f := range families {
		for _, g := range c.allFuncs() {
			p := ""
			if g.Pkg != nil {
				p = shortPkg(g.Pkg.Pkg.Path())
			}
			if p == "layer" || p == f.typ[:strings.LastIndex(f.typ, ".")] {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if callee := ci.Common().StaticCallee(); callee != nil && strings.HasPrefix(fnName(callee), f.typ+".") {
							c.ob("only layers hash", fnName(g), false, in.Pos(), "calls %s", fnName(callee))
						}
					}
				}
			}
		}
	}
	c.ob("only layers hash", "the module", true, 0, "")
}
