package main

// C40: the evaluation of the program.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C40"] = rule{"reported accuracy is that of the examples evaluated", ruleC40, "proof"}
}

// outputs lists the values an event hands to functions outside the module,
// with the elements of argument lists.
func (r *Run) outputs(ev *Event) []*Term {
	var out []*Term
	add1 := func(t *Term) {
		if t != nil && t.Op == OpIface && len(t.K) == 1 {
			t = t.K[0]
		}
		if t != nil {
			out = append(out, t)
		}
	}
	for i, a := range ev.Args {
		add1(a)
		sig := callSig(ev)
		if sig == nil || !sig.Variadic() || i != len(ev.Args)-1 {
			continue
		}
		st, ok := sig.Params().At(sig.Params().Len() - 1).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		n, ok := numInt(simplify(slen(a), full(ev)))
		for k := int64(0); ok && k < n; k++ {
			add1(simplify(r.at(ev.St, a, num(k), st.Elem()), full(ev)))
		}
	}
	return out
}

func ruleC40(c *Ctx) {
	kLab := tNet + ".PredictClass"
	c.mainRun("main.main", positiveConfig("BatchSize", "TotRecords", "TotRecordsTest", "NumLayer", "Stepsize"), func(r *Run, cfg func(string) *Term) {
		ps := r.possible([]string{kLab})
		if !c.ob("the network is evaluated", r.Label, len(ps) > 0, r.Fn.Pos(), "it never is") {
			return
		}
		reports := 0
		type round struct{ cond, size, epoch *Term }
		var after, during []round
		for _, p := range ps {
			at, d := fnName(p.Fn), len(p.Nest)
			if !c.ob("evaluation happens batch by batch", at, d >= 2 && p.Nest[d-1].N != nil && p.Nest[0].N != nil, p.Pos, "in %d loops", d) {
				return
			}
			l := p.Nest[d-1]
			r.presents(p, cfg, "evaluation", "TestData")
			right, all := p.Res.K[0], slen(r.argOf(p, "examples"))
			said := False
			for _, ev := range r.events {
				if ev.Kind != "ext" && ev.Kind != "call" || ev == p || ev.Name == kLab || ev.Name == tNet+".ProcessInput" || len(ev.Nest) < d-1 || !prefixNest(p.Nest[:d-1], ev.Nest) {
					continue
				}
				for _, v := range r.outputs(ev) {
					uses := false
					depsOf(v, func(u *Term) {
						uses = uses || u == p.Res.K[0] || u.Op == p.Res.K[0].Op && u.S == p.Res.K[0].S && u.S != ""
					})
					if !uses {
						continue
					}
					counts, last := leaves(l.N), False
					if len(ev.Nest) >= d {
						if !prefixNest(p.Nest, ev.Nest) {
							c.ob("accuracy is the fraction of evaluated examples predicted correctly", fnName(ev.Fn), false, ev.Pos, "reported in another loop")
							continue
						}
						counts = []*Term{l.K}
						if r.seq(ev) > r.seq(p) {
							last = True
						}
					}
					if r.tally(v, right, ev) {
						continue
					}
					reports++
					for _, n := range counts {
						sum := func(t, now *Term) *Term {
							b := newIdx("round")
							return add(sumOver(n, b, subst(t, Sub{l.K: b})), ite(last, now, Zero))
						}
						at1 := full(ev)
						if n != l.K {
							at1 = and(at1, leafCond(l.N, n))
						}
						for _, size := range leaves(all) {
							total := sum(all, size)
							pc := andN(at1, leafCond(all, size), ltI(Zero, total), ltF(Zero, toFloat(total)))
							r.eq("accuracy is the fraction of evaluated examples predicted correctly", fnName(ev.Fn), pc, v, divF(toFloat(sum(right, right)), toFloat(total)))
						}
					}
					if len(ev.Nest) == d-1 {
						said = or(said, full(ev))
					}
				}
			}
			back := r.know()
			if d >= 2 {
				back = p.Nest[d-2].BackPC
			}
			r.holds("every evaluation reports the overall accuracy", at, andN(back, l.EntryPC), said, p.Pos)
			if d == 2 {
				after = append(after, round{l.EntryPC, l.N, p.Nest[0].K})
			} else {
				during = append(during, round{l.EntryPC, l.N, p.Nest[0].K})
			}
		}
		if t, epoch, batch, perEpoch := r.trainingCall(cfg); t != nil {
			any, whole := False, False
			n := app("quo", cfg("TotRecordsTest"), cfg("BatchSize"))
			n = ite(ltI(n, Zero), Zero, n)
			for _, x := range after {
				if x.epoch == epoch {
					any = or(any, x.cond)
					whole = or(whole, and(x.cond, eqI(x.size, n)))
				}
			}
			back := t.Nest[0].BackPC
			r.holds("every epoch ends with an evaluation", fnName(t.Fn), back, any, t.Pos)
			r.holds("the last evaluation runs over the whole test set", fnName(t.Fn), and(back, eqI(epoch, sub(cfg("Epoch"), One))), whole, t.Pos)
			step := add(mul(epoch, perEpoch), batch)
			any = False
			for _, x := range during {
				if x.epoch == epoch {
					any = or(any, x.cond)
				}
			}
			due := and(ltI(Zero, batch), eqI(app("rem", step, cfg("Stepsize")), Zero))
			r.holds("training is interrupted by evaluations at the configured steps", fnName(t.Fn), and(full(t), due), any, t.Pos)
		} else {
			c.ob("training is recognised", r.Label, false, r.Fn.Pos(), "no call in a nest of epochs and batches")
		}
		c.ob("accuracy is reported", r.Label, reports > 0, r.Fn.Pos(), "it never is")
	})
}

func callSig(ev *Event) *types.Signature {
	ci, ok := ev.Instr.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	return ci.Common().Signature()
}

// tally tells whether a value reported is a number of examples, not a
// fraction of them.
func (r *Run) tally(v, right *Term, ev *Event) bool {
	for _, l := range leaves(v) {
		switch {
		case l == right || l.Op == OpSum || l.Op == OpNum:
		case l.Op == OpPoly:
			for _, m := range l.M {
				for _, f := range m.F {
					if f.E < 0 || f.T.Op == OpApp && f.T.S == "float" {
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return true
}
