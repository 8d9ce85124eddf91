package main

// C32, C28: prediction.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const lastAct = tNode + ".GetLastActivation"

func init() {
	rules["C32"] = rule{"the prediction is the most active output node", ruleC32, "proof"}
}

func ruleC32(c *Ctx) {
	c.run(tNet+".PredictClass", func(r *Run) {
		r.oneOwner()
		r.netShape()
		r.queryCall()
		c.fn(lastAct)
		r.opaque[lastAct] = func(e *Eng, fr *frame, st *State, fn *ssa.Function, args []*Term, pos tokenPos) *Term {
			return app("activation", args[0], args[1])
		}
	}, func(r *Run) { r.argmax() })
}

// argmax: the number returned counts the examples whose labels contain the
// class of the first active output node with the largest activation. The loop
// over the active nodes is followed with one hypothesis per variable: that it
// holds the position p of the best node so far, its number, its activation, or
// a constant.
func (r *Run) argmax() {
	c, net := r.C, r.A[0]
	active, fwd := r.forward()
	if active == nil {
		return
	}
	ex := r.arg("examples")
	last := sub(slen(r.get0(net, tNet, "hiddenLayers")), One)
	R := simplify(r.Res.K[0], and(r.Pre, r.know()))
	if !c.ob("the result counts examples", r.Label, R.Op == OpSum && r.eqUnder(r.know(), R.K[0], slen(ex)), r.Fn.Pos(), "the result is %s", show(R, 8)) {
		return
	}
	i := newIdx("example")
	dom := and(r.know(), inRange(i, Zero, slen(ex)))
	body := subst(R.K[1], Sub{outerB(R): i})
	A := active(i, last)
	n := slen(A)
	dom = and(dom, ltI(Zero, n))
	kIdx, tIdx := c.field("index_value.Pair", "Index")
	class := func(p *Term) *Term { return r.load(r.St0, fld(elem(sbase(A), add(soff(A), p)), kIdx), tIdx) }
	act := func(p *Term) *Term { return app("activation", r.nodeAt(r.St0, net, last, class(p)), i) }

	var loop *LoopInst
	m := Sub{}
	many := false
	walk(body, func(u *Term) {
		if u.Op != OpVar {
			return
		}
		l := loops[u.S[:strings.Index(u.S, "|")]]
		if l == nil || loop != nil && l != loop {
			many = true
			return
		}
		loop = l
		for k := 1; k < len(u.K) && k-1 < len(l.Outer); k++ {
			m[l.Outer[k-1]] = u.K[k]
		}
	})
	if !c.ob("the prediction is found by one pass over the active output nodes", r.Label, loop != nil && !many && loop.N != nil && loop.Early == False, r.Fn.Pos(), "the predicted class is %s", show(body, 10)) {
		return
	}
	// activations are exponentials, hence not negative (C25)
	p, end := r.follow(loop, m, dom, n, class, act, func(q *Term) *Term { return and(not(ltF(act(q), Zero)), ltF(app("math.Inf", num(-1)), act(q))) }, false)
	got := subst(body, end)
	lab, lt := c.field("dataset.Example", "Labels")
	L := r.load(r.St0, fld(elem(sbase(ex), add(soff(ex), i)), lab), lt)
	want := ite(existsIdx(slen(L), func(q *Term) *Term { return eqI(r.at(r.St0, L, q, elemType(lt)), class(p)) }), One, Zero)
	r.eq("an example counts exactly when its labels contain the first most active output node", r.Label, and(dom, inRange(p, Zero, n)), got, want)
	// activations are read after the example was evaluated
	for _, ev := range r.possible([]string{lastAct}) {
		for _, q := range fwd {
			jq := newIdx("layer evaluated")
			qc, qs := r.hit(q.ev, []*Term{q.ev.Args[4], q.ev.Args[3]}, []*Term{i, jq})
			ec, es := r.hit(ev, []*Term{ev.Args[1]}, []*Term{i})
			if qc == nil {
				continue
			}
			if ec == nil { // the position of the node is not determined by the example
				es = Sub{}
				unifyInt(ev.Args[1], i, nestKs(ev), es)
				ec = True
			}
			c.ob("activations are read after the example was evaluated", fnName(ev.Fn), r.before(&cover{q.ev, qc, qs}, &cover{ev, ec, es}, and(dom, inRange(jq, Zero, add(last, One)))), ev.Pos, "the activation of an earlier batch may be used")
		}
	}
}

// sameKind: both terms are of the same sort (booleans and numbers differ).
func (r *Run) sameKind(a, b *Term) bool {
	isB := func(t *Term) bool {
		for _, l := range leaves(t) {
			if isBoolLeaf(l) || isBoolish(l) {
				return true
			}
		}
		return false
	}
	return isB(a) == isB(b)
}

// resolve replaces loop variables by their closed forms.
func resolve(t *Term) *Term {
	for {
		m := Sub{}
		walk(t, func(u *Term) {
			if u.Op != OpVar {
				return
			}
			l := loops[u.S[:strings.Index(u.S, "|")]]
			if l == nil {
				return
			}
			for _, v := range l.Vars {
				if v.Var.S == u.S && v.Closed != nil {
					ks := Sub{}
					for i, k := range v.Var.K {
						if i < len(u.K) {
							ks[k] = u.K[i]
						}
					}
					m[u] = subst(v.Closed, ks)
				}
			}
		})
		if len(m) == 0 {
			return t
		}
		t = subst(t, m)
	}
}

// follow analyses a loop that looks for the position p of the largest act(q)
// over q in [0,n): each loop variable is hypothesised to hold p, class(p),
// act(p) or a constant, which is proved by induction. floor holds for every
// act(q). With ties, the last position may win instead of the first. It
// returns p (arbitrary) and the values of the variables after the loop.
func (r *Run) follow(loop *LoopInst, m Sub, dom, n *Term, class, act func(q *Term) *Term, floor func(q *Term) *Term, ties bool) (*Term, Sub) {
	c := r.C
	_ = c
	N := subst(loop.N, m)
	rest := r.eqUnder(dom, N, sub(n, One)) // the first node is taken before the loop
	if !rest {
		r.eq("the pass covers all candidates", r.Label, dom, N, n)
	}
	// state of the variables once the first node has been seen
	next := func(v *LoopVar) *Term { return subst(resolve(v.Next), m) }
	inits := Sub{}
	for _, v := range loop.Vars {
		if v.Init != nil {
			inits[v.Var] = subst(v.Init, m)
		}
	}
	p, k, p0 := newIdx("position"), loop.K, floor
	base := map[*Term]*Term{}
	for _, v := range loop.Vars {
		if v.Init == nil || v.Next == nil {
			continue
		}
		b := inits[v.Var]
		if !rest {
			b = subst(next(v), inits)
			b = subst(b, Sub{k: Zero})
		}
		base[v.Var] = b
	}
	hyps := map[*Term]func(p *Term) *Term{}
	for _, v := range loop.Vars {
		b := base[v.Var]
		if b == nil {
			continue
		}
		know := and(dom, p0(Zero))
		for _, h := range []func(p *Term) *Term{class, act, func(p *Term) *Term { return p }, func(*Term) *Term { return True }, func(*Term) *Term { return False }} {
			if r.sameKind(b, h(Zero)) && r.eqUnder(know, b, h(Zero)) {
				hyps[v.Var] = h
				break
			}
		}
	}
	at := Sub{}
	for key, v := range m {
		at[key] = v
	}
	e := k // element looked at
	lo := One
	if rest {
		e, lo = add(k, One), Zero
	}
	for v, h := range hyps {
		at[subst(v, m)] = h(p)
	}
	best := ite(ltF(act(p), act(e)), e, p)
	if ties {
		best = ite(ltF(act(e), act(p)), p, e)
	}
	sdom := andN(dom, inRange(k, lo, N), inRange(p, Zero, e), p0(p), p0(e))
	// the largest activation seen so far is that of the best node so far
	largest := func(t *Term) *Term {
		ms := Sub{}
		walk(t, func(u *Term) {
			if u.Op != OpMaxOf {
				return
			}
			b := newIdx("seen")
			x := subst(u.K[2], Sub{outerB(u): b})
			d := and(sdom, inRange(b, Zero, u.K[1]))
			first := r.eqUnder(sdom, u.K[0], act(Zero))
			small := first || r.proves(sdom, not(ltF(act(p), u.K[0])))
			if small && r.eqUnder(sdom, u.K[1], e) && r.eqUnder(d, x, act(b)) ||
				first && r.eqUnder(sdom, u.K[1], sub(e, One)) && r.eqUnder(d, x, act(add(b, One))) {
				ms[u] = act(p)
			}
		})
		return subst(t, ms)
	}
	for changed := true; changed; {
		changed = false
		for _, v := range loop.Vars {
			h := hyps[v.Var]
			if h == nil {
				continue
			}
			if !r.eqUnder(sdom, largest(subst(next(v), at)), h(best)) {
				delete(hyps, v.Var)
				delete(at, subst(v.Var, m))
				changed = true
			}
		}
	}
	// the outcome
	end := Sub{}
	for _, v := range loop.Vars {
		if h := hyps[v.Var]; h != nil {
			ks := append([]*Term{N}, subst(v.Var, m).K[1:]...)
			end[raw(OpVar, v.Var.S, nil, ks...)] = h(p)
		}
	}
	return p, end
}
