package main

// C41: densification. C42: signs of projections.

import (
	"math"
	"strings"
)

func init() {
	rules["C41"] = rule{"an empty bin borrows the code of the first non-empty bin it probes", ruleC41, "proof"}
}

func ruleC41(c *Ctx) {
	for _, t := range []string{tDwta, tMin} {
		t := t
		c.run(t+".GetRandDoubleHash", func(r *Run) {
			r.isBuilt(t)
			r.assume(inRange(r.A[1], Zero, r.getIn(r.newSt0(), r.A[0], t, "numHashes")), leI(One, r.A[2]))
		}, func(r *Run) {
			n, l := r.get0(r.A[0], t, "numHashes"), r.get0(r.A[0], t, "logNumHash")
			// a 32-bit number shifted right by 32-l is less than 2^l
			shifted := r.Res.Op == OpApp && r.Res.S == "shr" && r.Res.K[0].Op == OpApp && r.Res.K[0].S == "wrap32" && r.eqUnder(r.know(), r.Res.K[1], sub(num(32), l))
			c.ob("a probe lands on an existing bin", r.Label, shifted || r.proves(r.know(), ltI(r.Res, n)), r.Fn.Pos(), "the probe is %s", show(r.Res, 6))
			differs := func(x *Term) bool {
				at := func(k int64) *Term { return subst(r.Res, Sub{x: num(k)}) }
				return at(1) != at(2) || at(2) != at(3)
			}
			bin, attempt := differs(r.A[1]), differs(r.A[2])
			c.ob("each bin has a probe sequence of its own", r.Label, bin, r.Fn.Pos(), "the probe is %s", show(r.Res, 6))
			c.ob("each attempt probes a place of its own", r.Label, attempt, r.Fn.Pos(), "the probe is %s", show(r.Res, 6))
		})
	}
	for _, t := range []string{tDwta, tMin} {
		t := t
		c.run(t[:strings.LastIndex(t, ".")]+".New", func(r *Run) {
			r.assume(ltI(Zero, r.arg("numHashes")))
		}, func(r *Run) {
			l, n := r.getIn(r.St, r.Res, t, "logNumHash"), r.getIn(r.St, r.Res, t, "numHashes")
			r.eq("probe locations have no more bits than the number of bins", r.Label, r.know(), l, app("trunc", app("math.Log2", toFloat(n))))
		})
	}
	dw := func(m string, sparse bool) {
		c.run(tDwta+m, func(r *Run) {
			r.isBuilt(tDwta)
			r.landing(tDwta)
			r.assume(leI(Zero, r.getIn(r.newSt0(), r.A[0], tDwta, "permute")))
		}, func(r *Run) {
			r.densified(tDwta, r.fold(vec{r, r.A[1], sparse}))
		})
	}
	dw(".GetHash", true)
	dw(".GetHashEasy", false)
	c.run(tMin+".GetHash", func(r *Run) { r.isBuilt(tMin); r.landing(tMin) }, func(r *Run) {
		idx := vec{r, r.A[1], false}
		it := elemType(r.Fn.Params[1].Type())
		r.densified(tMin, r.maxFold(r.A[3], func(t *Term) *Term { return idx.readPos(t, "") }, func(q *Term) *Term { return r.at(r.St0, r.A[1], q, it) }, slen(r.A[2])))
	})
	for _, m := range []string{".GetHashEasy", ".GetHashEasyDense"} {
		for few := 0; few < 2; few++ {
			few := few
			c.run(tMin+m, func(r *Run) {
				r.isBuilt(tMin)
				r.landing(tMin)
				if few == 1 {
					r.assume(inRange(r.A[3], Zero, slen(r.A[2])))
					r.Label += " with fewer slots than coordinates"
				} else {
					r.assume(leI(slen(r.A[2]), r.A[3]))
				}
			}, func(r *Run) {
				n := slen(r.A[2])
				if few == 1 {
					n = r.A[3]
				}
				_, code := r.queued(vec{r, r.A[2], m == ".GetHashEasy"}, n, r.A[1])
				r.densified(tMin, code)
			})
		}
	}
}

// landing: probes have a name, and lie within the bins.
func (r *Run) landing(typ string) {
	r.probes()
	n := r.getIn(r.newSt0(), r.A[0], typ, "numHashes")
	factHooks = append(factHooks, func(t *Term) []*Term {
		if t.Op == OpApp && t.S == "probe" {
			return []*Term{ltI(t, n)}
		}
		return nil
	})
}

const sureProbes = 100

// densified proves what a bin without entries yields: the code of the bin found
// by the first successful attempt, and a constant when no attempt succeeds.
func (r *Run) densified(typ string, code coded) {
	c, h := r.C, r.A[0]
	at := r.Label
	if !c.ob("the codes of the bins are known", at, code != nil, r.Fn.Pos(), "see the rules of the family") {
		return
	}
	n := r.get0(h, typ, "numHashes")
	i := newIdx("i")
	dom := and(r.know(), inRange(i, Zero, n))
	_, own := code(i)
	dom = and(dom, not(own))
	res := simplify(r.at(r.St, r.Res, i, c.intT()), and(r.Pre, dom))
	bin := func(a *Term) *Term {
		return app("probe", h, i, a)
	}
	codeAt := func(a *Term) *Term { x, _ := code(bin(a)); return x }
	hasAt := func(a *Term) *Term { _, x := code(bin(a)); return x }
	// the searches the code depends on
	var ks []*Term
	seen := map[*Term]bool{}
	collect := func(t *Term) {
		walk(t, func(u *Term) {
			if u.Op == OpSym && strings.HasPrefix(u.S, "K:") && !seen[u] {
				seen[u] = true
				ks = append(ks, u)
			}
		})
	}
	collect(res)
	var search *Term
	var loop *LoopInst
	m := Sub{}
	for _, k := range ks {
		l := r.finals[k.S[2:]]
		if l == nil {
			continue
		}
		probing := containsP(l.Early, func(u *Term) bool { return u.Op == OpApp && u.S == "probe" })
		if !probing {
			continue
		}
		if search != nil && search != k {
			c.ob("an empty bin makes one search", at, false, r.Fn.Pos(), "there are several")
			return
		}
		search, loop = k, l
		for j, o := range l.Outer {
			m[o] = k.K[j]
		}
	}
	if !c.ob("an empty bin searches for a non-empty one", at, search != nil, r.Fn.Pos(), "its code is %s", show(res, 6)) {
		return
	}
	early := func(k *Term) *Term { return subst(subst(loop.Early, m), Sub{loop.K: k}) }
	var trips *Term
	if loop.N != nil {
		trips = subst(loop.N, m)
	}
	stops := True
	if trips != nil {
		stops = subst(existsOver(loop.N, loop.K, loop.Early), m)
	}
	// when the search ends: what is known of iteration k, with the number of the
	// last one
	when := func(cands []*Term, last *Term) *Term {
		f := True
		for _, k := range cands {
			before := ltI(k, last)
			in := and(leI(Zero, k), before)
			if trips != nil {
				f = and(f, or(or(stops, not(and(leI(Zero, k), ltI(k, trips)))), not(early(k))))
			}
			f = and(f, or(or(not(stops), not(in)), not(early(k))))
		}
		e := early(last)
		if trips != nil {
			e = and(e, and(leI(Zero, last), ltI(last, trips)))
		}
		return andN(f, or(not(stops), e), leI(Zero, last))
	}
	// the first successful attempt
	a := newIdx("attempt")
	first := func(cands []*Term) *Term {
		f := andN(leI(One, a), leI(a, num(sureProbes)), hasAt(a))
		for _, x := range cands {
			f = and(f, or(not(and(leI(One, x), ltI(x, a))), not(hasAt(x))))
		}
		return f
	}
	near := func(x *Term) []*Term {
		return []*Term{sub(x, num(2)), sub(x, One), x, add(x, One), add(x, num(2))}
	}
	check := func(what string, kn, got, want *Term) bool {
		if unsat(and(r.Pre, kn)) {
			return true
		}
		got, want = simplify(got, and(r.Pre, kn)), simplify(want, and(r.Pre, kn))
		return r.eqUnder(kn, got, want)
	}
	ok, where := true, ""
	try := func(label string, kn *Term, mm Sub) {
		if ok && !check(label, subst(kn, mm), subst(res, mm), subst(codeAt(a), mm)) {
			ok, where = false, label
		}
	}
	// the search ends long before, around, or long after attempt a
	for d := int64(-1); d <= 1; d++ {
		last := add(a, num(d))
		kn := andN(dom, when(near(a), last), first(near(a)))
		try("attempt "+itoa(int(d)), kn, Sub{search: last})
	}
	lo := andN(dom, ltI(search, sub(a, One)), when(append(near(a), near(search)...), search), first(append(near(a), near(search)...)))
	try("too early", lo, Sub{})
	hi := andN(dom, ltI(add(a, One), search), when(append(near(a), near(search)...), search), first(near(a)))
	try("too late", hi, Sub{})
	c.ob("an empty bin takes the code of the first non-empty bin of its attempts", at, ok, loop.Pos, "not when the search ends %s: the code is %s", where, show(res, 9))
	// no attempt succeeds
	none := dom
	for _, x := range near(search) {
		none = and(none, or(not(and(leI(One, x), leI(x, num(maxProbes)))), not(hasAt(x))))
	}
	none = and(none, when(near(search), search))
	failed := simplify(res, and(r.Pre, none))
	fine := failed.Op == OpNum
	if !fine {
		fine = true
		for _, l := range leaves(failed) {
			lc := andN(none, leafCond(failed, l))
			if l.Op == OpNum || unsat(and(r.Pre, lc)) || r.eqUnder(lc, l, num(math.MinInt64)) || r.eqUnder(lc, l, Zero) {
				continue
			}
			fine = false
		}
	}
	c.ob("a bin that finds no code yields a constant", at, fine, loop.Pos, "it yields %s", show(failed, 9))
}
