package main

// C16: permutations and samples drawn when a hasher is built.

import (
	"go/types"
	"strings"
)

func init() {
	rules["C16"] = rule{"random projections and permutations are well-formed samples of the input", ruleC16, "proof"}
}

// shuffled: the value is element at of a random permutation of 0..D-1.
func shuffled(t *Term) bool {
	return t.Op == OpSym && strings.HasPrefix(t.S, "fresh:shuffled@")
}

// permutation: before the shuffle the array holds 0..n-1 in some order.
func (r *Run) permutation(ev *Event, n *Term) bool {
	b := ev.Args[1]
	pc := and(ev.PC, okOf(ev))
	j := newIdx("j")
	dom := and(pc, inRange(j, Zero, n))
	a := elem(b, j)
	seen := map[*Term]bool{}
	var rec func(t, cond *Term) bool
	rec = func(t, cond *Term) bool {
		for _, u := range leaves(simplify(t, and(r.Pre, cond))) {
			c := and(cond, leafCond(t, u))
			if unsat(and(r.Pre, c)) || seen[u] || r.eqUnder(c, u, j) || shuffled(u) && u.K[0] == j {
				continue
			}
			seen[u] = true
			l := (*LoopInst)(nil)
			if u.Op == OpSel && u.K[1] == a {
				l = heapLoop(u.K[0])
			}
			if l == nil || l.Init[ev.Key] == nil {
				return false
			}
			for _, w := range r.events {
				in := false
				for _, k := range w.Nest {
					in = in || k.Base == l.Base
				}
				if in && w.Kind != "shuffle" && w.Key == ev.Key && w.Addr != nil && (root(w.Addr) == root(b) || !freshMem(w.Addr)) {
					return false
				}
			}
			if !rec(readHeap(l.Init[ev.Key], a), c) {
				return false
			}
		}
		return true
	}
	return rec(readHeap(ev.St.heaps[ev.Key], a), dom)
}

// roundedUp makes the facts x <= d*ceil(x/d) < x+d available.
func roundedUp() {
	factHooks = append(factHooks, func(t *Term) []*Term {
		if t.Op != OpApp || t.S != "trunc" || t.K[0].Op != OpApp || t.K[0].S != "math.Ceil" {
			return nil
		}
		x := t.K[0].K[0]
		var out []*Term
		for _, d := range divisors(x) {
			if n := unfloat(mul(x, toFloat(d))); n != nil && knownPos(d) {
				out = append(out, leI(n, mul(d, t)), ltI(mul(d, t), add(n, d)))
				if knownNonNeg(n) {
					out = append(out, leI(t, n))
				}
			}
		}
		return out
	})
}

// roundedDown makes available, for a quotient t of x by a positive d rounded
// down, that d*t <= x and that t < n or d*n <= d*t.
func roundedDown(n *Term) {
	factHooks = append(factHooks, func(t *Term) []*Term {
		var x, d *Term
		switch {
		case t.Op == OpApp && t.S == "quo":
			x, d = t.K[0], t.K[1]
		case t.Op == OpApp && t.S == "trunc":
			y := t.K[0]
			if y.Op == OpApp && y.S == "math.Floor" {
				y = y.K[0]
			}
			for _, e := range divisors(y) {
				if u := unfloat(mul(y, toFloat(e))); u != nil {
					x, d = u, e
				}
			}
		}
		if x == nil || !knownPos(d) || !knownNonNeg(x) {
			return nil
		}
		return []*Term{not(ltI0(t)), leI(mul(d, t), x), or(ltI(t, n), leI(mul(d, n), mul(d, t)))}
	})
}

// divisors lists the integers a quotient of converted integers is divided by.
func divisors(x *Term) []*Term {
	var out []*Term
	for _, m := range monosOf(x) {
		for _, f := range m.F {
			if f.E < 0 && f.T.Op == OpApp && f.T.S == "float" {
				out = append(out, f.T.K[0])
			}
		}
	}
	return out
}

// unfloat is the integer polynomial a floating-point polynomial converts.
func unfloat(x *Term) *Term {
	r := Zero
	for _, m := range monosOf(x) {
		if !m.C.IsInt() {
			return nil
		}
		y := numR(m.C)
		for _, f := range m.F {
			if f.E < 0 || f.T.Op != OpApp || f.T.S != "float" {
				return nil
			}
			y = mul(y, powInt(f.T.K[0], f.E))
		}
		r = add(r, y)
	}
	return r
}

// byRow splits an offset into row*d + column.
func byRow(off, d *Term) (row, col *Term) {
	row, col = Zero, Zero
	for _, m := range monosOf(off) {
		x := mkPoly([]Mono{m})
		hit := false
		for _, f := range m.F {
			hit = hit || f.T == d && f.E == 1
		}
		if hit {
			row = add(row, mul(x, inv(d)))
		} else {
			col = add(col, x)
		}
	}
	return row, col
}

func ruleC16(c *Ctx) {
	for _, t := range []string{tWta, tDwta, tSrp} {
		c.run(ctorOf(t), func(r *Run) {
			r.positive(r.A...)
			roundedUp()
		}, func(r *Run) {
			n, d := r.A[0], r.A[1]
			if t == tSrp {
				d, n = r.A[0], r.A[1]
			}
			shuffles := 0
			for _, ev := range r.events {
				if ev.Kind != "shuffle" {
					continue
				}
				shuffles++
				r.eq("a whole arrangement of the coordinates is shuffled", fnName(ev.Fn), and(ev.PC, okOf(ev)), ev.Args[0], d)
				c.ob("what is shuffled is an arrangement of the coordinates 0..D-1", fnName(ev.Fn), r.permutation(ev, d), ev.Pos, "the shuffled array may hold something else")
			}
			c.ob("coordinates are drawn at random", r.Label, shuffles > 0, r.Fn.Pos(), "nothing is shuffled")
			if t == tSrp {
				r.samples(n, d)
			} else {
				r.arrangements(t, n, d)
			}
		})
	}
}

func (r *Run) arrangements(t string, n, d *Term) {
	c, h := r.C, r.Res
	idx := r.get1(h, t, "indices")
	r.holds("every hash owns a bin of 8 entries", r.Label, r.know(), leI(mul(num(8), n), slen(idx)), r.Fn.Pos())
	p, j := newIdx("p"), newIdx("j")
	per, rest := byRow(slen(idx), d)
	if !c.ob("permutations are complete", r.Label, rest == Zero, r.Fn.Pos(), "the table has %s entries", show(slen(idx), 6)) {
		return
	}
	dom := andN(r.know(), inRange(p, Zero, per), inRange(j, Zero, d))
	drawn := func(u *Term, fn string, pos tokenPos) {
		ok := shuffled(u) && u.K[0] == j && contains(raw(OpTuple, "", nil, u.K[1:]...), p)
		c.ob("every permutation lists each coordinate once", fn, ok, pos, "entry j of permutation p is %s", show(u, 8))
	}
	if t == tWta {
		var ws []*Event
		for _, w := range r.writes() {
			if root(w.addr) == root(sbase(idx)) {
				if w.ev.Kind == "append" {
					if _, few := numInt(w.ev.Args[2]); few {
						continue // the elements are stored one by one
					}
				}
				ws = append(ws, w.ev)
			}
		}
		block := func(ev *Event) bool { return ev.Kind == "copy" || ev.Kind == "append" }
		whole := true
		for _, ev := range ws {
			whole = whole && block(ev)
		}
		// entries are written one at a time or a whole permutation at a time
		pats, tgts, places := []*Term{p, j}, []*Term{p, j}, dom
		if whole {
			pats, tgts = pats[:1], tgts[:1]
			places = and(r.know(), inRange(p, Zero, per))
		}
		cs := r.exactlyOnce("every permutation is stored", ws, func(ev *Event) []*Term {
			off := Zero
			switch ev.Kind {
			case "copy":
				off = soff(ev.Args[0])
			case "append":
				off = add(soff(ev.Args[0]), slen(ev.Args[0]))
			case "store":
				off = ev.Addr.K[1]
			default:
				return []*Term{Nil, Nil}[:len(pats)]
			}
			row, col := byRow(sub(off, soff(idx)), d)
			if whole && col != Zero {
				row = Nil
			}
			return []*Term{row, col}[:len(pats)]
		}, tgts, pats, places)
		for _, cv := range cs {
			v := cv.ev.Val
			if block(cv.ev) {
				r.eq("a permutation is stored as a whole", fnName(cv.ev.Fn), and(dom, cv.c), subst(cv.ev.Args[2], cv.sol), d)
				v = subst(r.at(cv.ev.St, cv.ev.Args[1], j, types.Typ[types.Int]), cv.sol)
			}
			dc := andN(r.Pre, dom, cv.c)
			v = simplify(subst(v, cv.sol), dc)
			for _, u := range leaves(v) {
				if !unsat(and(dc, leafCond(v, u))) {
					drawn(u, fnName(cv.ev.Fn), cv.ev.Pos)
				}
			}
		}
		return
	}
	r.eq("all permutations are used", r.Label, r.know(), mul(r.get1(h, t, "permute"), d), slen(idx))
	r.eq("bins and in-bin positions go together", r.Label, r.know(), slen(r.get1(h, t, "pos")), slen(idx))
	table := func(field string) []*Event {
		s := r.get1(h, t, field)
		var out []*Event
		for _, w := range r.writes() {
			if root(w.addr) == root(sbase(s)) {
				if w.ev.Kind != "store" {
					c.ob("bins and positions are assigned one coordinate at a time", fnName(w.ev.Fn), false, w.ev.Pos, "%s", w.kind)
					continue
				}
				out = append(out, w.ev)
			}
		}
		return out
	}
	// an assignment names a coordinate and a slot 8*bin+position: one of them is
	// a counter, the other its image under the permutation
	sigma := func(t *Term) *Term {
		var out *Term
		walk(t, func(u *Term) {
			if shuffled(u) {
				out = u
			}
		})
		return out
	}
	for _, field := range []string{"indices", "pos"} {
		s := r.get1(h, t, field)
		cs := r.exactlyOnce("every coordinate gets one bin and position per permutation", table(field), func(ev *Event) []*Term {
			off := sub(ev.Addr.K[1], soff(s))
			if u := sigma(off); u != nil {
				off = subst(off, Sub{u: u.K[0]})
			}
			row, col := byRow(off, d)
			return []*Term{row, col}
		}, []*Term{p, j}, []*Term{p, j}, dom)
		for _, cv := range cs {
			off := sub(cv.ev.Addr.K[1], soff(s))
			slot := add(mul(p, d), j)
			u := sigma(off)
			if u == nil {
				if u = sigma(cv.ev.Val); u != nil {
					slot = add(mul(p, d), subst(u, cv.sol))
				}
			}
			if u == nil {
				u = Nil
			}
			drawn(subst(u, cv.sol), fnName(cv.ev.Fn), cv.ev.Pos)
			want := app("quo", slot, num(8))
			if field == "pos" {
				want = app("emod", slot, num(8))
			}
			r.eq("slot 8*bin+position of a coordinate is its place in the permutation", fnName(cv.ev.Fn), and(dom, cv.c), subst(cv.ev.Val, cv.sol), want)
		}
	}
}

func (r *Run) samples(n, d *Term) {
	c, h := r.C, r.Res
	ratio := r.A[2]
	idx, bits := r.get1(h, tSrp, "indices"), r.get1(h, tSrp, "randBits")
	r.eq("one sample of coordinates per hash", r.Label, r.know(), slen(idx), n)
	r.eq("one list of signs per hash", r.Label, r.know(), slen(bits), n)
	i, j := newIdx("i"), newIdx("j")
	dom := and(r.know(), inRange(i, Zero, n))
	of := func(s *Term, t types.BasicKind) *Term {
		return simplify(r.at(r.St, s, i, types.NewSlice(types.Typ[t])), and(r.Pre, dom))
	}
	cs, bs := of(idx, types.Int), of(bits, types.Bool)
	m := slen(cs)
	r.holds("a hash samples ceil(D/ratio) coordinates", r.Label, dom, and(leI(d, mul(ratio, m)), ltI(mul(ratio, m), add(d, ratio))), r.Fn.Pos())
	r.eq("one sign per sampled coordinate", r.Label, dom, slen(bs), m)
	dom2 := and(dom, inRange(j, Zero, m))
	// the sample is what was sorted last
	v := simplify(r.at(r.St, cs, j, types.Typ[types.Int]), and(r.Pre, dom2))
	for _, u := range leaves(v) {
		if !unsat(andN(r.Pre, dom2, leafCond(v, u))) {
			c.ob("sampled coordinates are in increasing order", r.Label, u.Op == OpSym && strings.HasPrefix(u.S, "fresh:sorted@"), r.Fn.Pos(), "entry j of the sample is %s", show(u, 8))
		}
	}
	n0 := 0
	for _, ev := range r.events {
		if ev.Kind != "sort" {
			continue
		}
		n0++
		s := ev.Args[0]
		c.ob("sampled coordinates are in increasing order", fnName(ev.Fn), r.increasing(ev), ev.Pos, "they are sorted by %s", ev.Name)
		pc := andN(ev.PC, okOf(ev), ev.St.know())
		k := newIdx("k")
		pk := and(pc, inRange(k, Zero, slen(s)))
		v := simplify(r.at(ev.St, s, k, types.Typ[types.Int]), and(r.Pre, pk))
		for _, u := range leaves(v) {
			if unsat(andN(r.Pre, pk, leafCond(v, u))) {
				continue
			}
			ok := shuffled(u) && len(ev.Nest) > 0
			if ok {
				// distinct places of one permutation: the place moves with k
				c, rest, lin := linear(u.K[0], k)
				ok = lin && c != nil && c.Sign() != 0 && !contains(rest, k)
				for _, x := range nestKs(ev) {
					ok = ok && contains(raw(OpTuple, "", nil, u.K[1:]...), x)
				}
			}
			c.ob("a sample consists of distinct coordinates drawn for it", fnName(ev.Fn), ok, ev.Pos, "entry k of the sample is %s", show(u, 8))
		}
		r.eq("the sample is sorted as a whole", fnName(ev.Fn), pc, slen(s), m)
	}
	c.ob("sampled coordinates are in increasing order", r.Label, n0 > 0, r.Fn.Pos(), "nothing is sorted")
	w := simplify(r.at(r.St, bs, j, types.Typ[types.Bool]), and(r.Pre, dom2))
	random := false
	walk(w, func(u *Term) {
		if u.Op == OpSym && strings.HasPrefix(u.S, "fresh:rand") {
			random = contains(raw(OpTuple, "", nil, u.K...), i) && contains(raw(OpTuple, "", nil, u.K...), j)
		}
	})
	c.ob("each sampled coordinate has a sign of its own", r.Label, random, r.Fn.Pos(), "the sign is %s", show(w, 8))
}

// increasing: the sort puts smaller integers first.
func (r *Run) increasing(ev *Event) bool {
	if ev.Less == nil {
		return false
	}
	s := ev.Args[0]
	at := func(i *Term) *Term { return r.at(ev.St, s, i, types.Typ[types.Int]) }
	d := andN(ev.PC, okOf(ev), ev.St.know(), inRange(sortI, Zero, slen(s)), inRange(sortJ, Zero, slen(s)), not(eqI(at(sortI), at(sortJ))))
	return r.eqUnder(d, ev.Less, ltI(at(sortI), at(sortJ)))
}
