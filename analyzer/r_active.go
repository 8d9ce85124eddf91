package main

// C23, C24: the set of active nodes a query selects.
//
// The list is built either in closed form, by taking the start of a sorted
// sequence, by collecting the positions of an array (or map) of marks, or by
// appending nodes that are not marked yet. In the last two cases the number of
// marked nodes is followed through the loops as a ghost quantity: the number of
// elements of the list is proved to be the number of marks.

import (
	"fmt"
	"go/token"
	"strings"
)

func init() {
	rules["C23"] = rule{"true labels are among the active output nodes", ruleC23, "proof"}
	rules["C24"] = rule{"the active set is made of distinct existing nodes", ruleC24, "proof"}
}

type insertion struct {
	ev  *Event
	pos *Term // position in the list
	x   *Term // node number
	l   *LoopInst
}

// marks is the memory that records which nodes were selected so far.
type marks struct {
	r    *Run
	key  string
	m    *Term // the array or map
	isM  bool
	n    *Term // marks concern the nodes 0..n-1
	p    func(v *Term) *Term
	skip map[*Event]bool // writes that only establish the unmarked state
	hyp  map[string]bool // loop variables assumed to count the marks
}

func (k *marks) at(x *Term) *Term {
	if k.isM {
		return mapEl(k.m, x)
	}
	return elem(k.m, x)
}

func (k *marks) read(h *Heap, x *Term) *Term { return k.p(readHeap(h, k.at(x))) }

// mine: the event may write a mark.
func (k *marks) mine(ev *Event) bool {
	switch ev.Kind {
	case "store", "mapupdate":
		return ev.Addr != nil && (ev.Key == k.key || ev.Key == "") && (root(ev.Addr) == root(k.m) || !freshMem(ev.Addr) && root(ev.Addr).Op != OpSym && root(ev.Addr).Op != OpSel)
	case "copy", "append", "sort", "shuffle", "pq":
		for _, a := range ev.Args {
			if a != nil && a.Op == OpSlice && root(sbase(a)) == root(k.m) {
				return true
			}
		}
	}
	return false
}

func inNest(ev *Event, l *LoopInst) bool {
	for _, n := range ev.Nest {
		if n.Base == l.Base {
			return true
		}
	}
	return false
}

// settled: after this loop no node is marked, whatever happened before.
func (k *marks) settled(l *LoopInst) bool {
	if l.N == nil || l.Init[k.key] == nil || len(l.Outer) > 0 {
		return false
	}
	return k.none(loopHeap(l.ID, k.key, l.N, nil))
}

func (k *marks) none(base *Term) bool {
	x := newIdx("unmarked")
	d := and(k.r.Pre, inRange(x, Zero, k.n))
	return simplify(k.p(readBase(base, k.at(x))), d) == False
}

// count is the number of marks in a heap, in terms of the number of marks in
// the heaps loops start with.
func (k *marks) count(h *Heap) *Term {
	c := k.countBase(h.base)
	var seen []entry
	for _, e := range h.ents {
		if e.a.Op != k.at(Zero).Op || samePtr(e.a.K[0], k.m) == False {
			continue
		}
		d := sub(ite(k.p(e.v), One, Zero), ite(k.p(readBase(h.base, e.a)), One, Zero))
		for _, s := range seen {
			d = ite(sameAddr(e.a, s.a), Zero, d)
		}
		seen = append(seen, e)
		c = add(c, d)
	}
	return c
}

func (k *marks) countBase(b *Term) *Term {
	return mapLeaves(b, func(b *Term) *Term {
		if b.Op == OpLoopH {
			if l, key := k.r.finalOf(b.S); l != nil {
				b = raw(OpLoopH, l.ID+"|"+key, nil, b.K...)
			}
		}
		if k.none(b) {
			return Zero
		}
		if b.Op == OpLoopH {
			if l := loops[b.S[:strings.Index(b.S, "|")]]; l != nil {
				touched := false
				for _, ev := range k.r.events {
					touched = touched || inNest(ev, l) && k.mine(ev)
				}
				if !touched && l.Init[k.key] != nil {
					return k.count(substHeap(l.Init[k.key], outerSub(l, b.K[1:])))
				}
				// the value of an inner loop, one iteration later
				if l.Back != nil && l.Back.heaps[k.key] != nil {
					hb := l.Back.heaps[k.key]
					own := false
					for _, lf := range leaves(hb.base) {
						own = own || lf.Op != OpLoopH || strings.HasPrefix(lf.S, l.ID+"|")
					}
					if !own {
						m := outerSub(l, b.K[1:])
						m2 := Sub{l.K: sub(b.K[0], One)}
						for a, v := range m {
							m2[a] = v
						}
						return ite(eqI(b.K[0], Zero), k.count(substHeap(l.Init[k.key], m)), k.count(substHeap(hb, m2)))
					}
				}
			}
		}
		return app("marks", b)
	})
}

func substHeap(h *Heap, m Sub) *Heap {
	if len(m) == 0 {
		return h
	}
	n := &Heap{base: subst(h.base, m)}
	for _, e := range h.ents {
		n.ents = append(n.ents, entry{subst(e.a, m), subst(e.v, m)})
	}
	return n
}

// finalOf: a variable or heap of a loop is the same in all the summaries of
// the loop that were tried.
func (r *Run) finalOf(s string) (*LoopInst, string) {
	i := strings.Index(s, "|")
	if i < 0 || loops[s[:i]] == nil {
		return nil, ""
	}
	return r.finals[loops[s[:i]].Base], s[i+1:]
}

// counted replaces the loop variables assumed to count marks by that count.
func (k *marks) counted(t *Term) *Term {
	m := Sub{}
	walk(t, func(u *Term) {
		if u.Op == OpVar {
			if l, name := k.r.finalOf(u.S); l != nil && k.hyp[l.ID+"|"+name] {
				m[u] = k.countBase(raw(OpLoopH, l.ID+"|"+k.key, nil, u.K...))
			}
		}
	})
	return subst(t, m)
}

// uncounted names numbers of marks by the variables that hold them.
func (k *marks) uncounted(t *Term) *Term {
	used := map[string]string{} // the summary later conditions refer to
	for _, l := range k.r.finals {
		for _, c := range []*Term{l.EntryPC, l.Early} {
			if c == nil {
				continue
			}
			walk(c, func(u *Term) {
				if u.Op == OpVar {
					if f, name := k.r.finalOf(u.S); f != nil && f != l {
						used[f.ID+"|"+name] = u.S
					}
				}
			})
		}
	}
	m := Sub{}
	walk(t, func(u *Term) {
		if u.Op != OpApp || u.S != "marks" || u.K[0].Op != OpLoopH {
			return
		}
		l := loops[u.K[0].S[:strings.Index(u.K[0].S, "|")]]
		if l == nil {
			return
		}
		for _, v := range l.Vars {
			if k.hyp[v.Var.S] {
				name := v.Var.S
				if o := used[name]; o != "" {
					name = o
				}
				m[u] = raw(OpVar, name, nil, u.K[0].K...)
			}
		}
	})
	return subst(t, m)
}

// same: the number is the number of marks in the heap.
func (k *marks) same(pc, n *Term, h *Heap) bool {
	return k.r.eqUnder(k.counted(pc), k.counted(n), k.counted(k.count(h)))
}

// followCounts finds the loop variables that always equal the number of marks.
func (k *marks) followCounts() {
	k.hyp = map[string]bool{}
	type cand struct {
		l *LoopInst
		v *LoopVar
	}
	var cs []cand
	for _, l := range k.r.finals {
		if l.Init[k.key] == nil || l.Back == nil || l.Back.heaps[k.key] == nil {
			continue
		}
		for _, v := range l.Vars {
			if v.Closed == nil && v.Init != nil && v.Next != nil && !isBoolish(v.Init) && v.Init.Op != OpNil && !strings.HasSuffix(v.Name, ".base") && !strings.HasSuffix(v.Name, ".cap") {
				cs = append(cs, cand{l, v})
				k.hyp[v.Var.S] = true
			}
		}
	}
	for again := true; again; {
		again = false
		for _, c := range cs {
			if !k.hyp[c.v.Var.S] {
				continue
			}
			if !k.same(c.l.EntryPC, c.v.Init, c.l.Init[k.key]) || !k.same(c.l.BackPC, c.v.Next, c.l.Back.heaps[k.key]) {
				delete(k.hyp, c.v.Var.S)
				again = true
			}
		}
	}
}

// active is what is known about the list a query leaves.
type active struct {
	r    *Run
	n    *Term
	n2   *Term // the length again, as the number of marks
	none bool  // the query leaves no list of its own
	fine bool  // distinct existing nodes proved
	ins  []*insertion
	base *Term  // the memory nodes are first put in
	k    *marks // what records the selection; marked nodes are listed
	sort *Event // the list is the beginning of a sequence sorted here
	// has proves that node x is listed whenever c holds
	has func(c, x *Term) bool
	// all proves that every node is listed whenever c holds
	all func(c *Term) bool
}

const (
	ruleDistinct = "no node is active twice"
	ruleExists   = "active nodes are nodes of the layer"
	ruleWhole    = "the list of active nodes has no unset or lost element"
)

// activeSet analyses how the list is built and proves that it holds distinct
// existing nodes; obligations are only recorded when quiet is false.
func (r *Run) activeSet(quiet bool) *active {
	ob := func(rule string, ok bool, pos token.Pos, f string, args ...interface{}) bool {
		if !quiet {
			r.C.ob(rule, r.Label, ok, pos, f, args...)
		}
		return ok
	}
	holds := func(rule string, pc, c *Term, pos token.Pos) bool {
		return ob(rule, r.proves(pc, c), pos, "cannot show %s under %s", show(simplify(c, and(r.Pre, pc)), 10), show(pc, 6))
	}
	eq := func(rule string, pc, a, b *Term, pos token.Pos) bool {
		return ob(rule, r.eqUnder(pc, a, b), pos, "computed %s, required %s", show(simplify(a, and(r.Pre, pc)), 8), show(simplify(b, and(r.Pre, pc)), 8))
	}
	pos0 := r.Fn.Pos()
	nodes := r.get0(r.A[0], tLayer, "nodes")
	N := slen(nodes)
	s, el := r.activeAfter()
	a := &active{r: r, n: slen(s), fine: true, has: func(c, x *Term) bool { return false }, all: func(c *Term) bool { return false }}
	// no list
	if apl, li := r.arg("activeNodesPerLayer"), r.arg("layerIndex"); r.untouched(elem(sbase(apl), add(soff(apl), add(li, One)))) {
		a.none = true
		return a
	}
	b := newIdx("b")
	dom := andN(r.know(), inRange(b, Zero, a.n))
	e := simplify(el(b, "Index"), and(r.Pre, dom))
	// every node, in order
	if r.eqUnder(dom, e, b) {
		holds(ruleExists, r.know(), leI(a.n, N), pos0)
		every := r.proves(r.know(), eqI(a.n, N))
		a.has = func(c, x *Term) bool { return every && r.proves(and(r.know(), c), inRange(x, Zero, N)) }
		a.all = func(c *Term) bool { return every }
		return a
	}
	if r.sortedList(a, e, b, dom, ob, holds, eq) {
		return a
	}
	// the memory the list lives in
	var base *Term
	for _, l := range leaves(s) {
		if unsat(andN(r.Pre, r.know(), leafCond(s, l))) {
			continue
		}
		if base != nil && sbase(l) != base {
			base = nil
			break
		}
		base = sbase(l)
	}
	n := a.n
	for hops := 0; base != nil && hops < 3; hops++ {
		var cp *Event
		k := 0
		for _, ev := range r.events {
			if ev.Kind == "copy" && sbase(ev.Args[0]) == base {
				cp = ev
				k++
			}
		}
		if cp == nil {
			break
		}
		src := cp.Args[1]
		if k > 1 || len(cp.Nest) > 0 {
			ob(ruleWhole, false, cp.Pos, "the list is copied together from several parts")
			a.fine = false
			return a
		}
		eq(ruleWhole, r.know(), slen(src), n, cp.Pos)
		holds(ruleWhole, r.know(), andN(eqI(soff(src), Zero), eqI(soff(cp.Args[0]), Zero), not(ltI(slen(cp.Args[0]), n)), cp.PC), cp.Pos)
		base, n = sbase(src), slen(src)
	}
	if base == nil {
		ob(ruleWhole, false, pos0, "the list of active nodes is not built in one place: %s", show(s, 8))
		a.fine = false
		return a
	}
	var ins []*insertion
	for _, ev := range r.events {
		if ev.Kind == "copy" && sbase(ev.Args[0]) == base {
			ob(ruleWhole, false, ev.Pos, "the list is overwritten")
			a.fine = false
		}
		if ev.Kind != "store" || ev.Addr.Op != OpFld || ev.Addr.K[0].Op != OpElem || ev.Addr.K[0].K[0] != base {
			continue
		}
		if k, _ := r.C.field("index_value.Pair", "Index"); ev.Addr.S != k {
			continue
		}
		i := &insertion{ev: ev, pos: ev.Addr.K[0].K[1], x: ev.Val}
		if len(ev.Nest) > 0 {
			i.l = ev.Nest[len(ev.Nest)-1]
		}
		ins = append(ins, i)
	}
	a.ins, a.base = ins, base
	if len(ins) == 0 {
		ob(ruleWhole, false, pos0, "no node is put in the list")
		a.fine = false
		return a
	}
	for _, i := range ins {
		if i.l == nil {
			ob(ruleDistinct, false, i.ev.Pos, "a node is put in the list outside any loop")
			a.fine = false
			return a
		}
	}
	for _, k := range r.markCandidates(ins[0], base, N) {
		if len(ins) == 1 && len(ins[0].ev.Nest) == 1 && r.collects(ins[0], k) {
			r.collected(a, ins[0], k, n, N, ob, holds, eq)
			return a
		}
	}
	for _, k := range r.markCandidates(ins[0], base, N) {
		if r.tests(ins, k) {
			r.markedList(a, ins, k, n, N, ob, holds, eq)
			return a
		}
	}
	ob(ruleDistinct, false, ins[0].ev.Pos, "nothing shows that a node is put in the list once: %s under %s", show(ins[0].x, 6), show(ins[0].ev.PC, 6))
	a.fine = false
	return a
}

type obF func(rule string, ok bool, pos token.Pos, f string, args ...interface{}) bool
type holdsF func(rule string, pc, c *Term, pos token.Pos) bool
type eqFn func(rule string, pc, a, b *Term, pos token.Pos) bool

// untouched: nothing is stored at the address.
func (r *Run) untouched(addr *Term) bool {
	for _, ev := range r.events {
		if ev.Kind == "store" && ev.Addr != nil && !unsat(andN(r.Pre, full(ev), sameAddr(ev.Addr, addr))) {
			return false
		}
	}
	return true
}

// markCandidates: what the decision to put a node in the list reads.
func (r *Run) markCandidates(i *insertion, base, n *Term) []*marks {
	var out []*marks
	seen := map[string]bool{}
	var atoms func(t *Term, f func(at *Term))
	done := map[*Term]bool{}
	atoms = func(t *Term, f func(at *Term)) {
		if t.Op != OpIte || done[t] {
			return
		}
		done[t] = true
		f(t.K[0])
		atoms(t.K[1], f)
		atoms(t.K[2], f)
	}
	atoms(asBool(i.ev.PC), func(at *Term) {
		walk(at, func(u *Term) {
			if u.Op != OpSel || u.K[1].Op != OpElem && u.K[1].Op != OpMapEl || !contains(u.K[1], i.x) && u.K[1].K[1] != i.x {
				return
			}
			m := u.K[1].K[0]
			if m.Op != OpAlloc || m == base || u.K[1].K[1] != i.x {
				return
			}
			for _, pos := range []bool{true, false} {
				pos, at, u := pos, at, u
				v := sym("any:mark")
				sig := fmt.Sprint(m.ID, subst(at, Sub{u: v}).ID, pos)
				if seen[sig] {
					continue
				}
				seen[sig] = true
				out = append(out, &marks{r: r, key: heapKeyOfTerm(u.K[0]), m: m, isM: u.K[1].Op == OpMapEl, n: n,
					p: func(v *Term) *Term {
						t := mapLeaves(v, func(v *Term) *Term {
							if isBoolish(v) || at == u {
								w := asBool(v)
								if w.Op == OpIte && at == u {
									return w
								}
								return asBool(subst(rawIte(at, True, False), Sub{u: w}))
							}
							return asBool(subst(rawIte(at, True, False), Sub{u: v}))
						})
						t = asBool(t)
						if !pos {
							t = not(t)
						}
						return t
					}})
			}
		})
	})
	return out
}

// collects: the node is put in the list exactly when it is marked.
func (r *Run) collects(i *insertion, k *marks) bool {
	for _, ev := range r.events {
		if k.mine(ev) && inNest(ev, i.l) {
			return false
		}
	}
	if i.l.N == nil || i.ev.St == nil || i.ev.St.heaps[k.key] == nil {
		return false
	}
	in := andN(r.know(), inRange(i.l.K, Zero, i.l.N))
	p := k.read(i.ev.St.heaps[k.key], i.x)
	return r.proves(and(in, i.ev.PC), p) && r.proves(and(in, p), i.ev.PC)
}

// tests: a node is put in the list only when it was not marked before the
// iteration, and is marked at its end.
func (r *Run) tests(ins []*insertion, k *marks) bool {
	for _, i := range ins {
		if i.l.Back == nil || i.l.Back.heaps[k.key] == nil {
			return false
		}
		start := &Heap{base: loopHeap(i.l.ID, k.key, i.l.K, i.l.Outer)}
		if !r.proves(full(i.ev), not(k.read(start, i.x))) {
			return false
		}
	}
	return true
}

// settle separates the writes that only establish "nothing marked" from the
// marks proper, and proves that marks stay.
func (k *marks) settle(ob obF, holds holdsF) bool {
	r := k.r
	k.skip = map[*Event]bool{}
	proper := false
	ok := true
	low := (*Term)(nil)
	for _, ev := range r.events {
		if !k.mine(ev) {
			continue
		}
		fill := false
		for _, l := range ev.Nest {
			if f := r.finals[l.Base]; f != nil && k.settled(f) {
				fill = true
			}
		}
		if fill {
			if !ob("nodes stay selected", !proper, ev.Pos, "the marks are cleared") {
				return false
			}
			k.skip[ev] = true
			continue
		}
		if ev.Kind != "store" && ev.Kind != "mapupdate" || ev.Addr.K[0] != k.m {
			return ob("nodes stay selected", false, ev.Pos, "the marks are changed by a %s", ev.Kind)
		}
		if !proper {
			proper = true
			// unmarked nodes hold this value
			x := newIdx("unmarked")
			l := ev.Nest
			if len(l) > 0 && l[0].Init[k.key] != nil {
				if v := simplify(readHeap(l[0].Init[k.key], k.at(x)), and(r.Pre, inRange(x, Zero, k.n))); isNum(v) {
					low = v
				}
			}
		}
	}
	if low != nil && !isNum(low) {
		low = nil
	}
	if low != nil {
		// marks are never below the value of an unmarked node: assumed for what a
		// loop starts with, proved for what is stored
		key, m := k.key, k.m
		hook := func(t *Term) []*Term {
			if t.Op == OpSel && t.K[0].Op == OpLoopH && heapKeyOfTerm(t.K[0]) == key && t.K[1].Op != OpFld && t.K[1].K[0] == m {
				return []*Term{not(ltI(t, low))}
			}
			return nil
		}
		factHooks = append(factHooks, hook)
		for _, ev := range r.events {
			if k.mine(ev) && !k.skip[ev] {
				if isBoolish(ev.Val) || !r.proves(full(ev), not(ltI(ev.Val, low))) {
					factHooks = factHooks[:len(factHooks)-1]
					break
				}
			}
		}
	}
	for _, ev := range r.events {
		if k.mine(ev) && !k.skip[ev] {
			x := ev.Addr.K[1]
			ok = holds(ruleExists, full(ev), inRange(x, Zero, k.n), ev.Pos) && ok
			ok = holds("nodes stay selected", and(full(ev), k.read(ev.St.heaps[k.key], x)), k.p(ev.Val), ev.Pos) && ok
		}
	}
	return ok
}

// stays: x is marked at the end of an iteration of a loop over all the wanted
// nodes that is entered whenever c holds.
func (k *marks) visits(c *Term, n *Term, x func(K *Term) *Term, notEarly *Term) bool {
	r := k.r
	for _, l := range r.finals {
		if len(l.Outer) > 0 || l.N == nil || l.Back == nil || l.Back.heaps[k.key] == nil || k.settled(l) {
			continue
		}
		if !r.proves(c, l.EntryPC) || !r.eqUnder(c, l.N, n) {
			continue
		}
		if l.Early != nil && l.Early != False {
			if !unsat(andN(r.Pre, c, notEarly, existsOver(l.N, l.K, l.Early))) {
				continue
			}
		}
		if r.proves(andN(l.BackPC, inRange(l.K, Zero, l.N)), k.read(l.Back.heaps[k.key], x(l.K))) {
			return true
		}
	}
	return false
}

// collected: the list holds the marked nodes in order.
func (r *Run) collected(a *active, i *insertion, k *marks, n, N *Term, ob obF, holds holdsF, eq eqFn) {
	l := i.l
	pos := i.ev.Pos
	in := andN(r.know(), inRange(l.K, Zero, l.N))
	j := newIdx("j")
	if k.isM {
		ob(ruleDistinct, i.x.Op == OpApp && i.x.S == "mapkey" && i.x.K[0] == k.m && i.x.K[len(i.x.K)-1] == l.K, pos, "the list is filled with %s", show(i.x, 6))
		eq(ruleWhole, r.know(), l.N, app("len", k.m), pos)
		for _, ev := range r.events {
			if k.mine(ev) && (ev.Kind == "store" || ev.Kind == "mapupdate") && ev.Addr.Op == OpMapEl {
				holds(ruleExists, full(ev), inRange(ev.Addr.K[1], Zero, N), ev.Pos)
			}
		}
	} else {
		c, _, lin := linear(i.x, l.K)
		ob(ruleDistinct, lin && (c.Cmp(oneRat) == 0 || c.Cmp(negOneRat) == 0), pos, "the list is filled with %s", show(i.x, 6))
		holds(ruleExists, and(in, i.ev.PC), inRange(i.x, Zero, N), pos)
	}
	ob(ruleWhole, l.Early == nil || l.Early == False, pos, "the collection of the active nodes stops early")
	sel := simplify(subst(asBool(i.ev.PC), Sub{l.K: j}), andN(r.Pre, r.know(), inRange(j, Zero, l.N)))
	upto := func(m *Term) *Term { return sumOver(m, j, ite(sel, One, Zero)) }
	eq(ruleWhole, and(in, i.ev.PC), i.pos, upto(l.K), pos)
	monotone := k.settle(ob, holds)
	whole := r.eqUnder(r.know(), n, upto(l.N))
	covers := k.isM || r.eqUnder(r.know(), l.N, N)
	if !whole && covers && !k.isM {
		k.followCounts()
		whole = k.same(r.know(), n, i.ev.St.heaps[k.key])
	}
	if whole && covers && !k.isM {
		// n is the number of marks
		k.followCounts()
		a.n2 = k.uncounted(k.count(i.ev.St.heaps[k.key]))
	}
	ob(ruleWhole, whole, pos, "the list has length %s, which is not shown to be the number of selected nodes", show(n, 10))
	ob(ruleWhole, r.proves(r.know(), l.EntryPC), pos, "the active nodes are collected only when %s", show(l.EntryPC, 8))
	if monotone && covers && whole {
		a.k = k
	}
	a.has = func(c, x *Term) bool {
		return monotone && covers && r.marksAll(k, c, x)
	}
	a.all = func(c *Term) bool {
		rn := r.get0(r.A[0], tLayer, "randNode")
		_, rt := r.C.field(tLayer, "randNode")
		return monotone && covers && k.visits(and(r.know(), c), slen(rn), func(K *Term) *Term { return r.at(r.St0, rn, K, elemType(rt)) }, c)
	}
}

// marksAll: x is label j, for the counter j it depends on.
func (r *Run) marksAll(k *marks, c, x *Term) bool {
	lab := r.arg("label")
	return k.visits(andN(r.know(), c, ltI(Zero, slen(lab))), slen(lab), func(K *Term) *Term { return r.label(K) }, True)
}

func (r *Run) label(i *Term) *Term {
	_, lt := r.C.field("dataset.Example", "Labels")
	return r.at(r.St0, r.arg("label"), i, elemType(lt))
}

// markedList: nodes are appended when they are not marked yet, and marked.
func (r *Run) markedList(a *active, ins []*insertion, k *marks, n, N *Term, ob obF, holds holdsF, eq eqFn) {
	monotone := k.settle(ob, holds)
	k.followCounts()
	marked := monotone
	for _, i := range ins {
		l := i.l
		pc := full(i.ev)
		start := &Heap{base: loopHeap(l.ID, k.key, l.K, l.Outer)}
		holds(ruleExists, pc, inRange(i.x, Zero, N), i.ev.Pos)
		holds(ruleDistinct, pc, not(k.read(start, i.x)), i.ev.Pos)
		holds(ruleDistinct, and(pc, l.BackPC), k.read(l.Back.heaps[k.key], i.x), i.ev.Pos)
		if l.Early != nil && l.N != nil {
			holds(ruleDistinct, pc, not(l.Early), i.ev.Pos)
		} else if l.N == nil {
			holds(ruleDistinct, pc, l.BackPC, i.ev.Pos)
		}
		for _, o := range ins {
			if o != i && o.l.Base == l.Base {
				holds(ruleDistinct, and(pc, full(o.ev)), False, i.ev.Pos)
			}
		}
		ob(ruleWhole, k.same(pc, i.pos, start), i.ev.Pos, "a node is put at position %s, which is not shown to be the number of nodes selected before", show(i.pos, 8))
	}
	for _, ev := range r.events {
		if !k.mine(ev) || k.skip[ev] {
			continue
		}
		c := False
		for _, i := range ins {
			if len(ev.Nest) > 0 && i.l.Base == ev.Nest[len(ev.Nest)-1].Base {
				c = or(c, and(i.ev.PC, eqI(i.x, ev.Addr.K[1])))
			}
		}
		if len(ev.Nest) == 0 {
			marked = ob("selected nodes are listed", false, ev.Pos, "a node is marked outside the loops that list nodes") && marked
			continue
		}
		l := ev.Nest[len(ev.Nest)-1]
		start := &Heap{base: loopHeap(l.ID, k.key, l.K, l.Outer)}
		marked = holds("selected nodes are listed", andN(full(ev), k.p(ev.Val), not(k.read(start, ev.Addr.K[1]))), c, ev.Pos) && marked
	}
	ob(ruleWhole, k.same(r.know(), n, r.St.heaps[k.key]), ins[0].ev.Pos, "the list has length %s, which is not shown to be the number of selected nodes", show(n, 8))
	if marked {
		a.k = k
	}
	a.has = func(c, x *Term) bool { return marked && r.marksAll(k, c, x) }
}

// sortedList: the list is the beginning of a sorted sequence of all nodes.
func (r *Run) sortedList(a *active, e, b, dom *Term, ob obF, holds holdsF, eq eqFn) bool {
	if e.Op != OpSym || !strings.HasPrefix(e.S, "fresh:sorted") || len(e.K) == 0 || e.K[0] != b {
		return false
	}
	var ev *Event
	for _, x := range r.events {
		if x.Kind == "sort" && strings.HasSuffix(e.S, x.Sym) && len(x.Nest) == 0 {
			ev = x
		}
	}
	if ev == nil {
		return false
	}
	N := slen(r.get0(r.A[0], tLayer, "nodes"))
	s := ev.Args[0]
	fieldAt := func(i *Term, f string) *Term {
		k, t := r.C.field("index_value.Pair", f)
		return r.load(ev.St, fld(elem(sbase(s), add(soff(s), i)), k), t)
	}
	i := newIdx("i")
	d := andN(r.know(), inRange(i, Zero, slen(s)))
	holds(ruleWhole, r.know(), leI(a.n, slen(s)), ev.Pos)
	holds(ruleExists, r.know(), eqI(slen(s), N), ev.Pos)
	eq(ruleDistinct, d, fieldAt(i, "Index"), i, ev.Pos)
	eq(ruleDistinct, r.know(), soff(s), Zero, ev.Pos)
	less := r.lessByValue(ev)
	if less {
		a.sort = ev
	}
	a.has = func(c, x *Term) bool {
		if !less {
			return false
		}
		// labels come before all other nodes, and the list is long enough for them
		lab := r.arg("label")
		isLabel := func(i *Term) *Term {
			return existsIdx(slen(lab), func(j *Term) *Term { return eqI(r.label(j), i) })
		}
		g := newIdx("g")
		d := andN(r.know(), c, inRange(i, Zero, N), inRange(g, Zero, N), isLabel(i), not(isLabel(g)))
		vi, vg := simplify(fieldAt(i, "Value"), and(r.Pre, d)), simplify(fieldAt(g, "Value"), and(r.Pre, d))
		if !(isInf(vi) < 0 && isInf(vg) == 0) && !(isInf(vg) > 0 && isInf(vi) == 0) {
			return false
		}
		return r.proves(and(r.know(), c), not(ltI(a.n, sumOver(N, i, ite(isLabel(i), One, Zero)))))
	}
	return true
}

// isInf: the value is minus or plus infinity, or may involve infinities (2).
func isInf(t *Term) int {
	if t.Op == OpApp && t.S == "math.Inf" && isNum(t.K[0]) {
		if t.K[0] == num(-1) {
			return -1
		}
		return 1
	}
	if containsP(t, func(u *Term) bool { return u.Op == OpApp && u.S == "math.Inf" }) {
		return 2
	}
	return 0
}

// lessByValue: the comparison used puts smaller values first.
func (r *Run) lessByValue(ev *Event) bool {
	if ev.Less == nil {
		return false
	}
	s := ev.Args[0]
	k, t := r.C.field("index_value.Pair", "Value")
	val := func(i *Term) *Term { return r.load(ev.St, fld(elem(sbase(s), add(soff(s), i)), k), t) }
	a, b := val(sortI), val(sortJ)
	d := andN(r.know(), inRange(sortI, Zero, slen(s)), inRange(sortJ, Zero, slen(s)), not(eqI(sortI, sortJ)))
	if r.eqUnder(andN(d, not(eqF(a, b))), ev.Less, ltF(a, b)) {
		return true
	}
	return r.proves(and(d, ltF(a, b)), ev.Less) && r.proves(and(d, ltF(b, a)), not(ev.Less))
}

// randomNodes proves that the random order of a layer holds every node once.
func (c *Ctx) randomNodes() {
	const rule = "the random order of a layer's nodes holds every node once"
	f := families[0]
	c.run("layer.New", func(r *Run) {
		r.config("HashFunction", c.constOf(f.constant))
		n := r.arg("numOfNodes")
		nonNeg[n] = true
		r.assume(ltI(Zero, n))
		r.familyOpaque()
		r.opq(tNode+".Update", tNode+".Weights", tNode+".Bias", "node.NewNodeTrain", "node.NewEmptyNode", "lsh.New", tLSH+".HashesToIndex", tLSH+".Add")
	}, func(r *Run) {
		n := r.arg("numOfNodes")
		_, rt := c.field(tLayer, "randNode")
		rn := r.getIn(r.St, r.Res, tLayer, "randNode")
		r.eq(rule, r.Label, r.know(), slen(rn), n)
		j := newIdx("j")
		dom := and(r.know(), inRange(j, Zero, n))
		for _, v := range leaves(simplify(r.at(r.St, rn, j, elemType(rt)), and(r.Pre, dom))) {
			ok := v == j
			for _, ev := range r.events {
				if ev.Kind == "shuffle" && shuffled(v) && strings.HasSuffix(v.S, ev.Sym) && v.K[0] == j && len(ev.Nest) == 0 {
					ok = ev.Args[1] == sbase(rn) && soff(rn) == Zero && r.eqUnder(r.know(), ev.Args[0], n) && r.permutation(ev, n)
				}
			}
			c.ob(rule, r.Label, ok, r.Fn.Pos(), "its element j is %s", show(v, 8))
		}
	})
	c.constFields(rule, tLayer, []string{"randNode"}, "layer.New")
	upd := tLayer + ".UpdateRandomNodes"
	c.run(upd, nil, func(r *Run) {
		rn := r.get0(r.A[0], tLayer, "randNode")
		r.onlyWrites(rule, func(w wr, a *Term) bool { return w.kind == "shuffle" && w.ev.Args[1] == sbase(rn) })
	})
	c.constElems(rule, tLayer, "randNode", 1, "layer.New", upd)
}

func ruleC23(c *Ctx) {
	c.trainingLabels()
	c.eachMode(true, nil, func(r *Run, mode int64, soft bool) {
		a := r.activeSet(true)
		j := newIdx("label")
		dom := inRange(j, Zero, slen(r.arg("label")))
		r.C.ob("every label is selected", r.Label, a.has(dom, r.label(j)), r.Fn.Pos(), "a label of the example can be missing from the active nodes")
	})
}

func ruleC24(c *Ctx) {
	c.randomNodes()
	for _, soft := range []bool{true, false} {
		c.eachMode(soft, nil, func(r *Run, mode int64, soft bool) {
			a := r.activeSet(false)
			if mode == 0 {
				r.C.ob("with sparsity 1 every node is active", r.Label, a.all(True), r.Fn.Pos(), "a node can be missing")
			}
			if mode == 4 {
				r.C.ob("the list is filled up to 1000 nodes or all nodes", r.Label, a.all(ltI(a.n, num(1000))) || a.n2 != nil && a.all(ltI(a.n2, num(1000))), r.Fn.Pos(), "fewer than 1000 nodes can be selected although the layer has more")
			}
		})
	}
}

// eachMode runs the query in every selection mode (0: sparsity 1).
func (c *Ctx) eachMode(soft bool, more func(r *Run), f func(r *Run, mode int64, soft bool)) {
	for mode := int64(0); mode <= 4; mode++ {
		for hf := int64(1); hf <= 4; hf++ {
			if hf > 1 && (mode == 2 || mode == 3 || mode == 0) {
				continue
			}
			mode, hf := mode, hf
			c.run(query, func(r *Run) {
				r.Label = fmt.Sprintf("%s in mode %d with hash function %d, softmax=%v", r.Name, mode, hf, soft)
				r.querySetup(mode, hf)
				nt := r.getIn(r.newSt0(), r.A[0], tLayer, "nodeType")
				if soft {
					r.assume(eqI(nt, c.constOf("node.Softmax")))
				} else {
					r.assume(not(eqI(nt, c.constOf("node.Softmax"))))
				}
				r.nodeNumbers()
				if more != nil {
					more(r)
				}
			}, func(r *Run) { f(r, mode, soft) })
		}
	}
}

// nodeNumbers: labels, the contents of the hash tables and the random order of
// the nodes are node numbers (C01, C08, C24 for layer.New).
func (r *Run) nodeNumbers() {
	st := r.newSt0()
	N := slen(r.getIn(st, r.A[0], tLayer, "nodes"))
	rn := r.getIn(st, r.A[0], tLayer, "randNode")
	lab := r.arg("label")
	r.assume(eqI(slen(rn), N), leI(Zero, r.arg("sparsity")), leI(r.arg("sparsity"), One), not(ltI(r.getIn(st, r.A[0], tLayer, "l"), Zero)))
	// a fraction of the nodes is no more than all of them
	part := mul(r.arg("sparsity"), toFloat(N))
	factHooks = append(factHooks, func(t *Term) []*Term {
		if t.Op != OpApp || t.S != "trunc" {
			return nil
		}
		x := t.K[0]
		if x.Op == OpApp && (x.S == "math.Floor" || x.S == "math.Ceil" || x.S == "math.Round") {
			x = x.K[0]
		}
		if x != part {
			return nil
		}
		return []*Term{not(ltI0(t)), leI(t, N)}
	})
	factHooks = append(factHooks, func(t *Term) []*Term {
		if t.Op != OpSel || t.K[0].Op != OpHeap || t.K[1].Op != OpElem {
			return nil
		}
		b := t.K[1].K[0]
		own := b == sbase(lab) || b == sbase(rn)
		if !own {
			rt := b
			for rt.Op == OpApp && rt.S == "sbase" || rt.Op == OpSel {
				if rt.Op == OpApp {
					rt = rt.K[0]
				} else {
					rt = root(rt.K[1])
				}
			}
			own = rt.Op == OpSym && strings.HasPrefix(rt.S, "fresh:lsh.LSH.RetrieveRaw")
		}
		if !own {
			return nil
		}
		return []*Term{not(ltI0(t)), ltI(t, N)}
	})
}
