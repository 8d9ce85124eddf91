package main

// Field-split heaps. Every heap is a base (the initial heap, or a heap that
// summarises a loop) plus a consistent set of address/content entries.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type entry struct{ a, v *Term }

type Heap struct {
	base *Term
	ents []entry
}

type State struct {
	pc    *Term
	ok    *Term // facts that hold because execution survived (no panic so far)
	heaps map[string]*Heap
	over  map[ssa.Value]*Term // loop results seen from outside the loop
}

// know is what is known to hold in the state.
func (s *State) know() *Term {
	if s.ok == nil {
		return s.pc
	}
	return and(s.pc, s.ok)
}

// assume records a fact without which execution would have panicked. The
// state becomes dead when the fact contradicts what is known.
func (s *State) assume(c *Term) {
	c = asBool(c)
	if c == True {
		return
	}
	k := s.know()
	if implies(k, c) {
		return
	}
	if c == False || unsat(and(k, c)) {
		s.pc = False
		return
	}
	if s.ok == nil {
		s.ok = c
	} else {
		s.ok = and(s.ok, c)
	}
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, ok: s.ok, heaps: make(map[string]*Heap, len(s.heaps)), over: s.over}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	return n
}

// Family: in iteration counters=..., the loop writes V to A when G holds.
type Family struct {
	Counters []*Term
	Bounds   []*Term // counter i ranges over [0,Bounds[i]); nil for the loop's own counter
	A, V, G  *Term
}

type LoopVar struct {
	Name       string
	Var        *Term // value at the start of iteration K
	Init, Next *Term
	Closed     *Term // closed form in K, nil if not found
	Val        ssa.Value
	Addr       *Term // for memory cells
	Key        string
}

type LoopInst struct {
	Round   int
	ID      string // version-unique
	Base    string // stable name
	Fn      *ssa.Function
	Header  *ssa.BasicBlock
	K       *Term
	Outer   []*Term
	N       *Term // trip count (nil when not countable)
	Early   *Term // some early exit is taken in iteration K
	EntryPC *Term
	BodyPC  *Term  // pc at the first block of the body, iteration K
	BackPC  *Term  // what is known when iteration K is completed
	Back    *State // the state at that point
	Init    map[string]*Heap
	Fams    map[string][]*Family
	Cells   map[string][]*LoopVar
	Known   map[string]bool
	Vars    []*LoopVar
	ExitK   *Term
	Pos     token.Pos
	Kind    string // "loop", "copy", "sort", "shuffle"
}

var (
	loops        map[string]*LoopInst
	zeroOf       map[string]*Term
	initHook     func(key string, addr *Term) *Term
	resolveDepth int
)

func resetHeaps() {
	loops = map[string]*LoopInst{}
	intVars, nonDecr, growing, natural = map[string]*LoopVar{}, map[string]bool{}, map[string]bool{}, map[string]int{}
	zeroOf = map[string]*Term{}
	initHook = nil
	resolveDepth = 0
	rawRead = map[string]int{}
	readMemo = map[[2]int]*Term{}
}

func initHeap(key string) *Term { return raw(OpHeap, key, nil) }

func heapKeyOfTerm(h *Term) string {
	switch h.Op {
	case OpHeap:
		return h.S
	case OpLoopH, OpHavoc:
		return h.S[strings.Index(h.S, "|")+1:]
	}
	return ""
}

// root finds the object an address is part of.
func root(a *Term) *Term {
	for {
		switch a.Op {
		case OpFld, OpElem, OpMapEl:
			a = a.K[0]
		default:
			return a
		}
	}
}

type allocInfo struct {
	loops []string // stable names of the loops whose counters are the kids
	typ   types.Type
	pos   token.Pos
	fn    *ssa.Function
}

// fromInit: the pointer value existed before the analysed call started.
func fromInit(p *Term) bool {
	switch p.Op {
	case OpSym:
		return !strings.HasPrefix(p.S, "fresh:")
	case OpSel:
		return p.K[0].Op == OpHeap
	case OpApp:
		if p.S == "sbase" {
			return fromInit(p.K[0])
		}
	case OpGlob:
		return true
	}
	return false
}

// sameAddr decides address equality under the separation assumptions: distinct
// allocations are distinct, the initial heap is tree shaped, parameters do not
// alias, and addresses of fields or elements are not held as plain pointers.
func sameAddr(a, b *Term) *Term {
	if a == b {
		return True
	}
	switch a.Op {
	case OpFld:
		if b.Op == OpFld {
			if a.S != b.S {
				return False
			}
			return sameAddr(a.K[0], b.K[0])
		}
		return False
	case OpElem, OpMapEl:
		if b.Op != a.Op {
			return False
		}
		c := sameAddr(a.K[0], b.K[0])
		if c == False {
			return False
		}
		if a.Op == OpMapEl {
			return and(c, eqG(a.K[1], b.K[1]))
		}
		return and(c, eqI(a.K[1], b.K[1]))
	}
	switch b.Op {
	case OpFld, OpElem, OpMapEl:
		return False
	}
	return samePtr(a, b)
}

func samePtr(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Op == OpNil || b.Op == OpNil {
		if a.Op == OpNil {
			a, b = b, a
		}
		switch a.Op {
		case OpAlloc, OpGlob, OpFld, OpElem, OpSlice:
			return False
		}
		if a.Op == OpApp && a.S == "sbase" {
			return samePtr(a.K[0], Nil)
		}
		if r := nonNilHook(a); r {
			return False
		}
		return rawEq(a, b)
	}
	if a.Op == OpAlloc && b.Op == OpAlloc {
		if a.S != b.S {
			return False
		}
		c := True
		for i := range a.K {
			if i < len(b.K) {
				c = and(c, eqI(a.K[i], b.K[i]))
			}
		}
		return c
	}
	if a.Op == OpAlloc && fromInit(b) || b.Op == OpAlloc && fromInit(a) {
		return False
	}
	if a.Op == OpGlob || b.Op == OpGlob {
		return False
	}
	if a.Op == OpApp && a.S == "sbase" && b.Op == OpApp && b.S == "sbase" {
		return samePtr(a.K[0], b.K[0])
	}
	if a.Op == OpSel && b.Op == OpSel && a.K[0].Op == OpHeap && b.K[0].Op == OpHeap {
		if a.K[0] != b.K[0] {
			return False
		}
		return sameAddr(a.K[1], b.K[1])
	}
	if a.Op == OpSym && b.Op == OpSym && a.S != b.S {
		return False
	}
	if a.Op == OpSym && b.Op == OpSel && b.K[0].Op == OpHeap || b.Op == OpSym && a.Op == OpSel && a.K[0].Op == OpHeap {
		return False
	}
	return rawEq(a, b)
}

var nonNilHook = func(t *Term) bool { return false }

func rawEq(p, q *Term) *Term {
	if p.ID > q.ID {
		p, q = q, p
	}
	return asBool(raw(OpEq, "", nil, p, q))
}

// ---- reading

func selTerm(h, addr *Term) *Term {
	return lift("sel", func(l []*Term) *Term { return readBase(l[0], l[1]) }, h, addr)
}

func readBase(h, addr *Term) *Term {
	if h.Op == OpIte {
		return ite(rawIte(h.K[0], True, False), readBase(h.K[1], addr), readBase(h.K[2], addr))
	}
	key := heapKeyOfTerm(h)
	switch h.Op {
	case OpHeap:
		r := root(addr)
		if r.Op == OpAlloc {
			if z, ok := zeroOf[key]; ok {
				return z
			}
		}
		if initHook != nil {
			if v := initHook(key, addr); v != nil {
				return v
			}
		}
		return raw(OpSel, "", nil, h, addr)
	case OpLoopH:
		if v := readLoop(h, key, addr); v != nil {
			return v
		}
		return raw(OpSel, "", nil, h, addr)
	}
	return raw(OpSel, "", nil, h, addr)
}

func readHeap(h *Heap, addr *Term) *Term {
	if addr.Op == OpIte {
		return ite(rawIte(addr.K[0], True, False), readHeap(h, addr.K[1]), readHeap(h, addr.K[2]))
	}
	var res *Term
	for _, e := range h.ents {
		if e.a == addr {
			return e.v
		}
	}
	res = readBase(h.base, addr)
	for _, e := range h.ents {
		c := sameAddr(addr, e.a)
		if c == True {
			return e.v
		}
		if c != False {
			res = ite(c, e.v, res)
		}
	}
	return res
}

func writeHeap(h *Heap, addr, v *Term) *Heap {
	if addr.Op == OpIte {
		c := rawIte(addr.K[0], True, False)
		for _, leafAddr := range leaves(addr) {
			cond := leafCond(addr, leafAddr)
			h = writeHeap(h, leafAddr, ite(cond, v, readHeap(h, leafAddr)))
		}
		_ = c
		return h
	}
	n := &Heap{base: h.base, ents: make([]entry, 0, len(h.ents)+1)}
	found := false
	for _, e := range h.ents {
		c := sameAddr(addr, e.a)
		switch c {
		case True:
			n.ents = append(n.ents, entry{e.a, v})
			found = true
		case False:
			n.ents = append(n.ents, e)
		default:
			n.ents = append(n.ents, entry{e.a, ite(c, v, e.v)})
		}
	}
	if !found {
		n.ents = append(n.ents, entry{addr, v})
	}
	return n
}

func leaves(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(u *Term) {
		if seen[u] {
			return
		}
		seen[u] = true
		if u.Op == OpIte {
			rec(u.K[1])
			rec(u.K[2])
			return
		}
		out = append(out, u)
	}
	rec(t)
	return out
}

// leafCond is the condition under which diagram t has the given leaf.
func leafCond(t, leaf *Term) *Term {
	return mapLeaves(t, func(l *Term) *Term { return boolT(l == leaf) })
}

func mapLeaves(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(u *Term) *Term {
		if r, ok := memo[u]; ok {
			return r
		}
		var r *Term
		if u.Op == OpIte {
			r = ite(rawIte(u.K[0], True, False), rec(u.K[1]), rec(u.K[2]))
		} else {
			r = f(u)
		}
		memo[u] = r
		return r
	}
	return rec(t)
}

// restrictDC simplifies f using care as a care set (Coudert-Madre restrict).
func restrictDC(f, care *Term) *Term {
	if care == False || care == True || f.Op != OpIte {
		return f
	}
	memo := map[[2]int]*Term{}
	var rec func(f, c *Term) *Term
	rec = func(f, c *Term) *Term {
		if c == True || f.Op != OpIte {
			return f
		}
		k := [2]int{f.ID, c.ID}
		if r, ok := memo[k]; ok {
			return r
		}
		var r *Term
		at := topAtom(f, c)
		ch, cl := cof(c, at, true), cof(c, at, false)
		fh, fl := cof(f, at, true), cof(f, at, false)
		switch {
		case cl == False:
			r = rec(fh, ch)
		case ch == False:
			r = rec(fl, cl)
		case fh == fl:
			r = rec(f, or(ch, cl))
		default:
			r = ite(rawIte(at, True, False), rec(fh, ch), rec(fl, cl))
		}
		memo[k] = r
		return r
	}
	return rec(f, care)
}

// ---- loop summaries

func loopHeap(id, key string, t *Term, outer []*Term) *Term {
	return raw(OpLoopH, id+"|"+key, nil, append([]*Term{t}, outer...)...)
}

func outerSub(l *LoopInst, ks []*Term) Sub {
	m := Sub{}
	for i, o := range l.Outer {
		if i < len(ks) && ks[i] != o {
			m[o] = ks[i]
		}
	}
	return m
}

var (
	readMemo   = map[[2]int]*Term{}
	readCutoff int
	rawRead    = map[string]int{}
)

// loopsChanged drops memoised reads when a loop summary was refined.
func loopsChanged() { readMemo = map[[2]int]*Term{} }

func readLoop(h *Term, key string, x *Term) *Term {
	if rawRead[h.S] > 0 {
		readCutoff++
		return nil
	}
	k := [2]int{h.ID, x.ID}
	if v, ok := readMemo[k]; ok {
		return v
	}
	c := readCutoff
	v := readLoop1(h, key, x)
	if c == readCutoff {
		readMemo[k] = v
	}
	return v
}

func readLoop1(h *Term, key string, x *Term) *Term {
	id := h.S[:strings.Index(h.S, "|")]
	l := loops[id]
	if l == nil {
		return nil
	}
	t := h.K[0]
	os := outerSub(l, h.K[1:])
	rt := root(x)
	// objects born in a later (or this) iteration are still zero
	if rt.Op == OpAlloc {
		if info, ok := rt.X.(*allocInfo); ok {
			for i, ln := range info.loops {
				if ln == l.Base && i < len(rt.K) {
					if rt.K[i] == t {
						if z, ok := zeroOf[key]; ok {
							return z
						}
					}
				}
			}
		}
	}
	if !l.Known[key] {
		return nil
	}
	if resolveDepth > 10 {
		readCutoff++
		return nil
	}
	resolveDepth++
	defer func() { resolveDepth-- }()
	sb := func(t *Term) *Term {
		if len(os) == 0 {
			return t
		}
		return subst(t, os)
	}
	// cells the address may or may not be equal to
	type cellAlt struct{ cond, v *Term }
	var cells []cellAlt
	wrapCells := func(r *Term) *Term {
		for i := len(cells) - 1; i >= 0; i-- {
			r = ite(cells[i].cond, cells[i].v, r)
		}
		return r
	}
	for _, c := range l.Cells[key] {
		ca := sb(c.Addr)
		cnd := sameAddr(x, ca)
		if cnd == False {
			continue
		}
		m := Sub{l.K: t}
		for k, v := range os {
			m[k] = v
		}
		cur := c.Var
		if c.Closed != nil {
			cur = c.Closed
		}
		v := subst(cur, m)
		if cnd == True {
			return wrapCells(v)
		}
		cells = append(cells, cellAlt{cnd, v})
	}
	type match struct {
		k, cond, v *Term
	}
	var ms []match
	for _, f := range l.Fams[key] {
		// a family's own counters are distinguished from equal counters in x
		fa := f.A
		ren := Sub{}
		var unk []*Term
		for _, c := range f.Counters {
			u := raw(OpSym, "?"+c.S, nil)
			ren[c] = u
			unk = append(unk, u)
		}
		for k, v := range os {
			ren[k] = v
		}
		// while matching, addresses that themselves depend on this heap stay as they are
		rawRead[h.S]++
		fa = subst(fa, ren)
		rawRead[h.S]--
		sol := Sub{}
		st, cond := unify(fa, x, unk, sol)
		if st == uNone {
			continue
		}
		if st == uUnknown || len(sol) != len(unk) {
			return nil
		}
		// bounds and guard
		back := Sub{}
		for i, c := range f.Counters {
			back[c] = sol[unk[i]]
		}
		for k, v := range os {
			back[k] = v
		}
		g := cond
		for i, c := range f.Counters {
			s := sol[unk[i]]
			bd := t
			if f.Bounds[i] != nil {
				bd = subst(f.Bounds[i], back)
			}
			g = and(g, not(ltI0(s)))
			g = and(g, ltI(s, bd))
			_ = c
		}
		if g == False {
			continue
		}
		if f.G != True {
			g = and(g, subst(f.G, back))
		}
		if g == False {
			continue
		}
		ms = append(ms, match{sol[unk[0]], g, subst(f.V, back)})
	}
	res := readHeapSub(l.Init[key], key, x, os)
	for i, m := range ms {
		if i > 0 && m.k != ms[0].k {
			return nil
		}
		res = ite(m.cond, m.v, res)
	}
	return wrapCells(res)
}

func readHeapSub(h *Heap, key string, x *Term, os Sub) *Term {
	if h == nil {
		return readBase(initHeap(key), x)
	}
	if len(os) > 0 {
		n := &Heap{base: subst(h.base, os)}
		for _, e := range h.ents {
			n.ents = append(n.ents, entry{subst(e.a, os), subst(e.v, os)})
		}
		h = n
	}
	return readHeap(h, x)
}

const (
	uNone = iota
	uExact
	uUnknown
)

func hasAny(t *Term, us []*Term) bool {
	return containsP(t, func(u *Term) bool {
		for _, x := range us {
			if u == x {
				return true
			}
		}
		return false
	})
}

// unify solves pattern p == x for the unknown counters in p.
func unify(p, x *Term, unk []*Term, sol Sub) (int, *Term) {
	if len(sol) > 0 {
		p = subst(p, sol)
	}
	if !hasAny(p, unk) {
		c := sameAddr(p, x)
		if c == False {
			return uNone, nil
		}
		return uExact, c
	}
	switch p.Op {
	case OpFld:
		if x.Op != OpFld || x.S != p.S {
			return uNone, nil
		}
		return unify(p.K[0], x.K[0], unk, sol)
	case OpElem:
		if x.Op != OpElem {
			return uNone, nil
		}
		s, c := unify(p.K[0], x.K[0], unk, sol)
		if s != uExact {
			return s, c
		}
		s2, c2 := unifyInt(p.K[1], x.K[1], unk, sol)
		if s2 != uExact {
			return s2, nil
		}
		return uExact, and(c, c2)
	case OpMapEl:
		if x.Op != OpMapEl {
			return uNone, nil
		}
		s, c := unify(p.K[0], x.K[0], unk, sol)
		if s != uExact {
			return s, c
		}
		return uUnknown, nil
	case OpAlloc:
		if x.Op == OpAlloc {
			if x.S != p.S {
				return uNone, nil
			}
			c := True
			for i := range p.K {
				s, c2 := unifyInt(p.K[i], x.K[i], unk, sol)
				if s != uExact {
					return s, nil
				}
				c = and(c, c2)
			}
			return uExact, c
		}
		if fromInit(x) || x.Op == OpFld || x.Op == OpElem {
			return uNone, nil
		}
		return uUnknown, nil
	case OpSel:
		if p.K[0].Op == OpHeap {
			if x.Op == OpAlloc || x.Op == OpSym || x.Op == OpGlob || x.Op == OpFld || x.Op == OpElem {
				return uNone, nil
			}
			if x.Op == OpSel && x.K[0].Op == OpHeap {
				if x.K[0] != p.K[0] {
					return uNone, nil
				}
				return unify(p.K[1], x.K[1], unk, sol)
			}
		}
		return uUnknown, nil
	case OpApp:
		if p.S == "sbase" {
			if x.Op == OpApp && x.S == "sbase" {
				return unify(p.K[0], x.K[0], unk, sol)
			}
			if fromInit(p) && x.Op == OpAlloc {
				return uNone, nil
			}
		}
	}
	return uUnknown, nil
}

func unifyInt(p, x *Term, unk []*Term, sol Sub) (int, *Term) {
	if len(sol) > 0 {
		p = subst(p, sol)
	}
	var free []*Term
	for _, u := range unk {
		if _, done := sol[u]; !done && contains(p, u) {
			free = append(free, u)
		}
	}
	if len(free) == 0 {
		c := eqI(p, x)
		if c == False {
			return uNone, nil
		}
		return uExact, c
	}
	if p.Op == OpIte {
		return uUnknown, nil
	}
	if len(free) == 1 {
		c, rest, ok := linear(p, free[0])
		if ok && c.IsInt() && absR(c).Num().IsInt64() && absR(c).Num().Int64() == 1 {
			s := scale(c, sub(x, rest)) // c is +-1
			sol[free[0]] = s
			return uExact, True
		}
	}
	return uUnknown, nil
}

func (l *LoopInst) String() string { return fmt.Sprintf("%s(%s)", l.Base, l.ID) }
