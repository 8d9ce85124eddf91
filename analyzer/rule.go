package main

// The rule framework: a rule evaluates functions of the tree with the dataflow
// engine and discharges obligations about the resulting value graph.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Ob struct {
	Rule, Construct string
	OK              bool
	Detail, Pos     string
}

type Ctx struct {
	P        *Program
	ID       string
	Tier     string
	obs      []Ob
	funcs    map[string]bool
	nEvents  int
	nLoops   int
	nRuns    int
	nTerms   int
	notes    []string
	began    time.Time
	timedOut bool
}

type anchorErr string

// Run is one abstract execution of a function of the tree.
type Run struct {
	*Eng
	C               *Ctx
	Name            string
	Fn              *ssa.Function
	A               []*Term
	Res             *Term
	St              *State
	St0             *State
	Pre             *Term
	ignoreUndecided func(why string) bool
	Label           string
	aborts          bool
	activeSym       *Term
	facts           func(ev *Event) *Term // known consequences for an event
}

func (c *Ctx) ob(rule, construct string, ok bool, pos token.Pos, format string, args ...interface{}) bool {
	o := Ob{Rule: rule, Construct: construct, OK: ok, Pos: c.P.pos(pos)}
	if !ok || os.Getenv("OBS") != "" {
		o.Detail = fmt.Sprintf(format, args...)
	}
	c.obs = append(c.obs, o)
	return ok
}

// fn resolves an exported anchor; a missing one fails the check.
func (c *Ctx) fn(name string) *ssa.Function {
	f := c.P.fn(name)
	if f == nil {
		panic(anchorErr("function " + name + " not found"))
	}
	return f
}

// field resolves a field of a named struct: its heap name and type.
func (c *Ctx) field(typ, name string) (string, types.Type) {
	t := c.typ(typ)
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(anchorErr(typ + " is not a struct"))
	}
	if i := structField(typ, name, s); i >= 0 {
		return fieldName(t, i), s.Field(i).Type()
	}
	panic(anchorErr("field " + typ + "." + name + " not found"))
}

func (c *Ctx) hasField(typ, name string) bool {
	s, ok := c.typ(typ).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	return structField(typ, name, s) >= 0
}

// typ resolves "pkg.Type".
func (c *Ctx) typ(name string) types.Type {
	i := strings.LastIndex(name, ".")
	pk := c.P.Pkgs[name[:i]]
	if pk == nil {
		panic(anchorErr("package " + name[:i] + " not found"))
	}
	m := pk.Type(name[i+1:])
	if m == nil {
		panic(anchorErr("type " + name + " not found"))
	}
	return m.Type()
}

// run evaluates fn and hands the result to body.
func (c *Ctx) run(name string, setup func(r *Run), body func(r *Run)) {
	fn := c.fn(name)
	e := newEng(c.P)
	r := &Run{Eng: e, C: c, Name: name, Fn: fn, Pre: True, Label: name}
	defer func() {
		c.nEvents += len(e.events)
		c.nLoops += len(e.finals)
		c.nTerms += len(byID)
		if x := recover(); x != nil {
			if a, ok := x.(anchorErr); ok {
				panic(a)
			}
			if os.Getenv("TRACE") != "" {
				panic(x)
			}
			if x == errBudget {
				c.timedOut = true
			}
			c.ob("analysis of "+r.Label+" completes", name, false, fn.Pos(), "the analysis stopped: %v", x)
		}
	}()
	c.nRuns++
	c.funcs[name] = true
	if c.timedOut {
		return
	}
	deadline = time.Now().Add(runBudget)
	if c.began.IsZero() {
		c.began = time.Now()
	}
	if d := c.began.Add(checkTotal); d.Before(deadline) {
		deadline = d
	}
	r.A = e.symArgs(fn)
	fixed := c.fixedGlobals()
	r.addInit(func(key string, addr *Term) *Term {
		if addr.Op == OpGlob {
			if v := fixed[addr.S]; v != nil {
				return numR(v)
			}
		}
		return nil
	})
	if setup != nil {
		setup(r)
	}
	st := &State{pc: True, heaps: map[string]*Heap{}}
	if r.Pre != True {
		st.ok = r.Pre
	}
	r.St0 = st.clone()
	r.Res, r.St = e.inline(fn, r.A, nil, st.clone(), "", nil)
	for _, ev := range e.events {
		c.funcs[fnName(ev.Fn)] = true
	}
	var und []string
	for w, p := range e.undecided {
		if r.ignoreUndecided != nil && r.ignoreUndecided(w) {
			continue
		}
		und = append(und, w+" at "+p)
	}
	sort.Strings(und)
	c.ob("the value graph of "+r.Label+" is complete", name, len(und) == 0, fn.Pos(), "undecided: %s", strings.Join(und, "; "))
	if os.Getenv("DUMPRUN") != "" && strings.Contains(r.Label, os.Getenv("DUMPRUN")) {
		e.dump(r.Res, r.St)
	}
	if r.aborts {
		c.ob(r.Label+" aborts", name, unsat(and(r.Pre, r.St.know())) && !unsat(r.Pre), fn.Pos(), "it returns when %s", show(r.St.know(), 8))
		body(r)
		return
	}
	c.ob("the assumed situation is possible and "+r.Label+" can return", name, !unsat(and(r.Pre, r.St.know())), fn.Pos(), "no execution returns normally")
	body(r)
}

// One evaluation may take runBudget, all those of a check together checkTotal;
// on the unchanged tree no evaluation takes more than a few seconds.
var (
	runBudget  = 150 * time.Second
	checkTotal = 600 * time.Second
)

// assume adds a precondition (only meaningful in setup).
func (r *Run) assume(ts ...*Term) {
	for _, t := range ts {
		r.Pre = and(r.Pre, asBool(t))
	}
}

func (r *Run) get0(p *Term, typ, field string) *Term { return r.getIn(r.St0, p, typ, field) }
func (r *Run) get1(p *Term, typ, field string) *Term { return r.getIn(r.St, p, typ, field) }
func (r *Run) getIn(st *State, p *Term, typ, field string) *Term {
	k, t := r.C.field(typ, field)
	return r.load(st, fld(p, k), t)
}

// at reads element i of a slice value.
func (r *Run) at(st *State, s, i *Term, t types.Type) *Term {
	return r.load(st, elem(sbase(s), add(soff(s), i)), t)
}

// know is what is known at the normal end of the run.
func (r *Run) know() *Term { return r.St.know() }

func (r *Run) proves(pc, c *Term) bool { return implies(and(r.Pre, pc), c) }

// eqUnder proves a == b under pc (in addition to the precondition).
func (r *Run) eqUnder(pc, a, b *Term) bool {
	if a == b {
		return true
	}
	pc = and(r.Pre, pc)
	sa, sb := simplify(a, pc), simplify(b, pc)
	if sa == sb {
		return true
	}
	return provedEq(pc, sa, sb)
}

func (r *Run) eq(rule, construct string, pc, got, want *Term) bool {
	ok := r.eqUnder(pc, got, want)
	d := ""
	if !ok {
		k := and(r.Pre, pc)
		d = fmt.Sprintf("computed %s, required %s (under %s)", show(simplify(got, k), 14), show(simplify(want, k), 14), show(pc, 5))
	}
	return r.C.ob(rule, construct, ok, r.Fn.Pos(), "%s", d)
}

func (r *Run) holds(rule, construct string, pc, cond *Term, pos token.Pos) bool {
	ok := r.proves(pc, cond)
	d := ""
	if !ok {
		d = fmt.Sprintf("cannot show %s under %s", show(simplify(cond, and(r.Pre, pc)), 14), show(pc, 8))
	}
	return r.C.ob(rule, construct, ok, pos, "%s", d)
}

// newIdx makes a fresh arbitrary integer >= 0.
func newIdx(name string) *Term {
	t := sym("any:" + name)
	nonNeg[t] = true
	idxSym[t] = true
	return t
}

func inRange(i, lo, hi *Term) *Term { return and(leI(lo, i), ltI(i, hi)) }

// ---- writes

type wr struct {
	ev   *Event
	addr *Term
	pc   *Term
	kind string
}

// writes lists every memory effect of the run that may reach memory existing
// before the call, or memory allocated in it.
func (r *Run) writes() []wr {
	var out []wr
	for _, ev := range r.events {
		switch ev.Kind {
		case "store", "mapupdate":
			out = append(out, wr{ev, ev.Addr, and(ev.PC, okOf(ev)), ev.Kind})
		case "copy":
			d := ev.Args[0]
			out = append(out, wr{ev, elem(sbase(d), soff(d)), and(and(ev.PC, okOf(ev)), ltI(Zero, ev.Args[2])), "copy"})
		case "append":
			d := ev.Args[0]
			out = append(out, wr{ev, elem(sbase(d), add(soff(d), slen(d))), and(and(ev.PC, okOf(ev)), and(ltI(Zero, ev.Args[2]), ltI(slen(d), scap(d)))), "append"})
		case "sort":
			d := ev.Args[0]
			if d.Op == OpIface && len(d.K) > 0 {
				d = d.K[0]
			}
			out = append(out, wr{ev, elem(sbase(d), soff(d)), and(ev.PC, okOf(ev)), "sort"})
		case "shuffle":
			if len(ev.Args) > 1 && ev.Args[1] != nil {
				out = append(out, wr{ev, ev.Args[1], and(ev.PC, okOf(ev)), "shuffle"})
			}
		case "pq":
			a := ev.Args[0]
			if a.Op == OpIface && len(a.K) > 0 {
				a = a.K[0]
			}
			out = append(out, wr{ev, a, and(ev.PC, okOf(ev)), "pq"})
		}
	}
	return out
}

func okOf(ev *Event) *Term {
	if ev.OK == nil {
		return True
	}
	return ev.OK
}

// fresh reports whether an address lies in memory allocated during the run.
func freshMem(a *Term) bool {
	rt := root(a)
	switch rt.Op {
	case OpAlloc:
		return true
	case OpSym:
		return strings.HasPrefix(rt.S, "fresh:")
	case OpNil:
		return true
	case OpApp:
		if rt.S == "sbase" {
			return freshMem(rt.K[0])
		}
	}
	return false
}

// onlyWrites proves that every write to pre-existing memory satisfies allowed.
func (r *Run) onlyWrites(rule string, allowed func(w wr, a *Term) bool) {
	bad := 0
	for _, w := range r.writes() {
		pc := and(r.Pre, w.pc)
		for _, a := range leaves(w.addr) {
			if a.Op == OpNil || freshMem(a) || allowed(w, a) {
				continue
			}
			if unsat(and(pc, leafCond(w.addr, a))) {
				continue
			}
			bad++
			r.C.ob(rule, fnName(w.ev.Fn), false, w.ev.Pos, "%s to %s when %s", w.kind, show(a, 10), show(w.pc, 6))
		}
	}
	if bad == 0 {
		r.C.ob(rule, r.Name, true, r.Fn.Pos(), "%d writes", len(r.writes()))
	}
}

// noPanic proves that the run cannot stop abnormally.
func (r *Run) noPanic(rule string, skip func(ev *Event) bool) {
	for _, ev := range r.events {
		if skip != nil && skip(ev) {
			continue
		}
		pc := and(r.Pre, and(ev.PC, okOf(ev)))
		if r.facts != nil {
			pc = and(pc, r.facts(ev))
		}
		var c *Term
		switch ev.Kind {
		case "panic":
			c = False
		case "index":
			c = inRange(ev.Args[0], Zero, ev.Args[1])
		case "slice":
			pc = andN(pc, leI(Zero, slen(ev.Args[0])), leI(slen(ev.Args[0]), scap(ev.Args[0])))
			c = andN(leI(Zero, ev.Args[1]), leI(ev.Args[1], ev.Args[2]), leI(ev.Args[2], ev.Args[3]), leI(ev.Args[3], scap(ev.Args[0])))
		case "make":
			c = leI(ev.Args[0], ev.Args[1])
			if !knownNonNeg(ev.Args[0]) && !knownPos(ev.Args[0]) {
				c = and(leI(Zero, ev.Args[0]), c)
			}
			if ev.Args[0] == Zero && (knownNonNeg(ev.Args[1]) || knownPos(ev.Args[1])) {
				c = True
			}
		case "shift":
			c = leI(Zero, ev.Args[0])
			if ev.Name == "shl" && ev.Val == One { // a size or a mask
				c = inRange(ev.Args[0], Zero, ev.Args[1])
				if y := ev.Args[0]; y.Op == OpApp && y.S == "wrap64" && implies(pc, inRange(y.K[0], Zero, ev.Args[1])) {
					c = True
				}
			}
		case "div":
			c = not(eqI(ev.Args[0], Zero))
		default:
			continue
		}
		ok := implies(pc, c)
		if !ok && ev.Kind == "index" {
			// every value the index may come from is in range
			ok = r.strange(ev.Args[0], pc, func(u, cond *Term) bool { return r.proves(cond, inRange(u, Zero, ev.Args[1])) }) == ""
		}
		d := ""
		if !ok {
			d = fmt.Sprintf("%s: cannot show %s when %s", ev.Kind, show(simplify(c, pc), 10), show(ev.PC, 6))
		}
		r.C.ob(rule, fnName(ev.Fn), ok, ev.Pos, "%s", d)
	}
}

// calls lists the events of opaque calls to name.
func (r *Run) calls(name string) []*Event {
	var out []*Event
	for _, ev := range r.events {
		if ev.Kind == "call" && ev.Name == name {
			out = append(out, ev)
		}
	}
	return out
}

func (r *Run) opq(names ...string) {
	for _, n := range names {
		r.C.fn(n)
		r.opaque[n] = nil
	}
}

// counters of the loops around an event.
func nestKs(ev *Event) []*Term {
	var out []*Term
	for _, l := range ev.Nest {
		out = append(out, l.K)
	}
	return out
}

// hit solves pattern(K...) == target for the counters around ev and returns the
// condition under which the event happens for that target; nil if unsolvable.
func (r *Run) hit(ev *Event, pats, targets []*Term) (*Term, Sub) {
	unk := nestKs(ev)
	sol := Sub{}
	c := True
	for i := range pats {
		p := pats[i]
		s, cc := 0, (*Term)(nil)
		if p == nil {
			return nil, nil
		}
		if isPtrLike(p) {
			s, cc = unify(p, targets[i], unk, sol)
		} else {
			s, cc = unifyInt(p, targets[i], unk, sol)
		}
		if s == uNone {
			return False, sol
		}
		if s != uExact {
			return nil, nil
		}
		c = and(c, cc)
	}
	pc := subst(ev.PC, sol)
	c = and(c, pc)
	for i := len(ev.Nest) - 1; i >= 0; i-- {
		l := ev.Nest[i]
		v, ok := sol[l.K]
		if !ok {
			if l.N != nil && l.N == One {
				continue
			}
			return nil, nil
		}
		v = subst(v, sol)
		c = and(c, leI(Zero, v))
		if l.N != nil {
			c = and(c, ltI(v, subst(l.N, sol)))
		}
	}
	return subst(c, sol), sol
}

func isPtrLike(p *Term) bool {
	switch p.Op {
	case OpFld, OpElem, OpMapEl, OpAlloc, OpSel:
		return true
	case OpApp:
		return p.S == "sbase"
	}
	return false
}

// exactlyOnce proves that for arbitrary values of vars (inside dom) the target
// place is hit exactly once by the events, and that every event hits such a
// place. pat gives the place an event acts on.
func (r *Run) exactlyOnce(rule string, evs []*Event, pat func(ev *Event) []*Term, targets, vars []*Term, dom *Term) []*cover {
	var cs []*cover
	if len(evs) == 0 {
		r.C.ob(rule, r.Name, false, r.Fn.Pos(), "no such operation happens")
		return nil
	}
	total := False
	for _, ev := range evs {
		c, sol := r.hit(ev, pat(ev), targets)
		if c == nil {
			r.C.ob(rule, fnName(ev.Fn), false, ev.Pos, "cannot decide for which %v it happens: %v", targets, pat(ev))
			return nil
		}
		if len(cs) > 0 {
			r.holds(rule+" (at most once)", fnName(ev.Fn), dom, not(and(total, c)), ev.Pos)
		}
		total = or(total, c)
		cs = append(cs, &cover{ev, c, sol})
	}
	r.holds(rule+" (at least once)", fnName(evs[0].Fn), dom, total, evs[0].Pos)
	for _, ev := range evs {
		sol := Sub{}
		c := True
		p := pat(ev)
		for i := range targets {
			s, cc := 0, (*Term)(nil)
			if isPtrLike(p[i]) {
				s, cc = unify(targets[i], p[i], vars, sol)
			} else {
				s, cc = unifyInt(targets[i], p[i], vars, sol)
			}
			if s != uExact {
				c = False
				break
			}
			c = and(c, cc)
		}
		c = and(c, subst(dom, sol))
		pc := and(ev.PC, okOf(ev))
		if r.facts != nil {
			pc = and(pc, r.facts(ev))
		}
		r.holds(rule+" (nothing else)", fnName(ev.Fn), pc, c, ev.Pos)
	}
	return cs
}

func substPlain(t *Term, m Sub) *Term { return subst(t, m) }

type cover struct {
	ev  *Event
	c   *Term
	sol Sub
}

var deadline time.Time

const errBudget = "time budget exceeded"

func checkBudget() {
	if !deadline.IsZero() && time.Now().After(deadline) {
		deadline = time.Time{}
		panic(errBudget)
	}
}

// products: consequences q*K >= 0 and q*(N-1-K) >= 0 for the counters around an
// event and non-negative q, which linear arithmetic alone does not see.
func products(ev *Event, qs ...*Term) *Term {
	c := True
	for _, l := range ev.Nest {
		for _, q := range qs {
			c = and(c, leI(Zero, mul(q, l.K)))
			if l.N != nil {
				c = and(c, or(not(ltI(l.K, l.N)), leI(Zero, mul(q, sub(sub(l.N, One), l.K)))))
			}
		}
	}
	return c
}

// reads collects every memory read, symbol and call result a value depends on,
// following unsolved loop variables through their recurrences.
func depsOf(t *Term, f func(u *Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		walk(t, func(u *Term) {
			if seen[u] {
				return
			}
			seen[u] = true
			f(u)
			if u.Op == OpVar {
				i := strings.Index(u.S, "|")
				if l := loops[u.S[:i]]; l != nil {
					for _, v := range l.Vars {
						if v.Var.S == u.S {
							if v.Init != nil {
								rec(v.Init)
							}
							if v.Next != nil {
								rec(v.Next)
							}
							if v.Closed != nil {
								rec(v.Closed)
							}
						}
					}
				}
			}
		})
	}
	rec(t)
}

// guarded visits every subterm of t together with the condition under which it
// contributes to the value; sums, maxima and recurrences are opened for an
// arbitrary iteration, named by a fresh index constrained in the condition.
func (r *Run) guarded(t, cond *Term, f func(u, cond *Term, open []*Term)) {
	seen := map[[2]*Term]bool{}
	onStack := map[string]bool{}
	n := 0
	var rec func(t, cond *Term, open []*Term)
	openAt := func(n0 *Term) *Term {
		n++
		return newIdx(fmt.Sprintf("b%d", n))
	}
	rec = func(t, cond *Term, open []*Term) {
		if cond == False || seen[[2]*Term{t, cond}] {
			return
		}
		seen[[2]*Term{t, cond}] = true
		switch t.Op {
		case OpIte:
			rec(t.K[0], cond, open)
			rec(t.K[1], and(cond, t.K[0]), open)
			rec(t.K[2], and(cond, not(t.K[0])), open)
			return
		case OpSum, OpExists, OpMaxOf:
			f(t, cond, open)
			for _, k := range t.K[:len(t.K)-1] {
				rec(k, cond, open)
			}
			ext := t.K[len(t.K)-2]
			b := openAt(ext)
			rec(subst(t.K[len(t.K)-1], Sub{outerB(t): b}), and(cond, inRange(b, Zero, ext)), append(open[:len(open):len(open)], b))
			return
		case OpVar:
			f(t, cond, open)
			for _, k := range t.K {
				rec(k, cond, open)
			}
			if onStack[t.S] {
				return
			}
			onStack[t.S] = true
			defer delete(onStack, t.S)
			if l := loops[t.S[:strings.Index(t.S, "|")]]; l != nil {
				for _, v := range l.Vars {
					if v.Var.S != t.S {
						continue
					}
					m := Sub{}
					for i := 1; i < len(v.Var.K) && i < len(t.K); i++ {
						m[v.Var.K[i]] = t.K[i]
					}
					if v.Init != nil {
						rec(subst(v.Init, m), cond, open)
					}
					if v.Next != nil {
						b := openAt(t.K[0])
						m[v.Var.K[0]] = b
						rec(subst(v.Next, m), and(cond, inRange(b, Zero, t.K[0])), append(open[:len(open):len(open)], b))
					}
				}
			}
			return
		}
		f(t, cond, open)
		for _, m := range t.M {
			for i, x := range m.F {
				c := cond
				for j, y := range m.F {
					if i != j && y.T.Op == OpIte {
						c = and(c, not(eqF(y.T, Zero)))
					}
				}
				rec(x.T, c, open)
			}
		}
		for _, k := range t.K {
			rec(k, cond, open)
		}
	}
	rec(t, cond, nil)
}
