package main

// Loop summarisation: a loop is evaluated for an arbitrary iteration K; its
// carried variables and the memory it updates are expressed as recurrences,
// which are then solved (induction variables, sums, existentials, maxima,
// lagged values) and turned into write families a(K) -> v(K).

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type comp struct {
	suffix string
	v      *Term
	typ    types.Type
}

// expandVar creates the loop variable(s) for a value of type t.
func expandVar(id, name string, t types.Type, ks []*Term) (*Term, []comp) {
	mk := func(s string) *Term { return raw(OpVar, id+"|"+name+s, nil, ks...) }
	switch u := t.Underlying().(type) {
	case *types.Slice:
		b, o, l, c := mk(".base"), mk(".off"), mk(".len"), mk(".cap")
		nonNeg[l] = true
		nonNeg[c] = true
		nonNeg[o] = true
		return mkSlice(b, o, l, c), []comp{{".base", b, nil}, {".off", o, types.Typ[types.Int]}, {".len", l, types.Typ[types.Int]}, {".cap", c, types.Typ[types.Int]}}
	case *types.Struct:
		var ks2 []*Term
		var cs []comp
		for i := 0; i < u.NumFields(); i++ {
			v, c := expandVar(id, name+"."+u.Field(i).Name(), u.Field(i).Type(), ks)
			ks2 = append(ks2, v)
			for _, x := range c {
				cs = append(cs, comp{"." + u.Field(i).Name() + x.suffix, x.v, x.typ})
			}
		}
		return raw(OpStruct, typeKey(t), nil, ks2...), cs
	case *types.Tuple:
		v := mk("")
		return v, []comp{{"", v, t}}
	}
	v := mk("")
	return v, []comp{{"", v, t}}
}

// parts splits a value the way expandVar does.
func parts(v *Term, t types.Type) []*Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return []*Term{sbase(v), soff(v), slen(v), scap(v)}
	case *types.Struct:
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, parts(fieldOf(v, i, t), u.Field(i).Type())...)
		}
		return out
	}
	return []*Term{v}
}

func mentionsLoop(t *Term, id string) bool {
	return containsP(t, func(u *Term) bool {
		return (u.Op == OpVar || u.Op == OpLoopH) && strings.HasPrefix(u.S, id+"|")
	})
}

func mentionsHeap(t *Term, id string) bool {
	return containsP(t, func(u *Term) bool { return u.Op == OpLoopH && strings.HasPrefix(u.S, id+"|") })
}

func renameLoop(t *Term, from, to string, closed Sub) *Term {
	m := Sub{}
	for k, v := range closed {
		m[k] = v
	}
	// replace heap names
	walk(t, func(u *Term) {
		if (u.Op == OpLoopH || u.Op == OpVar) && strings.HasPrefix(u.S, from+"|") {
			if _, ok := m[u]; ok {
				return
			}
		}
	})
	return substRename(t, from, to, m)
}

func substRename(t *Term, from, to string, m Sub) *Term {
	memo := map[int]*Term{}
	var rec func(u *Term) *Term
	rec = func(u *Term) *Term {
		if r, ok := m[u]; ok {
			if r == u {
				return u
			}
			return rec(r)
		}
		if len(u.K) == 0 && len(u.M) == 0 {
			return u
		}
		if r, ok := memo[u.ID]; ok {
			return r
		}
		var r *Term
		if u.Op == OpPoly {
			r = num(0)
			for _, mo := range u.M {
				x := numR(mo.C)
				for _, f := range mo.F {
					x = mul(x, powInt(rec(f.T), f.E))
				}
				r = add(r, x)
			}
		} else {
			ks := make([]*Term, len(u.K))
			same := true
			for i, k := range u.K {
				ks[i] = rec(k)
				if ks[i] != k {
					same = false
				}
			}
			s := u.S
			if (u.Op == OpLoopH || u.Op == OpVar) && strings.HasPrefix(s, from+"|") {
				s = to + s[len(from):]
				same = false
				r = raw(u.Op, s, u.X, ks...)
				if nonNeg[u] {
					nonNeg[r] = true
				}
			} else if same {
				r = u
			} else {
				r = construct(u.Op, s, u.X, ks)
			}
		}
		memo[u.ID] = r
		return r
	}
	return rec(t)
}

type hvar struct {
	*LoopVar
	typ types.Type
}

func (e *Eng) evalLoop(fr *frame, ld *loopDesc, ins []edgeIn) []edgeOut {
	h := ld.header
	ent0 := e.enterLoop(fr, h, ins)
	base := fmt.Sprintf("%s>%s#%d", fr.ctx, fr.fn.Name(), h.Index)
	K := sym("k:" + base)
	nonNeg[K] = true
	outer := e.counters()
	kall := append([]*Term{K}, outer...)

	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	inits := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		inits[p] = fr.env[p]
	}

	mod := map[string]bool{}
	var prev *LoopInst
	var li *LoopInst
	var exits []edgeOut
	var st0 *State
	mark := len(e.events)
	rounds := 0
	retMark := len(fr.rets)
	for round := 1; round <= 3; {
		rounds++
		if rounds > 24 {
			e.giveUp(fr, h.Instrs[0].Pos(), "loop summary does not stabilise")
			break
		}
		e.events = e.events[:mark]
		fr.rets = fr.rets[:retMark]
		e.version++
		id := fmt.Sprintf("%s~%d", base, e.version)
		li = &LoopInst{ID: id, Round: round, Base: base, Fn: fr.fn, Header: h, K: K, Outer: outer, EntryPC: ent0.pc,
			Init: map[string]*Heap{}, Fams: map[string][]*Family{}, Cells: map[string][]*LoopVar{}, Known: map[string]bool{},
			Kind: "loop"}
		li.Pos = loopPos(h)
		loops[id] = li
		st := ent0.clone()
		closed := map[string]*Term{}
		if prev != nil {
			// rename: closed forms first
			cl := Sub{}
			for _, v := range prev.Vars {
				if v.Closed != nil {
					cl[v.Var] = v.Closed
				}
			}
			for _, v := range prev.Vars {
				if v.Closed != nil {
					closed[v.Name] = renameLoop(v.Closed, prev.ID, id, cl)
				}
			}
			for _, key := range sortedSet(mod) {
				h := ent0.heaps[key]
				li.Init[key] = h
			}
			for _, key := range sortedSet(mod) {
				if !prev.Known[key] {
					continue
				}
				for _, c := range prev.Cells[key] {
					nc := &LoopVar{Name: c.Name, Key: key, Addr: c.Addr, Init: c.Init,
						Var: raw(OpVar, id+"|"+c.Name, nil, kall...), Closed: closed[c.Name]}
					li.Cells[key] = append(li.Cells[key], nc)
				}
				for _, f := range prev.Fams[key] {
					nf := &Family{Counters: f.Counters, Bounds: make([]*Term, len(f.Bounds))}
					for i, b := range f.Bounds {
						if b != nil {
							nf.Bounds[i] = renameLoop(b, prev.ID, id, cl)
						}
					}
					nf.A = renameLoop(f.A, prev.ID, id, cl)
					nf.V = renameLoop(f.V, prev.ID, id, cl)
					nf.G = renameLoop(f.G, prev.ID, id, cl)
					li.Fams[key] = append(li.Fams[key], nf)
				}
				li.Known[key] = true
			}
		}
		for _, key := range sortedSet(mod) {
			li.Init[key] = ent0.heaps[key]
			nh := &Heap{base: loopHeap(id, key, K, outer)}
			if li.Known[key] {
				// cells: component-wise values
				done := map[*Term]bool{}
				for _, c := range li.Cells[key] {
					if done[c.Addr] {
						continue
					}
					done[c.Addr] = true
					nh.ents = append(nh.ents, entry{c.Addr, e.cellValue(li, key, c.Addr, closed, kall)})
				}
			}
			st.heaps[key] = nh
		}
		phiVal := map[*ssa.Phi]*Term{}
		phiComps := map[*ssa.Phi][]comp{}
		for _, p := range phis {
			name := p.Name()
			v, cs := expandVar(id, name, p.Type(), kall)
			m := Sub{}
			for _, c := range cs {
				if cf, ok := closed[name+c.suffix]; ok {
					m[c.v] = cf
				}
			}
			phiComps[p] = cs
			phiVal[p] = subst(v, m)
		}
		st0 = st.clone()
		loopsChanged()
		e.nest = append(e.nest, li)
		var backs []edgeOut
		backs, exits = e.region(fr, ld, h, []edgeIn{{nil, st}}, phiVal)
		e.nest = e.nest[:len(e.nest)-1]

		grown := false
		for _, b := range backs {
			for _, key := range sortedHeaps(b.st.heaps) {
				hp := b.st.heaps[key]
				o := st0.heaps[key]
				if o == nil {
					if len(hp.ents) == 0 && hp.base == initHeap(key) {
						continue
					}
				} else if hp == o || (len(hp.ents) == 0 && len(o.ents) == 0 && hp.base == o.base) {
					continue
				}
				if !mod[key] {
					mod[key] = true
					if ent0.heaps[key] == nil {
						ent0.heaps[key] = &Heap{base: initHeap(key)}
					}
					grown = true
				}
			}
		}
		if grown {
			prev = nil
			round = 1
			continue
		}
		// continuation condition and trip count
		e.tripCount(fr, li, h, ent0, exits, ld)

		// recurrences
		var vars []hvar
		li.BackPC = False
		if len(backs) > 0 {
			var sts []*State
			for _, b := range backs {
				sts = append(sts, b.st)
			}
			back, conds := e.mergeStates(sts)
			li.BackPC = back.know()
			li.Back = back
			for _, p := range phis {
				var vs []*Term
				for _, b := range backs {
					vs = append(vs, e.phiIn(fr, p, edgeIn{b.from, b.st}))
				}
				next := gate(conds, vs, back.know())
				ip, np := parts(inits[p], p.Type()), parts(next, p.Type())
				for i, c := range phiComps[p] {
					vars = append(vars, hvar{&LoopVar{Name: p.Name() + c.suffix, Var: c.v, Init: ip[i], Next: np[i], Val: p,
						Closed: closed[p.Name()+c.suffix]}, c.typ})
				}
			}
			e.summariseHeaps(li, mod, back, st0, kall, &vars, prev, closed)
		} else {
			for _, p := range phis {
				ip := parts(inits[p], p.Type())
				for i, c := range phiComps[p] {
					vars = append(vars, hvar{&LoopVar{Name: p.Name() + c.suffix, Var: c.v, Init: ip[i], Next: c.v, Val: p}, c.typ})
				}
			}
			for _, key := range sortedSet(mod) {
				li.Known[key] = false
			}
		}
		e.solve(li, vars)
		for _, v := range vars {
			if v.typ != nil && isInteger(v.typ) {
				intVars[v.Var.S] = v.LoopVar
				delete(natural, v.Var.S)
				delete(nonDecr, v.Var.S)
			}
		}
		loopsChanged()
		for _, v := range vars {
			li.Vars = append(li.Vars, v.LoopVar)
		}
		stop := false
		if round >= 2 {
			stop = true
			if prev != nil && round < 3 {
				// another round only if something new was solved or memory is involved
				for _, v := range li.Vars {
					if v.Closed != nil && closed[v.Name] == nil {
						stop = false
					}
				}
				for _, key := range sortedSet(mod) {
					for _, f := range li.Fams[key] {
						if mentionsHeap(f.V, li.ID) || mentionsHeap(f.A, li.ID) || mentionsHeap(f.G, li.ID) {
							stop = false
						}
					}
				}
			}
		}
		if stop {
			break
		}
		prev = li
		round++
	}
	e.finals[base] = li
	return e.leave(fr, li, ld, ent0, st0, exits, mod)
}

func loopPos(h *ssa.BasicBlock) (p ssaPos) {
	for _, in := range h.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range h.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return
}

// cellValue rebuilds a (possibly multi-component) cell from its variables.
func (e *Eng) cellValue(li *LoopInst, key string, addr *Term, closed map[string]*Term, kall []*Term) *Term {
	t := e.keyTyp[key]
	name := fmt.Sprintf("cell:%d", addr.ID)
	v, cs := expandVar(li.ID, name, t, kall)
	m := Sub{}
	for _, c := range cs {
		if cf, ok := closed[name+c.suffix]; ok {
			m[c.v] = cf
		}
	}
	r := subst(v, m)
	if isBool(t) {
		r = asBool(r)
	}
	return r
}

func (e *Eng) enterLoop(fr *frame, h *ssa.BasicBlock, ins []edgeIn) *State {
	return e.enter(fr, h, ins)
}

// tripCount recognises a counted loop from the header's exit condition.
func (e *Eng) tripCount(fr *frame, li *LoopInst, h *ssa.BasicBlock, ent0 *State, exits []edgeOut, ld *loopDesc) {
	li.N = nil
	li.Early = False
	var hdr *edgeOut
	for i := range exits {
		if exits[i].from == h {
			hdr = &exits[i]
		}
	}
	if hdr != nil {
		stay := restrictDC(not(restrictDC(hdr.st.pc, ent0.pc)), ent0.pc)
		if n := tripBound(stay, li.K, li.ID); n != nil {
			if !implies(ent0.know(), not(ltI0(n))) {
				n = ite(ltI0(n), Zero, n)
			}
			li.N = n
		}
	}
	care := ent0.pc
	if li.N != nil {
		care = and(care, ltI(li.K, li.N))
	}
	li.BodyPC = care
	for _, x := range exits {
		if li.N != nil && x.from == h {
			continue
		}
		li.Early = or(li.Early, x.st.pc)
	}
	li.Early = restrictDC(li.Early, care)
}

// tripBound is the number of iterations for which a loop stays, given as a
// condition on its counter. Conditions the counter has no part in may appear
// anywhere in the diagram; they are moved to the front.
func tripBound(stay, K *Term, id string) *Term {
	return tripBoundBy(asBool(stay), K, id, 3)
}

func tripBoundBy(stay, K *Term, id string, depth int) *Term {
	if n := tripBound1(stay, K, id); n != nil || depth == 0 || stay.Op != OpIte {
		return n
	}
	var at *Term
	seen := map[*Term]bool{}
	var find func(*Term)
	find = func(u *Term) {
		if at != nil || seen[u] || u.Op != OpIte {
			return
		}
		seen[u] = true
		if !contains(u.K[0], K) && !mentionsLoop(u.K[0], id) {
			at = u.K[0]
			return
		}
		find(u.K[1])
		find(u.K[2])
	}
	find(stay)
	if at == nil {
		return nil
	}
	c := rawIte(at, True, False)
	a := tripBoundBy(asBool(restrictDC(stay, c)), K, id, depth-1)
	if a == nil {
		return nil
	}
	b := tripBoundBy(asBool(restrictDC(stay, not(c))), K, id, depth-1)
	if b == nil {
		return nil
	}
	return ite(c, a, b)
}

func tripBound1(stay, K *Term, id string) *Term {
	stay = asBool(stay)
	if stay == False {
		return Zero
	}
	if stay == True {
		return nil
	}
	at := stay.K[0]
	if !contains(at, K) && !mentionsLoop(at, id) {
		a := tripBound1(stay.K[1], K, id)
		b := tripBound1(stay.K[2], K, id)
		if a == nil || b == nil {
			return nil
		}
		return ite(rawIte(at, True, False), a, b)
	}
	if at.Op == OpLtI && stay.K[1] == True && stay.K[2] == False {
		c, rest, ok := linear(at.K[0], K)
		if ok && c.Cmp(oneRat) == 0 && !mentionsLoop(rest, id) {
			return neg(rest)
		}
	}
	if at.Op == OpLtI && stay.K[1] == False && stay.K[2] == True {
		// stay while not (rest - K < 0), i.e. K <= rest
		c, rest, ok := linear(at.K[0], K)
		if ok && c.Cmp(negOneRat) == 0 && !mentionsLoop(rest, id) {
			return add(rest, One)
		}
	}
	if at.Op == OpEqI && stay.K[1] == False && stay.K[2] == True {
		c, rest, ok := linear(at.K[0], K)
		if ok && !mentionsLoop(rest, id) {
			var n *Term
			if c.Cmp(oneRat) == 0 {
				n = neg(rest)
			} else if c.Cmp(negOneRat) == 0 {
				n = rest
			}
			if n != nil && implies(True, not(ltI0(n))) {
				return n
			}
		}
	}
	return nil
}

// summariseHeaps extracts cells and write families from the back-edge heaps.
func (e *Eng) summariseHeaps(li *LoopInst, mod map[string]bool, back, st0 *State, kall []*Term, vars *[]hvar, prev *LoopInst, closed map[string]*Term) {
	var keys []string
	for k := range mod {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	oldCells := li.Cells
	loopsChanged()
	li.Cells = map[string][]*LoopVar{}
	newFams := map[string][]*Family{}
	newKnown := map[string]bool{}
	for _, key := range keys {
		hp := back.heaps[key]
		raws, ok := e.collect(li, key, hp, True, nil)
		newKnown[key] = ok
		if !ok {
			continue
		}
		lh := loopHeap(li.ID, key, li.K, li.Outer)
		isOldCell := func(a *Term) bool {
			for _, c := range oldCells[key] {
				if c.Addr == a {
					return true
				}
			}
			return false
		}
		var fams []*Family
		type cellw struct {
			addr, next *Term
		}
		var cells []cellw
		for _, rw := range raws {
			// value when not written
			old := readHeap(st0.heaps[key], rw.A)
			oldRaw := raw(OpSel, "", nil, lh, rw.A)
			invariant := len(rw.Counters) == 0 && !contains(rw.A, li.K) && !mentionsLoop(rw.A, li.ID)
			if invariant {
				v := rw.V
				if rw.G != True {
					v = ite(rw.G, v, old)
				}
				cells = append(cells, cellw{rw.A, v})
				continue
			}
			_ = isOldCell
			g := mapLeaves(rw.V, func(l *Term) *Term { return boolT(l != oldRaw && !sameLeaf(l, old)) })
			// leaves of old that coincide under the same path also count as unwritten
			g = and(g, not(eqDiagram(rw.V, old)))
			g = and(g, rw.G)
			if g == False {
				continue
			}
			fams = append(fams, &Family{Counters: append([]*Term{li.K}, rw.Counters...),
				Bounds: append([]*Term{nil}, rw.Bounds...), A: rw.A, V: restrictDC(rw.V, g), G: g})
		}
		// cells must not be hit by families or overlap each other
		for i, c := range cells {
			for j, d := range cells {
				if i < j {
					if s := sameAddr(c.addr, d.addr); s != False {
						newKnown[key] = false
					}
				}
			}
			for _, f := range fams {
				var unk []*Term
				ren := Sub{}
				for _, ct := range f.Counters {
					u := raw(OpSym, "?"+ct.S, nil)
					ren[ct] = u
					unk = append(unk, u)
				}
				s, cd := unify(subst(f.A, ren), c.addr, unk, Sub{})
				if s == uUnknown || s == uExact && cd != False {
					newKnown[key] = false
				}
			}
		}
		if !newKnown[key] {
			continue
		}
		newFams[key] = fams
		for _, c := range cells {
			name := fmt.Sprintf("cell:%d", c.addr.ID)
			t := e.keyTyp[key]
			_, cs := expandVar(li.ID, name, t, kall)
			initV := readHeap(li.Init[key], c.addr)
			// in the round where the cell was not known its content was read raw
			rawOld := raw(OpSel, "", nil, lh, c.addr)
			v, _ := expandVar(li.ID, name, t, kall)
			next := c.next
			if contains(next, rawOld) {
				next = subst(next, Sub{rawOld: v})
			}
			ip, np := parts(initV, t), parts(next, t)
			for i, cm := range cs {
				lv := &LoopVar{Name: name + cm.suffix, Var: cm.v, Init: ip[i], Next: np[i], Addr: c.addr, Key: key,
					Closed: closed[name+cm.suffix]}
				li.Cells[key] = append(li.Cells[key], lv)
				*vars = append(*vars, hvar{lv, cm.typ})
			}
		}
	}
	li.Fams = newFams
	li.Known = newKnown
	loopsChanged()
}

func sameLeaf(l, old *Term) bool { return l == old }

// eqDiagram: condition under which both diagrams show the same leaf.
func eqDiagram(a, b *Term) *Term {
	if a == b {
		return True
	}
	at := topAtom(a, b)
	if at == nil {
		return False
	}
	return ite(rawIte(at, True, False), eqDiagram(cof(a, at, true), cof(b, at, true)), eqDiagram(cof(a, at, false), cof(b, at, false)))
}

// collect walks the heap chain of one iteration down to the heap at its start.
func (e *Eng) collect(li *LoopInst, key string, h *Heap, cond *Term, acc []*Family) ([]*Family, bool) {
	// entries of this level override everything below
	lower, ok := e.collectBase(li, key, h.base, cond)
	if !ok {
		return nil, false
	}
	for _, en := range h.ents {
		lower = append(lower, &Family{A: en.a, V: en.v, G: cond})
	}
	// later entries at the same address override earlier ones
	last := map[*Term]int{}
	var out []*Family
	for _, f := range lower {
		if len(f.Counters) == 0 {
			if i, ok := last[f.A]; ok {
				o := out[i]
				if f.G == True {
					out[i] = f
				} else {
					out[i] = &Family{A: f.A, V: ite(f.G, f.V, o.V), G: or(f.G, o.G)}
				}
				continue
			}
			last[f.A] = len(out)
		}
		out = append(out, f)
	}
	return out, true
}

func (e *Eng) collectBase(li *LoopInst, key string, b *Term, cond *Term) ([]*Family, bool) {
	switch b.Op {
	case OpIte:
		a := rawIte(b.K[0], True, False)
		x, ok1 := e.collectBase(li, key, b.K[1], and(cond, a))
		y, ok2 := e.collectBase(li, key, b.K[2], and(cond, not(a)))
		if !ok1 || !ok2 {
			return nil, false
		}
		return append(x, y...), true
	case OpLoopH:
		id := b.S[:strings.Index(b.S, "|")]
		if id == li.ID {
			return nil, true
		}
		in := loops[id]
		if in == nil || !in.Known[key] {
			return nil, false
		}
		init := in.Init[key]
		if init == nil {
			return nil, false
		}
		os := outerSub(in, b.K[1:])
		if len(os) > 0 {
			return nil, false
		}
		low, ok := e.collect(li, key, init, cond, nil)
		if !ok {
			return nil, false
		}
		t := b.K[0]
		for _, f := range in.Fams[key] {
			nf := &Family{Counters: f.Counters, A: f.A, V: f.V, G: and(f.G, cond)}
			for i, bd := range f.Bounds {
				if bd == nil {
					bd = t
				}
				_ = i
				nf.Bounds = append(nf.Bounds, bd)
			}
			low = append(low, nf)
		}
		return low, true
	case OpHeap:
		// reached the initial heap without passing the loop heap: the key was
		// not modified through this path
		return nil, true
	}
	return nil, false
}

// solve finds closed forms for the loop variables.
func (e *Eng) solve(li *LoopInst, vars []hvar) {
	solved := Sub{}
	for _, v := range vars {
		if v.Closed != nil {
			solved[v.Var] = v.Closed
		}
	}
	K := li.K
	for changed := true; changed; {
		changed = false
		for _, v := range vars {
			if v.Closed != nil {
				continue
			}
			nx := v.Next
			if len(solved) > 0 {
				nx = subst(nx, solved)
			}
			cf := e.closedForm(li, v, nx)
			if cf != nil {
				v.Closed = cf
				solved[v.Var] = cf
				changed = true
			}
		}
	}
	// second chance: values copied from the previous iteration
	for changed := true; changed; {
		changed = false
		for _, v := range vars {
			if v.Closed != nil {
				continue
			}
			nx := subst(v.Next, solved)
			if !mentionsLoop(nx, li.ID) {
				v.Closed = ite(eqI(K, Zero), v.Init, subst(nx, Sub{K: sub(K, One)}))
				solved[v.Var] = v.Closed
				changed = true
			}
		}
	}
	// a counter that falls as another one, or a length, grows
	for _, v := range vars {
		if v.Closed != nil || v.typ == nil || !isInteger(v.typ) || strings.Contains(v.Name, ".") {
			continue
		}
		for _, w := range vars {
			if w.LoopVar == v.LoopVar || w.Closed != nil || w.typ == nil || !isInteger(w.typ) || strings.HasSuffix(w.Name, ".cap") {
				continue
			}
			sum := add(v.Init, w.Init)
			if simplify(subst(sub(add(v.Next, w.Next), sum), solved), True) == Zero {
				v.Closed = sub(sum, w.Var)
				solved[v.Var] = v.Closed
				break
			}
		}
	}
}

func (e *Eng) closedForm(li *LoopInst, v hvar, nx *Term) *Term {
	K := li.K
	if nx == v.Var {
		return v.Init
	}
	if nx == v.Init && !contains(nx, K) && !mentionsLoop(nx, li.ID) {
		return v.Init
	}
	if v.typ != nil && isBool(v.typ) {
		hi := subst(nx, Sub{v.Var: True})
		lo := subst(nx, Sub{v.Var: False})
		if hi == True && !mentionsLoop(lo, li.ID) {
			return or(v.Init, existsOver(K, K, lo))
		}
		if lo == False && !mentionsLoop(hi, li.ID) {
			return and(v.Init, not(existsOver(K, K, not(hi))))
		}
		return nil
	}
	if v.typ == nil || !(isInteger(v.typ) || isFloat(v.typ)) {
		// pointer-like: invariant under every condition?
		for _, l := range leaves(nx) {
			if l != v.Var && l != v.Init {
				return nil
			}
		}
		return v.Init
	}
	d := sub(nx, v.Var)
	if !mentionsLoop(d, li.ID) {
		return add(v.Init, sumOver(K, K, d))
	}
	// wrapping sum: v' = (v + d) mod 2^w
	wname := ""
	for _, l := range leaves(nx) {
		if l.Op == OpApp && wrapBits(l.S) > 0 {
			if wname != "" && wname != l.S {
				wname = "no"
			} else {
				wname = l.S
			}
		} else if l != v.Var {
			wname = "no"
		}
	}
	if wrapBits(wname) > 0 {
		d := mapLeaves(nx, func(l *Term) *Term {
			if l == v.Var {
				return Zero
			}
			return sub(l.K[0], v.Var)
		})
		if !mentionsLoop(d, li.ID) {
			return app(wname, add(v.Init, sumOver(K, K, d)))
		}
	}
	if m := e.runningMax(li, v, nx); m != nil {
		return m
	}
	return nil
}

// runningMax recognises v' = max(v, x(k)), possibly only when g(k), and the
// variant whose first step takes x(0) whatever v was.
func (e *Eng) runningMax(li *LoopInst, v hvar, nx *Term) *Term {
	K := li.K
	if li.N == nil && li.Round < 2 {
		return nil // the trip count may be known in the next round
	}
	if len(leaves(nx)) > 2 && li.BodyPC != nil {
		nx = simplify(nx, and(li.BodyPC, leI(Zero, K)))
	}
	first := atomOf(eqI(K, Zero))
	if first == nil {
		return nil
	}
	if hi := subst(deepCof(nx, first, true), Sub{K: Zero}); contains(nx, first) && !mentionsLoop(hi, li.ID) {
		if m := e.runningMax1(li, v, deepCof(nx, first, false), hi); m != nil {
			return ite(eqI(K, Zero), v.Init, m)
		}
	}
	return e.runningMax1(li, v, nx, v.Init)
}

// atomOf is the atom a single-atom condition tests.
func atomOf(t *Term) *Term {
	if t.Op == OpIte && t.K[1] == True && t.K[2] == False {
		return t.K[0]
	}
	return nil
}

func (e *Eng) runningMax1(li *LoopInst, v hvar, nx, init *Term) *Term {
	K := li.K
	lt := ltF
	if isInteger(v.typ) {
		lt = ltI
	}
	body := init
	ls := leaves(nx)
	for _, x := range ls {
		if x == v.Var {
			continue
		}
		if mentionsLoop(x, li.ID) {
			return nil
		}
		c := leafCond(nx, x)
		var g *Term
		for _, pos := range []bool{true, false} {
			a := lt(v.Var, x)
			if !pos {
				a = lt(x, v.Var)
			}
			if atomOf(a) == nil {
				continue
			}
			g1 := deepCof(c, atomOf(a), pos)
			if !pos {
				a = not(a)
			}
			if !mentionsLoop(g1, li.ID) && and(g1, a) == c {
				g = g1
				break
			}
		}
		if g == nil {
			return nil
		}
		body = ite(g, x, body)
	}
	if body == init {
		return nil
	}
	b := bvar(max(maxB(body), maxB(init)) + 1)
	return mkMaxOf(init, K, subst(body, Sub{K: b}))
}

// leave builds the states at the loop's exits.
func (e *Eng) leave(fr *frame, li *LoopInst, ld *loopDesc, ent0, st0 *State, exits []edgeOut, mod map[string]bool) []edgeOut {
	var out []edgeOut
	K := li.K
	var early []edgeOut
	var hdr *edgeOut
	for i, x := range exits {
		if li.N != nil && x.from == ld.header {
			hdr = &exits[i]
		} else {
			early = append(early, x)
		}
	}
	X := False
	if len(early) > 0 {
		li.ExitK = sym("K:"+li.Base, li.Outer...)
		nonNeg[li.ExitK] = true
		if li.N != nil {
			X = existsOver(li.N, K, li.Early)
		} else {
			X = True
		}
		Ke := li.ExitK
		facts := and(not(existsOver(Ke, K, li.Early)), subst(li.Early, Sub{K: Ke}))
		if li.N != nil {
			facts = and(facts, ltI(Ke, li.N))
		}
		f := or(not(X), facts)
		// a loop left at once
		first := subst(li.Early, Sub{K: Zero})
		if li.N != nil {
			first = and(first, ltI(Zero, li.N))
		}
		f = and(f, or(not(first), and(X, eqI(Ke, Zero))))
		outer := li.Outer
		name := Ke.S
		factHooks = append(factHooks, func(t *Term) []*Term {
			if t.Op != OpSym || t.S != name || len(t.K) != len(outer) {
				return nil
			}
			if t == Ke {
				return []*Term{f}
			}
			m := Sub{Ke: t}
			for i, o := range outer {
				m[o] = t.K[i]
			}
			return []*Term{not(ltI0(t)), subst(f, m)}
		})
	}
	fix := func(x edgeOut, at *Term, pc *Term) {
		m := Sub{K: at}
		// remaining loop variables keep their name, at the exit iteration
		ns := &State{heaps: map[string]*Heap{}, over: map[ssa.Value]*Term{}}
		for _, v := range sortedVals(x.st.over) {
			t := x.st.over[v]
			ns.over[v] = subst(t, m)
		}
		for _, v := range ld.liveOut {
			if _, ok := fr.env[v]; ok {
				ns.over[v] = subst(e.val(fr, x.st, v), m)
			}
		}
		// values of an enclosing evaluation of the same loop must not leak
		for _, key := range sortedHeaps(x.st.heaps) {
			h := x.st.heaps[key]
			if ent0.heaps[key] == h {
				ns.heaps[key] = h
				continue
			}
			nh := &Heap{base: subst(h.base, m)}
			for _, en := range h.ents {
				nh.ents = append(nh.ents, entry{subst(en.a, m), subst(en.v, m)})
			}
			ns.heaps[key] = nh
		}
		ns.pc = pc
		ns.ok = ent0.ok
		if ns.pc == False {
			return
		}
		for _, v := range sortedVals(ns.over) {
			t := ns.over[v]
			if t.Op == OpIte {
				ns.over[v] = simplify(t, ns.know())
			}
		}
		out = append(out, edgeOut{x.from, x.to, ns})
	}
	if hdr != nil {
		pc := subst(hdr.st.pc, Sub{K: li.N})
		pc = and(pc, not(X))
		fix(*hdr, li.N, pc)
	}
	rest := True
	care := li.BodyPC
	for i, x := range early {
		c := subst(restrictDC(x.st.pc, and(care, li.Early)), Sub{K: li.ExitK})
		pc := and(ent0.pc, X)
		if i < len(early)-1 {
			pc = and(pc, and(rest, c))
			rest = and(rest, not(c))
		} else {
			pc = and(pc, rest)
		}
		fix(x, li.ExitK, pc)
	}
	return out
}

// Integer loop variables that never decrease.

var (
	intVars map[string]*LoopVar // integer variables by name
	nonDecr map[string]bool
	natural map[string]int  // -1: never negative; otherwise the variables known when that could not be shown
	growing map[string]bool // under consideration
)

func nonDecreasing(v *Term) bool {
	lv := intVars[v.S]
	if lv == nil || growing[v.S] {
		return false
	}
	if r, ok := nonDecr[v.S]; ok {
		return r
	}
	growing[v.S] = true
	r := notBelow(lv.Next, lv.Var, 6)
	delete(growing, v.S)
	nonDecr[v.S] = r
	return r
}

// startOf is the initial value of a loop variable.
func startOf(v *Term) *Term {
	lv := intVars[v.S]
	m := Sub{}
	for i, k := range lv.Var.K {
		if i < len(v.K) {
			m[k] = v.K[i]
		}
	}
	return subst(lv.Init, m)
}

// notBelow: every value t can take is at least v.
func notBelow(t, v *Term, depth int) bool {
	ls := leaves(t)
	if len(ls) > 64 || depth == 0 {
		return false
	}
	for _, l := range ls {
		if d := sub(l, v); d == Zero || knownNonNeg(d) {
			continue
		}
		ok := false
		for _, m := range monosOf(l) {
			if len(m.F) == 1 && m.F[0].E == 1 && m.C.Cmp(oneRat) == 0 && m.F[0].T.Op == OpVar {
				u := m.F[0].T
				if u != v && nonDecreasing(u) {
					ok = notBelow(add(sub(l, u), startOf(u)), v, depth-1)
					break
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// neverNegative: a loop variable that starts at or above zero and grows.
// A start that refers to the variable itself refers to an earlier moment, for
// which the claim is assumed (induction over time).
func neverNegative(v *Term) bool {
	if intVars[v.S] == nil {
		return false
	}
	if n, ok := natural[v.S]; ok && (n < 0 || n == len(intVars)) {
		return n < 0
	}
	natural[v.S] = len(intVars) // while under consideration
	if !neverNegative1(v, map[string]bool{}) {
		return false
	}
	natural[v.S] = -1
	return true
}

func neverNegative1(v *Term, assumed map[string]bool) bool {
	if assumed[v.S] {
		return true
	}
	lv := intVars[v.S]
	if lv == nil || lv.Closed == nil && !nonDecreasing(v) && !takesNatural(lv) {
		return false
	}
	assumed[v.S] = true
	from := lv.Closed
	if from == nil {
		from = lv.Init
	}
	for _, l := range leaves(from) {
		if knownNumNonNeg(l) {
			continue
		}
		if l.Op == OpVar && intVars[l.S] != nil {
			if !neverNegative1(l, assumed) {
				return false
			}
			continue
		}
		if !knownNonNeg(l) {
			return false
		}
	}
	return true
}

// takesNatural: each iteration keeps the variable or sets it to a value that
// is not negative.
func takesNatural(lv *LoopVar) bool {
	ls := leaves(lv.Next)
	for _, l := range ls {
		if l != lv.Var && (len(ls) > 64 || contains(l, lv.Var) || !knownNonNeg(l)) {
			return false
		}
	}
	return true
}

// copiedCounter: a variable set to the counter of its loop (plus a constant)
// in some iterations and kept in the others is its start, or below the
// current counter (plus that constant).
func copiedCounter(v *Term) *Term {
	lv := intVars[v.S]
	if lv == nil || lv.Closed != nil || lv.Init.Op != OpNum || len(v.K) == 0 {
		return nil
	}
	ls := leaves(lv.Next)
	if len(ls) > 16 {
		return nil
	}
	var most *Term
	for _, l := range ls {
		if l == lv.Var || l == lv.Init {
			continue
		}
		c := sub(l, lv.Var.K[0])
		if c.Op != OpNum || !c.N.IsInt() {
			return nil
		}
		if most == nil || c.N.Cmp(most.N) > 0 {
			most = c
		}
	}
	if most == nil {
		return nil
	}
	return or(eqI(v, lv.Init), ltI(v, add(v.K[0], most)))
}

func knownNumNonNeg(t *Term) bool { return t.Op == OpNum && t.N.Sign() >= 0 }
