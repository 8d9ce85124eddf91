package main

// C14, C17: what a hash code says about the input.

import (
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C14"] = rule{"sparse vectors are hashed by declared index", ruleC14, "proof"}
	rules["C17"] = rule{"winner-take-all codes depend on the order of values only", ruleC17, "proof"}
}

// vec is the vector a hashing call is given, read as it was on entry.
type vec struct {
	r      *Run
	data   *Term
	sparse bool
}

// readPos: t reads the given field ("" for plain elements) of the element at
// some position of the vector; the result is that position.
func (v vec) readPos(t *Term, field string) *Term {
	if t.Op != OpSel || t.K[0].Op != OpHeap {
		return nil
	}
	a := t.K[1]
	if field != "" {
		k, _ := v.r.C.field("index_value.Pair", field)
		if a.Op != OpFld || a.S != k {
			return nil
		}
		a = a.K[0]
	}
	if a.Op == OpElem && a.K[0] == sbase(v.data) {
		return sub(a.K[1], soff(v.data))
	}
	return nil
}

// valuePos: t is the value of the entry at some position.
func (v vec) valuePos(t *Term) *Term {
	if v.sparse {
		return v.readPos(t, "Value")
	}
	return v.readPos(t, "")
}

// coordPos: t is the coordinate of the entry at some position.
func (v vec) coordPos(t *Term) *Term {
	if v.sparse {
		return v.readPos(t, "Index")
	}
	return t
}

func (v vec) part(q *Term, field string) *Term {
	k, t := v.r.C.field("index_value.Pair", field)
	return v.r.load(v.r.St0, fld(elem(sbase(v.data), add(soff(v.data), q)), k), t)
}

func (v vec) value(q *Term) *Term {
	if v.sparse {
		return v.part(q, "Value")
	}
	return v.r.at(v.r.St0, v.data, q, v.r.C.floatT())
}

// coord is the coordinate of the entry at position q.
func (v vec) coord(q *Term) *Term {
	if v.sparse {
		return v.part(q, "Index")
	}
	return q
}

// ---- scattered dense vectors

// scattered: the sparse method is the dense one applied to a vector that holds
// every pair's value at its declared coordinate and zero elsewhere.
func (c *Ctx) scattered(typ, sparse, dense, dim string) {
	// the dense method may hand its arguments to another function
	names := []string{typ + "." + dense}
	for _, n := range c.forwards(typ + "." + dense) {
		names = append(names, n)
	}
	c.run(typ+"."+sparse, func(r *Run) {
		r.isBuilt(typ)
		for _, n := range names {
			n := n
			r.opaque[n] = func(e *Eng, fr *frame, st *State, fn *ssa.Function, args []*Term, pos tokenPos) *Term {
				return typedSym(app("dense", args[0], sbase(args[1])), fn.Signature.Results().At(0).Type())
			}
		}
	}, func(r *Run) {
		v := vec{r, r.A[1], true}
		h := r.A[0]
		calls := r.possible(names)
		if !c.ob("a sparse vector is hashed as a dense one", r.Label, len(calls) == 1 && len(calls[0].Nest) == 0, r.Fn.Pos(), "%d calls of the dense method", len(calls)) {
			return
		}
		call := calls[0]
		r.holds("a sparse vector is hashed as a dense one", r.Label, r.know(), call.PC, call.Pos)
		r.eq("the codes are those of the dense vector", r.Label, r.know(), r.Res, call.Res)
		r.eq("the same hasher is used", r.Label, r.know(), call.Args[0], h)
		arr := call.Args[1]
		r.eq("the dense vector has one entry per coordinate", r.Label, r.know(), slen(arr), r.get0(h, typ, dim))
		k0 := newIdx("coordinate")
		c.ob("the dense vector is new", r.Label, freshMem(sbase(arr)), call.Pos, "it is %s", show(arr, 5))
		// every write stores a pair's value at its own coordinate
		rt := root(sbase(arr))
		var evs []*Event
		for _, w := range r.writes() {
			if root(w.addr) != rt || unsat(and(r.Pre, w.pc)) {
				continue
			}
			if w.kind != "store" {
				c.ob("only values are put in the dense vector", fnName(w.ev.Fn), false, w.ev.Pos, "%s", w.kind)
				continue
			}
			if w.ev.Val == Zero && !r.after(w.ev, evs) {
				continue // clearing before the first value
			}
			evs = append(evs, w.ev)
		}
		_ = k0
		q0 := newIdx("q")
		dom := and(r.know(), inRange(q0, Zero, slen(v.data)))
		pos := func(ev *Event) *Term { return v.readPos(ev.Val, "Value") }
		r.exactlyOnce("every pair is entered once", evs, func(ev *Event) []*Term { return []*Term{pos(ev)} }, []*Term{q0}, []*Term{q0}, dom)
		for _, ev := range evs {
			q := pos(ev)
			if q == nil {
				c.ob("the entered values are those of the pairs", fnName(ev.Fn), false, ev.Pos, "%s is entered", show(ev.Val, 6))
				continue
			}
			pc := and(ev.PC, okOf(ev))
			ok := ev.Addr.Op == OpElem
			if ok {
				r.eq("a pair is entered at the coordinate it declares", fnName(ev.Fn), pc, sub(ev.Addr.K[1], soff(arr)), v.coord(q))
			} else {
				c.ob("a pair is entered at the coordinate it declares", fnName(ev.Fn), false, ev.Pos, "at %s", show(ev.Addr, 6))
			}
			r.C.ob("the vector is complete when it is hashed", fnName(ev.Fn), r.seq(ev) < r.seq(call), ev.Pos, "a value is entered later")
		}
	})
}

func (r *Run) seq(ev *Event) int {
	for i, e := range r.events {
		if e == ev {
			return i
		}
	}
	return -1
}

func (c *Ctx) floatT() types.Type { return types.Typ[types.Float64] }
func (c *Ctx) intT() types.Type   { return types.Typ[types.Int] }

// after: some of the events came before ev.
func (r *Run) after(ev *Event, evs []*Event) bool { return len(evs) > 0 }

// forwards lists the functions a method passes its own arguments to and whose
// result it returns unchanged.
func (c *Ctx) forwards(name string) []string {
	fn := c.fn(name)
	var out []string
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || call.Common().StaticCallee() == nil {
				continue
			}
			args := call.Common().Args
			same := len(args) == len(fn.Params) && len(fn.Blocks) == 1
			for i := range args {
				same = same && args[i] == ssa.Value(fn.Params[i])
			}
			if ret, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); same && isRet && len(ret.Results) == 1 && ret.Results[0] == ssa.Value(call) {
				out = append(out, fnName(call.Common().StaticCallee()))
			}
		}
	}
	return out
}

// ---- winners of the densified variant

// coded gives the code of a bin and whether the bin received an entry.
type coded func(bin *Term) (code, has *Term)

// fold proves that a densified winner-take-all method visits every entry in
// every permutation, and that the entry with the largest value of a bin
// determines the bin's code.
func (r *Run) fold(v vec) coded {
	c, h := r.C, r.A[0]
	D, N, P := r.get0(h, tDwta, "rangePow"), r.get0(h, tDwta, "numHashes"), r.get0(h, tDwta, "permute")
	bins := r.get0(h, tDwta, "indices")
	poss := r.get0(h, tDwta, "pos")
	_, it := c.field(tDwta, "indices")
	p0, q0 := newIdx("permutation"), newIdx("entry")
	place := func(p, q *Term) *Term { return add(mul(p, D), v.coord(q)) }
	bin := func(p, q *Term) *Term { return r.at(r.St0, bins, place(p, q), elemType(it)) }

	var vals, codes, inits []*Event
	for _, ev := range r.events {
		if ev.Kind != "store" || unsat(andN(r.Pre, ev.PC, okOf(ev))) || !freshMem(ev.Addr) || arrayIdx(ev.Addr) == nil {
			continue
		}
		switch {
		case v.valuePos(ev.Val) != nil:
			vals = append(vals, ev)
		case ev.Val == True:
			inits = append(inits, ev)
		case ev.Val.Op == OpSel && ev.Val.K[0].Op == OpHeap && containsP(ev.Val.K[1], func(u *Term) bool { return u == sbase(poss) }):
			codes = append(codes, ev)
		}
	}
	if !c.ob("the best value and the code of a bin are kept together", r.Label, len(vals) == 1 && len(codes) == 1 && len(inits) <= 1, r.Fn.Pos(), "%d stores of values, %d of codes", len(vals), len(codes)) {
		return nil
	}
	ve, ce := vals[0], codes[0]
	q := v.valuePos(ve.Val)
	x := arrayIdx(ve.Addr)
	// the permutation: the multiple of D in the place that was looked up
	var p *Term
	if x.Op == OpSel && x.K[0].Op == OpHeap && x.K[1].Op == OpElem && x.K[1].K[0] == sbase(bins) {
		p = mul(sub(sub(x.K[1].K[1], soff(bins)), v.coord(q)), inv(D))
		if containsP(p, func(u *Term) bool { return u == D }) || containsP(p, func(u *Term) bool { return v.readPos(u, "Index") != nil && v.sparse }) {
			p = nil
		}
	}
	if !c.ob("an entry's bin is looked up by its coordinate", r.Label, p != nil, ve.Pos, "the bin is %s", show(x, 8)) {
		return nil
	}
	pc := and(ve.PC, okOf(ve))
	r.eq("an entry's bin is looked up by its coordinate", r.Label, pc, x, bin(p, q))
	r.eq("an entry's code is its position in the bin", r.Label, and(ce.PC, okOf(ce)), ce.Val, r.at(r.St0, poss, place(p, q), elemType(it)))
	same := func(ev *Event, what string) {
		r.holds(what+" is kept for the same bin", r.Label, pc, eqI(arrayIdx(ev.Addr), x), ev.Pos)
		r.eq(what+" changes exactly when the best value changes", r.Label, and(okOf(ev), okOf(ve)), ev.PC, ve.PC)
		c.ob(what+" changes exactly when the best value changes", r.Label, sameNest(ev, ve), ev.Pos, "different loops")
	}
	same(ce, "the code")
	F := True // the bin has an entry already
	if len(inits) == 1 {
		same(inits[0], "the mark")
		F = asBool(inits[0].Old)
	}
	M := ve.Old
	val := v.value(q)
	r.holds("a value replaces the best one of its bin only if it is not smaller", r.Label, pc, or(not(F), not(ltF(val, M))), ve.Pos)
	// every entry is looked at in every permutation
	hc, sol := r.hit(ve, []*Term{p, q}, []*Term{p0, q0})
	if hc == nil {
		c.ob("every entry is considered in every permutation", r.Label, false, ve.Pos, "cannot decide which entries are considered: %s, %s", show(p, 4), show(q, 4))
		return nil
	}
	dom := andN(r.know(), inRange(p0, Zero, P), inRange(q0, Zero, slen(v.data)), inRange(bin(p0, q0), Zero, N))
	r.holds("every entry is considered in every permutation", r.Label, dom, or(hc, and(subst(F, sol), not(ltF(subst(M, sol), v.value(q0))))), ve.Pos)
	r.holds("nothing but the entries is considered", r.Label, pc, and(inRange(p, Zero, P), inRange(q, Zero, slen(v.data))), ve.Pos)
	// the best values are values of the input, or lower than any
	b := newIdx("bin")
	bi := b
	bd := and(r.know(), inRange(b, Zero, N))
	final := func(ev *Event) *Term { return r.load(r.St, atIdx(ev.Addr, b), ev.Typ) }
	r.origins("the best value of a bin is a value of the input", final(ve), bd, func(u, cond *Term) bool {
		return v.valuePos(u) != nil || isFloor(u) || len(inits) == 1 && u == Zero
	})
	// the code returned for a bin with an entry
	i := newIdx("i")
	id := and(r.know(), inRange(i, Zero, N))
	code := subst(final(ce), Sub{b: i})
	full := not(eqI(code, num(math.MinInt64)))
	if len(inits) == 1 {
		full = asBool(subst(final(inits[0]), Sub{b: i}))
	}
	r.eq("a bin that received an entry yields the code of its best entry", r.Label, and(id, full), r.at(r.St, r.Res, i, c.intT()), code)
	own := []*Event{ve, ce}
	own = append(own, inits...)
	r.binsKept(ce, own)
	fcode, final1 := final(ce), final
	// nothing else of the input matters
	depsOf(raw(OpTuple, "", nil, simplify(r.at(r.St, r.Res, i, c.intT()), and(r.Pre, id)), r.know()), func(u *Term) {
		if v.valuePos(u) != nil || v.sparse && v.readPos(u, "Index") != nil {
			c.ob("the codes depend on the input through the bins only", r.Label, false, r.Fn.Pos(), "a code depends on %s", show(u, 6))
		}
	})
	return func(b *Term) (*Term, *Term) {
		m := Sub{}
		m[bi] = b
		code := simplify(subst(fcode, m), and(r.Pre, r.know()))
		if len(inits) == 1 {
			return code, asBool(subst(final1(inits[0]), m))
		}
		return code, not(eqI(code, num(math.MinInt64)))
	}
}

func isFloor(u *Term) bool {
	if u.Op == OpApp && u.S == "math.Inf" && u.K[0] == num(-1) {
		return true
	}
	return u.Op == OpNum && ltF(num(math.MinInt64), u) == False
}

// arrayIdx is the element number in an address of an array of values or structs.
func arrayIdx(a *Term) *Term {
	for a.Op == OpFld {
		a = a.K[0]
	}
	if a.Op == OpElem {
		return a.K[1]
	}
	return nil
}

func atIdx(a, i *Term) *Term {
	if a.Op == OpFld {
		return fld(atIdx(a.K[0], i), a.S)
	}
	return elem(a.K[0], i)
}

func sameNest(a, b *Event) bool {
	if len(a.Nest) != len(b.Nest) {
		return false
	}
	for i := range a.Nest {
		if a.Nest[i] != b.Nest[i] {
			return false
		}
	}
	return true
}

// binsKept: nothing but the given stores changes what is kept for a bin once
// the first entry was considered.
func (r *Run) binsKept(ev *Event, own []*Event) {
	for _, w := range r.writes() {
		mine := root(w.addr) != root(ev.Addr) || r.seq(w.ev) < r.seq(ev) || unsat(and(r.Pre, w.pc))
		for _, o := range own {
			mine = mine || w.ev == o
		}
		r.C.ob("the code of a bin is that of its entries only", fnName(w.ev.Fn), mine, w.ev.Pos, "it is changed later")
	}
}

// ---- minhash

// maxFold proves that every considered entry (given by its coordinate) raises
// the code of its bin to at least that coordinate, and nothing else does.
func (r *Run) maxFold(binIds *Term, position func(idx *Term) *Term, want func(q *Term) *Term, n *Term) coded {
	c := r.C
	var evs []*Event
	for _, ev := range r.events {
		if ev.Kind != "store" || unsat(andN(r.Pre, ev.PC, okOf(ev))) || !freshMem(ev.Addr) || ev.Addr.Op != OpElem || isFloor(ev.Val) {
			continue
		}
		if x := arrayIdx(ev.Addr); x.Op == OpSel && x.K[0].Op == OpHeap && x.K[1].Op == OpElem && x.K[1].K[0] == sbase(binIds) {
			evs = append(evs, ev)
		}
	}
	if !c.ob("a coordinate is hashed into the bin assigned to it", r.Label, len(evs) == 1, r.Fn.Pos(), "%d places where a bin is updated", len(evs)) {
		return nil
	}
	ev := evs[0]
	pc := and(ev.PC, okOf(ev))
	idx := sub(arrayIdx(ev.Addr).K[1].K[1], soff(binIds))
	q := position(idx)
	if !c.ob("the bin of an entry is that of its declared coordinate", r.Label, q != nil, ev.Pos, "the bin is that of %s", show(idx, 6)) {
		return nil
	}
	r.eq("the bin of an entry is that of its declared coordinate", r.Label, pc, idx, want(q))
	r.eq("the code of a bin is a coordinate that fell into it", r.Label, and(pc, not(eqI(ev.Val, ev.Old))), ev.Val, want(q))
	r.holds("the code of a bin never decreases", r.Label, pc, leI(ev.Old, ev.Val), ev.Pos)
	q0 := newIdx("q")
	hc, sol := r.hit(ev, []*Term{q}, []*Term{q0})
	if hc == nil {
		c.ob("every entry is considered", r.Label, false, ev.Pos, "cannot decide which entries are considered")
		return nil
	}
	dom := and(r.know(), inRange(q0, Zero, n))
	r.holds("every entry is considered", r.Label, dom, or(and(hc, leI(want(q0), subst(ev.Val, sol))), leI(want(q0), subst(ev.Old, sol))), ev.Pos)
	r.holds("nothing but the entries is considered", r.Label, pc, inRange(q, Zero, n), ev.Pos)
	// the code returned for a bin with an entry
	i := newIdx("i")
	id := and(r.know(), inRange(i, Zero, r.get0(r.A[0], tMin, "numHashes")))
	code := r.load(r.St, atIdx(ev.Addr, i), ev.Typ)
	r.eq("a bin that received an entry yields its code", r.Label, and(id, not(eqI(code, num(math.MinInt64)))), r.at(r.St, r.Res, i, c.intT()), code)
	r.binsKept(ev, []*Event{ev})
	return func(b *Term) (*Term, *Term) {
		code := simplify(r.load(r.St, atIdx(ev.Addr, b), ev.Typ), and(r.Pre, r.know()))
		return code, not(eqI(code, num(math.MinInt64)))
	}
}

func ruleC14(c *Ctx) {
	c.scattered(tWta, "GetHash", "GetHashDense", "rangePow")
	c.scattered(tSrp, "GetHashSparse", "GetHash", "dim")
	c.run(tDwta+".GetHash", func(r *Run) { r.isBuilt(tDwta); r.probes() }, func(r *Run) { r.fold(vec{r, r.A[1], true}) })
	c.run(tMin+".GetHash", func(r *Run) { r.isBuilt(tMin); r.probes() }, func(r *Run) {
		idx := vec{r, r.A[1], false}
		_ = idx
		it := elemType(r.Fn.Params[1].Type())
		r.maxFold(r.A[3], func(t *Term) *Term { return idx.readPos(t, "") }, func(q *Term) *Term { return r.at(r.St0, r.A[1], q, it) }, slen(r.A[2]))
	})
	queue := ""
	for few := 0; few < 2; few++ {
		few := few
		c.run(tMin+".GetHashEasy", func(r *Run) {
			r.isBuilt(tMin)
			r.probes()
			if few == 1 {
				r.assume(inRange(r.A[3], Zero, slen(r.A[2])))
				r.Label += " with fewer slots than pairs"
			} else {
				r.assume(leI(slen(r.A[2]), r.A[3]))
			}
		}, func(r *Run) {
			n := slen(r.A[2])
			if few == 1 {
				n = r.A[3]
			}
			if q, _ := r.queued(vec{r, r.A[2], true}, n, r.A[1]); q != "" {
				queue = q
			}
		})
	}
	if queue != "" {
		c.heapOrder(queue, false)
	} else {
		c.ob("the pairs are ranked by a priority queue", tMin+".GetHashEasy", false, c.fn(tMin+".GetHashEasy").Pos(), "there is none")
	}
}

// queued proves that the priority queue of a minhash call receives every pair
// once, as index and value of one pair, that the queue is in order before it is
// used, and that each coordinate left in it is hashed.
func (r *Run) queued(v vec, topK, binIds *Term) (string, coded) {
	c := r.C
	var fills, mates, pushes, pops, inits []*Event
	queue := ""
	for _, ev := range r.events {
		if unsat(andN(r.Pre, ev.PC, okOf(ev))) {
			continue
		}
		switch {
		case ev.Kind == "pq":
			if x := ev.Args[0]; x.Op == OpIface && x.X != nil {
				if pt, ok := x.X.(types.Type).Underlying().(*types.Pointer); ok {
					queue = typeKey(pt.Elem())
				}
			}
			switch ev.Name {
			case "container/heap.Init":
				inits = append(inits, ev)
			case "container/heap.Push":
				pushes = append(pushes, ev)
			case "container/heap.Pop":
				pops = append(pops, ev)
			default:
				c.ob("the queue is used as a queue", fnName(ev.Fn), false, ev.Pos, "%s", ev.Name)
			}
		case ev.Kind == "store" && ev.Addr.Op == OpFld && arrayIdx(ev.Addr) != nil && freshMem(ev.Addr):
			switch {
			case v.valuePos(ev.Val) != nil:
				mates = append(mates, ev)
			case v.coordPos(ev.Val) != nil && isInteger(ev.Typ):
				fills = append(fills, ev)
			default:
				c.ob("the queue is filled with the pairs", fnName(ev.Fn), false, ev.Pos, "%s is entered", show(ev.Val, 6))
			}
		}
	}
	if !c.ob("the queue is put in order once", r.Label, len(inits) == 1 && len(inits[0].Nest) == 0 && len(fills) > 0, r.Fn.Pos(), "%d initialisations", len(inits)) {
		return queue, nil
	}
	q0, s0 := newIdx("q"), newIdx("slot")
	pos := map[*Event]*Term{}
	for _, ev := range fills {
		q := v.coordPos(ev.Val)
		pos[ev] = q
		ok := false
		for _, m := range mates {
			ok = ok || sameNest(m, ev) && m.Addr.Op == OpFld && m.Addr.K[0] == ev.Addr.K[0] && r.eqUnder(and(ev.PC, okOf(ev)), v.valuePos(m.Val), q) && r.eqUnder(and(okOf(m), okOf(ev)), m.PC, ev.PC)
		}
		c.ob("a queue entry is the index and the value of one pair", fnName(ev.Fn), ok, ev.Pos, "index and value are of different pairs")
		c.ob("the queue is filled before it is put in order", fnName(ev.Fn), r.seq(ev) < r.seq(inits[0]), ev.Pos, "it is filled later")
	}
	c.ob("a queue entry is the index and the value of one pair", r.Label, len(mates) == len(fills), r.Fn.Pos(), "%d indices, %d values", len(fills), len(mates))
	for _, ev := range pushes {
		x := ev.Args[1]
		var iq, vq *Term
		if x.Op == OpIface && len(x.K) == 1 && x.K[0].Op == OpStruct {
			for _, k := range x.K[0].K {
				if q := v.valuePos(k); q != nil {
					vq = q
				} else if q := v.coordPos(k); q != nil {
					iq = q
				}
			}
		}
		pos[ev] = iq
		c.ob("a queue entry is the index and the value of one pair", fnName(ev.Fn), iq != nil && vq != nil && r.eqUnder(and(ev.PC, okOf(ev)), iq, vq), ev.Pos, "%s is pushed", show(x, 8))
		c.ob("the queue is put in order before it is used", fnName(ev.Fn), r.seq(ev) > r.seq(inits[0]), ev.Pos, "it is not in order yet")
		ok := 0
		for _, p := range pops {
			if sameNest(p, ev) && r.seq(p) > r.seq(ev) && r.eqUnder(and(okOf(p), okOf(ev)), p.PC, ev.PC) {
				ok++
			}
		}
		c.ob("each entry pushed displaces the one that ranks lowest", fnName(ev.Fn), ok == 1 && len(pops) == len(pushes), ev.Pos, "%d removals", ok)
	}
	c.ob("each entry pushed displaces the one that ranks lowest", r.Label, len(pops) == len(pushes), r.Fn.Pos(), "%d additions, %d removals", len(pushes), len(pops))
	dom := and(r.know(), inRange(q0, Zero, slen(v.data)))
	r.exactlyOnce("every pair enters the queue once", append(append([]*Event{}, fills...), pushes...), func(ev *Event) []*Term { return []*Term{pos[ev]} }, []*Term{q0}, []*Term{q0}, dom)
	r.exactlyOnce("every slot of the queue is filled once", fills, func(ev *Event) []*Term { return []*Term{arrayIdx(ev.Addr)} }, []*Term{s0}, []*Term{s0}, and(r.know(), inRange(s0, Zero, topK)))
	// what is left in the queue is hashed
	alloc := fills[0].Addr.K[0].K[0]
	field := fills[0].Addr.S
	var slot *Term
	got := r.maxFold(binIds, func(t *Term) *Term {
		if t.Op == OpSel && t.K[1].Op == OpFld && t.K[1].S == field && t.K[1].K[0].Op == OpElem && t.K[1].K[0].K[0] == alloc {
			slot = t
			return t.K[1].K[0].K[1]
		}
		// nothing is added after the queue was put in order
		name := field[strings.LastIndex(field, ".")+1:]
		if t.Op == OpSym && strings.HasPrefix(t.S, "fresh:pq."+name+"@") && strings.HasSuffix(t.S, "."+instrName(inits[0].Instr)) {
			slot = t
			return t.K[0]
		}
		return nil
	}, func(q *Term) *Term {
		if slot.Op == OpSym {
			return raw(OpSym, slot.S, slot.X, append([]*Term{q}, slot.K[1:]...)...)
		}
		return raw(OpSel, slot.S, slot.X, slot.K[0], fld(elem(alloc, q), field))
	}, topK)
	for _, ev := range r.events {
		if ev.Kind == "store" && slot != nil && contains(ev.Val, slot) {
			for _, p := range pushes {
				c.ob("the queue is complete when its entries are hashed", fnName(ev.Fn), r.seq(ev) > r.seq(p), ev.Pos, "it is read earlier")
			}
		}
	}
	return queue, got
}

// heapOrder proves that a queue type implements the operations the standard
// priority queue needs, ordered by value.
func (c *Ctx) heapOrder(queue string, largest bool) {
	elems := func(r *Run, st *State) *Term {
		if _, ok := r.Fn.Params[0].Type().Underlying().(*types.Pointer); ok {
			return r.load(st, r.A[0], r.Fn.Params[0].Type().Underlying().(*types.Pointer).Elem())
		}
		return r.A[0]
	}
	et := func(r *Run) types.Type {
		t := r.Fn.Params[0].Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		return t.Underlying().(*types.Slice).Elem()
	}
	c.run(queue+".Len", nil, func(r *Run) {
		r.eq("the queue reports its length", r.Label, r.know(), r.Res, slen(elems(r, r.St0)))
	})
	c.run(queue+".Less", func(r *Run) {
		s := elems(r, r.newSt0())
		r.assume(inRange(r.A[1], Zero, slen(s)), inRange(r.A[2], Zero, slen(s)), not(eqI(r.A[1], r.A[2])))
	}, func(r *Run) {
		s, t := elems(r, r.St0), et(r)
		vk := -1
		st, _ := t.Underlying().(*types.Struct)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if isFloat(st.Field(i).Type()) {
				vk = i
			}
		}
		if !c.ob("queue entries are ranked by value", r.Label, vk >= 0, r.Fn.Pos(), "entries have no value") {
			return
		}
		val := func(i *Term) *Term {
			return r.load(r.St0, fld(elem(sbase(s), add(soff(s), i)), fieldName(t, vk)), st.Field(vk).Type())
		}
		a, b := val(r.A[1]), val(r.A[2])
		neq := and(r.know(), not(eqF(a, b)))
		// the entry in front is the one displaced
		ok := r.eqUnder(neq, r.Res, ltF(a, b)) || !largest && r.eqUnder(neq, r.Res, ltF(b, a))
		c.ob("queue entries are ranked by value", r.Label, ok, r.Fn.Pos(), "the order is %s", show(r.Res, 6))
	})
	c.run(queue+".Swap", func(r *Run) {
		s := elems(r, r.newSt0())
		r.assume(inRange(r.A[1], Zero, slen(s)), inRange(r.A[2], Zero, slen(s)))
	}, func(r *Run) {
		s := elems(r, r.St0)
		i, j, k := r.A[1], r.A[2], newIdx("k")
		d := and(r.know(), inRange(k, Zero, slen(s)))
		r.eq("swapping exchanges two entries", r.Label, d, r.at(r.St, s, k, et(r)), r.at(r.St0, s, ite(eqI(k, i), j, ite(eqI(k, j), i, k)), et(r)))
	})
	c.run(queue+".Push", func(r *Run) {
		r.A[1] = raw(OpIface, typeKey(et(r)), et(r), typedSym(sym("pushed"), et(r)))
	}, func(r *Run) {
		s, s1, t := elems(r, r.St0), elems(r, r.St), et(r)
		k := newIdx("k")
		r.eq("an entry is added at the end", r.Label, r.know(), slen(s1), add(slen(s), One))
		d := and(r.know(), inRange(k, Zero, slen(s1)))
		r.eq("an entry is added at the end", r.Label, d, r.at(r.St, s1, k, t), ite(ltI(k, slen(s)), r.at(r.St0, s, k, t), r.A[1].K[0]))
	})
	c.run(queue+".Pop", func(r *Run) {
		r.assume(ltI(Zero, slen(elems(r, r.newSt0()))))
	}, func(r *Run) {
		s, s1, t := elems(r, r.St0), elems(r, r.St), et(r)
		k := newIdx("k")
		r.eq("the last entry is taken off", r.Label, r.know(), slen(s1), sub(slen(s), One))
		d := and(r.know(), inRange(k, Zero, slen(s1)))
		r.eq("the last entry is taken off", r.Label, d, r.at(r.St, s1, k, t), r.at(r.St0, s, k, t))
		res := r.Res
		if res.Op == OpIface {
			res = res.K[0]
		}
		r.eq("the last entry is returned", r.Label, r.know(), res, r.at(r.St0, s, sub(slen(s), One), t))
	})
}

func init() {
	rules["C39"] = rule{"minhash codes come from the largest coordinates", ruleC39, "proof"}
}

// ruleC39: the queue keeps the K largest coordinates, and exactly those are hashed.
func ruleC39(c *Ctx) {
	for _, m := range []string{tMin + ".GetHashEasy", tMin + ".GetHashEasyDense"} {
		queue := ""
		for few := 0; few < 2; few++ {
			few := few
			c.run(m, func(r *Run) {
				r.isBuilt(tMin)
				r.probes()
				if few == 1 {
					r.assume(inRange(r.A[3], Zero, slen(r.A[2])))
					r.Label += " with fewer slots than coordinates"
				} else {
					r.assume(leI(slen(r.A[2]), r.A[3]))
				}
			}, func(r *Run) {
				n := slen(r.A[2])
				if few == 1 {
					n = r.A[3]
				}
				if q, _ := r.queued(vec{r, r.A[2], strings.HasSuffix(m, "Easy")}, n, r.A[1]); q != "" {
					queue = q
				}
			})
		}
		if queue != "" {
			c.heapOrder(queue, true)
		} else {
			c.ob("coordinates are ranked by a priority queue", m, false, c.fn(m).Pos(), "there is none")
		}
	}
}

func ruleC17(c *Ctx) {
	c.run(tDwta+".GetHash", func(r *Run) { r.isBuilt(tDwta); r.probes() }, func(r *Run) {
		v := vec{r, r.A[1], true}
		r.fold(v)
		r.orderOnly(v)
	})
	c.run(tDwta+".GetHashEasy", func(r *Run) { r.isBuilt(tDwta); r.probes() }, func(r *Run) {
		v := vec{r, r.A[1], false}
		r.fold(v)
		r.orderOnly(v)
	})
	c.run(tWta+".GetHashDense", func(r *Run) { r.isBuilt(tWta) }, func(r *Run) {
		v := vec{r, r.A[1], false}
		r.winner(v)
		r.orderOnly(v)
	})
}

// winner proves that the code of a winner-take-all hash is the coordinate with
// the largest value of the eight of its bin.
func (r *Run) winner(v vec) {
	c, h := r.C, r.A[0]
	idx := r.get0(h, tWta, "indices")
	_, it := c.field(tWta, "indices")
	i := newIdx("i")
	dom := and(r.know(), inRange(i, Zero, r.get0(h, tWta, "numHashes")))
	class := func(q *Term) *Term { return r.at(r.St0, idx, add(mul(num(8), i), q), elemType(it)) }
	act := func(q *Term) *Term { return v.value(class(q)) }
	body := simplify(r.at(r.St, r.Res, i, c.intT()), and(r.Pre, dom))
	var loop *LoopInst
	m := Sub{}
	many := false
	walk(body, func(u *Term) {
		if u.Op != OpVar {
			return
		}
		l := loops[u.S[:strings.Index(u.S, "|")]]
		if l == nil || loop != nil && l != loop {
			many = true
			return
		}
		loop = l
		for k := 1; k < len(u.K) && k-1 < len(l.Outer); k++ {
			m[l.Outer[k-1]] = u.K[k]
		}
	})
	if !c.ob("the winner is found by one pass over the bin", r.Label, loop != nil && !many && loop.N != nil && loop.Early == False, r.Fn.Pos(), "the code is %s", show(body, 8)) {
		return
	}
	floor := func(q *Term) *Term { return ltF(num(math.MinInt64), act(q)) }
	for _, ties := range []bool{false, true} {
		p, end := r.follow(loop, m, dom, num(8), class, act, floor, ties)
		d := andN(dom, inRange(p, Zero, num(8)), floor(p))
		got := subst(body, end)
		if !ties && !r.eqUnder(d, got, class(p)) {
			continue
		}
		r.eq("the code is the coordinate with the largest value of the bin", r.Label, d, got, class(p))
		return
	}
}

// orderOnly proves that values of the input are compared with each other (or
// with a floor below all of them) and moved around, and not used otherwise.
func (r *Run) orderOnly(v vec) {
	n := 0
	floats := map[*Term]int{} // 1: value-like, 2: being decided, -1: not
	var like func(t *Term) bool
	like = func(t *Term) bool {
		switch {
		case t.Op == OpIte:
			for _, l := range leaves(t) {
				if !like(l) && !isFloor(l) && l != Zero {
					return false
				}
			}
			return true
		case v.valuePos(t) != nil:
			return true
		case t.Op == OpMaxOf:
			return (isFloor(t.K[0]) || t.K[0] == Zero || like(t.K[0])) && like(t.K[2])
		case t.Op == OpSel && freshMem(t.K[1]):
			key := heapKeyOfTerm(t.K[0])
			if key != "E:float64" && !strings.HasSuffix(key, ".value") && !strings.HasSuffix(key, ".Value") {
				typ := r.keyTyp[key]
				return typ != nil && isFloat(typ)
			}
			return true
		case t.Op == OpVar:
			if floats[t] != 0 {
				return floats[t] > 0
			}
			floats[t] = 2
			ok := false
			if l := loops[t.S[:strings.Index(t.S, "|")]]; l != nil {
				for _, x := range l.Vars {
					if x.Var.S != t.S || x.Init == nil || x.Next == nil {
						continue
					}
					ok = isFloor(x.Init) || x.Init == Zero || like(x.Init)
					some := like(x.Init)
					for _, u := range leaves(x.Next) {
						if u == x.Var || isFloor(u) || u == Zero {
							continue
						}
						if !like(u) {
							ok = false
						} else {
							some = true
						}
					}
					ok = ok && some
				}
			}
			floats[t] = -1
			if ok {
				floats[t] = 1
			}
			return ok
		}
		return false
	}
	bad := map[*Term]bool{}
	report := func(u *Term, what string, ev *Event) {
		if bad[u] {
			return
		}
		bad[u] = true
		pos := r.Fn.Pos()
		if ev != nil {
			pos = ev.Pos
		}
		r.C.ob("values are only compared with one another", r.Label, false, pos, "%s: %s", what, show(u, 8))
	}
	seen := map[*Term]bool{}
	var scan func(t *Term, ev *Event)
	scan = func(t *Term, ev *Event) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if like(t) && t.Op != OpIte { // moved as it is
			return
		}
		switch t.Op {
		case OpLtF, OpLtI, OpEqF, OpEqI:
			ms := monosOf(t.K[0])
			var a []*Term
			plain, has := true, false
			var sum int64
			for _, m := range ms {
				one := m.C.IsInt() && (m.C.Num().Int64() == 1 || m.C.Num().Int64() == -1)
				if len(m.F) == 1 && m.F[0].E == 1 && like(m.F[0].T) {
					has = true
					plain = plain && one
					sum += m.C.Num().Int64()
					a = append(a, m.F[0].T)
					continue
				}
				if len(m.F) == 0 {
					plain = plain && len(ms) == 2 && m.C.Sign() != 0
					continue
				}
				for _, f := range m.F {
					if like(f.T) {
						has, plain = true, false
					}
				}
			}
			if has {
				n++
				ok := plain && (len(a) == 2 && len(ms) == 2 && sum == 0)
				if plain && len(a) == 1 && len(ms) == 2 { // against a floor
					for _, m := range ms {
						if len(m.F) == 0 {
							f := numR(m.C)
							ok = isFloor(f) || isFloor(neg(f))
						}
					}
				}
				if !ok {
					report(t, "a value is compared with something else", ev)
				}
				return
			}
		case OpPoly:
			for _, m := range t.M {
				for _, f := range m.F {
					if like(f.T) {
						report(t, "a value is calculated with", ev)
						return
					}
				}
			}
		case OpApp:
			for _, k := range t.K {
				if like(k) {
					report(t, "a value is converted", ev)
				}
			}
		case OpVar:
			if l := loops[t.S[:strings.Index(t.S, "|")]]; l != nil {
				for _, x := range l.Vars {
					if x.Var.S == t.S {
						scan(x.Init, ev)
						scan(x.Next, ev)
					}
				}
			}
		}
		if t.Op == OpPoly {
			for _, m := range t.M {
				for _, f := range m.F {
					scan(f.T, ev)
				}
			}
			return
		}
		for _, k := range t.K {
			scan(k, ev)
		}
	}
	for _, ev := range r.events {
		if unsat(andN(r.Pre, ev.PC, okOf(ev))) {
			continue
		}
		scan(simplify(ev.PC, r.Pre), ev)
		if ev.Kind == "store" {
			scan(ev.Addr, ev)
			for _, l := range leaves(ev.Val) {
				scan(leafCond(ev.Val, l), ev)
				scan(l, ev)
			}
		}
		if ev.Kind == "index" || ev.Kind == "call" || ev.Kind == "ext" {
			for _, a := range ev.Args {
				scan(a, ev)
			}
		}
	}
	i := newIdx("i")
	scan(simplify(r.at(r.St, r.Res, i, r.C.intT()), and(r.Pre, andN(r.know(), inRange(i, Zero, slen(r.Res))))), nil)
	r.C.ob("values are only compared with one another", r.Label, n > 0, r.Fn.Pos(), "no comparison of values")
}
