package main

// C12-C17: hash families.

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C12"] = rule{"hashing is repeatable and free of side effects", ruleC12, "proof"}
	rules["C13"] = rule{"number and range of the hash codes", ruleC13, "proof"}
	rules["C15"] = rule{"hashing terminates and probes existing bins", ruleC15, "proof"}
}

const (
	tWta  = "wta_hash.WtaHash"
	tDwta = "densified_wta_hash.DensifiedWtaHash"
	tMin  = "densified_minhash.DensifiedMinhash"
	tSrp  = "sparse_random_projection.SparseRandomProjection"
)

var hashMethods = []string{
	tWta + ".GetHash", tWta + ".GetHashDense",
	tDwta + ".GetHash", tDwta + ".GetHashEasy", tDwta + ".GetRandDoubleHash",
	tMin + ".GetHash", tMin + ".GetHashEasy", tMin + ".GetHashEasyDense", tMin + ".GetRandDoubleHash", tMin + ".GetMap",
	tSrp + ".GetHash", tSrp + ".GetHashSparse",
}

// repeatable lists the library calls whose results are determined by their
// arguments (the keyed hash is determined by its seed and what it was fed).
func repeatable(name string) bool {
	for _, p := range []string{"math.", "math/bits.", "sort.", "slices.", "strconv.", "strings.", "errors.", "container/heap.", "encoding/binary.", "hash/maphash.Hash."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return name == "fmt.Sprintf" || name == "fmt.Errorf"
}

func ruleC12(c *Ctx) {
	for _, m := range hashMethods {
		c.run(m, nil, func(r *Run) {
			r.onlyWrites("hashing changes nothing", func(w wr, a *Term) bool { return false })
			for _, ev := range r.events {
				if unsat(andN(r.Pre, ev.PC, okOf(ev))) {
					continue
				}
				switch ev.Kind {
				case "ext":
					c.ob("hashing uses no source of randomness, time or outside input", fnName(ev.Fn), repeatable(ev.Name), ev.Pos, "%s is called", ev.Name)
				case "go":
					c.ob("hashing runs in the caller's goroutine", fnName(ev.Fn), false, ev.Pos, "a goroutine is started")
				}
			}
			n := 0
			res := r.Res
			if st, ok := r.Fn.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
				i := newIdx("i")
				res = raw(OpTuple, "", nil, slen(r.Res), r.at(r.St, r.Res, i, st.Elem()))
				for _, b := range leaves(sbase(r.Res)) {
					c.ob("codes are returned in storage of their own", r.Label, b.Op == OpNil || freshMem(b), r.Fn.Pos(), "the result lies in %s", show(b, 6))
				}
			}
			depsOf(raw(OpTuple, "", nil, res, r.know()), func(u *Term) {
				n++
				switch {
				case u.Op == OpGlob && !c.constGlobalAddr(u):
					c.ob("the result depends on the hasher and the input only", r.Label, false, r.Fn.Pos(), "depends on %s", show(u, 6))
				case u.Op == OpApp && u.S == "mapkey":
					c.ob("the result does not depend on the order of map keys", r.Label, false, r.Fn.Pos(), "depends on %s", show(u, 6))
				case u.Op == OpApp && u.S == "mh.seed" && !fromArgs(u.K[0]):
					c.ob("the result depends on the hasher and the input only", r.Label, false, r.Fn.Pos(), "the keyed hash is seeded with %s", show(u.K[0], 6))
				case u.Op == OpApp && u.S == "mh.sum" && !r.seeded(u):
					c.ob("the result depends on the hasher and the input only", r.Label, false, r.Fn.Pos(), "the keyed hash has a random seed")
				}
			})
			c.ob("the result depends on the hasher and the input only", r.Label, n > 0, r.Fn.Pos(), "nothing is computed")
		})
	}
	for _, t := range []string{tWta, tDwta, tMin, tSrp} {
		s := c.typ(t).Underlying().(*types.Struct)
		ctor := t[:strings.Index(t, ".")] + ".New"
		var names []string
		for i := 0; i < s.NumFields(); i++ {
			names = append(names, s.Field(i).Name())
		}
		c.constFields("a hasher's contents are fixed when it is built", t, names, ctor)
		for i := 0; i < s.NumFields(); i++ {
			depth := 0
			for x, ok := s.Field(i).Type().Underlying().(*types.Slice); ok; x, ok = x.Elem().Underlying().(*types.Slice) {
				depth++
			}
			if depth > 0 {
				c.constElems("a hasher's contents are fixed when it is built", t, s.Field(i).Name(), depth, ctor)
			}
		}
	}
}

// fromArgs: the value is read from what the caller passed.
func fromArgs(t *Term) bool {
	ok := true
	walk(t, func(u *Term) {
		if u.Op == OpSym && strings.HasPrefix(u.S, "fresh:") || u.Op == OpGlob || u.Op == OpHavoc {
			ok = false
		}
	})
	return ok
}

// seeded: the state the sum is taken of starts from an explicit seed, whatever
// happened before.
func (r *Run) seeded(t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t, cond *Term) bool
	rec = func(t, cond *Term) bool {
		for _, u := range leaves(t) {
			c := and(cond, leafCond(t, u))
			if seen[u] || unsat(and(r.Pre, c)) {
				continue
			}
			seen[u] = true
			switch {
			case u.Op == OpApp && u.S == "mh.seed":
			case u.Op == OpApp && strings.HasPrefix(u.S, "mh."):
				if !rec(u.K[0], c) {
					return false
				}
			case u.Op == OpVar:
				found := false
				if l := loops[u.S[:strings.Index(u.S, "|")]]; l != nil {
					for _, v := range l.Vars {
						if v.Var.S == u.S && v.Init != nil && v.Next != nil {
							found = true
							if !rec(v.Init, l.EntryPC) || !rec(v.Next, l.BodyPC) {
								return false
							}
						}
					}
				}
				if !found {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return rec(t.K[0], True)
}

// isBuilt: what constructors establish about a hasher.
func (r *Run) isBuilt(t string) {
	n := r.getIn(r.newSt0(), r.A[0], t, "numHashes")
	r.assume(ltI(Zero, n))
	if r.C.hasField(t, "logNumHash") {
		l := r.getIn(r.newSt0(), r.A[0], t, "logNumHash")
		r.assume(inRange(l, Zero, num(33)))
	}
}

func (r *Run) get0In(st *State, p *Term, typ, field string) *Term { return r.getIn(st, p, typ, field) }

// probes gives the locations computed by GetRandDoubleHash a name of their own.
func (r *Run) probes() {
	for _, t := range []string{tDwta, tMin} {
		n := t + ".GetRandDoubleHash"
		r.C.fn(n)
		r.opaque[n] = func(e *Eng, fr *frame, st *State, fn *ssa.Function, args []*Term, pos tokenPos) *Term {
			return app("probe", args...)
		}
	}
	factHooks = append(factHooks, func(t *Term) []*Term {
		if t.Op == OpApp && t.S == "probe" {
			return []*Term{not(ltI0(t))}
		}
		return nil
	})
}

const maxProbes = 128

func ruleC15(c *Ctx) {
	for _, m := range hashMethods {
		t := m[:strings.LastIndex(m, ".")]
		if strings.HasSuffix(m, ".GetRandDoubleHash") {
			c.run(m, func(r *Run) {
				r.isBuilt(t)
				r.assume(inRange(r.A[1], Zero, r.getIn(r.newSt0(), r.A[0], t, "numHashes")), leI(One, r.A[2]))
			}, func(r *Run) {
				r.noPanic("a probe can always be computed", nil)
				r.holds("a probe location is never negative", r.Label, r.know(), leI(Zero, r.Res), r.Fn.Pos())
				r.terminates()
			})
			continue
		}
		c.run(m, func(r *Run) {
			r.isBuilt(t)
			r.probes()
		}, func(r *Run) {
			r.terminates()
			isProbe := func(ev *Event) bool {
				yes := false
				if ev.Kind == "index" {
					depsOf(ev.Args[0], func(u *Term) { yes = yes || u.Op == OpApp && u.S == "probe" })
				}
				return yes
			}
			r.noPanic("a probed location is an existing bin", func(ev *Event) bool { return !isProbe(ev) })
			filling := strings.HasPrefix(m, tDwta) || strings.HasPrefix(m, tMin) && !strings.HasSuffix(m, ".GetMap")
			n := 0
			for _, ev := range r.events {
				if isProbe(ev) {
					n++
				}
			}
			c.ob("empty bins are filled by probing other bins", r.Label, !filling || n > 0, r.Fn.Pos(), "no bin is probed")
		})
	}
	for _, t := range []string{tDwta, tMin} {
		c.run(ctorOf(t), func(r *Run) {
			r.positive(r.A[0], r.A[1])
			r.assume(leI(r.A[0], num(1<<32)))
		}, func(r *Run) {
			h := r.Res
			r.holds("the probe width fits the probe arithmetic", r.Label, r.know(), inRange(r.get1(h, t, "logNumHash"), Zero, num(33)), r.Fn.Pos())
		})
	}
}

func ctorOf(t string) string { return t[:strings.Index(t, ".")] + ".New" }

// terminates: every loop has a number of iterations fixed when it is entered,
// or leaves at the latest in iteration maxProbes; loops that probe bins do so
// whatever the bins contain.
func (r *Run) terminates() {
	var names []string
	for b := range r.finals {
		names = append(names, b)
	}
	sort.Strings(names)
	for _, b := range names {
		l := r.finals[b]
		probing := false
		for _, ev := range r.events {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, ".GetRandDoubleHash") && len(ev.Nest) > 0 && ev.Nest[len(ev.Nest)-1].Base == l.Base {
				probing = true
			}
		}
		late := and(r.Pre, leI(num(maxProbes), l.K))
		early := l.Early != nil && implies(andN(late, l.EntryPC, l.BodyPC), l.Early)
		pos := l.Pos
		if probing {
			r.C.ob("an empty bin is given up after about a hundred probes", fnName(l.Fn), early || l.N != nil && r.proves(l.EntryPC, leI(l.N, num(maxProbes))), pos, "nothing ends the loop: it runs %s times, it is left when %s", show(l.N, 5), show(simplify(l.Early, andN(late, l.EntryPC, l.BodyPC)), 5))
		} else {
			r.C.ob("the number of steps of a loop is fixed when it starts", fnName(l.Fn), early || l.N != nil, pos, "it ends only when %s", show(l.Early, 6))
		}
	}
}

// C13

func ruleC13(c *Ctx) {
	for _, m := range hashMethods {
		t := m[:strings.LastIndex(m, ".")]
		if strings.HasSuffix(m, ".GetRandDoubleHash") || strings.HasSuffix(m, ".GetMap") {
			continue
		}
		c.run(m, func(r *Run) {
			r.isBuilt(t)
			r.probes()
		}, func(r *Run) {
			h := r.A[0]
			n := r.get0(h, t, "numHashes")
			r.eq("there is one code per hash function", r.Label, r.know(), slen(r.Res), n)
			st := r.Fn.Signature.Results().At(0).Type().Underlying().(*types.Slice)
			i := newIdx("i")
			dom := and(r.know(), inRange(i, Zero, n))
			code := simplify(r.at(r.St, r.Res, i, st.Elem()), and(r.Pre, dom))
			table := func(field string, u *Term) bool {
				k, ft := c.field(t, field)
				for s, isS := ft.Underlying().(*types.Slice); isS; s, isS = ft.Underlying().(*types.Slice) {
					ft = s.Elem()
				}
				return u.Op == OpSel && u.K[0].Op == OpHeap && containsP(u.K[1], func(v *Term) bool { return v == fld(h, k) })
			}
			switch t {
			case tDwta:
				r.origins("a densified winner-take-all code lies in 0..7", code, dom, func(u, cond *Term) bool {
					return table("pos", u) || r.proves(cond, inRange(u, Zero, num(8)))
				})
			case tWta:
				r.origins("a winner-take-all code is a coordinate or the no-winner marker", code, dom, func(u, cond *Term) bool {
					return table("indices", u) || r.eqUnder(cond, u, num(math.MinInt64))
				})
			case tSrp:
				r.origins("a random projection code is 0 or 1", code, dom, func(u, cond *Term) bool {
					return r.proves(cond, or(eqI(u, Zero), eqI(u, One)))
				})
			}
		})
	}
	for _, t := range []string{tWta, tDwta, tMin, tSrp} {
		c.run(ctorOf(t), func(r *Run) {
			r.positive(r.A...)
		}, func(r *Run) {
			h := r.Res
			n := r.A[0]
			if t == tSrp {
				n = r.A[1]
			}
			r.eq("a hasher is built for the requested number of codes", r.Label, r.know(), r.get1(h, t, "numHashes"), n)
			elems := func(field, rule string, ok func(v, cond *Term) *Term) {
				_, ft := c.field(t, field)
				s := r.get1(h, t, field)
				i := newIdx("i")
				dom := and(r.know(), inRange(i, Zero, slen(s)))
				r.origins(rule, r.at(r.St, s, i, elemType(ft)), dom, func(u, cond *Term) bool { return r.proves(cond, ok(u, cond)) })
			}
			switch t {
			case tDwta:
				elems("pos", "in-bin positions lie in 0..7", func(v, cond *Term) *Term { return inRange(v, Zero, num(8)) })
			case tWta:
				elems("indices", "the permuted coordinates are input coordinates", func(v, cond *Term) *Term { return inRange(v, Zero, r.A[1]) })
			}
		})
	}
}

// origins proves that every value that can reach t satisfies ok: reads of
// memory written during the run are followed to all writes that may have
// produced them (under the conditions the reader knows about the value), loop
// variables to their first and next values.
func (r *Run) origins(rule string, t, cond *Term, ok func(u, cond *Term) bool) {
	why := r.strange(t, cond, ok)
	r.C.ob(rule, r.Label, why == "", r.Fn.Pos(), "%s", why)
}

// strange describes a value that can reach t and does not satisfy ok, if any.
func (r *Run) strange(t, cond *Term, ok func(u, cond *Term) bool) (why string) {
	seen := map[string]bool{}
	depth := 0
	var rec func(t, cond *Term)
	// freshen renames the counters of the loops around a write
	freshen := func(nest []*Term) Sub {
		m := Sub{}
		for _, k := range nest {
			m[k] = newIdx("w:" + k.S)
		}
		return m
	}
	rec = func(t, cond *Term) {
		depth++
		defer func() { depth-- }()
		if depth > 60 {
			why = "its origins cannot be enumerated"
			return
		}
		for _, u := range leaves(t) {
			pc := simplifyCond(and(cond, leafCond(t, u)))
			if unsat(and(r.Pre, pc)) || ok(u, pc) {
				continue
			}
			if u.Op == OpSym && (strings.HasPrefix(u.S, "fresh:shuffled") || strings.HasPrefix(u.S, "fresh:sorted") || strings.HasPrefix(u.S, "fresh:pq")) {
				// an element the array held before
				id := itoa(u.ID) + "/" + itoa(pc.ID)
				if seen[id] {
					continue
				}
				seen[id] = true
				before := r.permutes(u)
				if before != nil {
					if hs := r.held(before, u.S[strings.Index(u.S, ":")+1:strings.Index(u.S, "@")]); hs != nil {
						for _, h := range hs {
							rec(subst(h.v, freshen(nestKs(before))), subst(h.c, freshen(nestKs(before))))
						}
						continue
					}
				}
			}
			// what is known of the iteration a loop was left in
			left := True
			walk(raw(OpTuple, "", nil, u, leafCond(t, u)), func(v *Term) {
				if v.Op == OpSym && strings.HasPrefix(v.S, "K:") {
					for _, h := range factHooks {
						left = andN(append(h(v), left)...)
					}
				}
			})
			x := sym("origin")
			q := simplifyCond(subst(and(pc, left), Sub{u: x}))
			follow := func(v, vc *Term, m Sub) {
				v, vc = subst(v, m), subst(vc, m)
				for _, w := range leaves(v) {
					// the facts the reader knew now speak about w
					rec(w, andN(subst(about(q, x), Sub{x: w}), leafCond(v, w), vc))
				}
			}
			switch {
			case u.Op == OpSel && freshMem(u.K[1]):
				key := heapKeyOfTerm(u.K[0])
				rt := root(u.K[1])
				id := itoa(u.ID) + "/" + itoa(pc.ID)
				if seen[id] {
					continue
				}
				seen[id] = true
				base := ""
				if l := heapLoop(u.K[0]); l != nil && l.Init[key] != nil {
					// what the loop found, or what it wrote
					base = l.Base
					m := Sub{}
					for i, k := range l.Outer {
						if i+1 < len(u.K[0].K) {
							m[k] = u.K[0].K[i+1]
						}
					}
					follow(subst(readHeap(l.Init[key], u.K[1]), m), pc, Sub{})
				} else if z := zeroOf[key]; z != nil {
					rec(z, subst(about(q, x), Sub{x: z}))
				}
				for _, ev := range r.events {
					in := base == ""
					for _, l := range ev.Nest {
						in = in || l.Base == base
					}
					if in && ev.Key == key && ev.Kind == "store" && (root(ev.Addr) == rt || !freshMem(ev.Addr)) {
						follow(ev.Val, and(ev.PC, okOf(ev)), freshen(nestKs(ev)))
					}
				}
				for _, w := range r.writes() {
					ev := w.ev
					in := base == ""
					for _, l := range ev.Nest {
						in = in || l.Base == base
					}
					at := w.addr
					if ev.Kind == "pq" {
						at = Nil
						if q, _ := r.queueOf(ev); q != nil {
							at = sbase(q)
						}
					}
					if !in || ev.Kind == "store" || ev.Kind == "mapupdate" || root(at) != rt && freshMem(at) || !mayHold(ev, key) {
						continue
					}
					hs := r.held(ev, key)
					if hs == nil {
						goto unknown
					}
					for _, h := range hs {
						follow(h.v, h.c, freshen(nestKs(ev)))
					}
				}
				continue
			case u.Op == OpVar:
				if l := loops[u.S[:strings.Index(u.S, "|")]]; l != nil {
					id := itoa(u.ID) + "/" + itoa(pc.ID)
					if seen[id] {
						continue
					}
					seen[id] = true
					for _, v := range l.Vars {
						if v.Var.S == u.S && v.Init != nil && v.Next != nil {
							outer := freshen(l.Outer)
							follow(v.Init, l.EntryPC, outer)
							follow(v.Next, l.BodyPC, freshen(append([]*Term{l.K}, l.Outer...)))
							goto next
						}
					}
				}
			}
		unknown:
			why = fmt.Sprintf("it may be %s when %s", show(u, 8), show(simplify(pc, r.Pre), 6))
		next:
		}
	}
	rec(t, cond)
	return why
}

// permutes finds the operation whose outcome a symbol stands for.
func (r *Run) permutes(u *Term) *Event {
	for _, ev := range r.events {
		if ev.Sym != "" && strings.HasSuffix(u.S, ev.Sym) {
			return ev
		}
	}
	return nil
}

// mayHold: a block operation works on elements kept under the heap key.
func mayHold(ev *Event, key string) bool {
	if ev.Key != "" {
		return ev.Key == key
	}
	if ev.Typ != nil {
		if _, ok := ev.Typ.Underlying().(*types.Struct); ok {
			return strings.HasPrefix(key, "F:")
		}
	}
	return ev.Typ == nil || key == "E:"+typeKey(ev.Typ) || ev.Kind == "pq"
}

// queueOf is the slice a priority queue operation works on, before it.
func (r *Run) queueOf(ev *Event) (*Term, types.Type) {
	x := ev.Args[0]
	if x.Op != OpIface || x.X == nil {
		return nil, nil
	}
	pt, ok := x.X.(types.Type).Underlying().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	sl, ok := pt.Elem().Underlying().(*types.Slice)
	if !ok {
		return nil, nil
	}
	return r.load(ev.St, x.K[0], pt.Elem()), sl.Elem()
}

type heldVal struct{ v, c *Term }

// held lists the arbitrary elements a block operation moves, and the
// conditions under which it does; for structures the field named last in path.
func (r *Run) held(ev *Event, path string) []heldVal {
	et := ev.Typ
	var q *Term
	switch {
	case ev.Kind == "pq":
		if q, et = r.queueOf(ev); q == nil {
			return nil
		}
	case ev.Kind == "sort" && et != nil:
		if sl, ok := et.Underlying().(*types.Slice); ok && ev.Name == typeKey(et) {
			et = sl.Elem()
		}
	}
	field := -1
	if et != nil {
		if st, ok := et.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if _, deep := st.Field(i).Type().Underlying().(*types.Struct); !deep && strings.HasSuffix(path, "."+st.Field(i).Name()) {
					field = i
				}
			}
			if field < 0 {
				return nil
			}
		}
	}
	k := newIdx("h")
	pc := and(ev.PC, okOf(ev))
	of := func(s *Term) *Term {
		if field < 0 {
			return r.at(ev.St, s, k, et)
		}
		return r.load(ev.St, fld(elem(sbase(s), add(soff(s), k)), fieldName(et, field)), et.Underlying().(*types.Struct).Field(field).Type())
	}
	switch ev.Kind {
	case "copy":
		return []heldVal{{of(ev.Args[1]), and(pc, inRange(k, Zero, ev.Args[2]))}}
	case "append":
		return []heldVal{{of(ev.Args[1]), and(pc, inRange(k, Zero, slen(ev.Args[1])))}}
	case "sort":
		return []heldVal{{of(ev.Args[0]), and(pc, inRange(k, Zero, slen(ev.Args[0])))}}
	case "shuffle":
		return []heldVal{{readHeap(ev.St.heaps[ev.Key], elem(ev.Args[1], k)), and(pc, inRange(k, Zero, ev.Args[0]))}}
	case "pq":
		hs := []heldVal{{of(q), and(pc, inRange(k, Zero, slen(q)))}}
		if ev.Name == "container/heap.Push" {
			x := ev.Args[1]
			if x.Op != OpIface || len(x.K) == 0 {
				return nil
			}
			v := x.K[0]
			if field >= 0 {
				if v.Op != OpStruct {
					return nil
				}
				v = v.K[field]
			}
			hs = append(hs, heldVal{v, pc})
		}
		return hs
	}
	return nil
}

func simplifyCond(t *Term) *Term { return t }

// about keeps what a condition says about x alone.
func about(q, x *Term) *Term {
	c := True
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.Op != OpIte || seen[t] || !contains(t, x) {
			return
		}
		seen[t] = true
		a := t.K[0]
		only := contains(a, x)
		if only && !seen[a] {
			seen[a] = true
			walk(a, func(u *Term) {
				switch u.Op {
				case OpSym, OpSel, OpVar, OpApp:
					only = only && (u == x || contains(u, x))
				}
			})
			if only && unsat(and(q, a)) {
				c = and(c, not(a))
			} else if only && unsat(and(q, not(a))) {
				c = and(c, a)
			}
		}
		rec(t.K[1])
		rec(t.K[2])
	}
	rec(q)
	return c
}

// positive assumes that arguments are positive numbers.
func (r *Run) positive(ts ...*Term) {
	for _, t := range ts {
		nonNeg[t], posTerm[t] = true, true
		r.assume(ltI(Zero, t))
	}
}

// heapLoop is the loop whose effects on memory a heap term stands for.
func heapLoop(h *Term) *LoopInst {
	if h.Op != OpLoopH {
		return nil
	}
	return loops[h.S[:strings.Index(h.S, "|")]]
}
