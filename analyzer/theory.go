package main

// Linear-inequality reasoning over the atoms of decision diagrams: an
// implication test used to prune branches and to discharge obligations.

import (
	"math/big"
	"sort"
	"strings"
)

// A linear constraint: sum C[i]*V[i] + K <= 0 (or < 0 when Strict).
type lin struct {
	c      map[*Term]*big.Rat
	k      *big.Rat
	strict bool
}

var (
	nonNeg    = map[*Term]bool{}      // symbols known to be >= 0
	factHooks []func(t *Term) []*Term // extra facts (boolean terms) about a leaf term
	isIntTerm = map[*Term]bool{}
)

func linOf(p *Term, strict bool) lin {
	l := lin{c: map[*Term]*big.Rat{}, k: new(big.Rat), strict: strict}
	for _, m := range monosOf(p) {
		if len(m.F) == 0 {
			l.k = new(big.Rat).Add(l.k, m.C)
			continue
		}
		v := linVar(m.F)
		if o, ok := l.c[v]; ok {
			l.c[v] = new(big.Rat).Add(o, m.C)
		} else {
			l.c[v] = m.C
		}
	}
	for v, c := range l.c {
		if c.Sign() == 0 {
			delete(l.c, v)
		}
	}
	return l
}

// linVar names a monomial; float(x) and x are the same quantity.
func linVar(fs []Fac) *Term {
	var out []Fac
	for _, f := range fs {
		t := f.T
		if t.Op == OpApp && t.S == "float" {
			t = t.K[0]
		}
		out = mulFacs(out, []Fac{{t, f.E}})
	}
	return mkPoly([]Mono{{C: big.NewRat(1, 1), F: out}})
}

type litSet struct {
	pos, neg []*Term
}

const fmLimit = 260

// infeasible reports whether the conjunction of constraints has no solution.
func infeasible(cs []lin) bool {
	checkBudget()
	// normalise and look for trivial contradictions
	key := func(l lin) string {
		var ids []*Term
		for v := range l.c {
			ids = append(ids, v)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i].ID < ids[j].ID })
		s := ""
		if len(ids) > 0 {
			sc := absR(l.c[ids[0]])
			inv := new(big.Rat).Inv(sc)
			for _, v := range ids {
				s += new(big.Rat).Mul(l.c[v], inv).RatString() + "*" + itoa(v.ID) + " "
			}
		}
		return s
	}
	scaleTo := func(l lin) *big.Rat {
		var best *Term
		for v := range l.c {
			if best == nil || v.ID < best.ID {
				best = v
			}
		}
		if best == nil {
			return l.k
		}
		return new(big.Rat).Quo(l.k, absR(l.c[best]))
	}
	dedupe := func(in []lin) ([]lin, bool) {
		best := map[string]int{}
		var out []lin
		for _, l := range in {
			if len(l.c) == 0 {
				if l.k.Sign() > 0 || (l.k.Sign() == 0 && l.strict) {
					return nil, true
				}
				continue
			}
			k := key(l)
			if i, ok := best[k]; ok {
				a, b := scaleTo(out[i]), scaleTo(l)
				if b.Cmp(a) > 0 || (b.Cmp(a) == 0 && l.strict && !out[i].strict) {
					out[i] = l
				}
				continue
			}
			best[k] = len(out)
			out = append(out, l)
		}
		return out, false
	}
	cs, bad := dedupe(cs)
	if bad {
		return true
	}
	for len(cs) > 0 {
		// choose the variable with the smallest elimination product
		type cnt struct{ p, n int }
		m := map[*Term]*cnt{}
		for _, l := range cs {
			for v, c := range l.c {
				if m[v] == nil {
					m[v] = &cnt{}
				}
				if c.Sign() > 0 {
					m[v].p++
				} else {
					m[v].n++
				}
			}
		}
		var bv *Term
		bc := 0
		for v, c := range m {
			w := c.p*c.n - c.p - c.n
			if bv == nil || w < bc || (w == bc && v.ID < bv.ID) {
				bv, bc = v, w
			}
		}
		if bv == nil {
			return false
		}
		var pos, neg, out []lin
		for _, l := range cs {
			c, ok := l.c[bv]
			switch {
			case !ok:
				out = append(out, l)
			case c.Sign() > 0:
				pos = append(pos, l)
			default:
				neg = append(neg, l)
			}
		}
		if len(pos)*len(neg)+len(out) > fmLimit*8 {
			return false
		}
		for _, p := range pos {
			for _, n := range neg {
				a := new(big.Rat).Inv(p.c[bv])
				b := new(big.Rat).Neg(new(big.Rat).Inv(n.c[bv]))
				l := lin{c: map[*Term]*big.Rat{}, k: new(big.Rat), strict: p.strict || n.strict}
				for v, c := range p.c {
					l.c[v] = new(big.Rat).Mul(c, a)
				}
				for v, c := range n.c {
					x := new(big.Rat).Mul(c, b)
					if o, ok := l.c[v]; ok {
						x = new(big.Rat).Add(o, x)
					}
					l.c[v] = x
				}
				for v, c := range l.c {
					if c.Sign() == 0 {
						delete(l.c, v)
					}
				}
				l.k = new(big.Rat).Add(new(big.Rat).Mul(p.k, a), new(big.Rat).Mul(n.k, b))
				out = append(out, l)
			}
		}
		cs, bad = dedupe(out)
		if bad {
			return true
		}
		if len(cs) > fmLimit {
			return false
		}
	}
	return false
}

func itoa(i int) string {
	return big.NewInt(int64(i)).String()
}

// litLins translates a literal to constraints (conjunction); nil if not linear.
func litLins(a *Term, pos bool) []lin {
	switch a.Op {
	case OpLtI:
		if pos {
			return []lin{linOf(add(a.K[0], One), false)} // p <= -1
		}
		return []lin{linOf(neg(a.K[0]), false)} // p >= 0
	case OpLtF:
		if pos {
			return []lin{linOf(a.K[0], true)}
		}
		return []lin{linOf(neg(a.K[0]), false)}
	case OpEqI, OpEqF:
		if pos {
			return []lin{linOf(a.K[0], false), linOf(neg(a.K[0]), false)}
		}
	case OpEq:
		// a nil slice has no elements
		if pos && (a.K[0] == Nil || a.K[1] == Nil) {
			x := a.K[0]
			if x == Nil {
				x = a.K[1]
			}
			if l := rawLen(x); l != nil {
				return []lin{linOf(l, false), linOf(neg(l), false)}
			}
		}
	}
	return nil
}

// rawLen is len(x) for terms that may be slices.
func rawLen(x *Term) *Term {
	switch x.Op {
	case OpSym, OpSel, OpVar:
		return app("len", x)
	}
	return nil
}

// baseFacts returns facts that hold of a term by construction.
func baseFacts(t *Term) []*Term {
	var out []*Term
	ge0 := func(x *Term) { out = append(out, not(ltI0(x))) }
	if nonNeg[t] {
		ge0(t)
	}
	switch t.Op {
	case OpApp:
		switch t.S {
		case "len", "maplen":
			ge0(t)
		case "cap":
			ge0(sub(t, app("len", t.K[0])))
		case "pow2":
			// only used with non-negative exponents when known
			if t.K[0].Op == OpNum || knownNonNeg(t.K[0]) {
				ge0(sub(t, One))
			} else {
				out = append(out, ltF(Zero, t))
			}
		case "and":
			for _, k := range t.K {
				if isNonNegLeaf(k) {
					ge0(t)
					ge0(sub(k, t))
				}
			}
		case "emod":
			ge0(t)
			out = append(out, ltI(t, t.K[1]), or(ltI0(t.K[0]), or(not(ltI(t.K[0], t.K[1])), eqI(t, t.K[0]))))
			if knownNonNeg(t.K[0]) {
				ge0(sub(t.K[0], t))
			}
		case "rem":
			if n, ok := numInt(t.K[1]); (ok && n > 0) || knownPos(t.K[1]) {
				out = append(out, or(ltI0(t.K[0]), eqI(t, app("emod", t.K[0], t.K[1]))))
			}
			if n, ok := numInt(t.K[1]); ok && n > 0 {
				out = append(out, ltI(t, t.K[1]), ltI(neg(t.K[1]), t))
				if knownNonNeg(t.K[0]) {
					ge0(t)
				}
			} else if knownPos(t.K[1]) {
				out = append(out, ltI(t, t.K[1]), ltI(neg(t.K[1]), t))
				if knownNonNeg(t.K[0]) {
					ge0(t)
				}
			}
		case "quo":
			if n, ok := numInt(t.K[1]); (ok && n > 0 || knownPos(t.K[1])) && knownNonNeg(t.K[0]) {
				ge0(t)
				q := mul(t.K[1], t)
				ge0(sub(t.K[0], q))
				out = append(out, ltI(sub(t.K[0], q), t.K[1]))
				if y := add(sub(t.K[0], t.K[1]), One); knownNonNeg(y) { // y/d rounded up
					ge0(sub(y, t))
				}
			}
		case "trunc":
			if knownPos(t) {
				ge0(sub(t, One))
			}
			// int(f): between f-1 and f for f >= 0
			out = append(out, leFacts(t)...)
		case "math.Floor":
			out = append(out, not(ltF(t.K[0], t)), ltF(sub(t.K[0], One), t))
		case "math.Ceil":
			out = append(out, not(ltF(t, t.K[0])), ltF(t, add(t.K[0], One)))
		case "math.Exp":
			out = append(out, ltF(Zero, t))
			// exp is increasing with exp(0)=1
			out = append(out, ite(ltF(Zero, t.K[0]), ltF(One, t), not(ltF(One, t))))
		case "math.Sqrt", "math.Abs":
			out = append(out, not(ltF(t, Zero)))
		case "wrap32", "wrap64", "wrap8", "wrap16":
			ge0(t)
			bits := map[string]uint{"wrap8": 8, "wrap16": 16, "wrap32": 32, "wrap64": 64}[t.S]
			out = append(out, ltI(t, numR(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), bits)))))
		case "shr":
			if knownNonNeg(t.K[0]) {
				ge0(t)
				ge0(sub(t.K[0], t))
			}
			if b := bitsOf(t.K[0]); b > 0 {
				// x < 2^b  =>  x >> s < 2^(b-s)
				out = append(out, ltI(t, pow2(sub(num(int64(b)), t.K[1]))))
			}
		}
	case OpSum:
		// sums of non-negative terms
		if sumNonNeg(t) {
			ge0(t)
		}
		// a count is at most the number of iterations
		count := true
		for _, l := range leaves(t.K[1]) {
			if l != Zero && l != One {
				count = false
			}
		}
		if count && knownNonNeg(t.K[0]) {
			ge0(sub(t.K[0], t))
		}
	case OpVar:
		if neverNegative(t) {
			ge0(t)
		}
		if f := copiedCounter(t); f != nil {
			out = append(out, f)
		}
	case OpMaxOf:
		out = append(out, not(ltF(t, t.K[0])))
	}
	for _, h := range factHooks {
		out = append(out, h(t)...)
	}
	return out
}

func leFacts(t *Term) []*Term {
	f := t.K[0]
	if f.Op == OpApp && f.S == "math.Log2" && f.K[0].Op == OpApp && f.K[0].S == "float" {
		// 0 <= log2(n) for 1 <= n, log2(n) <= b for n <= 2^b
		n := f.K[0].K[0]
		return []*Term{or(ltI(n, One), and(not(ltI0(t)), or(ltI(num(1<<32), n), ltI(t, num(33)))))}
	}
	nonneg := f.Op == OpApp && (f.S == "math.Floor" || f.S == "math.Ceil")
	var out []*Term
	if nonneg { // already integral: exact
		out = append(out, eqF(app("float", t), f))
		return out
	}
	out = append(out, or(ltF(f, Zero), and(not(ltF(f, app("float", t))), ltF(sub(f, One), app("float", t)))))
	return out
}

func bitsOf(t *Term) int {
	if t.Op == OpApp {
		switch t.S {
		case "wrap8":
			return 8
		case "wrap16":
			return 16
		case "wrap32":
			return 32
		case "wrap64":
			return 64
		}
	}
	return 0
}

func isNonNegLeaf(t *Term) bool {
	if t.Op == OpNum {
		return t.N.Sign() >= 0
	}
	// 2^x - 1
	if t.Op == OpPoly && len(t.M) == 2 {
		rest, c := splitConst(t)
		if rest.Op == OpApp && rest.S == "pow2" && c.Cmp(big.NewRat(-1, 1)) == 0 {
			return true
		}
	}
	return knownNonNeg(t)
}

// leastPos: a sum of positive terms, each at least one, outweighs the constant.
func leastPos(t *Term) bool {
	total := new(big.Rat)
	for _, m := range t.M {
		total.Add(total, m.C)
		if len(m.F) == 0 {
			continue
		}
		if m.C.Sign() < 0 {
			return false
		}
		for _, f := range m.F {
			if f.E < 0 || !posTerm[f.T] {
				return false
			}
		}
	}
	return total.Sign() >= 0
}

// knownNonNeg is a cheap syntactic test.
func knownNonNeg(t *Term) bool {
	switch t.Op {
	case OpNum:
		return t.N.Sign() >= 0
	case OpPoly:
		if leastPos(t) {
			return true
		}
		for _, m := range t.M {
			if m.C.Sign() < 0 {
				return false
			}
			for _, f := range m.F {
				if f.E%2 != 0 && !knownNonNeg(f.T) {
					return false
				}
			}
		}
		return true
	case OpApp:
		switch t.S {
		case "len", "cap", "maplen", "wrap8", "wrap16", "wrap32", "wrap64", "math.Sqrt", "math.Exp", "math.Abs", "pow2", "emod":
			return true
		case "and":
			return isNonNegLeaf(t.K[0]) || isNonNegLeaf(t.K[1])
		case "shr", "rem", "quo", "float":
			if t.S == "quo" && !knownNonNeg(t.K[1]) {
				return false
			}
			return knownNonNeg(t.K[0])
		}
	case OpIte:
		return knownNonNeg(t.K[1]) && knownNonNeg(t.K[2])
	case OpSum:
		return sumNonNeg(t)
	case OpBVar:
		return true
	case OpVar:
		if isLenVar(t) || neverNegative(t) {
			return true
		}
	}
	if nonNeg[t] {
		return true
	}
	for _, h := range factHooks {
		for _, f := range h(t) {
			if f == not(ltI0(t)) {
				return true
			}
		}
	}
	return false
}
func knownPos(t *Term) bool {
	switch t.Op {
	case OpNum:
		return t.N.Sign() > 0
	case OpApp:
		switch t.S {
		case "pow2":
			return true
		case "float":
			return knownPos(t.K[0])
		case "trunc":
			return t.K[0].Op == OpApp && t.K[0].S == "math.Ceil" && knownPos(t.K[0].K[0])
		}
	case OpPoly:
		for _, m := range t.M {
			if m.C.Sign() <= 0 {
				return false
			}
			for _, f := range m.F {
				if !knownPos(f.T) {
					return false
				}
			}
		}
		return len(t.M) > 0
	}
	if posTerm[t] {
		return true
	}
	return false
}

var posTerm = map[*Term]bool{}

func sumNonNeg(t *Term) bool { return knownNonNeg(t.K[1]) }

// ---- satisfiability of a diagram

type satCtx struct {
	budget    int
	factsSeen map[*Term]bool
}

// unsat reports that no assignment of the atoms of r is consistent.
// It is a bounded walk over the diagram; running out of budget means "unknown".
func unsat(r *Term) bool {
	r = asBool(r)
	if r == False {
		return true
	}
	if r == True {
		return false
	}
	if v, ok := memoUnsat[r]; ok {
		return v
	}
	c := &satCtx{budget: 3000}
	v := c.walk(r, nil)
	memoUnsat[r] = v
	return v
}

var memoUnsat = map[*Term]bool{}

type lit struct {
	a   *Term
	pos bool
}

func (c *satCtx) walk(r *Term, lits []lit) bool {
	c.budget--
	if c.budget < 0 {
		return false
	}
	if r == False {
		return true
	}
	if r.Op != OpIte {
		// leaf True: check the conjunction
		return litsInfeasible(lits)
	}
	if len(lits) > 0 && len(lits)%3 == 0 && litsInfeasibleQuick(lits) {
		return true
	}
	at := r.K[0]
	if !c.walk(r.K[1], append(lits[:len(lits):len(lits)], lit{at, true})) {
		return false
	}
	return c.walk(r.K[2], append(lits[:len(lits):len(lits)], lit{at, false}))
}

var memoLits = map[string]bool{}

func litsKey(lits []lit) string {
	ids := make([]int, len(lits))
	for i, l := range lits {
		ids[i] = l.a.ID * 2
		if l.pos {
			ids[i]++
		}
	}
	sort.Ints(ids)
	b := make([]byte, 0, 8*len(ids))
	for _, i := range ids {
		b = append(b, byte(i), byte(i>>8), byte(i>>16), byte(i>>24))
	}
	return string(b)
}

func litsInfeasibleQuick(lits []lit) bool {
	return litsInfeasible(lits)
}

func litsInfeasible(lits []lit) bool {
	k := litsKey(lits)
	if v, ok := memoLits[k]; ok {
		return v
	}
	v := litsInfeasible1(lits)
	memoLits[k] = v
	return v
}

// isLit: an atom or a negated atom.
func isLit(t *Term) bool {
	return t.Op == OpIte && t.K[0].Op != OpIte && (t.K[1] == False && t.K[2] == True || t.K[1] == True && t.K[2] == False)
}

// occursNested: v occurs inside an opaque part of a.
func occursNested(a, v *Term) bool {
	switch a.Op {
	case OpLtI, OpLtF, OpEqI, OpEqF:
		for _, m := range monosOf(a.K[0]) {
			for _, f := range m.F {
				if f.T != v && contains(f.T, v) {
					return true
				}
			}
		}
		return false
	}
	return a != v && contains(a, v)
}

func litsInfeasible1(lits []lit) bool {
	// equalities between opaque terms: simple substitution closure
	rep := Sub{}
	for _, l := range lits {
		if l.pos && l.a.Op == OpEq {
			a, b := l.a.K[0], l.a.K[1]
			if a.Op == OpStr || a.Op == OpNil {
				a, b = b, a
			}
			if _, ok := rep[a]; !ok && !contains(b, a) {
				rep[a] = b
			}
		}
	}
	defs := map[*Term]bool{}
	for _, l := range lits {
		if !l.pos || l.a.Op != OpEqI {
			continue
		}
		for _, m := range monosOf(l.a.K[0]) {
			if len(m.F) != 1 || m.F[0].E != 1 || m.F[0].T.Op != OpSym || !absR(m.C).IsInt() || absR(m.C).Num().Int64() != 1 {
				continue
			}
			v := m.F[0].T
			if _, ok := rep[v]; ok || !(idxSym[v] || strings.HasPrefix(v.S, "k:")) {
				continue
			}
			nested := false
			for _, l2 := range lits {
				nested = nested || occursNested(l2.a, v)
			}
			c, rest, ok := linear(l.a.K[0], v)
			if !nested || !ok || contains(rest, v) {
				continue
			}
			rep[v] = subst(scale(c, neg(rest)), rep)
			defs[l.a] = true
			break
		}
	}
	if len(rep) > 0 {
		for i := range lits {
			l := lits[i]
			if l.pos && l.a.Op == OpEq || defs[l.a] {
				continue
			}
			na := asBool(subst(l.a, rep))
			if na == True && !l.pos || na == False && l.pos {
				return true
			}
			if len(defs) > 0 && isLit(na) && na.K[0] != l.a {
				p := l.pos
				if na.K[1] == False { // negated atom
					p = !p
				}
				na = na.K[0]
				lits = append(lits[:len(lits):len(lits)], lit{na, p})
			}
		}
	}
	for i := range lits {
		if lits[i].a.Op == OpEq && !lits[i].pos && lits[i].a.K[0] == lits[i].a.K[1] {
			return true
		}
	}
	var cs []lin
	var diseq []*Term
	seen := map[*Term]bool{}
	extra := []lit{}
	var addTerm func(t *Term, depth int)
	var addFact func(f *Term, depth int)
	addLit := func(a *Term, pos bool, depth int) {
		if (a.Op == OpEqI || a.Op == OpEqF) && !pos {
			diseq = append(diseq, a)
		}
		cs = append(cs, litLins(a, pos)...)
		addTerm(a, depth)
	}
	known := map[*Term]bool{}
	for _, l := range lits {
		known[l.a] = l.pos
	}
	addFact = func(f *Term, depth int) {
		for f.Op == OpIte {
			if v, ok := known[f.K[0]]; ok {
				if v {
					f = f.K[1]
				} else {
					f = f.K[2]
				}
			} else {
				break
			}
		}
		// conjunctions of literals are added; disjunctions are kept for one split
		for f.Op == OpIte {
			if f.K[1] == False {
				addLit(f.K[0], false, depth)
				f = f.K[2]
			} else if f.K[2] == False {
				addLit(f.K[0], true, depth)
				f = f.K[1]
			} else {
				break
			}
		}
		if f == False {
			cs = append(cs, lin{c: map[*Term]*big.Rat{}, k: big.NewRat(1, 1)})
		}
		if f.Op == OpIte {
			splits = append(splits, f)
		}
	}
	saved := splits
	splits = nil
	addTerm = func(t *Term, depth int) {
		if depth > 3 {
			return
		}
		walk(t, func(u *Term) {
			if seen[u] {
				return
			}
			seen[u] = true
			switch u.Op {
			case OpApp, OpSym, OpSel, OpSum, OpMaxOf, OpVar, OpBVar:
				if u.Op == OpBVar {
					cs = append(cs, linOf(neg(u), false))
				}
				for _, f := range baseFacts(u) {
					addFact(f, depth+1)
				}
			}
		})
	}
	for _, l := range lits {
		addLit(l.a, l.pos, 0)
	}
	// instantiate negated existentials at the index-like symbols around
	var cands []*Term
	for u := range seen {
		if (u.Op == OpSym && (nonNeg[u] || idxSym[u])) || (u.Op == OpApp && (u.S == "quo")) {
			cands = append(cands, u)
		}
	}
	sort.Slice(cands, func(i, j int) bool { return cands[i].ID < cands[j].ID })
	for _, l := range lits {
		if l.a.Op == OpExists && !l.pos {
			for _, cnd := range instCands(l.a, cands, seen) {
				b := outerB(l.a)
				inst := subst(l.a.K[1], Sub{b: cnd})
				f := or(not(and(not(ltI0(cnd)), ltI(cnd, l.a.K[0]))), not(inst))
				addFact(f, 1)
			}
		}
	}
	var maxes []*Term
	for _, l := range lits {
		walkOpen(l.a, func(u *Term) {
			if u.Op == OpMaxOf {
				maxes = append(maxes, u)
			}
		})
	}
	sort.Slice(maxes, func(i, j int) bool { return maxes[i].ID < maxes[j].ID })
	for i, m := range maxes {
		if i > 0 && maxes[i-1] == m {
			continue
		}
		for _, cnd := range instCands(m, cands, seen) {
			inst := subst(m.K[2], Sub{outerB(m): cnd})
			addFact(or(not(and(not(ltI0(cnd)), ltI(cnd, m.K[1]))), not(ltF(m, inst))), 1)
		}
	}
	mySplits := splits
	splits = saved
	_ = extra
	if infeasible(cs) {
		return true
	}
	for _, d := range diseq {
		lo := append(append([]lin(nil), cs...), strictLin(d, true))
		hi := append(append([]lin(nil), cs...), strictLin(d, false))
		if infeasible(lo) && infeasible(hi) {
			return true
		}
	}
	if splitDepth < 2 {
		for i, f := range mySplits {
			if i > 6 {
				break
			}
			splitDepth++
			ok := splitInfeasible(f, cs, lits)
			splitDepth--
			if ok {
				return true
			}
		}
	}
	return false
}

var (
	splits     []*Term
	splitDepth int
	idxSym     = map[*Term]bool{}
)

// walkOpen visits the subterms of t outside the bodies of binders.
func walkOpen(t *Term, f func(u *Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		ks := t.K
		if t.Op == OpSum || t.Op == OpExists || t.Op == OpMaxOf {
			ks = ks[:len(ks)-1]
		}
		for _, k := range ks {
			rec(k)
		}
		for _, m := range t.M {
			for _, x := range m.F {
				rec(x.T)
			}
		}
	}
	rec(t)
}

func instCands(ex *Term, c []*Term, seen map[*Term]bool) []*Term {
	// element addresses of the body matched against those around
	bv := outerB(ex)
	var out []*Term
	dup := map[*Term]bool{}
	walk(ex.K[len(ex.K)-1], func(p *Term) {
		if p.Op == OpSym {
			for i, q := range p.K {
				if q != bv {
					continue
				}
				for u := range seen {
					same := u.Op == OpSym && u.S == p.S && len(u.K) == len(p.K) && maxB(u) < 0
					for j := 0; same && j < len(p.K); j++ {
						same = j == i || u.K[j] == p.K[j]
					}
					if same && !dup[u.K[i]] {
						dup[u.K[i]] = true
						out = append(out, u.K[i])
					}
				}
			}
			return
		}
		if p.Op != OpElem || contains(p.K[0], bv) {
			return
		}
		k, rest, ok := linear(p.K[1], bv)
		if !ok || k.Sign() == 0 || !k.IsInt() || k.Num().CmpAbs(big.NewInt(1)) != 0 {
			return
		}
		for u := range seen {
			if u.Op == OpElem && u.K[0] == p.K[0] && !contains(u.K[1], bv) {
				x := scale(k, sub(u.K[1], rest))
				if maxB(x) < 0 && !dup[x] {
					dup[x] = true
					out = append(out, x)
				}
			}
		}
	})
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	if len(out) > 6 {
		out = out[:6]
	}
	for _, x := range c {
		if !dup[x] && len(out) < 12 {
			out = append(out, x)
		}
	}
	return out
}

// outerB returns the bound variable of a quantifier node.
func outerB(t *Term) *Term {
	body := t.K[len(t.K)-1]
	m := maxB(body)
	if m < 0 {
		m = 0
	}
	return bvar(m)
}

func strictLin(d *Term, lo bool) lin {
	p := d.K[0]
	if d.Op == OpEqI {
		if lo {
			return linOf(add(p, One), false)
		}
		return linOf(sub(One, p), false)
	}
	if lo {
		return linOf(p, true)
	}
	return linOf(neg(p), true)
}

// splitInfeasible checks that every branch of a disjunctive fact contradicts cs.
func splitInfeasible(f *Term, cs []lin, lits []lit) bool {
	if f == False {
		return true
	}
	if f.Op != OpIte {
		return infeasible(cs)
	}
	// respect literals that are already fixed
	for _, l := range lits {
		if l.a == f.K[0] {
			if l.pos {
				return splitInfeasible(f.K[1], cs, lits)
			}
			return splitInfeasible(f.K[2], cs, lits)
		}
	}
	a := append(append([]lin(nil), cs...), litLins(f.K[0], true)...)
	if !splitInfeasible(f.K[1], a, lits) {
		return false
	}
	b := append(append([]lin(nil), cs...), litLins(f.K[0], false)...)
	return splitInfeasible(f.K[2], b, lits)
}

// implies proves c under pc.
func implies(pc, c *Term) bool {
	c = asBool(c)
	if c == True {
		return true
	}
	return unsat(and(pc, not(c)))
}

// decideUnder evaluates the boolean c under pc, pruning infeasible branches.
func decideUnder(pc, c *Term) *Term {
	c = asBool(c)
	if c.Op != OpIte {
		return c
	}
	c = simplify(c, pc)
	return c
}

// essential literals of a diagram: the conjunctive chain at its top.
func essential(pc *Term) []lit {
	if r, ok := memoEss[pc.ID]; ok {
		return r
	}
	var out []lit
	var rec func(t *Term)
	rec = func(t *Term) {
		for t.Op == OpIte {
			if t.K[1] == False {
				out = append(out, lit{t.K[0], false})
				t = t.K[2]
			} else if t.K[2] == False {
				out = append(out, lit{t.K[0], true})
				t = t.K[1]
			} else {
				// literals common to both branches
				a := map[lit]bool{}
				for _, l := range essential(t.K[1]) {
					a[l] = true
				}
				for _, l := range essential(t.K[2]) {
					if a[l] {
						out = append(out, l)
					}
				}
				return
			}
		}
	}
	rec(pc)
	memoEss[pc.ID] = out
	return out
}

var memoEss = map[int][]lit{}
var memoSimp = map[[2]int]*Term{}

// simplify removes from t the branches that pc excludes.
func simplify(t, pc *Term) *Term {
	if t.Op != OpIte || pc == True && false {
		return t
	}
	k := [2]int{t.ID, pc.ID}
	if r, ok := memoSimp[k]; ok {
		return r
	}
	bud := 400
	r := simp1(t, pc, nil, &bud)
	memoSimp[k] = r
	return r
}

func simp1(t, pc *Term, path []lit, bud *int) *Term {
	if t.Op != OpIte {
		return t
	}
	*bud--
	if *bud < 0 {
		return t
	}
	at := t.K[0]
	lits := append(path[:len(path):len(path)], essential(pc)...)
	for _, l := range lits {
		if l.a == at {
			if l.pos {
				return simp1(t.K[1], pc, path, bud)
			}
			return simp1(t.K[2], pc, path, bud)
		}
	}
	side := func(pos bool) (*Term, []lit, bool) {
		p := deepCof(pc, at, pos)
		pl := append(path[:len(path):len(path)], lit{at, pos})
		if p == False {
			return p, pl, false
		}
		all := append(pl[:len(pl)-1:len(pl)-1], essential(p)...)
		all = append(all, lit{at, pos})
		return p, pl, !litsInfeasible(relevant(all))
	}
	hp, hl, hok := side(true)
	if !hok {
		return simp1(t.K[2], deepCof(pc, at, false), path, bud)
	}
	lp, ll, lok := side(false)
	if !lok {
		return simp1(t.K[1], hp, path, bud)
	}
	hi := simp1(t.K[1], hp, hl, bud)
	lo := simp1(t.K[2], lp, ll, bud)
	if at.Op == OpLtI && hi.Op != OpIte && lo.Op != OpIte && hi != lo {
		// the smaller (or larger) of two numbers whose order is nearly known
		d := sub(hi, lo)
		if sub(at.K[0], d).Op == OpNum || add(at.K[0], d).Op == OpNum {
			never := func(c *Term, all []lit) bool {
				switch {
				case c == False:
					return true
				case c.Op == OpLtI:
					all = append(all[:len(all):len(all)], lit{c, true})
				case isLit(c):
					all = append(all[:len(all):len(all)], lit{c.K[0], c.K[1] == True})
				default:
					return false
				}
				return litsInfeasible(relevant(all))
			}
			same := func(p *Term, l []lit) bool {
				all := append(l[:len(l):len(l)], essential(p)...)
				return never(ltI(hi, lo), all) && never(ltI(lo, hi), all)
			}
			if same(hp, hl) {
				return lo
			}
			if same(lp, ll) {
				return hi
			}
		}
	}
	if hi == t.K[1] && lo == t.K[2] {
		return t
	}
	return ite(rawIte(at, True, False), hi, lo)
}

// relevant keeps the literals connected (by shared leaf terms) to the last one.
func relevant(lits []lit) []lit {
	if len(lits) <= 4 {
		return lits
	}
	vars := func(t *Term) map[*Term]bool {
		m := map[*Term]bool{}
		walk(t, func(u *Term) {
			switch u.Op {
			case OpSym, OpSel, OpVar, OpApp, OpAlloc:
				m[u] = true
			}
		})
		return m
	}
	n := len(lits)
	vs := make([]map[*Term]bool, n)
	for i, l := range lits {
		vs[i] = atomVars(l.a, vars)
	}
	in := make([]bool, n)
	in[n-1] = true
	cur := map[*Term]bool{}
	for v := range vs[n-1] {
		cur[v] = true
	}
	for round := 0; round < 3; round++ {
		for i := range lits {
			if in[i] {
				continue
			}
			for v := range vs[i] {
				if cur[v] {
					in[i] = true
					break
				}
			}
			if in[i] {
				for v := range vs[i] {
					cur[v] = true
				}
			}
		}
	}
	var out []lit
	for i, l := range lits {
		if in[i] {
			out = append(out, l)
		}
	}
	return out
}

var memoAtomVars = map[*Term]map[*Term]bool{}

func atomVars(a *Term, f func(*Term) map[*Term]bool) map[*Term]bool {
	if m, ok := memoAtomVars[a]; ok {
		return m
	}
	m := f(a)
	memoAtomVars[a] = m
	return m
}

// provedEq shows a == b under pc, splitting on the conditions of both.
func provedEq(pc, a, b *Term) bool {
	bud := 600
	return provedEq1(pc, a, b, &bud)
}

func provedEq1(pc, a, b *Term, bud *int) bool {
	if a == b {
		return true
	}
	*bud--
	if *bud < 0 {
		return false
	}
	at := topAtom(a, b)
	if at != nil {
		c := rawIte(at, True, False)
		p := and(pc, c)
		if !unsat(p) && !provedEq1(p, cof(a, at, true), cof(b, at, true), bud) {
			return false
		}
		n := and(pc, not(c))
		if !unsat(n) && !provedEq1(n, cof(a, at, false), cof(b, at, false), bud) {
			return false
		}
		return true
	}
	if isBoolLeaf(a) || isBoolLeaf(b) {
		return unsat(pc)
	}
	if unsat(pc) {
		return true
	}
	numeric := func(t *Term) bool {
		switch t.Op {
		case OpNum, OpPoly, OpSum, OpMaxOf:
			return true
		case OpSym, OpSel, OpApp, OpVar, OpBVar:
			return true
		}
		return false
	}
	if numeric(a) && numeric(b) {
		if implies(pc, eqF(a, b)) {
			return true
		}
	}
	if a.Op == b.Op && a.S == b.S && len(a.K) == len(b.K) && len(a.K) > 0 {
		for i := range a.K {
			if !provedEq1(pc, a.K[i], b.K[i], bud) {
				return false
			}
		}
		return true
	}
	return false
}
