package main

// Hash-consed value graph terms. A term is either ite-free ("leaf") or an
// ordered decision diagram whose inner nodes test boolean atoms and whose
// leaves are ite-free terms. All operations are lifted over the diagrams, so
// that two computations that agree under every branch condition get the same
// node.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type Op uint8

const (
	OpNum Op = iota
	OpStr
	OpTrue
	OpFalse
	OpNil
	OpSym   // free symbol; kids: loop counters it varies with
	OpPoly  // polynomial over leaf terms with rational coefficients
	OpIte   // K[0] atom, K[1], K[2]
	OpLtI   // K[0] < 0, integers
	OpLtF   // K[0] < 0, reals
	OpEqI   // K[0] == 0, integers
	OpEqF   // K[0] == 0, reals
	OpEq    // K[0] == K[1], anything else
	OpApp   // uninterpreted function S
	OpAlloc // object allocated at site S; kids: loop counters
	OpGlob  // address of a package-level variable
	OpFld   // address of field S of the struct at K[0]
	OpElem  // address of element K[1] of the array at K[0]
	OpMapEl // address of the entry for key K[1] of map K[0]
	OpSel   // content of heap K[0] at address K[1]
	OpHeap  // initial heap for key S
	OpLoopH // heap S ("loop|key") at start of iteration K[0]
	OpHavoc // unknown heap contents
	OpSlice // base, offset, len, cap
	OpStruct
	OpTuple
	OpClosure
	OpIface
	OpSum    // sum over b in [0,K[0]) of K[1]
	OpExists // exists b in [0,K[0]) with K[1]
	OpMaxOf  // max of K[0] and all K[2] for b in [0,K[1])
	OpBVar   // bound variable
	OpVar    // loop-carried variable S at start of iteration K[0]
)

type Term struct {
	ID int
	Op Op
	S  string
	N  *big.Rat
	K  []*Term
	M  []Mono
	X  interface{}
}

type Mono struct {
	C *big.Rat
	F []Fac
}

type Fac struct {
	T *Term
	E int
}

var (
	table  map[string]*Term
	byID   []*Term
	memoIt map[[3]int]*Term
	memoAp map[string]*Term

	True, False, Nil, Zero, One *Term
)

// resetTerms starts a fresh value graph (one per analysed root).
func resetTerms() {
	table = map[string]*Term{}
	byID = nil
	memoIt = map[[3]int]*Term{}
	memoAp = map[string]*Term{}
	memoUnsat = map[*Term]bool{}
	memoLits = map[string]bool{}
	memoSimp = map[[2]int]*Term{}
	memoEss = map[int][]lit{}
	memoAtomVars = map[*Term]map[*Term]bool{}
	nonNeg = map[*Term]bool{}
	posTerm = map[*Term]bool{}
	idxSym = map[*Term]bool{}
	factHooks = nil
	True = raw(OpTrue, "", nil)
	False = raw(OpFalse, "", nil)
	Nil = raw(OpNil, "", nil)
	Zero = num(0)
	One = num(1)
}

func intern(key string, mk func() *Term) *Term {
	if t, ok := table[key]; ok {
		return t
	}
	t := mk()
	t.ID = len(byID)
	if t.ID&1023 == 0 {
		checkBudget()
	}
	byID = append(byID, t)
	table[key] = t
	return t
}

func raw(op Op, s string, x interface{}, kids ...*Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|", op, s)
	for _, k := range kids {
		fmt.Fprintf(&b, "%d,", k.ID)
	}
	return intern(b.String(), func() *Term {
		return &Term{Op: op, S: s, X: x, K: append([]*Term(nil), kids...)}
	})
}

func num(n int64) *Term { return numR(big.NewRat(n, 1)) }
func numR(r *big.Rat) *Term {
	return intern("n|"+r.RatString(), func() *Term { return &Term{Op: OpNum, N: r} })
}
func str(s string) *Term                 { return raw(OpStr, s, nil) }
func sym(name string, ks ...*Term) *Term { return raw(OpSym, name, nil, ks...) }
func bvar(i int) *Term                   { return raw(OpBVar, fmt.Sprint(i), i) }
func boolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

func isNum(t *Term) bool { return t.Op == OpNum }
func numInt(t *Term) (int64, bool) {
	if t.Op == OpNum && t.N.IsInt() && t.N.Num().IsInt64() {
		return t.N.Num().Int64(), true
	}
	return 0, false
}

// ---- decision diagrams

func topAtom(ts ...*Term) *Term {
	var best *Term
	for _, t := range ts {
		if t.Op == OpIte && (best == nil || t.K[0].ID < best.ID) {
			best = t.K[0]
		}
	}
	return best
}

func isAtomOp(op Op) bool {
	switch op {
	case OpTrue, OpFalse, OpIte:
		return false
	}
	return true
}

// asBool turns a boolean leaf atom into its diagram form.
func asBool(t *Term) *Term {
	switch t.Op {
	case OpTrue, OpFalse, OpIte:
		return t
	}
	return rawIte(t, True, False)
}

func rawIte(atom, hi, lo *Term) *Term {
	if hi == lo {
		return hi
	}
	return raw(OpIte, "", nil, atom, hi, lo)
}

func cof(t, atom *Term, pos bool) *Term {
	if t.Op == OpIte && t.K[0] == atom {
		if pos {
			return t.K[1]
		}
		return t.K[2]
	}
	return t
}

// deepCof is the cofactor of a diagram for an atom anywhere in it.
func deepCof(t, atom *Term, pos bool) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.Op != OpIte {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.K[0] == atom {
			r = rec(cof(t, atom, pos))
		} else {
			r = ite(rawIte(t.K[0], True, False), rec(t.K[1]), rec(t.K[2]))
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// ite builds the diagram "if c then a else b" for any boolean diagram c.
func ite(c, a, b *Term) *Term {
	c = asBool(c)
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	key := [3]int{c.ID, a.ID, b.ID}
	if r, ok := memoIt[key]; ok {
		return r
	}
	var r *Term
	at := topAtom(c, a, b)
	hi := ite(cof(c, at, true), cof(a, at, true), cof(b, at, true))
	lo := ite(cof(c, at, false), cof(a, at, false), cof(b, at, false))
	if hi != lo && hi.Op == lo.Op && (hi.Op == OpStruct || hi.Op == OpTuple) && hi.S == lo.S && len(hi.K) == len(lo.K) {
		ks := make([]*Term, len(hi.K))
		ac := rawIte(at, True, False)
		for i := range ks {
			ks[i] = ite(ac, hi.K[i], lo.K[i])
		}
		r = raw(hi.Op, hi.S, hi.X, ks...)
	} else if isBoolLeaf(hi) || isBoolLeaf(lo) || isBoolish(hi) || isBoolish(lo) {
		r = rawIte(at, asBool2(hi), asBool2(lo))
	} else {
		r = rawIte(at, hi, lo)
	}
	memoIt[key] = r
	return r
}

func isBoolLeaf(t *Term) bool { return t.Op == OpTrue || t.Op == OpFalse }
func isBoolish(t *Term) bool {
	switch t.Op {
	case OpLtI, OpLtF, OpEqI, OpEqF, OpEq, OpExists:
		return true
	}
	return false
}

// asBool2 converts leaf atoms only when the diagram is known to be boolean.
// The converted atom must respect the order, so it is rebuilt through ite.
func asBool2(t *Term) *Term {
	if t.Op == OpIte || isBoolLeaf(t) {
		return t
	}
	return rawIte(t, True, False)
}

func not(a *Term) *Term    { return ite(a, False, True) }
func and(a, b *Term) *Term { return ite(a, asBool(b), False) }
func or(a, b *Term) *Term  { return ite(a, True, asBool(b)) }
func iff(a, b *Term) *Term { return ite(a, asBool(b), not(b)) }
func andN(ts ...*Term) *Term {
	r := True
	for _, t := range ts {
		r = and(r, t)
	}
	return r
}

// lift applies f to the leaves of args.
func lift(name string, f func([]*Term) *Term, args ...*Term) *Term {
	at := topAtom(args...)
	if at == nil {
		return f(args)
	}
	var b strings.Builder
	b.WriteString(name)
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.ID)
	}
	key := b.String()
	if r, ok := memoAp[key]; ok {
		return r
	}
	his := make([]*Term, len(args))
	los := make([]*Term, len(args))
	for i, a := range args {
		his[i] = cof(a, at, true)
		los[i] = cof(a, at, false)
	}
	r := ite(rawIte(at, True, False), lift(name, f, his...), lift(name, f, los...))
	memoAp[key] = r
	return r
}

// ---- polynomials

func monosOf(t *Term) []Mono {
	switch t.Op {
	case OpNum:
		if t.N.Sign() == 0 {
			return nil
		}
		return []Mono{{C: t.N}}
	case OpPoly:
		return t.M
	}
	return []Mono{{C: big.NewRat(1, 1), F: []Fac{{t, 1}}}}
}

func facKey(fs []Fac) string {
	var b strings.Builder
	for _, f := range fs {
		fmt.Fprintf(&b, "%d^%d ", f.T.ID, f.E)
	}
	return b.String()
}

func mkPoly(ms []Mono) *Term {
	acc := map[string]*Mono{}
	for _, m := range ms {
		k := facKey(m.F)
		if o, ok := acc[k]; ok {
			o.C = new(big.Rat).Add(o.C, m.C)
		} else {
			mm := Mono{C: m.C, F: m.F}
			acc[k] = &mm
		}
	}
	var out []Mono
	for _, m := range acc {
		if m.C.Sign() != 0 {
			out = append(out, *m)
		}
	}
	if len(out) == 0 {
		return num(0)
	}
	sort.Slice(out, func(i, j int) bool { return lessFac(out[i].F, out[j].F) })
	if len(out) == 1 {
		m := out[0]
		if len(m.F) == 0 {
			return numR(m.C)
		}
		if len(m.F) == 1 && m.F[0].E == 1 && m.C.Cmp(big.NewRat(1, 1)) == 0 {
			return m.F[0].T
		}
	}
	var b strings.Builder
	b.WriteString("p|")
	for _, m := range out {
		b.WriteString(m.C.RatString())
		b.WriteString("*")
		b.WriteString(facKey(m.F))
		b.WriteString("+")
	}
	return intern(b.String(), func() *Term { return &Term{Op: OpPoly, M: out} })
}

// constant monomial sorts last
func lessFac(a, b []Fac) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].T.ID != b[i].T.ID {
			return a[i].T.ID < b[i].T.ID
		}
		if a[i].E != b[i].E {
			return a[i].E > b[i].E
		}
	}
	return len(a) > len(b)
}

func mulFacs(a, b []Fac) []Fac {
	m := map[*Term]int{}
	for _, f := range a {
		m[f.T] += f.E
	}
	for _, f := range b {
		m[f.T] += f.E
	}
	var out []Fac
	for t, e := range m {
		if e != 0 {
			out = append(out, Fac{t, e})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].T.ID < out[j].T.ID })
	return out
}

func add(a, b *Term) *Term {
	return lift("add", func(x []*Term) *Term {
		return mkPoly(append(append([]Mono(nil), monosOf(x[0])...), monosOf(x[1])...))
	}, a, b)
}

func scale(c *big.Rat, a *Term) *Term {
	return lift("scale"+c.RatString(), func(x []*Term) *Term {
		var out []Mono
		for _, m := range monosOf(x[0]) {
			out = append(out, Mono{C: new(big.Rat).Mul(c, m.C), F: m.F})
		}
		return mkPoly(out)
	}, a)
}
func neg(a *Term) *Term    { return scale(big.NewRat(-1, 1), a) }
func sub(a, b *Term) *Term { return add(a, neg(b)) }
func mul(a, b *Term) *Term {
	return lift("mul", func(x []*Term) *Term {
		var out []Mono
		for _, m := range monosOf(x[0]) {
			for _, n := range monosOf(x[1]) {
				out = append(out, Mono{C: new(big.Rat).Mul(m.C, n.C), F: mulFacs(m.F, n.F)})
			}
		}
		return mkPoly(out)
	}, a, b)
}

func powInt(a *Term, e int) *Term {
	if e == 0 {
		return One
	}
	if e < 0 {
		return inv(powInt(a, -e))
	}
	r := a
	for i := 1; i < e; i++ {
		r = mul(r, a)
	}
	return r
}

// inv is the real inverse.
func inv(a *Term) *Term {
	return lift("inv", func(x []*Term) *Term {
		ms := monosOf(x[0])
		if len(ms) == 0 {
			return app("inv0")
		}
		if len(ms) == 1 {
			var fs []Fac
			for _, f := range ms[0].F {
				fs = append(fs, Fac{f.T, -f.E})
			}
			return mkPoly([]Mono{{C: new(big.Rat).Inv(ms[0].C), F: fs}})
		}
		lead := ms[0].C
		n := scale(new(big.Rat).Inv(lead), x[0])
		return mkPoly([]Mono{{C: new(big.Rat).Inv(lead), F: []Fac{{n, -1}}}})
	}, a)
}
func divF(a, b *Term) *Term { return mul(a, inv(b)) }

// splitConst returns the non-constant part and the constant of a leaf poly.
func splitConst(t *Term) (*Term, *big.Rat) {
	ms := monosOf(t)
	c := new(big.Rat)
	var rest []Mono
	for _, m := range ms {
		if len(m.F) == 0 {
			c = m.C
		} else {
			rest = append(rest, m)
		}
	}
	return mkPoly(rest), c
}

// linear splits p as c*x + rest with rest free of x as a direct factor.
func linear(p, x *Term) (c *big.Rat, rest *Term, ok bool) {
	c = new(big.Rat)
	var r []Mono
	for _, m := range monosOf(p) {
		hit := false
		for _, f := range m.F {
			if f.T == x {
				hit = true
			}
		}
		if !hit {
			r = append(r, m)
			continue
		}
		if len(m.F) != 1 || m.F[0].E != 1 {
			return nil, nil, false
		}
		c = m.C
	}
	rest = mkPoly(r)
	if contains(rest, x) {
		return nil, nil, false
	}
	return c, rest, true
}

// ---- comparisons

func intNormalize(p *Term) *Term {
	// divide by the gcd of the coefficients when exact (all integer after scaling)
	ms := monosOf(p)
	l := big.NewInt(1)
	for _, m := range ms {
		d := m.C.Denom()
		g := new(big.Int).GCD(nil, nil, l, d)
		l = new(big.Int).Div(new(big.Int).Mul(l, d), g)
	}
	return scale(new(big.Rat).SetInt(l), p)
}

func ltI0(p *Term) *Term {
	return lift("ltI0", func(x []*Term) *Term {
		q := intNormalize(x[0])
		if q.Op == OpNum {
			return boolT(q.N.Sign() < 0)
		}
		if q.Op == OpVar && isLenVar(q) {
			return False
		}
		rest, c := splitConst(q)
		g := new(big.Int)
		for _, m := range monosOf(rest) {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.C.Num()))
		}
		if g.Sign() > 0 && g.Cmp(big.NewInt(1)) != 0 {
			// g*r + c < 0  <=>  r < -c/g  <=> r <= ceil(-c/g)-1 <=> r + floor(c/g) + (1 if ..)
			gr := new(big.Rat).SetInt(g)
			rest = scale(new(big.Rat).Inv(gr), rest)
			// r < -c/g ; r integer: r <= ceil(-c/g) - 1, i.e. r - ceil(-c/g) < 0
			v := new(big.Rat).Neg(new(big.Rat).Quo(c, gr))
			ce := ceilRat(v)
			c = new(big.Rat).SetInt(new(big.Int).Neg(ce))
		}
		q = add(rest, numR(c))
		if monosOf(rest)[0].C.Sign() < 0 {
			// -r + c < 0 <=> not (r - c <= 0) <=> not (r - c - 1 < 0)
			return not(raw(OpLtI, "", nil, sub(neg(q), One)))
		}
		return asBool(raw(OpLtI, "", nil, q))
	}, p)
}

func ceilRat(v *big.Rat) *big.Int {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(v.Num(), v.Denom(), m)
	if m.Sign() != 0 {
		q.Add(q, big.NewInt(1))
	}
	return q
}

func floorRat(v *big.Rat) *big.Int {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(v.Num(), v.Denom(), m)
	return q
}

// isLenVar: the length, capacity or offset of a slice carried by a loop.
func isLenVar(t *Term) bool {
	return strings.HasSuffix(t.S, ".len") || strings.HasSuffix(t.S, ".cap") || strings.HasSuffix(t.S, ".off")
}

func ltI(a, b *Term) *Term { return ltI0(sub(a, b)) }
func leI(a, b *Term) *Term { return ltI0(sub(sub(a, b), One)) }

func eqI(a, b *Term) *Term {
	return lift("eqI", func(x []*Term) *Term {
		q := intNormalize(sub(x[0], x[1]))
		if q.Op == OpNum {
			return boolT(q.N.Sign() == 0)
		}
		if monosOf(q)[0].C.Sign() < 0 {
			q = neg(q)
		}
		return asBool(raw(OpEqI, "", nil, q))
	}, a, b)
}

func absR(r *big.Rat) *big.Rat { return new(big.Rat).Abs(r) }

func ltF(a, b *Term) *Term {
	return lift("ltF", func(x []*Term) *Term {
		q := sub(x[0], x[1])
		if q.Op == OpNum {
			return boolT(q.N.Sign() < 0)
		}
		if q.Op == OpPoly || q.Op != OpNum {
			q = scale(new(big.Rat).Inv(absR(monosOf(q)[0].C)), q)
		}
		return asBool(raw(OpLtF, "", nil, q))
	}, a, b)
}

func eqF(a, b *Term) *Term {
	return lift("eqF", func(x []*Term) *Term {
		q := sub(x[0], x[1])
		if q.Op == OpNum {
			return boolT(q.N.Sign() == 0)
		}
		q = scale(new(big.Rat).Inv(monosOf(q)[0].C), q)
		return asBool(raw(OpEqF, "", nil, q))
	}, a, b)
}

func eqG(a, b *Term) *Term {
	return lift("eqG", func(x []*Term) *Term {
		p, q := x[0], x[1]
		if p == q {
			return True
		}
		if p.Op == OpStr && q.Op == OpStr {
			return False
		}
		if isBoolLeaf(p) && isBoolLeaf(q) {
			return False
		}
		if r := eqHook(p, q); r != nil {
			return r
		}
		if q.Op == OpNil {
			p, q = q, p
		}
		if p.Op == OpNil {
			switch q.Op {
			case OpAlloc, OpGlob, OpFld, OpElem, OpIface, OpClosure:
				return False
			case OpSlice:
				return False
			case OpSym:
				if nonNilSyms[q.S] {
					return False
				}
			}
		}
		if p.Op == OpSym && q.Op == OpSym && p.S != q.S && strings.HasPrefix(p.S, "error:") && strings.HasPrefix(q.S, "error:") {
			return False
		}
		if p.Op == OpAlloc && q.Op == OpAlloc && p.S != q.S {
			return False
		}
		if p.ID > q.ID {
			p, q = q, p
		}
		return asBool(raw(OpEq, "", nil, p, q))
	}, a, b)
}

var eqHook = func(a, b *Term) *Term { return nil }

// ---- traversal

func contains(t *Term, x *Term) bool {
	return containsP(t, func(u *Term) bool { return u == x })
}

func containsP(t *Term, p func(*Term) bool) bool {
	seen := map[int]bool{}
	var rec func(*Term) bool
	rec = func(u *Term) bool {
		if seen[u.ID] {
			return false
		}
		seen[u.ID] = true
		if p(u) {
			return true
		}
		for _, k := range u.K {
			if rec(k) {
				return true
			}
		}
		for _, m := range u.M {
			for _, f := range m.F {
				if rec(f.T) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

func walk(t *Term, f func(*Term)) {
	containsP(t, func(u *Term) bool { f(u); return false })
}

func termSize(t *Term) int {
	n := 0
	walk(t, func(*Term) { n++ })
	return n
}

func maxB(t *Term) int {
	m := -1
	walk(t, func(u *Term) {
		if u.Op == OpBVar {
			if i := u.X.(int); i > m {
				m = i
			}
		}
	})
	return m
}

type Sub map[*Term]*Term

func subst(t *Term, m Sub) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[int]*Term{}
	var rec func(*Term) *Term
	rec = func(u *Term) *Term {
		if r, ok := m[u]; ok {
			return r
		}
		if len(u.K) == 0 && len(u.M) == 0 {
			return u
		}
		if r, ok := memo[u.ID]; ok {
			return r
		}
		var r *Term
		if u.Op == OpPoly {
			r = num(0)
			for _, mo := range u.M {
				x := numR(mo.C)
				for _, f := range mo.F {
					x = mul(x, powInt(rec(f.T), f.E))
				}
				r = add(r, x)
			}
		} else {
			ks := make([]*Term, len(u.K))
			same := true
			for i, k := range u.K {
				ks[i] = rec(k)
				if ks[i] != k {
					same = false
				}
			}
			if same {
				r = u
			} else {
				r = construct(u.Op, u.S, u.X, ks)
			}
		}
		memo[u.ID] = r
		return r
	}
	return rec(t)
}

func construct(op Op, s string, x interface{}, ks []*Term) *Term {
	switch op {
	case OpIte:
		return ite(ks[0], ks[1], ks[2])
	case OpLtI:
		return ltI0(ks[0])
	case OpLtF:
		return ltF(ks[0], Zero)
	case OpEqI:
		return eqI(ks[0], Zero)
	case OpEqF:
		return eqF(ks[0], Zero)
	case OpEq:
		return eqG(ks[0], ks[1])
	case OpApp:
		return app(s, ks...)
	case OpFld:
		return fld(ks[0], s)
	case OpElem:
		return elem(ks[0], ks[1])
	case OpMapEl:
		return mapEl(ks[0], ks[1])
	case OpStruct, OpTuple, OpClosure:
		return raw(op, s, x, ks...)
	case OpSum:
		return mkSum(ks[0], ks[1])
	case OpExists:
		return mkExists(ks[0], ks[1])
	case OpMaxOf:
		return mkMaxOf(ks[0], ks[1], ks[2])
	case OpSel:
		return selTerm(ks[0], ks[1])
	case OpSlice:
		return mkSlice(ks[0], ks[1], ks[2], ks[3])
	}
	return lift(fmt.Sprintf("c%d|%s", op, s), func(l []*Term) *Term { return raw(op, s, x, l...) }, ks...)
}

func fld(p *Term, s string) *Term {
	return lift("fld"+s, func(l []*Term) *Term { return raw(OpFld, s, nil, l[0]) }, p)
}
func elem(b, i *Term) *Term {
	return lift("elem", func(l []*Term) *Term { return raw(OpElem, "", nil, l[0], l[1]) }, b, i)
}
func mapEl(b, i *Term) *Term {
	return lift("mapel", func(l []*Term) *Term { return raw(OpMapEl, "", nil, l[0], l[1]) }, b, i)
}

// mkSum and mkExists take a body in which the bound variable is already a BVar.
func mkSum(n, body *Term) *Term {
	if body == Zero || n == Zero {
		return Zero
	}
	return lift("sumN"+fmt.Sprint(body.ID), func(l []*Term) *Term {
		if l[0] == Zero {
			return Zero
		}
		b := maxB(body)
		if b < 0 || !contains(body, bvar(b)) {
			return mul(l[0], body)
		}
		return raw(OpSum, "", nil, l[0], body)
	}, n)
}

// mkMaxOf is the maximum of init and body over [0,n).
func mkMaxOf(init, n, body *Term) *Term {
	return lift("maxof"+fmt.Sprint(body.ID), func(l []*Term) *Term {
		if l[1] == Zero {
			return l[0]
		}
		return raw(OpMaxOf, "", nil, l[0], l[1], body)
	}, init, n)
}

func sumOver(n, k, body *Term) *Term {
	b := bvar(maxB(body) + 1)
	nb := subst(body, Sub{k: b})
	if !contains(nb, b) {
		return mul(n, nb)
	}
	nb = flipCanon(n, nb, b)
	// pull constant factors out and distribute over sums of monomials
	if nb.Op == OpPoly {
		r := Zero
		for _, mo := range nb.M {
			m := mkPoly([]Mono{{C: big.NewRat(1, 1), F: mo.F}})
			var in, out []Fac
			for _, f := range mo.F {
				if contains(f.T, b) {
					in = append(in, f)
				} else {
					out = append(out, f)
				}
			}
			_ = m
			inT := mkPoly([]Mono{{C: big.NewRat(1, 1), F: in}})
			outT := mkPoly([]Mono{{C: mo.C, F: out}})
			var s *Term
			if len(in) == 0 {
				s = n
			} else {
				// renumber bound variable to the lowest free index
				s = raw1Sum(n, inT, b)
			}
			r = add(r, mul(outT, s))
		}
		return r
	}
	return raw1Sum(n, nb, b)
}

// flipCanon picks one of the two enumeration directions of a range.
func flipCanon(n, body, b *Term) *Term {
	if !containsP(body, func(u *Term) bool {
		if u.Op != OpPoly {
			return false
		}
		c, _, ok := linear(u, b)
		return ok && c.Sign() < 0
	}) {
		return body
	}
	fl := subst(body, Sub{b: sub(sub(n, One), b)})
	if termSize(fl) < termSize(body) {
		return fl
	}
	return body
}

func raw1Sum(n, body, b *Term) *Term {
	// after factoring, inner bound variables may have gone: renumber
	others := -1
	walk(body, func(u *Term) {
		if u.Op == OpBVar && u != b {
			if i := u.X.(int); i > others {
				others = i
			}
		}
	})
	nb := bvar(others + 1)
	body = subst(body, Sub{b: nb})
	return mkSum(n, body)
}

func mkExists(n, body *Term) *Term {
	body = asBool(body)
	if body == False || n == Zero {
		return False
	}
	if body == True {
		return ltI(Zero, n)
	}
	// conditions that do not depend on the bound variable move out
	if m := maxB(body); m >= 0 && body.Op == OpIte {
		b := bvar(m)
		var inv *Term
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if t.Op != OpIte || seen[t] || inv != nil {
				return
			}
			seen[t] = true
			if !contains(t.K[0], b) {
				inv = t.K[0]
				return
			}
			rec(t.K[1])
			rec(t.K[2])
		}
		rec(body)
		if inv != nil {
			return ite(inv, mkExists1(n, deepCof(body, inv, true), b), mkExists1(n, deepCof(body, inv, false), b))
		}
	}
	return lift("exN"+fmt.Sprint(body.ID), func(l []*Term) *Term {
		if l[0] == Zero {
			return False
		}
		return asBool(raw(OpExists, "", nil, l[0], body))
	}, n)
}

// mkExists1 is mkExists for a body that may not depend on its variable b.
func mkExists1(n, body, b *Term) *Term {
	if body.Op == OpIte && !contains(body, b) {
		return and(ltI(Zero, n), body)
	}
	return mkExists(n, body)
}

func existsOver(n, k, body *Term) *Term {
	b := bvar(maxB(body) + 1)
	body = asBool(body)
	if !contains(body, k) {
		return and(ltI(Zero, n), body)
	}
	return mkExists(n, flipCanon(n, subst(body, Sub{k: b}), b))
}

// ---- uninterpreted functions with simplification

func app(name string, args ...*Term) *Term {
	return lift("app:"+name, func(l []*Term) *Term { return app1(name, l) }, args...)
}

func app1(name string, l []*Term) *Term {
	switch name {
	case "len":
		switch l[0].Op {
		case OpSlice:
			return l[0].K[2]
		case OpNil:
			return Zero
		case OpStr:
			return num(int64(len(l[0].S)))
		}
	case "cap":
		switch l[0].Op {
		case OpSlice:
			return l[0].K[3]
		case OpNil:
			return Zero
		}
	case "sbase":
		switch l[0].Op {
		case OpSlice:
			return l[0].K[0]
		case OpNil:
			return Nil
		}
	case "soff":
		switch l[0].Op {
		case OpSlice:
			return l[0].K[1]
		}
		return Zero
	case "float":
		return toFloat(l[0])
	case "pow2":
		return pow2leaf(l[0])
	case "extract0", "extract1", "extract2":
		if l[0].Op == OpTuple {
			return l[0].K[int(name[7]-'0')]
		}
	case "math.Pow":
		if n, ok := numInt(l[1]); ok && n >= 0 && n <= 4 {
			return powInt(l[0], int(n))
		}
		if l[1].Op == OpNum && l[1].N.Cmp(big.NewRat(1, 2)) == 0 {
			return app("math.Sqrt", l[0])
		}
	case "math.Max":
		return ite(ltF(l[0], l[1]), l[1], l[0])
	case "math.Min":
		return ite(ltF(l[0], l[1]), l[0], l[1])
	case "math.Floor", "math.Ceil":
		if l[0].Op == OpNum {
			if name == "math.Floor" {
				return numR(new(big.Rat).SetInt(floorRat(l[0].N)))
			}
			return numR(new(big.Rat).SetInt(ceilRat(l[0].N)))
		}
	case "quo":
		if l[1] == One {
			return l[0]
		}
		a, ok1 := numInt(l[0])
		b, ok2 := numInt(l[1])
		if ok1 && ok2 && b != 0 {
			return num(a / b)
		}
	case "rem":
		a, ok1 := numInt(l[0])
		b, ok2 := numInt(l[1])
		if ok1 && ok2 && b != 0 {
			return num(a % b)
		}
		if knownNonNeg(l[0]) && knownPos(l[1]) {
			return app("emod", l[0], l[1])
		}
	case "emod":
		return emodLeaf(l[0], l[1])
	case "and", "or", "xor", "andnot", "shr":
		a, ok1 := numInt(l[0])
		b, ok2 := numInt(l[1])
		if ok1 && ok2 {
			switch name {
			case "and":
				return num(a & b)
			case "or":
				return num(a | b)
			case "xor":
				return num(a ^ b)
			case "andnot":
				return num(a &^ b)
			case "shr":
				return num(a >> uint(b))
			}
		}
		if name == "and" || name == "or" || name == "xor" {
			if l[0].ID > l[1].ID {
				l[0], l[1] = l[1], l[0]
			}
			if name == "and" {
				if l[0] == Zero || l[1] == Zero {
					return Zero
				}
				for i := 0; i < 2; i++ {
					if n := maskSize(l[i]); n != nil {
						return app("emod", l[1-i], n)
					}
				}
			}
		}
		if (name == "shr") && l[1] == Zero {
			return l[0]
		}
	case "wrap8", "wrap16", "wrap32", "wrap64":
		return wrapLeaf(name, l[0])
	case "toint": // unsigned to signed of the same or larger width
		if fitsInt(l[0]) {
			return l[0]
		}
	case "trunc":
		if l[0].Op == OpNum {
			if l[0].N.Sign() >= 0 {
				return numR(new(big.Rat).SetInt(floorRat(l[0].N)))
			}
			return numR(new(big.Rat).SetInt(ceilRat(l[0].N)))
		}
		if l[0].Op == OpApp && l[0].S == "float" {
			return l[0].K[0]
		}
	case "uint", "int", "uint32", "int32", "uint64", "int64":
		if l[0].Op == OpNum && l[0].N.Sign() >= 0 && l[0].N.Num().BitLen() < 31 {
			return l[0]
		}
		if l[0].Op == OpApp && (name == "int" || name == "int64" || name == "uint" || name == "uint64") {
			switch l[0].S {
			case "int", "uint", "int64", "uint64":
				return app(name, l[0].K[0])
			}
		}
		if name == "int" {
			// int is the default 64-bit view; round trips collapse
			if l[0].Op == OpApp && l[0].S == "uint" {
				return l[0].K[0]
			}
		}
		if name == "int64" {
			return app("int", l[0])
		}
		if name == "uint64" {
			return app("uint", l[0])
		}
	}
	return raw(OpApp, name, nil, l...)
}

func toFloat(t *Term) *Term {
	switch t.Op {
	case OpNum:
		return t
	case OpPoly:
		r := Zero
		for _, m := range t.M {
			x := numR(m.C)
			for _, f := range m.F {
				x = mul(x, powInt(toFloat(f.T), f.E))
			}
			r = add(r, x)
		}
		return r
	case OpSum:
		return raw(OpSum, "", nil, t.K[0], mapLeaves(t.K[1], toFloat))
	}
	return raw(OpApp, "float", nil, t)
}

func pow2(t *Term) *Term { return app("pow2", t) }

func pow2leaf(t *Term) *Term {
	r := One
	for _, m := range monosOf(t) {
		if !m.C.IsInt() || !m.C.Num().IsInt64() {
			return raw(OpApp, "pow2", nil, t)
		}
		c := m.C.Num().Int64()
		if c > 200 || c < -200 {
			return raw(OpApp, "pow2", nil, t)
		}
		if len(m.F) == 0 {
			x := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(absI(c))))
			if c < 0 {
				x.Inv(x)
			}
			r = mul(r, numR(x))
			continue
		}
		base := mkPoly([]Mono{{C: big.NewRat(1, 1), F: m.F}})
		r = mul(r, mkPoly([]Mono{{C: big.NewRat(1, 1), F: []Fac{{raw(OpApp, "pow2", nil, base), int(c)}}}}))
	}
	return r
}

func absI(c int64) int64 {
	if c < 0 {
		return -c
	}
	return c
}

func mkSlice(base, off, ln, cp *Term) *Term {
	return lift("slice", func(l []*Term) *Term {
		if l[0] == Nil {
			return Nil
		}
		if l[0].Op == OpApp && l[0].S == "sbase" {
			s := l[0].K[0]
			if l[1] == Zero && l[2] == slen(s) && l[3] == scap(s) {
				return s
			}
		}
		return raw(OpSlice, "", nil, l[0], l[1], l[2], l[3])
	}, base, off, ln, cp)
}

func wrapBits(name string) int {
	switch name {
	case "wrap8":
		return 8
	case "wrap16":
		return 16
	case "wrap32":
		return 32
	case "wrap64":
		return 64
	}
	return 0
}

// wrapLeaf is reduction modulo 2^w; it is a ring homomorphism, so inner
// reductions to at least the same width disappear.
func wrapLeaf(name string, t *Term) *Term {
	w := wrapBits(name)
	if t.Op == OpNum && t.N.IsInt() {
		m := new(big.Int).Lsh(big.NewInt(1), uint(w))
		return numR(new(big.Rat).SetInt(new(big.Int).Mod(t.N.Num(), m)))
	}
	changed := false
	r := Zero
	for _, m := range monosOf(t) {
		x := numR(m.C)
		for _, f := range m.F {
			u := f.T
			if u.Op == OpApp && wrapBits(u.S) >= w && f.E > 0 {
				u = u.K[0]
				changed = true
			}
			x = mul(x, powInt(u, f.E))
		}
		r = add(r, x)
	}
	if changed {
		return app(name, r)
	}
	if t.Op == OpApp && t.S == "and" {
		for _, k := range t.K {
			if n, ok := numInt(k); ok && n >= 0 && w >= 64 {
				return t
			}
		}
	}
	if w == 64 && fitsInt(t) {
		return t
	}
	return raw(OpApp, name, nil, t)
}

// maskSize recognises 2^k - 1 and returns 2^k.
func maskSize(t *Term) *Term {
	if n, ok := numInt(t); ok {
		if n > 0 && n < 1<<62 && n&(n+1) == 0 {
			return num(n + 1)
		}
		return nil
	}
	if t.Op == OpPoly && len(t.M) == 2 {
		rest, c := splitConst(t)
		if rest.Op == OpApp && rest.S == "pow2" && c.Cmp(big.NewRat(-1, 1)) == 0 {
			return rest
		}
	}
	return nil
}

// emodLeaf is the Euclidean remainder (result in [0,n)), n > 0.
func emodLeaf(t, n *Term) *Term {
	if n == One {
		return Zero
	}
	nc, isC := numInt(n)
	if isC && nc <= 0 {
		return raw(OpApp, "emod", nil, t, n)
	}
	log := -1
	if isC && nc&(nc-1) == 0 {
		log = 0
		for v := nc; v > 1; v >>= 1 {
			log++
		}
	}
	isP := n.Op == OpApp && n.S == "pow2"
	changed := false
	r := Zero
	for _, m := range monosOf(t) {
		c := m.C
		if isC && c.IsInt() {
			k := new(big.Int).Mod(c.Num(), big.NewInt(nc))
			if k.Cmp(c.Num()) != 0 {
				changed = true
				c = new(big.Rat).SetInt(k)
			}
		}
		x := numR(c)
		for _, f := range m.F {
			u := f.T
			if u.Op == OpApp && f.E > 0 && m.C.IsInt() {
				if u.S == "emod" && u.K[1] == n {
					u = u.K[0]
					changed = true
				} else if w := wrapBits(u.S); w > 0 && (isP && w == 64 || log >= 0 && log <= w) {
					u = u.K[0]
					changed = true
				}
			}
			x = mul(x, powInt(u, f.E))
		}
		r = add(r, x)
	}
	if changed {
		return app("emod", r, n)
	}
	if isC {
		if v, ok := numInt(t); ok && v >= 0 && v < nc {
			return t
		}
	}
	return raw(OpApp, "emod", nil, t, n)
}

// fitsInt: provably in [0, 2^63).
func fitsInt(t *Term) bool {
	switch t.Op {
	case OpNum:
		return t.N.Sign() >= 0 && t.N.Num().BitLen() < 63
	case OpIte:
		return fitsInt(t.K[1]) && fitsInt(t.K[2])
	case OpApp:
		switch t.S {
		case "wrap8", "wrap16", "wrap32", "len", "cap", "pow2", "emod":
			return true
		case "and":
			return fitsInt(t.K[0]) || fitsInt(t.K[1])
		case "shr", "rem", "quo":
			return fitsInt(t.K[0])
		}
	case OpPoly:
		rest, c := splitConst(t)
		if rest.Op == OpApp && rest.S == "pow2" && c.Cmp(big.NewRat(-1, 1)) == 0 {
			return true
		}
		return false
	}
	return nonNeg[t]
}
func sbase(s *Term) *Term { return app("sbase", s) }
func soff(s *Term) *Term  { return app("soff", s) }
func slen(s *Term) *Term  { return app("len", s) }
func scap(s *Term) *Term  { return app("cap", s) }
func extract(t *Term, i int) *Term {
	return app(fmt.Sprintf("extract%d", i), t)
}

// ---- printing

func (t *Term) String() string { return show(t, 6) }

func show(t *Term, d int) string {
	if t == nil {
		return "<nil>"
	}
	if d == 0 {
		return "…"
	}
	ks := func() string {
		var s []string
		for _, k := range t.K {
			s = append(s, show(k, d-1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case OpNum:
		return t.N.RatString()
	case OpStr:
		return fmt.Sprintf("%q", t.S)
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	case OpNil:
		return "nil"
	case OpSym, OpBVar:
		if t.Op == OpBVar {
			return "β" + t.S
		}
		if len(t.K) > 0 {
			return t.S + "<" + ks() + ">"
		}
		return t.S
	case OpPoly:
		var s []string
		for _, m := range t.M {
			var f []string
			if len(m.F) == 0 || m.C.Cmp(big.NewRat(1, 1)) != 0 {
				f = append(f, m.C.RatString())
			}
			for _, x := range m.F {
				if x.E == 1 {
					f = append(f, show(x.T, d-1))
				} else {
					f = append(f, fmt.Sprintf("%s^%d", show(x.T, d-1), x.E))
				}
			}
			s = append(s, strings.Join(f, "*"))
		}
		return "(" + strings.Join(s, " + ") + ")"
	case OpIte:
		if t.K[1] == True && t.K[2] == False {
			return show(t.K[0], d-1)
		}
		if t.K[1] == False && t.K[2] == True {
			return "!" + show(t.K[0], d-1)
		}
		return fmt.Sprintf("[%s ? %s : %s]", show(t.K[0], d-1), show(t.K[1], d-1), show(t.K[2], d-1))
	case OpLtI, OpLtF:
		return "(" + show(t.K[0], d) + "<0)"
	case OpEqI, OpEqF:
		return "(" + show(t.K[0], d) + "==0)"
	case OpEq:
		return "(" + show(t.K[0], d-1) + "==" + show(t.K[1], d-1) + ")"
	case OpApp:
		return t.S + "(" + ks() + ")"
	case OpAlloc:
		s := t.S
		if i := strings.LastIndex(s, "/"); i >= 0 {
			s = s[i+1:]
		}
		return "new:" + s + "<" + ks() + ">"
	case OpGlob:
		return "&" + t.S
	case OpFld:
		s := t.S
		if i := strings.LastIndex(s, "."); i >= 0 {
			s = s[i:]
		}
		return "&" + show(t.K[0], d) + s
	case OpElem, OpMapEl:
		return "&" + show(t.K[0], d) + "[" + show(t.K[1], d-1) + "]"
	case OpSel:
		a := show(t.K[1], d)
		a = strings.TrimLeft(a, "&")
		if t.K[0].Op == OpHeap {
			return a
		}
		return a + "@" + show(t.K[0], d-1)
	case OpLoopH:
		return "heap@" + t.S + "(" + ks() + ")"
	case OpVar:
		return "var:" + t.S + "(" + ks() + ")"
	case OpSum:
		return "Σ<" + show(t.K[0], d-1) + ">{" + show(t.K[1], d-1) + "}"
	case OpExists:
		return "∃<" + show(t.K[0], d-1) + ">{" + show(t.K[1], d-1) + "}"
	case OpMaxOf:
		return "max(" + show(t.K[0], d-1) + ";<" + show(t.K[1], d-1) + ">{" + show(t.K[2], d-1) + "})"
	case OpSlice:
		return "slice(" + ks() + ")"
	case OpStruct:
		return "{" + ks() + "}"
	case OpTuple:
		return "(" + ks() + ")"
	}
	return fmt.Sprintf("op%d:%s(%s)", t.Op, t.S, ks())
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		s := p.Path()
		s = strings.TrimPrefix(s, "github.com/nlpodyssey/goslide/")
		if s == "github.com/nlpodyssey/goslide" {
			return "main"
		}
		return s
	})
}
