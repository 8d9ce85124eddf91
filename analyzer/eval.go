package main

// Dataflow over the SSA form: every block is evaluated once, values are joined
// at control-flow joins by gating conditions, and loops are replaced by their
// recurrences (see loop.go).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Event struct {
	Kind  string // store, call, panic, index, exit, ext, mapupdate, defer
	Pos   token.Pos
	Fn    *ssa.Function
	PC    *Term
	OK    *Term
	Nest  []*LoopInst
	Key   string
	Addr  *Term
	Val   *Term
	Name  string
	Args  []*Term
	Res   *Term
	St    *State
	Old   *Term
	Typ   types.Type
	Instr ssa.Instruction
	Sym   string // suffix of the symbols standing for permuted contents
	Less  *Term  // of a sort: whether element sort:i must come before sort:j
}

type opaqueFn func(e *Eng, fr *frame, st *State, fn *ssa.Function, args []*Term, pos token.Pos) *Term

type Eng struct {
	P         *Program
	events    []*Event
	nest      []*LoopInst
	undecided map[string]string
	opaque    map[string]opaqueFn
	version   int
	steps     int
	maxSteps  int
	loopSeq   []*LoopInst // final instance of every loop evaluated
	finals    map[string]*LoopInst
	keyTyp    map[string]types.Type
	rec       bool
	allFinal  map[string][]*LoopInst
}

type frame struct {
	fn       *ssa.Function
	ctx      string
	env      map[ssa.Value]*Term
	rets     []retState
	caller   *frame
	depth    int
	defers   []deferred
	info     *fnInfo
	nestBase int
}

type deferred struct {
	call *ssa.CallCommon
	args []*Term
	fv   *Term
	pos  token.Pos
	pc   *Term
}

type retState struct {
	st   *State
	vals []*Term
}

type edgeIn struct {
	from *ssa.BasicBlock
	st   *State
}
type edgeOut struct {
	from, to *ssa.BasicBlock
	st       *State
}

func newEng(p *Program) *Eng {
	resetTerms()
	resetHeaps()
	return &Eng{P: p, undecided: map[string]string{}, opaque: map[string]opaqueFn{}, maxSteps: 400000,
		finals: map[string]*LoopInst{}, keyTyp: map[string]types.Type{}, rec: true}
}

func (e *Eng) giveUp(fr *frame, pos token.Pos, why string) {
	k := why
	if fr != nil {
		k = fr.fn.String() + ": " + why
	}
	if _, ok := e.undecided[k]; !ok {
		e.undecided[k] = e.P.pos(pos)
	}
}

func (e *Eng) event(fr *frame, st *State, ev *Event) {
	ev.PC = st.pc
	ev.OK = st.ok
	ev.Fn = fr.fn
	ev.Nest = append([]*LoopInst(nil), e.nest...)
	ev.St = st.clone()
	e.events = append(e.events, ev)
}

// ---- function and loop structure

type loopDesc struct {
	header   *ssa.BasicBlock
	blocks   map[*ssa.BasicBlock]bool
	parent   *loopDesc
	children []*loopDesc
	liveOut  []ssa.Value
}

type fnInfo struct {
	rpo   []*ssa.BasicBlock
	idx   map[*ssa.BasicBlock]int
	inner map[*ssa.BasicBlock]*loopDesc
	loops []*loopDesc
	bad   bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func analyse(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	fi := &fnInfo{idx: map[*ssa.BasicBlock]int{}, inner: map[*ssa.BasicBlock]*loopDesc{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.idx[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	byHeader := map[*ssa.BasicBlock]*loopDesc{}
	for _, b := range fi.rpo {
		for _, h := range b.Succs {
			if fi.idx[h] <= fi.idx[b] {
				if !h.Dominates(b) {
					fi.bad = true
					continue
				}
				l := byHeader[h]
				if l == nil {
					l = &loopDesc{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					byHeader[h] = l
					fi.loops = append(fi.loops, l)
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	// blocks that only panic belong to the innermost loop that jumps to them
	for _, b := range fi.rpo {
		if len(b.Instrs) == 0 {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); !ok {
			continue
		}
		for _, l := range fi.loops {
			all := len(b.Preds) > 0
			for _, p := range b.Preds {
				if !l.blocks[p] {
					all = false
				}
			}
			if all {
				l.blocks[b] = true
			}
		}
	}
	sort.Slice(fi.loops, func(i, j int) bool { return len(fi.loops[i].blocks) < len(fi.loops[j].blocks) })
	for i, l := range fi.loops {
		for _, m := range fi.loops[i+1:] {
			if m.blocks[l.header] && m != l {
				l.parent = m
				m.children = append(m.children, l)
				break
			}
		}
	}
	for _, b := range fi.rpo {
		for _, l := range fi.loops {
			if l.blocks[b] {
				fi.inner[b] = l
				break
			}
		}
	}
	for _, l := range fi.loops {
		for _, b := range fi.rpo {
			if !l.blocks[b] {
				continue
			}
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					if r.Block() != nil && !l.blocks[r.Block()] {
						l.liveOut = append(l.liveOut, v)
						break
					}
				}
			}
		}
	}
	fnInfos[fn] = fi
	return fi
}

// ---- calls into functions

func (e *Eng) inline(fn *ssa.Function, args, free []*Term, st *State, ctx string, caller *frame) (*Term, *State) {
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	fr := &frame{fn: fn, ctx: ctx, env: map[ssa.Value]*Term{}, caller: caller, depth: depth, nestBase: len(e.nest)}
	if len(fn.Blocks) == 0 {
		e.giveUp(caller, fn.Pos(), "no body for "+fn.String())
		return sym("unknown:" + ctx), st
	}
	for c := caller; c != nil; c = c.caller {
		if c.fn == fn {
			e.giveUp(caller, fn.Pos(), "recursive call of "+fn.String())
			return sym("unknown:" + ctx), st
		}
	}
	fr.info = analyse(fn)
	if fr.info.bad {
		e.giveUp(fr, fn.Pos(), "irreducible control flow")
		return sym("unknown:" + ctx), st
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(free) {
			fr.env[v] = free[i]
		}
	}
	in := st.clone()
	in.over = nil
	e.region(fr, nil, fn.Blocks[0], []edgeIn{{nil, in}}, nil)
	if len(fr.rets) == 0 {
		dead := st.clone()
		dead.pc = False
		return Nil, dead
	}
	var sts []*State
	for _, r := range fr.rets {
		sts = append(sts, r.st)
	}
	out, conds := e.mergeStates(sts)
	out.over = st.over
	n := len(fr.rets[0].vals)
	vals := make([]*Term, n)
	for i := 0; i < n; i++ {
		var vs []*Term
		for _, r := range fr.rets {
			vs = append(vs, r.vals[i])
		}
		vals[i] = gate(conds, vs, out.know())
	}
	switch n {
	case 0:
		return Nil, out
	case 1:
		return vals[0], out
	}
	return raw(OpTuple, "", nil, vals...), out
}

// gate joins values by their path conditions.
func gate(conds, vals []*Term, care *Term) *Term {
	r := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		if vals[i] == r {
			continue
		}
		r = ite(conds[i], vals[i], r)
	}
	if r.Op == OpIte {
		r = restrictDC(r, care)
	}
	return r
}

func (e *Eng) mergeStates(sts []*State) (*State, []*Term) {
	if len(sts) == 1 {
		return sts[0].clone(), []*Term{True}
	}
	out := &State{pc: False, heaps: map[string]*Heap{}}
	var conds []*Term
	for _, s := range sts {
		out.pc = or(out.pc, s.pc)
	}
	for _, s := range sts {
		conds = append(conds, restrictDC(s.pc, out.pc))
	}
	same := true
	for _, s := range sts {
		if s.ok != sts[0].ok {
			same = false
		}
	}
	if same {
		out.ok = sts[0].ok
	} else {
		k := False
		for _, s := range sts {
			k = or(k, s.know())
		}
		out.ok = restrictDC(k, out.pc)
		if termSize(out.ok) > 3000 {
			out.ok = nil
		}
	}
	care := out.know()
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.heaps {
			keys[k] = true
		}
	}
	for _, k := range sortedSet(keys) {
		var hs []*Heap
		same := true
		for _, s := range sts {
			h := s.heaps[k]
			if h == nil {
				h = &Heap{base: initHeap(k)}
			}
			hs = append(hs, h)
			if h != hs[0] && !(len(h.ents) == 0 && len(hs[0].ents) == 0 && h.base == hs[0].base) {
				same = false
			}
		}
		if same {
			out.heaps[k] = hs[0]
			continue
		}
		var bases []*Term
		for _, h := range hs {
			bases = append(bases, h.base)
		}
		n := &Heap{base: gate(conds, bases, care)}
		seen := map[*Term]bool{}
		for _, h := range hs {
			for _, en := range h.ents {
				if seen[en.a] {
					continue
				}
				seen[en.a] = true
				var vs []*Term
				for _, g := range hs {
					vs = append(vs, readHeap(g, en.a))
				}
				n.ents = append(n.ents, entry{en.a, gate(conds, vs, care)})
			}
		}
		out.heaps[k] = n
	}
	// loop results
	for i, s := range sts {
		for _, v := range sortedVals(s.over) {
			if out.over != nil {
				if _, ok := out.over[v]; ok {
					continue
				}
			}
			var cs, vs []*Term
			for j := i; j < len(sts); j++ {
				if t, ok := sts[j].over[v]; ok {
					cs = append(cs, conds[j])
					vs = append(vs, t)
				}
			}
			if out.over == nil {
				out.over = map[ssa.Value]*Term{}
			}
			out.over[v] = gate(cs, vs, care)
		}
	}
	return out, conds
}

// region evaluates the blocks of a loop body (or of a whole function when l is
// nil) once. Back edges and exits of the loop are returned.
func (e *Eng) region(fr *frame, l *loopDesc, start *ssa.BasicBlock, ins []edgeIn, phis map[*ssa.Phi]*Term) (backs, exits []edgeOut) {
	pending := map[*ssa.BasicBlock][]edgeIn{start: ins}
	route := func(ed edgeOut) {
		if ed.st.pc == False {
			return
		}
		if l != nil && ed.to == l.header {
			backs = append(backs, ed)
			return
		}
		if l != nil && !l.blocks[ed.to] {
			exits = append(exits, ed)
			return
		}
		pending[ed.to] = append(pending[ed.to], edgeIn{ed.from, ed.st})
	}
	for _, b := range fr.info.rpo {
		if l != nil && !l.blocks[b] {
			continue
		}
		edges := pending[b]
		if len(edges) == 0 {
			continue
		}
		if in := fr.info.inner[b]; in != l {
			if in != nil && in.header == b && in.parent == l {
				for _, ed := range e.evalLoop(fr, in, edges) {
					route(ed)
				}
			}
			continue
		}
		if l != nil && b == l.header {
			// φs were set by evalLoop
			st := edges[0].st
			for p, v := range phis {
				fr.env[p] = v
			}
			for _, ed := range e.block(fr, b, st, true) {
				route(ed)
			}
			continue
		}
		st := e.enter(fr, b, edges)
		for _, ed := range e.block(fr, b, st, false) {
			route(ed)
		}
	}
	return
}

// enter merges the incoming edges of b and evaluates its φs.
func (e *Eng) enter(fr *frame, b *ssa.BasicBlock, edges []edgeIn) *State {
	var sts []*State
	for _, ed := range edges {
		sts = append(sts, ed.st)
	}
	st, conds := e.mergeStates(sts)
	vals := map[*ssa.Phi]*Term{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []*Term
		for _, ed := range edges {
			vs = append(vs, e.phiIn(fr, p, ed))
		}
		vals[p] = gate(conds, vs, st.know())
	}
	for p, v := range vals {
		fr.env[p] = v
		delete(st.over, p)
	}
	return st
}

func (e *Eng) phiIn(fr *frame, p *ssa.Phi, ed edgeIn) *Term {
	for i, pr := range p.Block().Preds {
		if pr == ed.from {
			return e.val(fr, ed.st, p.Edges[i])
		}
	}
	return sym("phi?")
}

func (e *Eng) block(fr *frame, b *ssa.BasicBlock, st *State, skipPhi bool) []edgeOut {
	for _, in := range b.Instrs {
		e.steps++
		if e.steps > e.maxSteps {
			e.giveUp(fr, in.Pos(), "analysis budget exceeded")
			return nil
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return []edgeOut{{b, b.Succs[0], st}}
		case *ssa.If:
			c := decideUnder(st.know(), e.val(fr, st, in.Cond))
			var out []edgeOut
			if c != False {
				t := st.clone()
				t.pc = and(st.pc, c)
				out = append(out, edgeOut{b, b.Succs[0], t})
			}
			if c != True {
				f := st.clone()
				f.pc = and(st.pc, not(c))
				out = append(out, edgeOut{b, b.Succs[1], f})
			}
			return out
		case *ssa.Return:
			var vals []*Term
			for _, r := range in.Results {
				vals = append(vals, e.val(fr, st, r))
			}
			fr.rets = append(fr.rets, retState{st, vals})
			return nil
		case *ssa.Panic:
			e.event(fr, st, &Event{Kind: "panic", Pos: in.Pos(), Val: e.val(fr, st, in.X), Instr: in})
			return nil
		default:
			e.exec(fr, st, in)
			if st.pc == False {
				return nil
			}
		}
	}
	return nil
}

// ---- values

func (e *Eng) val(fr *frame, st *State, v ssa.Value) *Term {
	if st != nil && st.over != nil {
		if t, ok := st.over[v]; ok {
			return t
		}
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	switch v := v.(type) {
	case *ssa.Const:
		return e.constant(v)
	case *ssa.Global:
		return raw(OpGlob, globName(v), nil)
	case *ssa.Function:
		return raw(OpClosure, "func:"+v.String(), v)
	case *ssa.Builtin:
		return sym("builtin:" + v.Name())
	}
	e.giveUp(fr, v.Pos(), "use of unevaluated value "+v.Name())
	return sym("undef:" + fr.ctx + v.Name())
}

func globName(v *ssa.Global) string {
	p := ""
	if v.Pkg != nil {
		p = shortPkg(v.Pkg.Pkg.Path())
	}
	return p + "." + v.Name()
}

func shortPkg(p string) string {
	if p == modPath {
		return "main"
	}
	return strings.TrimPrefix(p, modPath+"/")
}

func (e *Eng) constant(c *ssa.Const) *Term {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolT(constant.BoolVal(c.Value))
	case constant.String:
		return str(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		if r := exactNum(c.Value); r != nil {
			return numR(r)
		}
	}
	return sym("const:" + c.Value.ExactString())
}

// exactNum is a numeric constant; a fraction is identified with the shortest
// decimal number that denotes the same float64.
func exactNum(v constant.Value) *big.Rat {
	if i := constant.ToInt(v); i.Kind() == constant.Int {
		v = i
	} else if f, _ := constant.Float64Val(v); !math.IsInf(f, 0) && f != 0 {
		if r, ok := new(big.Rat).SetString(strconv.FormatFloat(f, 'e', -1, 64)); ok {
			return r
		}
	}
	r, ok := new(big.Rat).SetString(v.ExactString())
	if !ok {
		return nil
	}
	return r
}

func (e *Eng) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return str("")
		case u.Info()&types.IsNumeric != 0:
			return Zero
		}
		return Nil
	case *types.Struct:
		ks := make([]*Term, u.NumFields())
		for i := range ks {
			ks[i] = e.zero(u.Field(i).Type())
		}
		return raw(OpStruct, typeKey(t), nil, ks...)
	case *types.Array:
		n := u.Len()
		if n > 64 {
			return sym("zeroarray")
		}
		ks := make([]*Term, n)
		for i := range ks {
			ks[i] = e.zero(u.Elem())
		}
		return raw(OpStruct, typeKey(t), nil, ks...)
	case *types.Tuple:
		return Nil
	}
	return Nil
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func widthOf(t types.Type) string {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Uint8, types.Int8:
		return "8"
	case types.Uint16, types.Int16:
		return "16"
	case types.Uint32, types.Int32:
		return "32"
	}
	return "64"
}

// shiftEvent records a shift by a variable amount and the number of bits the
// operand may be shifted by before its value is lost.
func (e *Eng) shiftEvent(fr *frame, st *State, in *ssa.BinOp, name string, t types.Type, x, n *Term) {
	if n.Op == OpNum {
		return
	}
	w := map[string]int64{"8": 8, "16": 16, "32": 32, "64": 64}[widthOf(t)]
	if !isUnsigned(t) {
		w--
	}
	e.event(fr, st, &Event{Kind: "shift", Name: name, Pos: in.Pos(), Args: []*Term{n, num(w)}, Val: x, Instr: in})
}

// ---- memory

func (e *Eng) heapKey(addr *Term, t types.Type) string {
	var k string
	switch addr.Op {
	case OpFld:
		k = "F:" + addr.S
	case OpElem:
		k = "E:" + typeKey(t)
	case OpMapEl:
		k = "M:" + typeKey(t)
	default:
		k = "C:" + typeKey(t)
	}
	if _, ok := zeroOf[k]; !ok {
		zeroOf[k] = e.zero(t)
		e.keyTyp[k] = t
	}
	return k
}

func (e *Eng) heap(st *State, key string) *Heap {
	h := st.heaps[key]
	if h == nil {
		h = &Heap{base: initHeap(key)}
		st.heaps[key] = h
	}
	return h
}

func fieldName(t types.Type, i int) string {
	return typeKey(t) + "." + t.Underlying().(*types.Struct).Field(i).Name()
}

func (e *Eng) load(st *State, addr *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		ks := make([]*Term, u.NumFields())
		for i := range ks {
			ks[i] = e.load(st, fld(addr, fieldName(t, i)), u.Field(i).Type())
		}
		return raw(OpStruct, typeKey(t), nil, ks...)
	case *types.Array:
		if u.Len() <= 64 {
			ks := make([]*Term, u.Len())
			for i := range ks {
				ks[i] = e.load(st, elem(addr, num(int64(i))), u.Elem())
			}
			return raw(OpStruct, typeKey(t), nil, ks...)
		}
		return app("arrayat", addr)
	}
	r := e.loadLeaf(st, addr, t)
	if r.Op == OpIte {
		r = simplify(r, st.know())
	}
	return r
}

func (e *Eng) loadLeaf(st *State, addr *Term, t types.Type) *Term {
	if addr.Op == OpIte {
		return ite(rawIte(addr.K[0], True, False), e.loadLeaf(st, addr.K[1], t), e.loadLeaf(st, addr.K[2], t))
	}
	return readHeap(e.heap(st, e.heapKey(addr, t)), addr)
}

func fieldOf(v *Term, i int, t types.Type) *Term {
	return liftNM(v, func(l *Term) *Term {
		if l.Op == OpStruct {
			return l.K[i]
		}
		return app(fmt.Sprintf("field%d", i), l)
	})
}

// liftNM applies f to the leaves of one diagram.
func liftNM(t *Term, f func(*Term) *Term) *Term { return mapLeaves(t, f) }

func (e *Eng) store(fr *frame, st *State, addr, v *Term, t types.Type, in ssa.Instruction) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if typeKey(t) == "hash/maphash.Hash" || strings.HasSuffix(t.String(), "hash/maphash.Hash") {
			// the hash state is one cell (see mhCell)
			if s, ok := in.(*ssa.Store); ok {
				if _, ok := s.Val.(*ssa.Const); ok {
					key, a := mhCell(e, []*Term{addr})
					st.heaps[key] = writeHeap(e.heap(st, key), a, Nil)
					return
				}
			}
			e.giveUp(fr, in.Pos(), "copy of a hash state")
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			e.store(fr, st, fld(addr, fieldName(t, i)), fieldOf(v, i, t), u.Field(i).Type(), in)
		}
		return
	case *types.Array:
		if u.Len() <= 64 {
			for i := 0; i < int(u.Len()); i++ {
				e.store(fr, st, elem(addr, num(int64(i))), fieldOf(v, i, t), u.Elem(), in)
			}
			return
		}
		e.giveUp(fr, in.Pos(), "store of a large array")
		return
	}
	for _, la := range leaves(addr) {
		cond := True
		if la != addr {
			cond = leafCond(addr, la)
		}
		key := e.heapKey(la, t)
		h := e.heap(st, key)
		old := readHeap(h, la)
		if old.Op == OpIte {
			old = simplify(old, st.know())
		}
		nv := v
		if cond != True {
			nv = ite(cond, v, old)
		}
		if nv.Op == OpIte {
			nv = simplify(nv, st.know())
		}
		pos := token.NoPos
		if in != nil {
			pos = in.Pos()
		}
		ev := &Event{Kind: "store", Pos: pos, Key: key, Addr: la, Val: v, Old: old, Typ: t, Instr: in}
		sv := st.pc
		if cond != True {
			st.pc = and(st.pc, cond)
		}
		if st.pc != False && (old != nv || true) {
			e.event(fr, st, ev)
		}
		st.pc = sv
		if old == nv {
			continue
		}
		st.heaps[key] = writeHeap(h, la, nv)
	}
}

// nonNil drops the nil alternatives of a pointer that is dereferenced.
func (e *Eng) nonNil(st *State, p *Term) *Term {
	if p == Nil {
		st.pc = False
		return p
	}
	if p.Op != OpIte {
		return p
	}
	for _, l := range leaves(p) {
		if l == Nil {
			st.assume(not(leafCond(p, Nil)))
			return simplify(p, st.know())
		}
	}
	return p
}

func (e *Eng) counters() []*Term {
	var out []*Term
	for _, l := range e.nest {
		out = append(out, l.K)
	}
	return out
}

func (e *Eng) allocTerm(fr *frame, in ssa.Instruction, tag string, t types.Type) *Term {
	info := &allocInfo{typ: t, pos: in.Pos(), fn: fr.fn}
	for _, l := range e.nest {
		info.loops = append(info.loops, l.Base)
	}
	name := fmt.Sprintf("%s>%s.%s%s", fr.ctx, fr.fn.Name(), instrName(in), tag)
	return raw(OpAlloc, name, info, e.counters()...)
}

func instrName(in ssa.Instruction) string {
	if v, ok := in.(ssa.Value); ok {
		return v.Name()
	}
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return fmt.Sprintf("b%di%d", b.Index, i)
		}
	}
	return "?"
}

func (e *Eng) freshSym(fr *frame, in ssa.Instruction, tag string) *Term {
	return sym(fmt.Sprintf("fresh:%s@%s>%s.%s", tag, fr.ctx, fr.fn.Name(), instrName(in)), e.counters()...)
}

// ---- instructions

func (e *Eng) exec(fr *frame, st *State, in ssa.Instruction) {
	set := func(v ssa.Value, t *Term) {
		if t.Op == OpIte {
			t = simplify(t, st.know())
		}
		fr.env[v] = t
	}
	ev := func(v ssa.Value) *Term { return e.val(fr, st, v) }
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		a := e.allocTerm(fr, in, "", t)
		set(in, a)
		// a variable declared again in the same iteration starts from zero
		if len(e.nest) == 0 || true {
			e.zeroInit(st, a, t)
		}
	case *ssa.BinOp:
		set(in, e.binop(fr, st, in))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			x := e.nonNil(st, ev(in.X))
			if st.pc == False {
				return
			}
			set(in, e.load(st, x, in.Type()))
		case token.SUB:
			set(in, e.wrapTo(in.Type(), neg(ev(in.X))))
		case token.NOT:
			set(in, not(ev(in.X)))
		case token.XOR:
			set(in, app("compl", ev(in.X)))
		default:
			e.giveUp(fr, in.Pos(), "channel receive")
			set(in, e.freshSym(fr, in, "recv"))
		}
	case *ssa.Call:
		r := e.call(fr, st, in, in.Common(), in)
		if st.pc == False {
			return
		}
		set(in, r)
	case *ssa.ChangeType:
		set(in, ev(in.X))
	case *ssa.ChangeInterface:
		set(in, ev(in.X))
	case *ssa.Convert:
		set(in, e.convert(ev(in.X), in.X.Type(), in.Type()))
	case *ssa.MakeInterface:
		x := ev(in.X)
		set(in, raw(OpIface, typeKey(in.X.Type()), in.X.Type(), x))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, ev(b))
		}
		set(in, raw(OpClosure, "closure:"+in.Fn.String(), in.Fn, bs...))
	case *ssa.MakeSlice:
		a := e.allocTerm(fr, in, "", in.Type().Underlying().(*types.Slice).Elem())
		n := ev(in.Len)
		e.event(fr, st, &Event{Kind: "make", Pos: in.Pos(), Args: []*Term{n, ev(in.Cap)}, Instr: in})
		set(in, mkSlice(a, Zero, n, ev(in.Cap)))
		st.assume(not(ltI0(n)))
	case *ssa.MakeMap:
		a := e.allocTerm(fr, in, "", in.Type())
		set(in, a)
	case *ssa.MakeChan:
		e.giveUp(fr, in.Pos(), "channel")
		set(in, e.freshSym(fr, in, "chan"))
	case *ssa.Slice:
		x := ev(in.X)
		lo, hi, mx := Zero, (*Term)(nil), (*Term)(nil)
		if in.Low != nil {
			lo = ev(in.Low)
		}
		if in.High != nil {
			hi = ev(in.High)
		}
		if in.Max != nil {
			mx = ev(in.Max)
		}
		switch u := in.X.Type().Underlying().(type) {
		case *types.Basic: // string
			if hi == nil {
				hi = app("len", x)
			}
			set(in, app("substr", x, lo, hi))
		case *types.Pointer: // array
			n := num(u.Elem().Underlying().(*types.Array).Len())
			if hi == nil {
				hi = n
			}
			if mx == nil {
				mx = n
			}
			set(in, mkSlice(x, lo, sub(hi, lo), sub(mx, lo)))
		default:
			c := scap(x)
			if hi == nil {
				hi = slen(x)
			}
			if mx == nil {
				mx = c
			}
			e.event(fr, st, &Event{Kind: "slice", Pos: in.Pos(), Args: []*Term{x, lo, hi, mx}, Instr: in})
			st.assume(andN(not(ltI0(lo)), leI(lo, hi), leI(hi, mx), leI(mx, c)))
			if st.pc == False {
				return
			}
			set(in, mkSlice(sbase(x), add(soff(x), lo), sub(hi, lo), sub(mx, lo)))
		}
	case *ssa.FieldAddr:
		pt := in.X.Type().Underlying().(*types.Pointer).Elem()
		x := e.nonNil(st, ev(in.X))
		if st.pc == False {
			return
		}
		set(in, fld(x, fieldName(pt, in.Field)))
	case *ssa.Field:
		set(in, fieldOf(ev(in.X), in.Field, in.X.Type()))
	case *ssa.IndexAddr:
		x, i := ev(in.X), ev(in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
			e.event(fr, st, &Event{Kind: "index", Pos: in.Pos(), Args: []*Term{i, slen(x)}, Addr: x, Instr: in})
			st.assume(and(not(ltI0(i)), ltI(i, slen(x))))
			if st.pc == False {
				return
			}
			if x.Op == OpIte {
				x = simplify(x, st.know())
			}
			if i.Op == OpIte {
				i = simplify(i, st.know())
			}
			set(in, elem(sbase(x), add(soff(x), i)))
		} else {
			pt := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			e.event(fr, st, &Event{Kind: "index", Pos: in.Pos(), Args: []*Term{i, num(pt.Len())}, Addr: x, Instr: in})
			set(in, elem(x, i))
		}
	case *ssa.Index:
		x, i := ev(in.X), ev(in.Index)
		if isString(in.X.Type()) {
			set(in, app("strat", x, i))
			return
		}
		set(in, lift2(x, i, func(a, b *Term) *Term {
			if n, ok := numInt(b); ok && a.Op == OpStruct && int(n) < len(a.K) {
				return a.K[n]
			}
			return app("arrayidx", a, b)
		}))
	case *ssa.Lookup:
		x, i := ev(in.X), ev(in.Index)
		if isString(in.X.Type()) {
			set(in, app("strat", x, i))
			return
		}
		mt := in.X.Type().Underlying().(*types.Map)
		a := mapEl(x, i)
		v := e.load(st, a, mt.Elem())
		if in.CommaOk {
			p := readHeap(e.heap(st, e.presKey(in.X.Type())), a)
			set(in, raw(OpTuple, "", nil, v, p))
		} else {
			set(in, v)
		}
	case *ssa.MapUpdate:
		mt := in.Map.Type().Underlying().(*types.Map)
		a := mapEl(ev(in.Map), ev(in.Key))
		e.store(fr, st, a, ev(in.Value), mt.Elem(), in)
		pk := e.presKey(in.Map.Type())
		st.heaps[pk] = writeHeap(e.heap(st, pk), a, True)
	case *ssa.Range:
		set(in, raw(OpTuple, "range@"+fr.ctx+in.Name(), nil, ev(in.X)))
	case *ssa.Next:
		it := ev(in.Iter)
		var k *Term = Zero
		if len(e.nest) > 0 {
			k = e.nest[len(e.nest)-1].K
		}
		x := it.K[0]
		if in.IsString {
			ok := ltI(k, app("runecount", x))
			set(in, raw(OpTuple, "", nil, ok, app("runepos", x, k), app("runeat", x, k)))
			return
		}
		mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		key := app("mapkey", x, str(it.S), k)
		for _, l := range e.nest[:max(0, len(e.nest)-1)] {
			_ = l
		}
		ok := ltI(k, app("len", x))
		v := e.load(st, mapEl(x, key), mt.Elem())
		set(in, raw(OpTuple, "", nil, ok, key, v))
	case *ssa.Extract:
		t := ev(in.Tuple)
		i := in.Index
		set(in, liftNM(t, func(l *Term) *Term {
			if l.Op == OpTuple && i < len(l.K) {
				return l.K[i]
			}
			r := app(fmt.Sprintf("extract%d", i), l)
			return r
		}))
		if isBool(in.Type()) {
			fr.env[in] = asBool(fr.env[in])
		}
	case *ssa.Store:
		t := in.Addr.Type().Underlying().(*types.Pointer).Elem()
		e.store(fr, st, e.nonNil(st, ev(in.Addr)), ev(in.Val), t, in)
	case *ssa.TypeAssert:
		x := ev(in.X)
		r := liftNM(x, func(l *Term) *Term {
			if l.Op == OpIface && l.X != nil && types.Identical(l.X.(types.Type), in.AssertedType) {
				return l.K[0]
			}
			return app("assert:"+typeKey(in.AssertedType), l)
		})
		if in.CommaOk {
			ok := liftNM(x, func(l *Term) *Term {
				if l.Op == OpIface && l.X != nil {
					if types.Identical(l.X.(types.Type), in.AssertedType) {
						return True
					}
				}
				return asBool(app("isa:"+typeKey(in.AssertedType), l))
			})
			set(in, raw(OpTuple, "", nil, r, ok))
		} else {
			set(in, r)
		}
	case *ssa.Defer:
		d := deferred{call: in.Common(), pos: in.Pos(), pc: st.pc}
		for _, a := range in.Common().Args {
			d.args = append(d.args, ev(a))
		}
		if in.Common().IsInvoke() || in.Common().StaticCallee() == nil {
			d.fv = ev(in.Common().Value)
		}
		if len(e.nest) > fr.nestBase {
			e.giveUp(fr, in.Pos(), "defer in a loop")
		}
		e.event(fr, st, &Event{Kind: "defer", Pos: in.Pos(), Name: calleeName(in.Common()), Args: d.args, Instr: in})
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			// run only on the paths that registered it
			on := and(st.pc, d.pc)
			if on == False {
				continue
			}
			sv := st.clone()
			st.pc = on
			e.callWith(fr, st, in, d.call, d.args, d.fv, d.pos)
			if sv.pc != on {
				off := sv
				off.pc = and(sv.pc, not(d.pc))
				m, _ := e.mergeStates([]*State{st.clone(), off})
				*st = *m
			}
		}
	case *ssa.Go:
		e.giveUp(fr, in.Pos(), "go statement")
		e.event(fr, st, &Event{Kind: "go", Pos: in.Pos(), Name: calleeName(in.Common()), Instr: in})
	default:
		e.giveUp(fr, in.Pos(), fmt.Sprintf("unsupported instruction %T", in))
		if v, ok := in.(ssa.Value); ok {
			set(v, e.freshSym(fr, in, "unsupported"))
		}
	}
}

func lift2(a, b *Term, f func(a, b *Term) *Term) *Term {
	return liftNM(a, func(x *Term) *Term { return liftNM(b, func(y *Term) *Term { return f(x, y) }) })
}

func (e *Eng) presKey(t types.Type) string {
	k := "P:" + typeKey(t)
	if _, ok := zeroOf[k]; !ok {
		zeroOf[k] = False
		e.keyTyp[k] = types.Typ[types.Bool]
	}
	return k
}

// zeroInit makes a re-executed allocation start from zero when an entry for
// the same object already exists (only possible for the same iteration).
func (e *Eng) zeroInit(st *State, a *Term, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			e.zeroInit(st, fld(a, fieldName(t, i)), u.Field(i).Type())
		}
		return
	case *types.Array:
		if u.Len() <= 64 {
			for i := 0; i < int(u.Len()); i++ {
				e.zeroInit(st, elem(a, num(int64(i))), u.Elem())
			}
		}
		return
	}
	key := e.heapKey(a, t)
	h := e.heap(st, key)
	for _, en := range h.ents {
		if en.a == a {
			st.heaps[key] = writeHeap(h, a, zeroOf[key])
			return
		}
	}
}

func (e *Eng) wrapTo(t types.Type, v *Term) *Term {
	if !isInteger(t) {
		return v
	}
	if isUnsigned(t) {
		return app("wrap"+widthOf(t), v)
	}
	if w := widthOf(t); w != "64" {
		if n, ok := numInt(v); ok {
			lim := map[string]int64{"8": 1 << 7, "16": 1 << 15, "32": 1 << 31}[w]
			if n >= -lim && n < lim {
				return v
			}
		}
		return app("swrap"+w, v)
	}
	return v
}

func (e *Eng) convert(x *Term, from, to types.Type) *Term {
	fi, ti := isInteger(from), isInteger(to)
	switch {
	case fi && ti:
		if isUnsigned(to) {
			return app("wrap"+widthOf(to), x)
		}
		if isUnsigned(from) {
			if widthOf(to) == "64" {
				return app("toint", x)
			}
			return e.wrapTo(to, x)
		}
		if widthOf(to) < widthOf(from) && widthOf(to) != "8" || widthOf(to) != "64" && widthOf(from) == "64" {
			return e.wrapTo(to, x)
		}
		return x
	case fi && isFloat(to):
		return app("float", x)
	case isFloat(from) && ti:
		r := app("trunc", x)
		if isUnsigned(to) {
			return app("wrap"+widthOf(to), r)
		}
		return r
	case isFloat(from) && isFloat(to):
		if typeKey(from.Underlying()) != typeKey(to.Underlying()) && typeKey(to.Underlying()) == "float32" {
			return app("float32", x)
		}
		return x
	}
	if typeKey(from.Underlying()) == typeKey(to.Underlying()) {
		return x
	}
	return app("conv:"+typeKey(to), x)
}

func (e *Eng) binop(fr *frame, st *State, in *ssa.BinOp) *Term {
	a, b := e.val(fr, st, in.X), e.val(fr, st, in.Y)
	t := in.X.Type()
	fl, it := isFloat(t), isInteger(t)
	if fl && typeKey(t.Underlying()) == "float32" {
		switch in.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return app("float32", app("f32"+in.Op.String(), a, b))
		}
	}
	switch in.Op {
	case token.ADD:
		if isString(t) {
			return app("concat", a, b)
		}
		return e.wrapTo(t, add(a, b))
	case token.SUB:
		if it && isUnsigned(t) {
			d := sub(a, b)
			if d.Op == OpPoly && isNonNegLeaf(d) && len(d.M) == 2 {
				return d
			}
		}
		return e.wrapTo(t, sub(a, b))
	case token.MUL:
		return e.wrapTo(t, mul(a, b))
	case token.QUO:
		if fl {
			return divF(a, b)
		}
		if it {
			e.event(fr, st, &Event{Kind: "div", Pos: in.Pos(), Args: []*Term{b}, Instr: in})
			return app("quo", a, b)
		}
	case token.REM:
		e.event(fr, st, &Event{Kind: "div", Pos: in.Pos(), Args: []*Term{b}, Instr: in})
		return app("rem", a, b)
	case token.AND:
		// x & (2^n-1) of a non-negative x
		return app("and", a, b)
	case token.OR:
		return app("or", a, b)
	case token.XOR:
		return app("xor", a, b)
	case token.AND_NOT:
		return app("andnot", a, b)
	case token.SHL:
		e.shiftEvent(fr, st, in, "shl", t, a, b)
		if a == One {
			return pow2(b)
		}
		return e.wrapTo(t, mul(a, pow2(b)))
	case token.SHR:
		e.shiftEvent(fr, st, in, "shr", t, a, b)
		return app("shr", a, b)
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		op := in.Op
		if op == token.GTR || op == token.LEQ {
			a, b = b, a
		}
		var r *Term
		switch {
		case it:
			r = ltI(a, b)
		case fl:
			r = ltF(a, b)
		default:
			r = asBool(app("strless", a, b))
		}
		if op == token.LEQ || op == token.GEQ {
			r = not(r)
		}
		return r
	case token.EQL, token.NEQ:
		var r *Term
		switch {
		case it:
			r = eqI(a, b)
		case fl:
			r = eqF(a, b)
		case isBool(t):
			r = iff(a, b)
		default:
			r = e.equal(a, b, t)
		}
		if in.Op == token.NEQ {
			r = not(r)
		}
		return r
	}
	e.giveUp(fr, in.Pos(), "operator "+in.Op.String())
	return e.freshSym(fr, in, "op")
}

func (e *Eng) equal(a, b *Term, t types.Type) *Term {
	if s, ok := t.Underlying().(*types.Struct); ok {
		r := True
		for i := 0; i < s.NumFields(); i++ {
			x, y := fieldOf(a, i, t), fieldOf(b, i, t)
			ft := s.Field(i).Type()
			switch {
			case isInteger(ft):
				r = and(r, eqI(x, y))
			case isFloat(ft):
				r = and(r, eqF(x, y))
			default:
				r = and(r, e.equal(x, y, ft))
			}
		}
		return r
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return lift2(a, b, func(x, y *Term) *Term { return sameAddr(x, y) })
	}
	return eqG(a, b)
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "invoke:" + typeKey(c.Value.Type()) + "." + c.Method.Name()
	}
	switch f := c.Value.(type) {
	case *ssa.Function:
		return fnName(f)
	case *ssa.Builtin:
		return "builtin:" + f.Name()
	case *ssa.MakeClosure:
		return fnName(f.Fn.(*ssa.Function))
	}
	return "dynamic"
}

// fnName: "pkg.Func" or "pkg.Type.Method" with module-relative package path.
func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "main.")
	s = strings.ReplaceAll(s, "(*", "")
	s = strings.ReplaceAll(s, "(", "")
	s = strings.ReplaceAll(s, ")", "")
	return s
}
