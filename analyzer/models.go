package main

// Calls: builtins, functions of the module (inlined or treated as opaque by
// the rule at hand) and the library functions the module uses.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) call(fr *frame, st *State, in ssa.Instruction, c *ssa.CallCommon, v ssa.Value) *Term {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, e.val(fr, st, a))
	}
	var fv *Term
	if c.IsInvoke() {
		fv = e.val(fr, st, c.Value)
	} else if c.StaticCallee() == nil {
		if _, ok := c.Value.(*ssa.Builtin); !ok {
			fv = e.val(fr, st, c.Value)
		}
	}
	return e.callWith(fr, st, in, c, args, fv, in.Pos())
}

func (e *Eng) callWith(fr *frame, st *State, in ssa.Instruction, c *ssa.CallCommon, args []*Term, fv *Term, pos token.Pos) *Term {
	site := fmt.Sprintf("%s>%s.%s", fr.ctx, fr.fn.Name(), instrName(in))
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, st, in, b.Name(), c, args, pos)
	}
	if c.IsInvoke() {
		// dynamic dispatch: resolve when the concrete value is known
		recv := fv
		if recv.Op == OpIface && recv.X != nil {
			t := recv.X.(types.Type)
			if m := e.P.Prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); m != nil && inModule(m) {
				return e.callFn(fr, st, in, m, append([]*Term{recv.K[0]}, args...), nil, site, pos)
			}
		}
		return e.external(fr, st, in, calleeName(c), append([]*Term{fv}, args...), c.Signature(), pos)
	}
	fn := c.StaticCallee()
	var free []*Term
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		fn = mc.Fn.(*ssa.Function)
		cl := e.val(fr, st, mc)
		free = cl.K
	}
	if fn == nil && fv != nil {
		// call of a closure value
		if fv.Op == OpClosure {
			fn = fv.X.(*ssa.Function)
			free = fv.K
		} else {
			e.giveUp(fr, pos, "call of an unknown function value")
			e.event(fr, st, &Event{Kind: "ext", Pos: pos, Name: "dynamic", Args: args, Instr: in})
			return e.freshSym(fr, in, "dyn")
		}
	}
	return e.callFn(fr, st, in, fn, args, free, site, pos)
}

func (e *Eng) callFn(fr *frame, st *State, in ssa.Instruction, fn *ssa.Function, args, free []*Term, site string, pos token.Pos) *Term {
	name := fnName(fn)
	if o, ok := e.opaque[name]; ok {
		ev := &Event{Kind: "call", Pos: pos, Name: name, Args: args, Instr: in}
		e.event(fr, st, ev)
		var r *Term
		if o != nil {
			r = o(e, fr, st, fn, args, pos)
		}
		if r == nil {
			r = e.opaqueResult(fr, in, fn.Signature, name)
		}
		ev.Res = r
		return r
	}
	if inModule(fn) && len(fn.Blocks) > 0 {
		if fr.depth > 30 {
			e.giveUp(fr, pos, "call depth")
			return e.freshSym(fr, in, "deep")
		}
		r, out := e.inline(fn, args, free, st, site, fr)
		// keep the caller's view of loop results
		*st = *out
		if r.Op == OpTuple || fn.Signature.Results().Len() == 1 {
			return r
		}
		return r
	}
	return e.external(fr, st, in, name, args, fn.Signature, pos)
}

func (e *Eng) opaqueResult(fr *frame, in ssa.Instruction, sig *types.Signature, name string) *Term {
	n := sig.Results().Len()
	base := e.freshSym(fr, in, name)
	switch n {
	case 0:
		return Nil
	case 1:
		return typedSym(base, sig.Results().At(0).Type())
	}
	var ks []*Term
	for i := 0; i < n; i++ {
		ks = append(ks, typedSym(raw(OpSym, base.S+fmt.Sprintf(".%d", i), nil, base.K...), sig.Results().At(i).Type()))
	}
	return raw(OpTuple, "", nil, ks...)
}

func typedSym(s *Term, t types.Type) *Term {
	if isBool(t) {
		return asBool(s)
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		ks := make([]*Term, st.NumFields())
		for i := range ks {
			ks[i] = typedSym(raw(OpSym, s.S+"."+st.Field(i).Name(), nil, s.K...), st.Field(i).Type())
		}
		return raw(OpStruct, typeKey(t), nil, ks...)
	}
	return s
}

// pseudoLoop replaces heap key by the result of a block write a(c) -> v(c), c in [0,n).
func (e *Eng) pseudoLoop(fr *frame, in ssa.Instruction, st *State, key, kind, tag string, n *Term, mk func(c *Term) (a, v *Term)) {
	base := fmt.Sprintf("%s>%s.%s%s", fr.ctx, fr.fn.Name(), instrName(in), tag)
	e.version++
	id := fmt.Sprintf("%s~%d", base, e.version)
	K := sym("c:" + base)
	nonNeg[K] = true
	h := e.heap(st, key)
	a, v := mk(K)
	li := &LoopInst{ID: id, Base: base, Fn: fr.fn, K: K, Outer: e.counters(), N: n, Early: False, EntryPC: st.pc, BodyPC: st.pc,
		Init: map[string]*Heap{key: h}, Known: map[string]bool{key: true}, Cells: map[string][]*LoopVar{},
		Fams: map[string][]*Family{key: {{Counters: []*Term{K}, Bounds: []*Term{nil}, A: a, V: v, G: True}}}, Kind: kind}
	loops[id] = li
	st.heaps[key] = &Heap{base: loopHeap(id, key, n, li.Outer)}
}

// blockWrite performs a pseudo loop for every scalar component of an element type.
func (e *Eng) blockWrite(fr *frame, in ssa.Instruction, st *State, kind string, addr func(c *Term) *Term, t types.Type, n *Term, src func(c *Term, path string, a2 func(*Term) *Term) *Term) {
	var rec func(t types.Type, wrap func(*Term) *Term, path string)
	rec = func(t types.Type, wrap func(*Term) *Term, path string) {
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				f := fieldName(t, i)
				rec(s.Field(i).Type(), func(a *Term) *Term { return fld(wrap(a), f) }, path+"."+s.Field(i).Name())
			}
			return
		}
		probe := wrap(addr(sym("probe")))
		if probe.Op == OpIte {
			e.giveUp(fr, in.Pos(), "block write to one of several arrays")
			return
		}
		key := e.heapKey(probe, t)
		e.pseudoLoop(fr, in, st, key, kind, "~"+kind+path, n, func(c *Term) (*Term, *Term) {
			return wrap(addr(c)), src(c, path, wrap)
		})
	}
	rec(t, func(a *Term) *Term { return a }, "")
}

func (e *Eng) builtin(fr *frame, st *State, in ssa.Instruction, name string, c *ssa.CallCommon, args []*Term, pos token.Pos) *Term {
	switch name {
	case "len":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			return app("maplen", args[0], e.freshSym(fr, in, "maplen"))
		}
		return slen(args[0])
	case "cap":
		return scap(args[0])
	case "append":
		return e.appendTo(fr, st, in, c, args)
	case "copy":
		d, s := args[0], args[1]
		if isString(c.Args[1].Type()) {
			e.giveUp(fr, pos, "copy from string")
			return e.freshSym(fr, in, "copy")
		}
		n := ite(ltI(slen(s), slen(d)), slen(s), slen(d))
		n = simplify(n, st.know())
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		pre := st.clone()
		e.event(fr, st, &Event{Kind: "copy", Pos: pos, Args: []*Term{d, s, n}, Typ: et, Instr: in})
		if d == Nil || s == Nil {
			return Zero
		}
		e.blockWrite(fr, in, st, "copy", func(k *Term) *Term { return elem(sbase(d), add(soff(d), k)) }, et, n,
			func(k *Term, path string, wrap func(*Term) *Term) *Term {
				a := wrap(elem(sbase(s), add(soff(s), k)))
				return e.readRaw(pre, a, path, et)
			})
		return n
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		a := mapEl(args[0], args[1])
		e.store(fr, st, a, e.zero(mt.Elem()), mt.Elem(), in)
		pk := e.presKey(c.Args[0].Type())
		st.heaps[pk] = writeHeap(e.heap(st, pk), a, False)
		return Nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			lt := ltI
			if isFloat(c.Args[0].Type()) {
				lt = ltF
			}
			if name == "min" {
				r = ite(lt(a, r), a, r)
			} else {
				r = ite(lt(r, a), a, r)
			}
		}
		return r
	case "print", "println":
		return Nil
	case "ssa:wrapnilchk":
		return args[0]
	case "recover":
		e.giveUp(fr, pos, "recover")
		return Nil
	}
	e.giveUp(fr, pos, "builtin "+name)
	return e.freshSym(fr, in, name)
}

// readRaw reads the scalar component at path of an element of type t.
func (e *Eng) readRaw(st *State, a *Term, path string, t types.Type) *Term {
	for _, p := range strings.Split(path, ".") {
		if p == "" {
			continue
		}
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == p {
				t = s.Field(i).Type()
				break
			}
		}
	}
	if a.Op == OpIte {
		return sym("readraw?")
	}
	return readHeap(e.heap(st, e.heapKey(a, t)), a)
}

func (e *Eng) appendTo(fr *frame, st *State, in ssa.Instruction, c *ssa.CallCommon, args []*Term) *Term {
	s, t := args[0], args[1]
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	if isString(c.Args[1].Type()) {
		e.giveUp(fr, in.Pos(), "append of a string")
		return e.freshSym(fr, in, "append")
	}
	n := slen(t)
	e.event(fr, st, &Event{Kind: "append", Pos: in.Pos(), Args: []*Term{s, t, n}, Typ: et, Instr: in})
	b := sbase(s)
	if containsP(b, func(u *Term) bool { return u == Nil }) {
		a := e.allocTerm(fr, in, "~grow", et)
		b = mapLeaves(b, func(l *Term) *Term {
			if l == Nil {
				return a
			}
			return l
		})
	}
	ln := slen(s)
	if cnt, ok := numInt(n); ok && cnt <= 16 {
		var vs []*Term
		for i := int64(0); i < cnt; i++ {
			vs = append(vs, e.load(st, elem(sbase(t), add(soff(t), num(i))), et))
		}
		for i, v := range vs {
			e.store(fr, st, elem(b, add(add(soff(s), ln), num(int64(i)))), v, et, in)
		}
	} else {
		pre := st.clone()
		e.blockWrite(fr, in, st, "copy", func(k *Term) *Term { return elem(b, add(add(soff(s), ln), k)) }, et, n,
			func(k *Term, path string, wrap func(*Term) *Term) *Term {
				return e.readRaw(pre, wrap(elem(sbase(t), add(soff(t), k))), path, et)
			})
	}
	nl := add(ln, n)
	cp := scap(s)
	nc := ite(ltI(cp, nl), e.freshCap(fr, in), cp)
	return mkSlice(b, soff(s), nl, simplify(nc, st.know()))
}

func (e *Eng) freshCap(fr *frame, in ssa.Instruction) *Term {
	c := e.freshSym(fr, in, "cap")
	nonNeg[c] = true
	return c
}

var pureExt = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": true,
	"errors.New": true, "time.Time.Sub": true, "time.Since": false,
}

var noReturn = map[string]bool{
	"log.Logger.Fatal": true, "log.Logger.Fatalf": true, "log.Logger.Fatalln": true,
	"log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "os.Exit": true,
	"log.Logger.Panic": true, "log.Logger.Panicf": true, "log.Logger.Panicln": true,
	"runtime.Goexit": true,
}

var output = map[string]bool{
	"fmt.Printf": true, "fmt.Println": true, "fmt.Print": true, "fmt.Fprintf": true, "fmt.Fprintln": true, "fmt.Fprint": true,
	"log.Logger.Println": true, "log.Logger.Printf": true, "log.Logger.Print": true,
	"log.Println": true, "log.Printf": true, "log.Print": true,
}

func (e *Eng) external(fr *frame, st *State, in ssa.Instruction, name string, args []*Term, sig *types.Signature, pos token.Pos) (res *Term) {
	nres := sig.Results().Len()
	ev := &Event{Kind: "ext", Pos: pos, Name: name, Args: args, Instr: in}
	e.event(fr, st, ev)
	defer func() { ev.Res = res }()
	if noReturn[name] {
		st.pc = False
		return Nil
	}
	pkg := name
	if i := strings.Index(name, "."); i >= 0 {
		pkg = name[:i]
	}
	wrapRes := func(base string) *Term {
		if nres == 0 {
			return Nil
		}
		if nres == 1 {
			r := app(base, args...)
			if isBool(sig.Results().At(0).Type()) {
				r = asBool(r)
			}
			return r
		}
		var ks []*Term
		for i := 0; i < nres; i++ {
			r := app(fmt.Sprintf("%s#%d", base, i), args...)
			if isBool(sig.Results().At(i).Type()) {
				r = asBool(r)
			}
			ks = append(ks, r)
		}
		return raw(OpTuple, "", nil, ks...)
	}
	switch pkg {
	case "math":
		switch name {
		case "math.Max":
			return ite(ltF(args[0], args[1]), args[1], args[0])
		case "math.Min":
			return ite(ltF(args[1], args[0]), args[1], args[0])
		case "math.Floor", "math.Ceil", "math.Log", "math.Log2", "math.Log10", "math.Exp", "math.Pow", "math.Sqrt", "math.Abs",
			"math.Inf", "math.IsNaN", "math.IsInf", "math.Trunc", "math.Round", "math.NaN", "math.Mod", "math.Exp2", "math.Float64bits", "math.Pow10":
			return wrapRes(name)
		}
		return wrapRes(name)
	case "strconv", "strings", "unicode", "utf8", "unicode/utf8", "math/bits", "bytes":
		if name == "strings.Split" || name == "strings.Fields" || name == "strings.SplitN" {
			return wrapRes(name)
		}
		if name == "strings.Count" && args[1].Op == OpStr && args[1].S != "" {
			return sub(slen(app("strings.Split", args...)), One)
		}
		if recvPtr(sig) {
			break
		}
		return wrapRes(name)
	case "sort":
		switch name {
		case "sort.Sort", "sort.Stable":
			return e.modelSort(fr, st, in, args[0], pos)
		case "sort.Ints", "sort.Float64s", "sort.Slice", "sort.SliceStable":
			return e.modelSortSlice(fr, st, in, args, name, pos)
		}
	}
	switch name {
	case "math/rand.Shuffle", "math/rand.Rand.Shuffle":
		n := len(args)
		return e.modelShuffle(fr, st, in, args[n-2], args[n-1], pos)
	case "math/rand.Intn", "math/rand.Int31n", "math/rand.Int63n", "math/rand.Rand.Intn":
		r := e.freshSym(fr, in, "randn")
		nonNeg[r] = true
		n := args[len(args)-1]
		e.boundedSym(r, n)
		return r
	case "math/rand.Int", "math/rand.Int63", "math/rand.Int31", "math/rand.Rand.Int":
		r := e.freshSym(fr, in, "rand")
		nonNeg[r] = true
		e.symFact(r, func(t *Term) []*Term { return []*Term{not(ltI0(t))} })
		return r
	case "math/rand.Perm", "math/rand.Rand.Perm":
		return e.modelPerm(fr, st, in, args[len(args)-1], pos)
	case "math/rand.Seed":
		return Nil
	case "time.Now":
		return e.freshSym(fr, in, "now")
	case "container/heap.Init", "container/heap.Push", "container/heap.Pop", "container/heap.Fix", "container/heap.Remove":
		return e.modelHeap(fr, st, in, name, args, sig, pos)
	case "bufio.NewScanner", "bufio.NewReader":
		return e.freshSym(fr, in, "reader")
	case "bufio.Scanner.Scan":
		// advances the reader's state
		ep := e.epoch(st, args[0])
		ok := asBool(app("scan.ok", args[0], ep))
		e.setEpoch(fr, st, args[0], add(ep, One))
		return ok
	case "bufio.Scanner.Text":
		return app("scan.text", args[0], e.epoch(st, args[0]))
	case "bufio.Scanner.Bytes":
		return app("scan.bytes", args[0], e.epoch(st, args[0]))
	case "bufio.Scanner.Err":
		return app("scan.err", args[0], e.epoch(st, args[0]))
	case "encoding/json.Unmarshal":
		return e.modelUnmarshal(fr, st, in, args)
	case "io/ioutil.ReadFile", "os.ReadFile":
		return wrapRes(name)
	case "errors.New", "fmt.Errorf", "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		r := e.freshSym(fr, in, name)
		nonNilSyms[r.S] = true
		return r
	}
	if output[name] {
		if nres == 0 {
			return Nil
		}
		return e.opaqueResult(fr, in, sig, name)
	}
	// unknown library call: results unknown; memory of this module that is not
	// passed by reference is unaffected
	if h, ok := extOpaque[name]; ok {
		if h != nil {
			return h(e, fr, st, in, args, sig)
		}
		return e.opaqueResult(fr, in, sig, name)
	}
	for i, a := range args {
		_ = i
		if mayReachModule(a) && !strings.HasPrefix(name, "time.") && !strings.HasPrefix(name, "hash/") && !strings.HasPrefix(name, "encoding/binary") && !strings.HasPrefix(name, "os.") && !strings.HasPrefix(name, "runtime/pprof") {
			e.giveUp(fr, pos, "library call "+name+" with module memory")
			break
		}
	}
	return e.opaqueResult(fr, in, sig, name)
}

var nonNilSyms = map[string]bool{}

func recvPtr(sig *types.Signature) bool {
	if sig.Recv() == nil {
		return false
	}
	_, ok := sig.Recv().Type().(*types.Pointer)
	return ok
}

type extModel func(e *Eng, fr *frame, st *State, in ssa.Instruction, args []*Term, sig *types.Signature) *Term

var extOpaque = map[string]extModel{
	"hash/maphash.MakeSeed":      nil,
	"hash/maphash.Hash.SetSeed":  mhWrite,
	"hash/maphash.Hash.Reset":    mhReset,
	"hash/maphash.Hash.Write":    mhWrite,
	"hash/maphash.Hash.Sum64":    mhSum,
	"encoding/binary.PutVarint":  putVarint,
	"encoding/binary.PutUvarint": putVarint,
	"os.Open":                    nil,
	"os.Create":                  nil,
}

// The maphash state is kept as one cell per hash object.
func mhCell(e *Eng, args []*Term) (string, *Term) {
	a := fld(args[0], "maphash.state")
	key := "F:maphash.state"
	if _, ok := zeroOf[key]; !ok {
		zeroOf[key] = Nil
		e.keyTyp[key] = types.Typ[types.UnsafePointer]
	}
	return key, a
}

func mhReset(e *Eng, fr *frame, st *State, in ssa.Instruction, args []*Term, sig *types.Signature) *Term {
	key, a := mhCell(e, args)
	old := readHeap(e.heap(st, key), a)
	// reset keeps the seed only
	seed := mapLeaves(old, func(seed *Term) *Term {
		for seed.Op == OpApp && (seed.S == "mh.write" || seed.S == "mh.reset") {
			seed = seed.K[0]
		}
		if seed.Op == OpVar || seed.Op == OpSel {
			seed = app("mh.reset", seed)
		}
		return seed
	})
	st.heaps[key] = writeHeap(e.heap(st, key), a, seed)
	return Nil
}

func mhWrite(e *Eng, fr *frame, st *State, in ssa.Instruction, args []*Term, sig *types.Signature) *Term {
	key, a := mhCell(e, args)
	old := readHeap(e.heap(st, key), a)
	var v *Term
	if len(args) > 1 && strings.HasSuffix(sig.String(), "(seed hash/maphash.Seed)") {
		v = app("mh.seed", args[1])
	} else {
		v = app("mh.write", old, e.contentOf(st, args[1]))
	}
	st.heaps[key] = writeHeap(e.heap(st, key), a, v)
	if sig.Results().Len() == 0 {
		return Nil
	}
	return e.opaqueResult(fr, in, sig, "mhwrite")
}

func mhSum(e *Eng, fr *frame, st *State, in ssa.Instruction, args []*Term, sig *types.Signature) *Term {
	key, a := mhCell(e, args)
	return app("wrap64", app("mh.sum", readHeap(e.heap(st, key), a)))
}

// contentOf names the bytes a slice shows.
func (e *Eng) contentOf(st *State, s *Term) *Term {
	b := sbase(s)
	key := "B:bytes"
	if _, ok := zeroOf[key]; !ok {
		zeroOf[key] = Nil
	}
	c := readHeap(e.heap(st, key), elem(b, Zero))
	return app("content", c, slen(s))
}

func putVarint(e *Eng, fr *frame, st *State, in ssa.Instruction, args []*Term, sig *types.Signature) *Term {
	key := "B:bytes"
	if _, ok := zeroOf[key]; !ok {
		zeroOf[key] = Nil
	}
	if _, ok := e.keyTyp[key]; !ok {
		e.keyTyp[key] = types.Typ[types.UnsafePointer]
	}
	v := app("varint", args[1])
	st.heaps[key] = writeHeap(e.heap(st, key), elem(sbase(args[0]), Zero), v)
	n := app("varintlen", args[1])
	// an integer below 2^55 takes at most 8 bytes
	facts := func(t *Term) []*Term {
		if t.Op != OpApp || t.S != "varintlen" {
			return nil
		}
		return []*Term{leI(One, t), leI(t, num(10)), or(not(inRange(t.K[0], Zero, num(1<<55))), leI(t, num(8)))}
	}
	factHooks = append(factHooks, facts)
	e.event(fr, st, &Event{Kind: "index", Pos: in.Pos(), Args: []*Term{sub(n, One), slen(args[0])}, Instr: in})
	return n
}

func mayReachModule(t *Term) bool {
	return containsP(t, func(u *Term) bool {
		return u.Op == OpAlloc || u.Op == OpGlob || u.Op == OpFld || u.Op == OpElem || u.Op == OpClosure
	})
}

// symFact registers facts for every instance of a fresh symbol.
func (e *Eng) symFact(r *Term, f func(t *Term) []*Term) {
	name := r.S
	factHooks = append(factHooks, func(t *Term) []*Term {
		if t.Op == OpSym && t.S == name {
			return f(t)
		}
		return nil
	})
}

func (e *Eng) boundedSym(r, n *Term) {
	ks := r.K
	e.symFact(r, func(t *Term) []*Term {
		m := Sub{}
		for i, k := range ks {
			if i < len(t.K) && t.K[i] != k {
				m[k] = t.K[i]
			}
		}
		return []*Term{not(ltI0(t)), ltI(t, subst(n, m))}
	})
}

// ---- reader state

func (e *Eng) epochCell(r *Term) (string, *Term) {
	key := "F:bufio.epoch"
	if _, ok := zeroOf[key]; !ok {
		zeroOf[key] = Zero
		e.keyTyp[key] = types.Typ[types.Int]
	}
	return key, fld(r, "bufio.epoch")
}

func (e *Eng) epoch(st *State, r *Term) *Term {
	key, a := e.epochCell(r)
	return readHeap(e.heap(st, key), a)
}

func (e *Eng) setEpoch(fr *frame, st *State, r, v *Term) {
	key, a := e.epochCell(r)
	st.heaps[key] = writeHeap(e.heap(st, key), a, v)
}

// ---- permutations

func symAt(fr *frame, in ssa.Instruction) string {
	return fmt.Sprintf("@%s>%s.%s", fr.ctx, fr.fn.Name(), instrName(in))
}

// permuted replaces the contents of s[0:n] by an unknown permutation of themselves.
func (e *Eng) permuted(fr *frame, st *State, in ssa.Instruction, kind string, s, n *Term, et types.Type) {
	b, off := sbase(s), soff(s)
	e.blockWrite(fr, in, st, kind, func(k *Term) *Term { return elem(b, add(off, k)) }, et, n,
		func(k *Term, path string, wrap func(*Term) *Term) *Term {
			cs := e.counters()
			return raw(OpSym, "fresh:"+kind+path+symAt(fr, in), nil, append([]*Term{k}, cs...)...)
		})
}

func (e *Eng) modelSort(fr *frame, st *State, in ssa.Instruction, x *Term, pos token.Pos) *Term {
	if x.Op != OpIface || x.X == nil {
		e.giveUp(fr, pos, "sort of an unknown value")
		return Nil
	}
	t := x.X.(types.Type)
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		e.giveUp(fr, pos, "sort of a non-slice")
		return Nil
	}
	ev := &Event{Kind: "sort", Pos: pos, Name: typeKey(t), Args: []*Term{x.K[0]}, Typ: t, Instr: in, Sym: symAt(fr, in)}
	method := func(name string) *ssa.Function {
		if n, ok := t.(*types.Named); ok {
			if m := e.P.Prog.LookupMethod(t, n.Obj().Pkg(), name); m != nil && len(m.Blocks) > 0 && (inModule(m) || m.Synthetic != "") {
				return m
			}
		}
		return nil
	}
	if ln, less, swap := method("Len"), method("Less"), method("Swap"); ln != nil && less != nil && swap != nil {
		n, out := e.quietly(fr, in, ln, []*Term{x.K[0]}, nil, st)
		if out.pc == False || !provedEq(st.know(), n, slen(x.K[0])) {
			e.giveUp(fr, pos, "sort of a type with an unknown length")
		}
		ev.Less = e.lessOf(fr, in, st, less, []*Term{x.K[0]}, nil, slen(x.K[0]))
		if !e.swaps(fr, in, st, swap, []*Term{x.K[0]}, nil, func(k *Term) *Term { return elem(sbase(x.K[0]), add(soff(x.K[0]), k)) }, sl.Elem(), slen(x.K[0])) {
			e.giveUp(fr, pos, "sort with a Swap that does not exchange two elements")
		}
	} else if typeKey(t) != "sort.IntSlice" && typeKey(t) != "sort.Float64Slice" {
		e.giveUp(fr, pos, "sort of a type with unknown methods")
	} else {
		ev.Less = ltI(e.load(st, elem(sbase(x.K[0]), add(soff(x.K[0]), sortI)), sl.Elem()), e.load(st, elem(sbase(x.K[0]), add(soff(x.K[0]), sortJ)), sl.Elem()))
	}
	e.event(fr, st, ev)
	e.permuted(fr, st, in, "sorted", x.K[0], slen(x.K[0]), sl.Elem())
	return Nil
}

// the two positions a comparison is about
var sortI, sortJ *Term

// quietly evaluates a callback without recording what happens in it.
func (e *Eng) quietly(fr *frame, in ssa.Instruction, fn *ssa.Function, args, free []*Term, st *State) (*Term, *State) {
	mark := len(e.events)
	v, out := e.inline(fn, args, free, st.clone(), fr.ctx+">"+fn.Name()+"@"+instrName(in), fr)
	e.events = e.events[:mark]
	return v, out
}

// lessOf is the order a comparison callback defines; nil if it does more than
// compare.
func (e *Eng) lessOf(fr *frame, in ssa.Instruction, st *State, fn *ssa.Function, args, free []*Term, n *Term) *Term {
	sortI, sortJ = sym("sort:i"), sym("sort:j")
	nonNeg[sortI], nonNeg[sortJ] = true, true
	pre := st.clone()
	pre.assume(andN(ltI(sortI, n), ltI(sortJ, n)))
	mark := len(e.events)
	v, out := e.inline(fn, append(append([]*Term{}, args...), sortI, sortJ), free, pre, fr.ctx+">less@"+instrName(in), fr)
	pure := out.pc != False && v != nil
	for _, ev := range e.events[mark:] {
		if ev.Kind == "store" && !freshMem(ev.Addr) || ev.Kind == "ext" || ev.Kind == "call" || ev.Kind == "mapupdate" {
			pure = false
		}
	}
	e.events = e.events[:mark]
	if !pure {
		return nil
	}
	return v
}

// swaps: the callback exchanges two elements and changes nothing else.
func (e *Eng) swaps(fr *frame, in ssa.Instruction, st *State, fn *ssa.Function, args, free []*Term, at func(k *Term) *Term, et types.Type, n *Term) bool {
	i, j := sym("swap:i"), sym("swap:j")
	pre := st.clone()
	pre.assume(andN(inRange(i, Zero, n), inRange(j, Zero, n)))
	mark := len(e.events)
	_, out := e.inline(fn, append(append([]*Term{}, args...), i, j), free, pre, fr.ctx+">swap@"+instrName(in), fr)
	ai, aj := at(i), at(j)
	ok := out.pc != False
	for _, ev := range e.events[mark:] {
		switch ev.Kind {
		case "store":
			ok = ok && within(ev.Addr, func(u *Term) bool { return sameAddr(u, ai) == True || sameAddr(u, aj) == True })
		case "ext", "call", "mapupdate", "copy", "append":
			ok = false
		}
	}
	e.events = e.events[:mark]
	neq := andN(not(eqI(i, j)), inRange(i, Zero, n), inRange(j, Zero, n), st.know())
	same := func(a, b *Term) bool { return provedEq(neq, simplify(a, neq), simplify(b, neq)) }
	var rec func(t types.Type, wrap func(*Term) *Term)
	rec = func(t types.Type, wrap func(*Term) *Term) {
		if s, is := t.Underlying().(*types.Struct); is {
			for f := 0; f < s.NumFields(); f++ {
				f := f
				rec(s.Field(f).Type(), func(a *Term) *Term { return fld(wrap(a), fieldName(t, f)) })
			}
			return
		}
		ok = ok && same(e.load(out, wrap(ai), t), e.load(st, wrap(aj), t)) && same(e.load(out, wrap(aj), t), e.load(st, wrap(ai), t))
	}
	if ok {
		rec(et, func(a *Term) *Term { return a })
	}
	return ok
}

func (e *Eng) modelSortSlice(fr *frame, st *State, in ssa.Instruction, args []*Term, name string, pos token.Pos) *Term {
	s := args[0]
	var et types.Type
	switch name {
	case "sort.Ints":
		et = types.Typ[types.Int]
	case "sort.Float64s":
		et = types.Typ[types.Float64]
	default:
		if s.Op == OpIface && s.X != nil {
			if sl, ok := s.X.(types.Type).Underlying().(*types.Slice); ok {
				et = sl.Elem()
				s = s.K[0]
			}
		}
	}
	if et == nil {
		e.giveUp(fr, pos, name+" of an unknown value")
		return Nil
	}
	ev := &Event{Kind: "sort", Pos: pos, Name: name, Args: append([]*Term{s}, args[1:]...), Typ: et, Instr: in, Sym: symAt(fr, in)}
	if len(args) == 1 {
		sortI, sortJ = sym("sort:i"), sym("sort:j")
		ev.Less = ltI(e.load(st, elem(sbase(s), add(soff(s), sortI)), et), e.load(st, elem(sbase(s), add(soff(s), sortJ)), et))
		if isFloat(et) {
			ev.Less = ltF(e.load(st, elem(sbase(s), add(soff(s), sortI)), et), e.load(st, elem(sbase(s), add(soff(s), sortJ)), et))
		}
	} else if f := args[1]; f.Op == OpClosure {
		ev.Less = e.lessOf(fr, in, st, f.X.(*ssa.Function), nil, f.K, slen(s))
	}
	e.event(fr, st, ev)
	e.permuted(fr, st, in, "sorted", s, slen(s), et)
	return Nil
}

// rand.Perm: the numbers 0..n-1, shuffled.
func (e *Eng) modelPerm(fr *frame, st *State, in ssa.Instruction, n *Term, pos token.Pos) *Term {
	et := types.Typ[types.Int]
	b := e.allocTerm(fr, in, "perm", et)
	e.blockWrite(fr, in, st, "perm", func(k *Term) *Term { return elem(b, k) }, et, n,
		func(k *Term, path string, wrap func(*Term) *Term) *Term { return k })
	key := e.heapKey(elem(b, Zero), et)
	e.event(fr, st, &Event{Kind: "shuffle", Pos: pos, Args: []*Term{n, b}, Key: key, Instr: in, Sym: symAt(fr, in)})
	e.blockWrite(fr, in, st, "shuffled", func(k *Term) *Term { return elem(b, k) }, et, n,
		func(k *Term, path string, wrap func(*Term) *Term) *Term {
			return raw(OpSym, "fresh:shuffled"+path+symAt(fr, in), nil, append([]*Term{k}, e.counters()...)...)
		})
	st.assume(not(ltI0(n)))
	return mkSlice(b, Zero, n, n)
}

// modelShuffle checks that the callback swaps two elements of one slice.
func (e *Eng) modelShuffle(fr *frame, st *State, in ssa.Instruction, n, f *Term, pos token.Pos) *Term {
	if f.Op != OpClosure {
		e.giveUp(fr, pos, "shuffle with an unknown swap function")
		return Nil
	}
	i, j := sym("swap:i"), sym("swap:j")
	mark := len(e.events)
	pre := st.clone()
	_, out := e.inline(f.X.(*ssa.Function), []*Term{i, j}, f.K, pre, fr.ctx+">swap@"+instrName(in), fr)
	var stores []*Event
	for _, ev := range e.events[mark:] {
		if ev.Kind == "store" {
			stores = append(stores, ev)
		}
	}
	e.events = e.events[:mark]
	ok := len(stores) == 2 && stores[0].Key == stores[1].Key && stores[0].Addr.Op == OpElem && stores[1].Addr.Op == OpElem &&
		stores[0].Addr.K[0] == stores[1].Addr.K[0]
	if !ok || out.pc == False {
		e.giveUp(fr, pos, "shuffle callback is not a swap of two elements")
		return Nil
	}
	b := stores[0].Addr.K[0]
	key := stores[0].Key
	ai, aj := elem(b, i), elem(b, j)
	h0, h1 := e.heap(st, key), e.heap(out, key)
	neq := andN(not(eqI(i, j)), inRange(i, Zero, n), inRange(j, Zero, n), st.know())
	same := func(a, b *Term) bool { return provedEq(neq, simplify(a, neq), simplify(b, neq)) }
	if !same(readHeap(h1, ai), readHeap(h0, aj)) || !same(readHeap(h1, aj), readHeap(h0, ai)) {
		e.giveUp(fr, pos, "shuffle callback does not swap")
		return Nil
	}
	e.event(fr, st, &Event{Kind: "shuffle", Pos: pos, Args: []*Term{n, b}, Key: key, Instr: in, Sym: symAt(fr, in)})
	et := e.keyTyp[key]
	e.blockWrite(fr, in, st, "shuffled", func(k *Term) *Term { return elem(b, k) }, et, n,
		func(k *Term, path string, wrap func(*Term) *Term) *Term {
			return raw(OpSym, "fresh:shuffled"+path+symAt(fr, in), nil, append([]*Term{k}, e.counters()...)...)
		})
	return Nil
}

// container/heap on a pointer to a slice: the slice's contents become an
// unknown arrangement; Push adds and Pop removes one element.
func (e *Eng) modelHeap(fr *frame, st *State, in ssa.Instruction, name string, args []*Term, sig *types.Signature, pos token.Pos) *Term {
	e.event(fr, st, &Event{Kind: "pq", Pos: pos, Name: name, Args: args, Instr: in, Sym: symAt(fr, in)})
	x := args[0]
	if x.Op != OpIface || x.X == nil {
		e.giveUp(fr, pos, "heap operation on an unknown value")
		return e.freshSym(fr, in, "heap")
	}
	pt, ok := x.X.(types.Type).Underlying().(*types.Pointer)
	if !ok {
		e.giveUp(fr, pos, "heap operation on a non-pointer")
		return e.freshSym(fr, in, "heap")
	}
	sl, ok := pt.Elem().Underlying().(*types.Slice)
	if !ok {
		e.giveUp(fr, pos, "heap operation on a non-slice")
		return e.freshSym(fr, in, "heap")
	}
	p := x.K[0]
	cur := e.load(st, p, pt.Elem())
	b, o, l := sbase(cur), soff(cur), slen(cur)
	var nl *Term
	switch name {
	case "container/heap.Push":
		nl = add(l, One)
	case "container/heap.Pop", "container/heap.Remove":
		nl = sub(l, One)
	default:
		nl = l
	}
	e.permuted(fr, st, in, "pq", cur, ite(ltI(l, nl), nl, l), sl.Elem())
	ns := mkSlice(b, o, nl, scap(cur))
	key := e.heapKey(p, pt.Elem())
	st.heaps[key] = writeHeap(e.heap(st, key), p, ns)
	if sig.Results().Len() == 1 {
		r := e.freshSym(fr, in, "pqpop")
		et := sl.Elem()
		return raw(OpIface, typeKey(et), et, typedSym(r, et))
	}
	return Nil
}

// json.Unmarshal may set any field reachable from its target.
func (e *Eng) modelUnmarshal(fr *frame, st *State, in ssa.Instruction, args []*Term) *Term {
	x := args[1]
	if x.Op == OpIface && x.X != nil {
		if pt, ok := x.X.(types.Type).Underlying().(*types.Pointer); ok {
			if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					a := fld(x.K[0], fieldName(pt.Elem(), i))
					key := e.heapKey(a, s.Field(i).Type())
					old := readHeap(e.heap(st, key), a)
					v := app("decoded:"+s.Field(i).Name(), args[0], old)
					if isBool(s.Field(i).Type()) {
						v = asBool(v)
					}
					st.heaps[key] = writeHeap(e.heap(st, key), a, v)
				}
				return app("unmarshal.err", args[0], str(typeKey(pt.Elem())))
			}
		}
	}
	e.giveUp(fr, in.Pos(), "json.Unmarshal into an unknown target")
	return e.freshSym(fr, in, "unmarshal")
}
