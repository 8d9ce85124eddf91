package main

// C05, C06: configuration and package-level state.

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C05"] = rule{"loading overlays the defaults and reports every failure", ruleC05, "proof"}
	rules["C06"] = rule{"package-level state is fixed after start-up", ruleC06, "proof"}
}

// defaults are the documented default settings.
func (c *Ctx) defaults() map[string]*Term {
	n := func(v int64) *Term { return num(v) }
	m := map[string]*Term{
		"BatchSize": n(1000), "Rehash": n(1000), "Rebuild": n(1000), "InputDim": n(784), "TotRecords": n(60000), "TotRecordsTest": n(10000),
		"LearningRate": c.floatConst("0.0001"), "Epoch": n(5), "Stepsize": n(20), "NumLayer": n(3),
		"TrainData": str(""), "TestData": str(""), "Weights": str(""), "SavedWeights": str(""), "LogFile": str(""),
		"UseAdam": True, "LoadWeight": False, "CpuProfile": False, "MemProfile": False,
		"HashFunction": c.constOf("configuration.DensifiedWtaHashFunction"), "LayerMode": c.constOf("configuration.LayerMode4"),
	}
	return m
}

func (c *Ctx) cfgFields() []string {
	var out []string
	s := c.typ(tCfg).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		out = append(out, s.Field(i).Name())
	}
	return out
}

func ruleC05(c *Ctx) {
	c.run("configuration.Default", nil, func(r *Run) {
		def := c.defaults()
		r.holds("every request for defaults yields an object of its own", r.Name, r.know(), fresh(r.Res), r.Fn.Pos())
		seen := 0
		var bases []*Term
		for _, f := range c.cfgFields() {
			v := r.getIn(r.St, r.Res, tCfg, f)
			_, ft := c.field(tCfg, f)
			if _, ok := ft.Underlying().(*types.Slice); ok {
				r.eq("lists are empty by default ("+f+")", r.Name, r.know(), slen(v), Zero)
				b := sbase(v)
				if b != Nil {
					c.ob("lists of defaults are not shared ("+f+")", r.Name, freshMem(b) || r.proves(r.know(), eqI(scap(v), Zero)), r.Fn.Pos(), "%s", show(v, 6))
				}
				bases = append(bases, b)
				seen++
				continue
			}
			if want, ok := def[f]; ok {
				seen++
				r.eq("the default of "+f+" is the documented one", r.Name, r.know(), v, want)
			}
		}
		c.ob("the documented settings exist", r.Name, seen >= len(def)+4, r.Fn.Pos(), "%d found", seen)
		r.noPanic("defaults are always available", nil)
		r.onlyWrites("defaults change nothing", func(w wr, a *Term) bool { return false })
	})
	c.loading()
}

// fresh: t is memory allocated by the run.
func fresh(t *Term) *Term {
	r := True
	for _, l := range leaves(t) {
		if !freshMem(l) || l.Op == OpNil {
			r = and(r, not(leafCond(t, l)))
		}
	}
	return r
}

// loading: a configuration file is read, decoded over the defaults, and every
// failure is returned.
func (c *Ctx) loading() {
	c.run("configuration.FromJsonFile", nil, func(r *Run) {
		var reads, decs []*Event
		for _, ev := range r.events {
			switch ev.Name {
			case "io/ioutil.ReadFile", "os.ReadFile":
				reads = append(reads, ev)
			case "encoding/json.Unmarshal":
				decs = append(decs, ev)
			}
		}
		c.ob("the file is read once", r.Name, len(reads) == 1, r.Fn.Pos(), "%d reads", len(reads))
		c.ob("the file is decoded once", r.Name, len(decs) == 1, r.Fn.Pos(), "%d decodings", len(decs))
		if len(reads) != 1 || len(decs) != 1 {
			return
		}
		rd, dec := reads[0], decs[0]
		data, rerr := app(rd.Name+"#0", rd.Args...), app(rd.Name+"#1", rd.Args...)
		r.eq("the file read is the one asked for", r.Name, full(rd), rd.Args[0], r.A[0])
		r.holds("the file is read", r.Name, r.know(), full(rd), rd.Pos)
		target := dec.Args[1]
		c.ob("a configuration is decoded", r.Name, target.Op == OpIface && ptrElem(target.X.(types.Type)) != nil && types.Identical(ptrElem(target.X.(types.Type)), c.typ(tCfg)), dec.Pos, "%s", show(target, 4))
		derr := app("unmarshal.err", dec.Args[0], str(typeKey(c.typ(tCfg))))
		r.same("what was read is decoded", r.Name, full(dec), dec.Args[0], data)
		r.holds("nothing is decoded if reading failed", r.Name, full(dec), eqG(rerr, Nil), dec.Pos)
		cfg, err := r.Res.K[0], r.Res.K[1]
		good := andN(r.know(), eqG(rerr, Nil), eqG(derr, Nil))
		r.holds("a file that cannot be read is an error", r.Name, and(r.know(), not(eqG(rerr, Nil))), not(eqG(err, Nil)), r.Fn.Pos())
		r.holds("a file that does not decode is an error", r.Name, andN(r.know(), eqG(rerr, Nil), not(eqG(derr, Nil))), not(eqG(err, Nil)), r.Fn.Pos())
		r.holds("an error comes without a configuration", r.Name, and(r.know(), not(eqG(err, Nil))), eqG(cfg, Nil), r.Fn.Pos())
		r.holds("a file that decodes is no error", r.Name, good, eqG(err, Nil), r.Fn.Pos())
		r.holds("every load yields an object of its own", r.Name, good, fresh(cfg), r.Fn.Pos())
		if target.Op == OpIface {
			r.holds("the configuration returned is the one decoded", r.Name, good, samePtr(cfg, target.K[0]), r.Fn.Pos())
		}
		def := c.defaults()
		cfg = simplify(cfg, good)
		for _, f := range c.cfgFields() {
			v := simplify(r.getIn(r.St, cfg, tCfg, f), good)
			_, ft := c.field(tCfg, f)
			_, isList := ft.Underlying().(*types.Slice)
			var ok bool
			var d *Term
			containsP(v, func(u *Term) bool {
				if d == nil && u.Op == OpApp && u.S == "decoded:"+f {
					d = u
				}
				return d != nil
			})
			if want := c.decodedAs(r, d, ft); d != nil && r.eqUnder(good, v, want) {
				old := d.K[1]
				switch {
				case isList:
					ok = r.proves(good, eqI(slen(old), Zero))
				case def[f] != nil:
					ok = r.eqUnder(good, old, def[f])
				default:
					ok = true
				}
			}
			c.ob("a setting missing from the file keeps its default ("+f+")", r.Name, ok, r.Fn.Pos(), "%s", show(v, 8))
		}
		r.noPanic("loading never aborts", nil)
		r.onlyWrites("loading changes nothing that existed before", func(w wr, a *Term) bool { return false })
	})
}

// decodedAs is a setting whose decoded value is d.
func (c *Ctx) decodedAs(r *Run, d *Term, t types.Type) *Term {
	if d != nil && isBool(t) {
		return asBool(d)
	}
	return d
}

// floatConst is the term of a floating-point literal.
func (c *Ctx) floatConst(s string) *Term {
	x, _ := new(big.Rat).SetString(s)
	return numR(x)
}

// ---- C06

func ruleC06(c *Ctx) {
	g := &globalFlow{c: c, val: map[ssa.Value]bool{}, hold: map[ssa.Value]bool{}, field: map[string]bool{}, elem: map[string]bool{}, ret: map[*ssa.Function]map[int]bool{}}
	g.run()
	installers := c.onlyFrom("main.main")
	report := g.reportOnly()
	n, bad := 0, 0
	flag := func(in ssa.Instruction, what string) {
		bad++
		c.ob("package-level state is not changed after start-up", fnName(in.Parent()), false, in.Pos(), "%s", what)
	}
	for _, f := range c.allFuncs() {
		if g.atInit(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if !g.val[x.Addr] {
						continue
					}
					n++
					if gl, ok := x.Addr.(*ssa.Global); ok {
						if globName(gl) == "configuration.Global" && installers[f] || report[gl] {
							continue
						}
						flag(in, "writes "+globName(gl))
						continue
					}
					if g.beforeInstall(x) {
						continue
					}
					flag(in, "writes memory reachable from "+g.why(x.Addr))
				case *ssa.MapUpdate:
					if g.val[x.Map] {
						flag(in, "updates a map reachable from package-level state")
					}
				case *ssa.Send:
					if g.val[x.Chan] {
						flag(in, "sends on a package-level channel")
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy", "delete", "clear", "close":
							if len(cc.Args) > 0 && g.val[cc.Args[0]] && !g.emptyAppend(x) {
								flag(in, bi.Name()+" on memory reachable from package-level state")
							}
						}
						continue
					}
					if fn := cc.StaticCallee(); fn != nil && inModule(fn) && fn.Blocks != nil {
						continue
					}
					name := calleeName(cc)
					if readsOnly(name) {
						continue
					}
					for _, a := range append([]ssa.Value{cc.Value}, cc.Args...) {
						if cc.StaticCallee() != nil && a == cc.Value {
							continue
						}
						if cc.IsInvoke() && a == cc.Value && len(g.impls(cc)) > 0 {
							continue
						}
						if g.val[a] {
							flag(in, "passes package-level memory to "+name)
						}
					}
				}
			}
		}
	}
	if bad == 0 {
		c.ob("package-level state is not changed after start-up", "the module", true, 0, "%d writes examined, %d values followed", n, len(g.val))
	}
	// the program installs its configuration before anything uses it
	c.mainRun("main.main", nil, func(r *Run, cfg func(string) *Term) {
		used := -1
		inst := 0
		for i, ev := range r.events {
			switch {
			case ev.Kind == "call" && (ev.Name == "network.New" || strings.HasPrefix(ev.Name, tNet) || strings.HasPrefix(ev.Name, "dataset/")):
				used = i
			case ev.Kind == "store" && ev.Addr != nil:
				for _, a := range leaves(ev.Addr) {
					if rt := root(a); rt.Op == OpGlob && rt.S == "configuration.Global" {
						inst++
						c.ob("the configuration is installed before it is used", fnName(ev.Fn), used < 0 && len(ev.Nest) == 0 && a == rt, ev.Pos, "installed again after the network was built")
					}
				}
			}
		}
		c.ob("the program installs the configuration it loaded", r.Name, inst > 0, r.Fn.Pos(), "no assignment found")
	})
}

func readsOnly(name string) bool {
	for _, p := range []string{"log.", "fmt.", "strings.", "strconv.", "errors.", "math.", "time.", "invoke:error.", "unicode/"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return name == "runtime.KeepAlive"
}

// globalFlow finds the values that may point into memory reachable from
// package-level variables.
type globalFlow struct {
	c     *Ctx
	val   map[ssa.Value]bool // points into package-level memory
	hold  map[ssa.Value]bool // a local cell holding such a value
	field map[string]bool
	elem  map[string]bool
	ret   map[*ssa.Function]map[int]bool
	chg   bool
	sites map[*ssa.Function][]ssa.CallInstruction
	clos  map[string][]*ssa.Function
}

func pointerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerLike(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return pointerLike(u.Elem())
	case *types.Tuple:
		return true
	}
	return false
}

func (g *globalFlow) mark(v ssa.Value) {
	if v == nil || g.val[v] || !pointerLike(v.Type()) {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	if _, ok := v.(*ssa.Function); ok {
		return
	}
	g.val[v] = true
	g.chg = true
}

func (g *globalFlow) set(m map[string]bool, k string) {
	if !m[k] {
		m[k] = true
		g.chg = true
	}
}

func fieldKeyOf(x ssa.Value, i int) string {
	t := x.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return typeKey(t) + "#" + fieldName(t, i)
}

// into: the value v is put at address a.
func (g *globalFlow) into(a, v ssa.Value) {
	if !g.val[v] {
		return
	}
	t := v.Type()
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if pointerLike(s.Field(i).Type()) {
				g.set(g.field, typeKey(t)+"#"+fieldName(t, i))
			}
		}
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		g.set(g.field, fieldKeyOf(x.X, x.Field))
	case *ssa.IndexAddr:
		g.set(g.elem, typeKey(t))
	default:
		if !g.hold[a] {
			g.hold[a] = true
			g.chg = true
		}
		g.set(g.elem, "*"+typeKey(t))
	}
}

func (g *globalFlow) atInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Synthetic != "" && f.Name() == "init"
}

func (g *globalFlow) impls(cc *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range g.c.allFuncs() {
		if f.Signature.Recv() == nil || f.Name() != cc.Method.Name() {
			continue
		}
		rt := f.Signature.Recv().Type()
		if it, ok := cc.Value.Type().Underlying().(*types.Interface); ok && types.Implements(rt, it) {
			out = append(out, f)
		}
	}
	return out
}

func (g *globalFlow) run() {
	g.clos = map[string][]*ssa.Function{}
	for _, f := range g.c.allFuncs() {
		g.clos[f.Signature.String()] = append(g.clos[f.Signature.String()], f)
	}
	for g.chg = true; g.chg; {
		g.chg = false
		for _, f := range g.c.allFuncs() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					g.step(f, in)
				}
			}
		}
	}
}

func (g *globalFlow) step(f *ssa.Function, in ssa.Instruction) {
	for _, op := range in.Operands(nil) {
		if gl, ok := (*op).(*ssa.Global); ok && inModulePkg(gl.Pkg) {
			g.mark(gl)
		}
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			if g.val[x.X] {
				g.mark(x)
			}
			return
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			if g.field[fieldKeyOf(a.X, a.Field)] {
				g.mark(x)
			}
		case *ssa.IndexAddr:
			if g.elem[typeKey(x.Type())] {
				g.mark(x)
			}
		case *ssa.Alloc, *ssa.FreeVar:
			if g.hold[a] {
				g.mark(x)
			}
		default:
			if g.elem["*"+typeKey(x.Type())] {
				g.mark(x)
			}
		}
		if g.val[x.X] {
			g.mark(x)
		}
	case *ssa.FieldAddr:
		if g.val[x.X] {
			g.mark(x)
		}
	case *ssa.IndexAddr:
		if g.val[x.X] {
			g.mark(x)
		}
	case *ssa.Field:
		if g.val[x.X] || g.field[fieldKeyOf(x.X, x.Field)] {
			g.mark(x)
		}
	case *ssa.Index:
		if g.val[x.X] {
			g.mark(x)
		}
	case *ssa.Lookup:
		if g.val[x.X] {
			g.mark(x)
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if g.retOf(call, x.Index) {
				g.mark(x)
			}
		} else if g.val[x.Tuple] {
			g.mark(x)
		}
	case *ssa.Next:
		if g.val[x.Iter] {
			g.mark(x)
		}
	case *ssa.Range:
		if g.val[x.X] {
			g.val[x] = true
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if g.val[e] {
				g.mark(x)
			}
		}
	case *ssa.Slice:
		if g.val[x.X] {
			g.mark(x)
		}
	case *ssa.ChangeType:
		if g.val[x.X] {
			g.mark(x)
		}
	case *ssa.ChangeInterface:
		if g.val[x.X] {
			g.mark(x)
		}
	case *ssa.Convert:
		if g.val[x.X] {
			g.mark(x)
		}
	case *ssa.MakeInterface:
		if g.val[x.X] {
			g.mark(x)
		}
	case *ssa.TypeAssert:
		if g.val[x.X] {
			g.mark(x)
		}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		for i, v := range x.Bindings {
			if g.val[v] {
				g.mark(fn.FreeVars[i])
			}
			if (g.hold[v] || g.hold[fn.FreeVars[i]]) && !(g.hold[v] && g.hold[fn.FreeVars[i]]) {
				g.hold[v], g.hold[fn.FreeVars[i]] = true, true
				g.chg = true
			}
		}
	case *ssa.Store:
		g.into(x.Addr, x.Val)
		// what is installed in package-level memory belongs to it from then on
		if g.val[x.Addr] && !g.atInit(f) {
			g.mark(x.Val)
		}
	case *ssa.MapUpdate:
		if g.val[x.Value] || g.val[x.Map] {
			g.mark(x.Map)
		}
	case *ssa.Return:
		for i, v := range x.Results {
			if g.val[v] {
				if g.ret[f] == nil {
					g.ret[f] = map[int]bool{}
				}
				if !g.ret[f][i] {
					g.ret[f][i] = true
					g.chg = true
				}
			}
		}
	case ssa.CallInstruction:
		cc := x.Common()
		if bi, ok := cc.Value.(*ssa.Builtin); ok {
			if v, ok := x.(ssa.Value); ok && bi.Name() == "append" && g.val[cc.Args[0]] {
				g.mark(v)
			}
			if bi.Name() == "append" || bi.Name() == "copy" {
				if len(cc.Args) > 1 && g.val[cc.Args[1]] {
					if et := elemType(cc.Args[1].Type()); et != nil && pointerLike(et) {
						g.set(g.elem, typeKey(et))
					}
				}
			}
			return
		}
		for _, fn := range g.callees(cc) {
			args := cc.Args
			if cc.IsInvoke() {
				args = append([]ssa.Value{cc.Value}, args...)
			}
			for i, a := range args {
				if g.val[a] && i < len(fn.Params) {
					g.mark(fn.Params[i])
				}
			}
		}
		if v, ok := x.(*ssa.Call); ok && v.Type() != nil {
			if _, tup := v.Type().(*types.Tuple); !tup && g.retOf(v, 0) {
				g.mark(v)
			}
		}
	}
}

func (g *globalFlow) callees(cc *ssa.CallCommon) []*ssa.Function {
	if fn := cc.StaticCallee(); fn != nil {
		if inModule(fn) {
			return []*ssa.Function{fn}
		}
		return nil
	}
	if cc.IsInvoke() {
		return g.impls(cc)
	}
	return g.clos[cc.Signature().String()]
}

func (g *globalFlow) retOf(call *ssa.Call, i int) bool {
	for _, fn := range g.callees(call.Common()) {
		if g.ret[fn][i] {
			return true
		}
	}
	return false
}

// reportOnly: variables of basic type that only feed messages and their own
// updates.
func (g *globalFlow) reportOnly() map[*ssa.Global]bool {
	ok := map[*ssa.Global]bool{}
	for _, p := range g.c.P.Pkgs {
		for _, m := range p.Members {
			gl, is := m.(*ssa.Global)
			if !is {
				continue
			}
			if _, basic := ptrElem(gl.Type()).Underlying().(*types.Basic); !basic {
				continue
			}
			good := true
			var follow func(v ssa.Value, depth int)
			follow = func(v ssa.Value, depth int) {
				if depth > 12 || v.Referrers() == nil {
					good = false
					return
				}
				for _, ref := range *v.Referrers() {
					switch u := ref.(type) {
					case *ssa.DebugRef:
					case *ssa.BinOp:
						switch u.Op {
						case token.ADD, token.SUB, token.MUL:
							follow(u, depth+1)
						default:
							good = false
						}
					case *ssa.Convert:
						follow(u, depth+1)
					case *ssa.ChangeType:
						follow(u, depth+1)
					case *ssa.MakeInterface:
						// must end in an argument list of an output function
						for _, r2 := range *u.Referrers() {
							if s, isS := r2.(*ssa.Store); isS {
								if ia, isI := s.Addr.(*ssa.IndexAddr); isI {
									if al, isA := ia.X.(*ssa.Alloc); isA && outputArgs(al) {
										continue
									}
								}
							}
							good = false
						}
					case *ssa.Store:
						if u.Addr != ssa.Value(gl) {
							good = false
						}
					case ssa.CallInstruction:
						if !strings.HasPrefix(calleeName(u.Common()), "time.Duration.") {
							good = false
							continue
						}
						if w, isV := u.(ssa.Value); isV {
							follow(w, depth+1)
						}
					default:
						good = false
					}
				}
			}
			for _, f := range g.c.allFuncs() {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						for _, op := range in.Operands(nil) {
							if *op != ssa.Value(gl) {
								continue
							}
							switch u := in.(type) {
							case *ssa.UnOp:
								follow(u, 0)
							case *ssa.Store:
								if u.Addr != ssa.Value(gl) {
									good = false
								}
							default:
								good = false
							}
						}
					}
				}
			}
			if good {
				ok[gl] = true
			}
		}
	}
	return ok
}

func outputArgs(al *ssa.Alloc) bool {
	for _, ref := range *al.Referrers() {
		if s, ok := ref.(*ssa.Slice); ok {
			for _, r2 := range *s.Referrers() {
				if ci, ok := r2.(ssa.CallInstruction); ok {
					n := calleeName(ci.Common())
					if !output[n] && !noReturn[n] {
						return false
					}
				}
			}
		}
	}
	return true
}

// beforeInstall: the object written becomes package-level memory only by a
// later assignment of the same function.
func (g *globalFlow) beforeInstall(s *ssa.Store) bool {
	base := s.Addr
	for {
		if fa, ok := base.(*ssa.FieldAddr); ok {
			base = fa.X
			continue
		}
		break
	}
	if base.Referrers() == nil {
		return false
	}
	switch base.(type) {
	case *ssa.Alloc, *ssa.Call, *ssa.Extract:
	default:
		return false
	}
	found := false
	for _, ref := range *base.Referrers() {
		st, ok := ref.(*ssa.Store)
		if !ok || st.Val != base || !g.val[st.Addr] {
			continue
		}
		found = true
		if reachesInstr(st, s) {
			return false
		}
	}
	if x, ok := base.(*ssa.Extract); ok {
		if call, is := x.Tuple.(*ssa.Call); is && g.retOf(call, x.Index) {
			return false
		}
	}
	if call, is := base.(*ssa.Call); is && g.retOf(call, 0) {
		return false
	}
	return found
}

// reachesInstr: b can execute after a.
func reachesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				break
			}
			if in == b {
				goto around
			}
		}
		return true
	}
around:
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), a.Block().Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

// emptyAppend: append to a slice whose capacity is cut, which copies.
func (g *globalFlow) emptyAppend(in ssa.CallInstruction) bool {
	cc := in.Common()
	if cc.Value.(*ssa.Builtin).Name() != "append" {
		return false
	}
	if c, ok := cc.Args[0].(*ssa.Const); ok {
		return c.IsNil()
	}
	return false
}

// why names the package-level variable an address leads to.
func (g *globalFlow) why(a ssa.Value) string {
	for i := 0; i < 30; i++ {
		switch x := a.(type) {
		case *ssa.Global:
			return globName(x)
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.UnOp:
			a = x.X
		case *ssa.Slice:
			a = x.X
		default:
			return "package-level state (" + a.Name() + ")"
		}
	}
	return "package-level state"
}

func inModulePkg(p *ssa.Package) bool {
	return p != nil && p.Pkg != nil && strings.HasPrefix(p.Pkg.Path(), modPath)
}
