package main

// Call-graph and effect rules over the SSA form of the whole module.

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// allFuncs lists the module's functions in a stable order.
func (c *Ctx) allFuncs() []*ssa.Function {
	fs := append([]*ssa.Function(nil), c.P.All...)
	sort.Slice(fs, func(i, j int) bool {
		a, b := fnName(fs[i]), fnName(fs[j])
		if a != b {
			return a < b
		}
		return fs[i].Pos() < fs[j].Pos()
	})
	return fs
}

// ownedFields proves that the fields of a struct type are addressed for
// writing (or have their address taken) only by functions of package pkg.
func (c *Ctx) ownedFields(rule, typ string, fields []string, pkg string) {
	t := c.typ(typ)
	want := map[string]bool{}
	for _, f := range fields {
		k, _ := c.field(typ, f)
		want[k] = true
	}
	n := 0
	for _, f := range c.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st := fa.X.Type().Underlying().(*types.Pointer).Elem()
				if !types.Identical(st, t) || !want[fieldName(st, fa.Field)] {
					continue
				}
				n++
				if f.Pkg != nil && shortPkg(f.Pkg.Pkg.Path()) == pkg {
					continue
				}
				c.ob(rule, fnName(f), false, fa.Pos(), "%s accesses %s", fnName(f), fieldName(st, fa.Field))
			}
		}
	}
	c.ob(rule, typ, n > 0, 0, "no access found")
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	}
	return nil
}

// constFields proves that fields of a struct type are written only in the
// constructor, on the object it creates, that nobody takes their address for
// another purpose than reading, and that whole-struct stores do not overwrite
// an existing object.
func (c *Ctx) constFields(rule, typ string, fields []string, ctors ...string) {
	t := c.typ(typ)
	want := map[string]bool{}
	for _, f := range fields {
		k, _ := c.field(typ, f)
		want[k] = true
	}
	isCtor := c.onlyFrom(ctors...)
	seen := 0
	bad := func(f *ssa.Function, in ssa.Instruction, what string) {
		c.ob(rule, fnName(f), false, in.Pos(), "%s", what)
	}
	for _, f := range c.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && types.Identical(st.Val.Type(), t) && !freshPtr(st.Addr, 0) {
					bad(f, in, "overwrites a whole "+typ)
				}
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
				if !types.Identical(pt, t) || !want[fieldName(pt, fa.Field)] {
					continue
				}
				seen++
				for _, ref := range *fa.Referrers() {
					switch u := ref.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.DebugRef:
						continue
					case *ssa.Store:
						if u.Addr == ssa.Value(fa) && (freshPtr(fa.X, 0) || isCtor[f]) {
							continue
						}
						bad(f, ref, "writes "+fieldName(pt, fa.Field))
					case *ssa.IndexAddr: // an element of an array
						for _, r2 := range *u.Referrers() {
							if _, ok := r2.(*ssa.UnOp); ok {
								continue
							}
							if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(u) && (freshPtr(fa.X, 0) || isCtor[f]) {
								continue
							}
							bad(f, r2, "takes the address of an element of "+fieldName(pt, fa.Field))
						}
					default:
						bad(f, ref, "takes the address of "+fieldName(pt, fa.Field))
					}
				}
			}
		}
	}
	c.ob(rule, typ, seen > 0, 0, "no access found")
}

// freshPtr: the pointer is a newly allocated object that this function created.
func freshPtr(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !freshPtr(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.FieldAddr:
		return freshPtr(x.X, depth+1)
	case *ssa.IndexAddr:
		return freshPtr(x.X, depth+1)
	case *ssa.UnOp:
		// a local variable holding a fresh object
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, ref := range *a.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(a) && !freshPtr(st.Val, depth+1) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// config fixes a field of the active configuration.
func (r *Run) config(field string, v *Term) {
	k, _ := r.C.field("configuration.Configuration", field)
	r.addInit(func(key string, addr *Term) *Term {
		if addr.Op == OpFld && addr.S == k && r.isConfig(addr) {
			return v
		}
		return nil
	})
}

// addInit chains a hook that gives initial values to memory.
func (r *Run) addInit(h func(key string, addr *Term) *Term) {
	old := initHook
	initHook = func(key string, addr *Term) *Term {
		if v := h(key, addr); v != nil {
			return v
		}
		if old != nil {
			return old(key, addr)
		}
		return nil
	}
}

// isConfig: the address lies in (or holds) the active configuration.
func (r *Run) isConfig(a *Term) bool {
	rt := root(a)
	for rt.Op == OpSel || rt.Op == OpApp && rt.S == "sbase" {
		if rt.Op == OpSel {
			rt = root(rt.K[1])
		} else {
			rt = root(rt.K[0])
		}
	}
	return rt.Op == OpGlob && rt.S == "configuration.Global"
}

// constGlobalAddr: the address of a package variable that only package
// initialisation writes.
func (c *Ctx) constGlobalAddr(a *Term) bool {
	rt := root(a)
	if rt.Op != OpGlob {
		return false
	}
	for _, p := range c.P.Pkgs {
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok || globName(g) != rt.S {
				continue
			}
			return c.constGlobal(g)
		}
	}
	return false
}

func (c *Ctx) constGlobal(g *ssa.Global) bool {
	for _, f := range c.allFuncs() {
		if f.Synthetic != "" && f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
						continue
					}
					return false
				}
			}
		}
	}
	return true
}

type tokenPos = token.Pos

func ptrElem(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// constElems proves that the elements of a slice field (down to the given
// nesting depth) are written only by the constructor: the slice value is
// followed from every load of the field through the whole module.
func (c *Ctx) constElems(rule, typ, field string, depth int, ctors ...string) {
	t := c.typ(typ)
	want, _ := c.field(typ, field)
	isCtor := c.onlyFrom(ctors...)
	tr := &tracker{c: c, seen: map[trackKey]bool{}, bad: func(in ssa.Instruction, what string) {
		c.ob(rule, fnName(in.Parent()), false, in.Pos(), "%s elements of %s.%s", what, typ, field)
	}}
	n := 0
	for _, f := range c.allFuncs() {
		if isCtor[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					st := x.X.Type().Underlying().(*types.Pointer).Elem()
					if types.Identical(st, t) && fieldName(st, x.Field) == want {
						n++
						tr.addr(x, depth)
					}
				case *ssa.Field:
					if types.Identical(x.X.Type(), t) && fieldName(t, x.Field) == want {
						n++
						tr.val(x, depth)
					}
				}
			}
		}
	}
	c.ob(rule, typ+"."+field, true, 0, "%d reads followed", n)
}

type trackKey struct {
	v     ssa.Value
	depth int
}

// tracker follows a slice (or map) value through the module and reports writes
// to its elements, or uses it cannot follow.
type tracker struct {
	c    *Ctx
	seen map[trackKey]bool
	bad  func(in ssa.Instruction, what string)
	// visited call sites and reads, for evidence
	uses int
}

// addr: v is the address of a place holding the tracked value.
func (t *tracker) addr(v ssa.Value, depth int) {
	k := trackKey{v, -1 - depth}
	if t.seen[k] || v.Referrers() == nil {
		return
	}
	t.seen[k] = true
	for _, ref := range *v.Referrers() {
		switch u := ref.(type) {
		case *ssa.UnOp:
			if u.X == v && u.Op == token.MUL {
				t.val(u, depth)
			}
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if b == v {
					t.addr(u.Fn.(*ssa.Function).FreeVars[i], depth)
				}
			}
		}
	}
}

// val: v is the tracked value.
func (t *tracker) val(v ssa.Value, depth int) {
	if depth <= 0 && depth > -100 {
		return
	}
	k := trackKey{v, depth}
	if t.seen[k] || v.Referrers() == nil {
		return
	}
	t.seen[k] = true
	for _, ref := range *v.Referrers() {
		t.uses++
		switch u := ref.(type) {
		case *ssa.DebugRef, *ssa.BinOp, *ssa.If:
		case *ssa.Phi:
			t.val(u, depth)
		case *ssa.Slice:
			if u.X == v {
				t.val(u, depth)
			}
		case *ssa.ChangeType:
			t.val(u, depth)
		case *ssa.IndexAddr:
			if u.X == v {
				t.elemAddr(u, depth-1)
			}
		case *ssa.Index:
			if u.X == v {
				t.val(u, depth-1)
			}
		case *ssa.Lookup:
			if u.X == v {
				t.val(u, depth-1)
			}
		case *ssa.Range, *ssa.Next:
		case *ssa.MapUpdate:
			if u.Map == v {
				t.bad(u, "writes")
			} else {
				t.bad(u, "stores away")
			}
		case *ssa.Store:
			if u.Val != v {
				continue
			}
			if a, ok := u.Addr.(*ssa.Alloc); ok {
				t.addr(a, depth)
				continue
			}
			t.bad(u, "stores away")
		case *ssa.Return:
			f := u.Parent()
			for i, x := range u.Results {
				if x == v {
					t.callers(f, i, len(u.Results), depth)
				}
			}
		case ssa.CallInstruction:
			t.call(u, v, depth)
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if b == v {
					t.val(u.Fn.(*ssa.Function).FreeVars[i], depth)
				}
			}
		case *ssa.MakeInterface:
			t.iface(u, v, depth)
		default:
			t.bad(ref, "uses in an unknown way the")
		}
	}
}

func (t *tracker) elemAddr(v ssa.Value, depth int) {
	for _, ref := range *v.Referrers() {
		switch u := ref.(type) {
		case *ssa.Store:
			if u.Addr == v {
				t.bad(u, "writes")
			}
		case *ssa.UnOp:
			t.val(u, depth)
		case *ssa.FieldAddr:
			t.elemAddr(u, depth)
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
			t.elemAddr(u, depth)
		case *ssa.Slice:
			t.val(u, depth+1)
		default:
			if depth > 0 {
				t.bad(ref, "takes the address of")
			}
		}
	}
}

// iface: v was wrapped into an interface value.
func (t *tracker) iface(u *ssa.MakeInterface, v ssa.Value, depth int) {
	for _, ref := range *u.Referrers() {
		switch w := ref.(type) {
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			n := calleeName(w.Common())
			if n == "sort.Slice" || n == "sort.Sort" || n == "sort.Stable" || n == "sort.SliceStable" {
				t.bad(w, "sorts the")
			}
		case *ssa.Store: // variadic argument arrays of print functions
		default:
			t.bad(ref, "stores away")
		}
	}
}

func (t *tracker) call(u ssa.CallInstruction, v ssa.Value, depth int) {
	c := u.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap", "print", "println":
		case "copy":
			if c.Args[0] == v {
				t.bad(u, "copies over")
			}
			if depth > 1 && c.Args[1] == v {
				t.val(c.Args[0], depth) // nested slices are shared
			}
		case "append":
			if c.Args[0] == v {
				t.bad(u, "appends to the")
			} else if depth > 1 {
				if x, ok := u.(ssa.Value); ok {
					t.val(x, depth)
				}
			}
		default:
			t.bad(u, "applies "+b.Name()+" to")
		}
		return
	}
	f := c.StaticCallee()
	if f == nil {
		t.bad(u, "passes to an unknown function the")
		return
	}
	if f.Blocks == nil || !inModule(f) {
		n := calleeName(c)
		switch n {
		case "fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Sprint", "fmt.Sprintf", "fmt.Fprintf", "fmt.Fprintln":
		default:
			t.bad(u, "passes to "+n+" the")
		}
		return
	}
	for i, a := range c.Args {
		if a == v {
			t.val(f.Params[i], depth)
		}
	}
}

// callers follows result i of f into every call site.
func (t *tracker) callers(f *ssa.Function, i, n, depth int) {
	for _, g := range t.c.allFuncs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() != f {
					continue
				}
				x, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				if n == 1 {
					t.val(x, depth)
					continue
				}
				for _, ref := range *x.Referrers() {
					if ex, ok := ref.(*ssa.Extract); ok && ex.Index == i {
						t.val(ex, depth)
					}
				}
			}
		}
	}
}

// onlyFrom is the set of functions that can run only as part of the named
// constructors: the constructors, their closures, and the functions all of
// whose uses are static calls from this set.
func (c *Ctx) onlyFrom(names ...string) map[*ssa.Function]bool {
	set := map[*ssa.Function]bool{}
	for _, n := range names {
		set[c.fn(n)] = true
	}
	users := map[*ssa.Function][]*ssa.Function{}
	escapes := map[*ssa.Function]bool{}
	for _, f := range c.allFuncs() {
		if f.Synthetic != "" && f.Parent() == nil && f.Pkg == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if ci, ok := in.(ssa.CallInstruction); ok {
					callee = ci.Common().StaticCallee()
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					users[g] = append(users[g], f)
					if g != callee {
						if _, ok := in.(*ssa.MakeClosure); !ok {
							escapes[g] = true
						}
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range c.allFuncs() {
			if set[f] {
				continue
			}
			if f.Parent() != nil && set[f.Parent()] {
				set[f] = true
				changed = true
				continue
			}
			if escapes[f] || len(users[f]) == 0 || f.Object() != nil && f.Object().Exported() {
				continue
			}
			ok := true
			for _, u := range users[f] {
				ok = ok && (set[u] || u == f)
			}
			if ok {
				set[f] = true
				changed = true
			}
		}
	}
	return set
}
