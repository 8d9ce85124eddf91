package main

import (
	"fmt"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func repoDir() string {
	if d := os.Getenv("GOSLIDE_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// runRoot evaluates one function with symbolic arguments.
func (e *Eng) runRoot(fn *ssa.Function, args []*Term) (*Term, *State) {
	st := &State{pc: True, heaps: map[string]*Heap{}}
	return e.inline(fn, args, nil, st, "", nil)
}

func (e *Eng) symArgs(fn *ssa.Function) []*Term {
	var r []*Term
	for i, p := range fn.Params {
		r = append(r, typedSym(sym(fmt.Sprintf("arg%d_%s", i, p.Name())), p.Type()))
	}
	return r
}

func dumpFn(names []string) {
	p, err := loadProgram(repoDir())
	if err != nil {
		fatal(err)
	}
	if names[0] == "?" {
		var l []string
		for n := range p.Funcs {
			l = append(l, n)
		}
		sort.Strings(l)
		for _, n := range l {
			fmt.Println(n)
		}
		return
	}
	for _, n := range names {
		fn := p.fn(n)
		if fn == nil {
			fatal("no function", n)
		}
		if os.Getenv("SSA") != "" {
			fn.WriteTo(os.Stdout)
		}
		e := newEng(p)
		r, st := e.runRoot(fn, e.symArgs(fn))
		e.dump(r, st)
	}
}

func (e *Eng) dump(r *Term, st *State) {
	fmt.Println("RESULT", show(r, 12))
	fmt.Println("PC", show(st.pc, 12))
	for _, l := range e.loopSeq {
		fmt.Printf("LOOP %s %s kind=%s K=%v N=%v early=%v exitK=%v\n", l.ID, e.P.pos(l.Pos), l.Kind, l.K, show0(l.N), show0(l.Early), show0(l.ExitK))
		for _, v := range l.Vars {
			fmt.Printf("   var %s %s: init=%s next=%s closed=%s\n", v.Name, show0(v.Var), show0(v.Init), show0(v.Next), show0(v.Closed))
		}
		for k, fs := range l.Fams {
			for _, f := range fs {
				fmt.Printf("   fam %s counters=%v [%s] = %s if %s\n", k, f.Counters, show(f.A, 12), show(f.V, 12), show(f.G, 12))
			}
		}
		for k, cs := range l.Cells {
			for _, c := range cs {
				fmt.Printf("   cell %s %s: closed=%s\n", k, show0(c.Addr), show0(c.Closed))
			}
		}
	}
	for _, ev := range e.events {
		if ev.Kind == "index" && os.Getenv("IDX") == "" {
			continue
		}
		fmt.Printf("EV %-6s %s %s %s nest=%v\n    pc=%s\n", ev.Kind, e.P.pos(ev.Pos), ev.Name, ev.Key, ev.Nest, show(ev.PC, 10))
		if ev.Addr != nil {
			fmt.Printf("    addr=%s\n", show(ev.Addr, 12))
		}
		if ev.Val != nil {
			fmt.Printf("    val=%s\n", show(ev.Val, 12))
		}
		for i, a := range ev.Args {
			fmt.Printf("    arg%d=%s\n", i, show(a, 12))
		}
	}
	var ks []string
	for k := range st.heaps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		h := st.heaps[k]
		if len(h.ents) == 0 && h.base.Op == OpHeap {
			continue
		}
		fmt.Printf("HEAP %s base=%s\n", k, show(h.base, 5))
		for _, en := range h.ents {
			fmt.Printf("    [%s] = %s\n", show(en.a, 12), show(en.v, 12))
		}
	}
	for k, v := range e.undecided {
		fmt.Println("UNDECIDED", k, v)
	}
}

func show0(t *Term) string {
	if t == nil {
		return "-"
	}
	return show(t, 12)
}
