package main

// C33, C34, C35 and the program's part of C37: the training program.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C33"] = rule{"no input/output error is dropped", ruleC33, "proof"}
	rules["C34"] = rule{"every line is presented once, in order", ruleC34, "proof"}
	rules["C35"] = rule{"tables are maintained at the configured interval", ruleC35, "proof"}
}

// mainRun evaluates the program with everything of its own inlined; loading the
// configuration, reading and the network are symbols.
func (c *Ctx) mainRun(label string, assume func(r *Run, cfg func(f string) *Term), body func(r *Run, cfg func(f string) *Term)) {
	read := func() *Term { return sym("configuration read") }
	cfg := func(r *Run) func(f string) *Term {
		return func(f string) *Term { return r.getIn(r.newSt0(), read(), tCfg, f) }
	}
	c.run("main.main", func(r *Run) {
		r.Label = label
		r.opq("network.New", tNet+".ProcessInput", tNet+".PredictClass", "dataset/xcrepo.NewScanner",
			tScan+".Scan", tScan+".Err", tScan+".Example", tScan+".LineNumber", tScan+".NumFeatures", tScan+".NumLabels", tScan+".TotalPoints")
		c.fn("configuration.FromJsonFile")
		r.opaque["configuration.FromJsonFile"] = func(e *Eng, fr *frame, st *State, fn *ssa.Function, args []*Term, pos tokenPos) *Term {
			nonNilSyms[read().S] = true
			e1 := sym("configuration error")
			return raw(OpTuple, "", nil, ite(eqG(e1, Nil), read(), Nil), e1)
		}
		if assume != nil {
			assume(r, cfg(r))
		}
	}, func(r *Run) { body(r, cfg(r)) })
}

func errResult(ev *Event) *Term {
	ci, ok := ev.Instr.(ssa.CallInstruction)
	if !ok || ev.Kind != "call" && ev.Kind != "ext" {
		return nil
	}
	rs := ci.Common().Signature().Results()
	if rs.Len() == 0 || rs.At(rs.Len()-1).Type().String() != "error" || ev.Res == nil {
		return nil
	}
	if rs.Len() == 1 {
		return ev.Res
	}
	if ev.Res.Op == OpTuple {
		return ev.Res.K[rs.Len()-1]
	}
	return nil
}

// harmless: an operation whose failure is not an input or output error of the
// program, or that only reports.
func harmless(name string) bool {
	return output[name] || noReturn[name] || strings.HasSuffix(name, ".Close") || strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "errors.") ||
		strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "time.") || strings.HasPrefix(name, "strconv.") || strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "invoke:error.") ||
		name == tScan+".LineNumber" || name == tScan+".Err" || name == "runtime/pprof.StopCPUProfile"
}

func order(evs []*Event, ev *Event) int {
	for i, x := range evs {
		if x == ev {
			return i
		}
	}
	return -1
}

func prefixNest(a, b []*LoopInst) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i].Base != b[i].Base {
			return false
		}
	}
	return true
}

func commonNest(a, b []*LoopInst) []*LoopInst {
	i := 0
	for i < len(a) && i < len(b) && a[i].Base == b[i].Base {
		i++
	}
	return a[:i]
}

func mentions(t, u *Term) bool {
	return t != nil && containsP(t, func(x *Term) bool { return x == u })
}

// done is what is known where the iteration (or the run) around ev completes.
func (r *Run) done(ev *Event) *Term {
	if n := len(ev.Nest); n > 0 {
		return ev.Nest[n-1].BackPC
	}
	return r.know()
}

func full(ev *Event) *Term { return and(ev.PC, okOf(ev)) }

func ruleC33(c *Ctx) {
	c.mainRun("main.main", nil, func(r *Run, cfg func(string) *Term) {
		var evs []*Event
		for _, ev := range r.events {
			if ev.Kind == "call" || ev.Kind == "ext" || ev.Kind == "panic" {
				evs = append(evs, ev)
			}
		}
		// the places where the program stops with a message
		stopped := func(from int, nest []*LoopInst) *Term {
			t := False
			for j := from + 1; j < len(evs); j++ {
				ev := evs[j]
				if !prefixNest(nest, ev.Nest) {
					continue
				}
				msg := ev.Kind == "panic"
				if noReturn[ev.Name] {
					if strings.HasPrefix(ev.Name, "log.") {
						a := ev.Args[len(ev.Args)-1]
						msg = r.proves(ev.PC, ltI(Zero, slen(a)))
					} else {
						for k := from + 1; k < j; k++ {
							if output[evs[k].Name] && r.proves(ev.PC, evs[k].PC) {
								msg = true
							}
						}
					}
				}
				if msg {
					t = or(t, full(ev))
				}
			}
			return t
		}
		ops := 0
		for i, o := range evs {
			e := errResult(o)
			if e == nil || harmless(o.Name) && o.Name != tScan+".Err" {
				continue
			}
			ops++
			bad := and(full(o), not(eqG(e, Nil)))
			r.holds("an error of "+o.Name+" ends the program with a message", fnName(o.Fn), bad, stopped(i, o.Nest), o.Pos)
			for _, q := range evs[i+1:] {
				if harmless(q.Name) || q.Kind == "panic" || !prefixNest(o.Nest, q.Nest) {
					continue
				}
				r.holds("nothing is done after an error of "+o.Name+" before it is examined", fnName(q.Fn), and(full(q), full(o)), eqG(e, Nil), q.Pos)
			}
		}
		c.ob("the operations that may fail are found", r.Name, ops > 0, r.Fn.Pos(), "none")
		// the reader reports through its own error
		isErr := func(ev *Event, s *Term) bool { return ev.Kind == "call" && ev.Name == tScan+".Err" && ev.Args[0] == s }
		for i, n := range evs {
			if n.Name != "dataset/xcrepo.NewScanner" {
				continue
			}
			seen := False
			for _, e := range evs[i+1:] {
				if isErr(e, n.Res) && prefixNest(e.Nest, n.Nest) {
					seen = or(seen, full(e))
				}
			}
			r.holds("the error of reading the header is examined", fnName(n.Fn), full(n), or(seen, stopped(i, n.Nest)), n.Pos)
		}
		for i, p := range evs {
			if p.Name != tNet+".ProcessInput" && p.Name != tNet+".PredictClass" {
				continue
			}
			readers := 0
			for j := 0; j < i; j++ {
				s := evs[j]
				if s.Name != tScan+".Scan" && s.Name != "dataset/xcrepo.NewScanner" {
					continue
				}
				sc := s.Res
				if s.Name == tScan+".Scan" {
					sc = s.Args[0]
				}
				if !r.feeds(evs[:i], sc, p) {
					continue
				}
				readers++
				at := commonNest(s.Nest, p.Nest)
				seen := False
				for _, e := range evs[j+1 : i] {
					if isErr(e, sc) && prefixNest(e.Nest, at) {
						seen = or(seen, and(full(e), eqG(e.Res, Nil)))
					}
				}
				r.holds("what was read is used only after the reader's error was examined", fnName(p.Fn), full(p), seen, p.Pos)
			}
			c.ob("what is passed to the network comes from a reader", fnName(p.Fn), readers > 1, p.Pos, "%d reads", readers)
		}
		// files
		for i, o := range evs {
			if o.Name != "os.Open" && o.Name != "os.Create" && o.Name != "os.OpenFile" {
				continue
			}
			f := o.Res.K[0]
			closed := False
			first := len(evs)
			for j := i + 1; j < len(evs); j++ {
				if evs[j].Name == "os.File.Close" && evs[j].Args[0] == f && prefixNest(evs[j].Nest, o.Nest) {
					closed = or(closed, full(evs[j]))
					if j < first {
						first = j
					}
				}
			}
			r.holds("a file that was opened is closed", fnName(o.Fn), andN(full(o), eqG(errResult(o), Nil), r.done(o)), closed, o.Pos)
			for j := first + 1; j < len(evs); j++ {
				q := evs[j]
				if q.Name == "os.File.Close" || len(q.Args) == 0 {
					continue
				}
				uses := mentions(q.Args[0], f)
				for _, n := range evs[:j] {
					if n.Name == "dataset/xcrepo.NewScanner" && mentions(n.Args[0], f) && q.Args[0] == n.Res && q.Name != tScan+".Err" && q.Name != tScan+".LineNumber" {
						uses = true
					}
				}
				if uses {
					r.holds("a file is not used after it was closed", fnName(q.Fn), and(full(q), closed), False, q.Pos)
				}
			}
		}
	})
	c.errorsLookedAt("an error result is looked at")
	ruleC02(c)
	c.loading()
}

// feeds: some example delivered by scanner sc can be among those passed to p.
func (r *Run) feeds(before []*Event, sc *Term, p *Event) bool {
	j := newIdx("example")
	et := r.C.typ("dataset.Example")
	a := p.Args[len(p.Args)-1]
	if p.Name == tNet+".ProcessInput" {
		a = r.argOf(p, "examples")
	} else {
		a = r.argOf(p, "examples")
	}
	v := r.at(p.St, a, j, et)
	for _, ex := range before {
		if ex.Name != tScan+".Example" || ex.Args[0] != sc {
			continue
		}
		names := map[string]bool{}
		containsP(ex.Res, func(u *Term) bool {
			if u.Op == OpSym {
				names[u.S] = true
			}
			return false
		})
		if containsP(v, func(u *Term) bool { return u.Op == OpSym && names[u.S] && strings.HasPrefix(u.S, "fresh:") }) {
			return true
		}
	}
	return false
}

// errorsLookedAt: every call of the module that yields an error uses it.
func (c *Ctx) errorsLookedAt(rule string) {
	n, bad := 0, 0
	used := func(v ssa.Value) bool {
		if v == nil || v.Referrers() == nil {
			return false
		}
		for _, ref := range *v.Referrers() {
			if _, ok := ref.(*ssa.DebugRef); !ok {
				return true
			}
		}
		return false
	}
	for _, f := range c.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				rs := ci.Common().Signature().Results()
				if rs.Len() == 0 || rs.At(rs.Len()-1).Type().String() != "error" {
					continue
				}
				name := calleeName(ci.Common())
				if strings.HasPrefix(name, "fmt.") || strings.HasSuffix(name, ".Close") || strings.HasPrefix(name, "errors.") ||
					strings.HasPrefix(name, "hash/maphash.") || strings.HasPrefix(name, "strings.Builder.") || strings.HasPrefix(name, "bytes.Buffer.Write") {
					continue
				}
				n++
				ok = false
				if v, isV := in.(*ssa.Call); isV {
					if rs.Len() == 1 {
						ok = used(v)
					} else {
						for _, ref := range *v.Referrers() {
							if x, isX := ref.(*ssa.Extract); isX && x.Index == rs.Len()-1 {
								ok = ok || used(x)
							}
							if _, isR := ref.(*ssa.Return); isR {
								ok = true
							}
						}
					}
				}
				if !ok {
					bad++
					c.ob(rule, fnName(f), false, in.Pos(), "the error of %s is not used", name)
				}
			}
		}
	}
	if bad == 0 {
		c.ob(rule, "the module", true, 0, "%d calls", n)
	}
}

// training is the vocabulary of the training calls.
func (r *Run) trainingCall(cfg func(string) *Term) (p *Event, epoch, batch, perEpoch *Term) {
	ps := r.possible([]string{tNet + ".ProcessInput"})
	r.C.ob("training happens in one place", r.Name, len(ps) == 1, r.Fn.Pos(), "%d places", len(ps))
	if len(ps) != 1 {
		return
	}
	p = ps[0]
	r.C.ob("training happens once per batch of an epoch", fnName(p.Fn), len(p.Nest) == 2 && p.Nest[0].N != nil && p.Nest[1].N != nil, p.Pos, "%d loops", len(p.Nest))
	if len(p.Nest) != 2 || p.Nest[0].N == nil || p.Nest[1].N == nil {
		return nil, nil, nil, nil
	}
	perEpoch = app("quo", cfg("TotRecords"), cfg("BatchSize"))
	return p, p.Nest[0].K, p.Nest[1].K, perEpoch
}

func positiveConfig(fields ...string) func(r *Run, cfg func(string) *Term) {
	return func(r *Run, cfg func(string) *Term) {
		for _, f := range fields {
			r.assume(ltI(Zero, cfg(f)))
		}
	}
}

func ruleC34(c *Ctx) {
	c.mainRun("main.main", positiveConfig("BatchSize", "TotRecords", "NumLayer"), func(r *Run, cfg func(string) *Term) {
		p, epoch, batch, per := r.trainingCall(cfg)
		if p == nil {
			return
		}
		at := fnName(p.Fn)
		r.eq("one round of training per configured epoch", at, full(p), p.Nest[0].N, ite(ltI(cfg("Epoch"), Zero), Zero, cfg("Epoch")))
		r.eq("one round of batches per epoch", at, full(p), p.Nest[1].N, per)
		r.eq("the step number counts the batches", at, full(p), r.argOf(p, "iter"), add(mul(epoch, per), batch))
		r.presents(p, cfg, "training", "TrainData")
	})
	ruleC03(c)
}

// presents proves that a call gets the lines of a data file, in order and in
// batches, from the start of the file in every round of the loops around the
// loop over batches.
func (r *Run) presents(p *Event, cfg func(string) *Term, what, field string) {
	c, at, d := r.C, fnName(p.Fn), len(p.Nest)
	// the file
	var evs []*Event
	for _, ev := range r.events {
		if ev.Kind == "call" || ev.Kind == "ext" {
			evs = append(evs, ev)
		}
	}
	var file, scanner, scan, example *Event
	n := 0
	for _, ev := range evs {
		if ev == p {
			break
		}
		switch {
		case ev.Name == "dataset/xcrepo.NewScanner" && r.feeds(evs, ev.Res, p):
			scanner = ev
			n++
		}
	}
	c.ob(what+" reads through one scanner", at, n == 1, p.Pos, "%d scanners", n)
	if n != 1 {
		return
	}
	var scans, examples int
	for _, ev := range evs {
		if ev.Name == "os.Open" && mentions(scanner.Args[0], ev.Res.K[0]) {
			file = ev
		}
		if ev.Kind == "call" && len(ev.Args) > 0 && ev.Args[0] == scanner.Res {
			switch ev.Name {
			case tScan + ".Scan":
				scan = ev
				scans++
			case tScan + ".Example":
				example = ev
				examples++
			}
		}
	}
	c.ob("the scanner reads an opened file", at, file != nil, scanner.Pos, "reader %s", show(scanner.Args[0], 6))
	c.ob("the "+what+" file is read in one place", at, scans == 1 && examples == 1, scanner.Pos, "%d scans, %d deliveries", scans, examples)
	if file == nil || scans != 1 || examples != 1 {
		return
	}
	r.eq("the file read is the "+what+" file", at, full(file), file.Args[0], cfg(field))
	c.ob("the "+what+" file is read from its start in every pass", fnName(file.Fn), len(file.Nest) == d-1 && prefixNest(file.Nest, p.Nest) && len(scanner.Nest) == d-1 && prefixNest(scanner.Nest, p.Nest), file.Pos, "opened in %d loops, scanned in %d", len(file.Nest), len(scanner.Nest))
	for _, ev := range evs {
		if ev.Kind == "ext" && ev != file && ev.Name != "os.File.Close" && len(ev.Args) > 0 && mentions(ev.Args[0], file.Res.K[0]) {
			c.ob("only the scanner reads the "+what+" file", fnName(ev.Fn), false, ev.Pos, "%s", ev.Name)
		}
	}
	ok := len(scan.Nest) == d+1 && prefixNest(p.Nest, scan.Nest)
	c.ob("the lines of a batch are read for that batch", fnName(scan.Fn), ok, scan.Pos, "%d loops", len(scan.Nest))
	if !ok || len(example.Nest) != d+1 || !prefixNest(scan.Nest, example.Nest) {
		c.ob("every line read is delivered", fnName(example.Fn), false, example.Pos, "delivered in another loop")
		return
	}
	k := scan.Nest[d].K
	if scan.Nest[d].N == nil && scan.Nest[d].ExitK == nil {
		c.ob("reading a batch ends", fnName(scan.Fn), false, scan.Pos, "no end found")
		return
	}
	r.holds("every line read is delivered", fnName(scan.Fn), and(full(scan), asBool(scan.Res)), full(example), scan.Pos)
	r.holds("only lines read are delivered", fnName(example.Fn), full(example), and(full(scan), asBool(scan.Res)), example.Pos)
	// the batch
	list := r.argOf(p, "examples")
	m := slen(list)
	i := newIdx("example")
	et := c.typ("dataset.Example")
	in := and(full(p), inRange(i, Zero, m))
	got := r.at(p.St, list, i, et)
	st := et
	for _, f := range []string{"Labels", "Features"} {
		fi := fieldIndex(st, f)
		a, b := fieldOf(got, fi, st), subst(fieldOf(example.Res, fi, st), Sub{k: i})
		r.eq("the batch holds the lines read, in order ("+f+")", at, in, a, b)
	}
	r.holds("a batch is not larger than the batch size", at, full(p), leI(m, cfg("BatchSize")), p.Pos)
	l := scan.Nest[d]
	r.eq("every line read for a batch is in it", at, full(p), m, l.rounds())
	if l.ExitK != nil {
		r.eq("every line read for a batch is in it (when reading stops)", at, andN(full(p), l.stops(), subst(l.Early, Sub{k: l.ExitK})), subst(asBool(scan.Res), Sub{k: l.ExitK}), False)
	}
	r.holds("a batch holds only lines read for it", at, and(in, l.ran(i)), subst(asBool(scan.Res), Sub{k: i}), p.Pos)
	next := subst(and(full(scan), True), Sub{k: m})
	r.holds("reading goes on until the batch is full or the file ends", at, andN(full(p), ltI(m, cfg("BatchSize"))), next, p.Pos)
	// once per batch
	r.exactlyOnceAt("every batch is used for "+what, p)
	seen := False
	for _, e := range evs {
		if e.Name == tScan+".Err" && e.Args[0] == scanner.Res && prefixNest(e.Nest, p.Nest) && order(evs, scan) < order(evs, e) && order(evs, e) < order(evs, p) {
			seen = or(seen, and(full(e), eqG(e.Res, Nil)))
		}
	}
	r.holds("a batch is not used for "+what+" if reading it failed", at, full(p), seen, p.Pos)
}

// stops: the loop is left before its count is used up.
func (l *LoopInst) stops() *Term {
	if l.ExitK == nil {
		return False
	}
	if l.N == nil {
		return True
	}
	return existsOver(l.N, l.K, l.Early)
}

// rounds is the number of completed rounds.
func (l *LoopInst) rounds() *Term {
	if l.ExitK == nil {
		return l.N
	}
	if l.N == nil {
		return l.ExitK
	}
	return ite(l.stops(), l.ExitK, l.N)
}

// ran: if round i was completed, it was not left early.
func (l *LoopInst) ran(i *Term) *Term {
	return or(not(inRange(i, Zero, l.rounds())), not(subst(l.Early, Sub{l.K: i})))
}

// exactlyOnceAt: the innermost loop around ev never completes a round without ev.
func (r *Run) exactlyOnceAt(rule string, ev *Event) {
	for d := len(ev.Nest); d > 0; d-- {
		l := ev.Nest[d-1]
		if d == len(ev.Nest) {
			r.holds(rule, fnName(ev.Fn), l.BackPC, full(ev), ev.Pos)
		}
		if l.Early != nil {
			r.eq(rule+" (no round is left early)", fnName(ev.Fn), l.BodyPC, l.Early, False)
		}
	}
}

func ruleC35(c *Ctx) {
	for _, m := range []string{"LayerMode1", "LayerMode2", "LayerMode3", "LayerMode4"} {
		m := m
		uses := m == "LayerMode1" || m == "LayerMode4"
		c.mainRun("main.main in "+m, func(r *Run, cfg func(string) *Term) {
			positiveConfig("BatchSize", "TotRecords", "NumLayer", "Rehash", "Rebuild", "Stepsize")(r, cfg)
			r.assume(eqI(cfg("LayerMode"), c.constOf("configuration."+m)))
		}, func(r *Run, cfg func(string) *Term) {
			p, epoch, batch, per := r.trainingCall(cfg)
			if p == nil {
				return
			}
			for _, q := range [][2]string{{"rehash", "Rehash"}, {"rebuild", "Rebuild"}} {
				got := asBool(r.argOf(p, q[0]))
				if !uses {
					r.eq("modes without tables never request "+q[0]+"ing", r.Label, full(p), got, False)
					continue
				}
				iv := app("quo", cfg(q[1]), cfg("BatchSize"))
				step := add(mul(epoch, per), batch)
				lem := or(ltI(iv, One), completes(step, iv))
				iv = ite(ltI(iv, One), One, iv)
				r.eq(q[0]+"ing is requested when an interval is complete", r.Label, and(full(p), lem), got, eqI(app("rem", add(step, One), iv), Zero))
			}
			r.noPanic("the schedule cannot divide by zero", func(ev *Event) bool { return ev.Kind != "div" })
		})
	}
}

// completes: step+1 is a multiple of n exactly when step leaves the remainder
// n-1 (0 <= step, 0 < n).
func completes(step, n *Term) *Term {
	m := app("rem", step, n)
	return andN(iff(eqI(app("rem", add(step, One), n), Zero), eqI(m, sub(n, One))), leI(Zero, m), ltI(m, n))
}

// mainNetwork: the network the program trains is the configured one.
func (c *Ctx) mainNetwork() {
	c.mainRun("main.main", positiveConfig("NumLayer", "BatchSize"), func(r *Run, cfg func(string) *Term) {
		ns := r.possible([]string{"network.New"})
		c.ob("one network is built", r.Name, len(ns) == 1 && len(ns[0].Nest) == 0, r.Fn.Pos(), "%d places", len(ns))
		for _, n := range ns {
			pc := full(n)
			for _, a := range [][2]string{{"numOfLayers", "NumLayer"}, {"batchSize", "BatchSize"}, {"learningRate", "LearningRate"}, {"inputDim", "InputDim"}} {
				r.eq("the network has the configured "+a[1], r.Name, pc, r.argOf(n, a[0]), cfg(a[1]))
			}
			for _, a := range [][2]string{{"sizesOfLayers", "SizesOfLayers"}, {"k", "K"}, {"l", "L"}, {"rangePow", "RangePow"}, {"sparsity", "Sparsity"}} {
				r.same("the network has the configured "+a[1], r.Name, pc, r.argOf(n, a[0]), cfg(a[1]))
			}
			i := newIdx("layer")
			ks := r.argOf(n, "layerTypes")
			nl := cfg("NumLayer")
			fn := c.fn("network.New")
			et := elemType(fn.Params[paramIndex(fn, "layerTypes")].Type())
			r.eq("every layer has a kind", r.Name, pc, slen(ks), nl)
			r.eq("hidden layers are ReLU", r.Name, and(pc, inRange(i, Zero, sub(nl, One))), r.at(n.St, ks, i, et), c.constOf("node.ReLU"))
			r.eq("the last layer is softmax", r.Name, pc, r.at(n.St, ks, sub(nl, One), et), c.constOf("node.Softmax"))
		}
	})
}
