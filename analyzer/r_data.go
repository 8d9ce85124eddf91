package main

// C01-C06: dataset scanner, configuration, package-level state.

import (
	"golang.org/x/tools/go/ssa"
)

const tScan = "dataset/xcrepo.Scanner"

func init() {
	rules["C01"] = rule{"examples stay inside the declared dimensions", ruleC01, "proof"}
	rules["C02"] = rule{"malformed input is reported and the error is sticky", ruleC02, "proof"}
	rules["C03"] = rule{"examples reproduce their line", ruleC03, "proof"}
}

// errGlobals gives package-level error variables, assigned once at package
// initialisation by errors.New or fmt.Errorf, distinct non-nil values.
func (r *Run) errGlobals() {
	ok := map[string]bool{}
	for _, p := range r.C.P.Pkgs {
		for _, m := range p.Members {
			g, isG := m.(*ssa.Global)
			if !isG || ptrElem(g.Type()).String() != "error" || !r.C.constGlobal(g) {
				continue
			}
			n := 0
			for _, b := range p.Func("init").Blocks {
				for _, in := range b.Instrs {
					if st, is := in.(*ssa.Store); is && st.Addr == ssa.Value(g) {
						if call, is := st.Val.(*ssa.Call); is {
							switch calleeName(call.Common()) {
							case "errors.New", "fmt.Errorf":
								n++
							}
						}
					}
				}
			}
			if n == 1 {
				ok[globName(g)] = true
			}
		}
	}
	r.addInit(func(key string, addr *Term) *Term {
		if addr.Op == OpGlob && ok[addr.S] {
			s := sym("error:" + addr.S)
			nonNilSyms[s.S] = true
			return s
		}
		return nil
	})
}

// scan is the vocabulary of one evaluation of Scanner.Scan.
type scanRun struct {
	r                  *Run
	s                  *Term
	err0, err1         *Term
	rd                 *Term // the underlying reader
	scanned            *Term // the reader delivered a line
	rerr0, rerr1       *Term
	labels, feats      *Term
	lt, ft             *Term
	tok                func(j *Term) *Term
	field              func(j *Term) *Term
	nf                 *Term
	text, fields, head *Term
}

func (r *Run) epochOf(rd *Term) *Term {
	st := r.newSt0()
	return r.epoch(st, rd)
}

// scanBegin/scanVoc: names for the parts of a line.
func (r *Run) scanVoc() *scanRun {
	v := &scanRun{r: r, s: r.A[0]}
	v.err0, v.err1 = r.get0(v.s, tScan, "err"), r.get1(v.s, tScan, "err")
	v.rd = r.get0(v.s, tScan, "bufScanner")
	ep := r.epochOf(v.rd)
	v.scanned = asBool(app("scan.ok", v.rd, ep))
	v.rerr0 = app("scan.err", v.rd, ep)
	v.rerr1 = app("scan.err", v.rd, add(ep, One))
	v.text = app("scan.text", v.rd, add(ep, One))
	v.fields = app("strings.Split", v.text, str(" "))
	v.head = r.strAt(v.fields, Zero)
	v.lt = app("strings.Split", v.head, str(","))
	v.tok = func(j *Term) *Term { return r.strAt(v.lt, j) }
	v.field = func(j *Term) *Term { return r.strAt(v.fields, add(j, One)) }
	v.nf = sub(slen(v.fields), One)
	v.labels = r.exampleF(r.St, "Labels")
	v.feats = r.exampleF(r.St, "Features")
	return v
}

// strAt is element j of a list of strings returned by a library function.
func (r *Run) strAt(l, j *Term) *Term {
	return r.load(r.St0, elem(sbase(l), add(soff(l), j)), typString)
}

func (r *Run) exampleF(st *State, f string) *Term {
	k, _ := r.C.field(tScan, "example")
	kf, t := r.C.field("dataset.Example", f)
	return r.load(st, fld(fld(r.A[0], k), kf), t)
}

// isEmpty: the label field is empty.
func (v *scanRun) noLabels() *Term { return eqI(slen(v.head), Zero) }

func atoiErr(t *Term) *Term { return app("strconv.Atoi#1", t) }
func atoi(t *Term) *Term    { return app("strconv.Atoi#0", t) }

func (v *scanRun) pairTok(j *Term) *Term { return app("strings.Split", v.field(j), str(":")) }

func ruleC01(c *Ctx) {
	c.run(tScan+".Scan", func(r *Run) { r.errGlobals() }, func(r *Run) {
		v := r.scanVoc()
		j := newIdx("j")
		_, lt := c.field("dataset.Example", "Labels")
		_, ft := c.field("dataset.Example", "Features")
		pc := and(r.know(), asBool(r.Res))
		l := r.at(r.St, v.labels, j, elemType(lt))
		r.holds("a label of a delivered example lies in [0, number of labels)", r.Name, and(pc, inRange(j, Zero, slen(v.labels))),
			inRange(l, Zero, r.get0(v.s, tScan, "numLabels")), r.Fn.Pos())
		p, _ := pairParts(r.at(r.St, v.feats, j, elemType(ft)), c)
		r.holds("a feature index of a delivered example lies in [0, number of features)", r.Name, and(pc, inRange(j, Zero, slen(v.feats))),
			inRange(p, Zero, r.get0(v.s, tScan, "numFeatures")), r.Fn.Pos())
		for _, f := range []string{"totalPoints", "numFeatures", "numLabels"} {
			r.eq("scanning keeps the declared dimensions", r.Name, r.know(), r.get1(v.s, tScan, f), r.get0(v.s, tScan, f))
		}
	})
	c.run("dataset/xcrepo.NewScanner", func(r *Run) { r.errGlobals() }, func(r *Run) {
		s := r.Res
		pc := and(r.know(), eqG(r.getIn(r.St, s, tScan, "err"), Nil))
		rd := simplify(r.getIn(r.St, s, tScan, "bufScanner"), pc)
		pc = and(pc, eqG(app("scan.err", rd, r.epoch(r.St, rd)), Nil))
		for _, f := range []string{"totalPoints", "numFeatures", "numLabels"} {
			r.holds("an accepted header declares positive numbers", r.Name, pc, ltI(Zero, r.getIn(r.St, s, tScan, f)), r.Fn.Pos())
		}
		for _, p := range []string{"NumFeatures", "NumLabels", "TotalPoints"} {
			_ = p
		}
	})
	c.scanAccessors("the declared dimensions are those of the header", map[string]string{"NumFeatures": "numFeatures", "NumLabels": "numLabels"})
	c.constFields("the declared dimensions are fixed by the header", tScan, []string{"totalPoints", "numFeatures", "numLabels"}, "dataset/xcrepo.NewScanner")
	c.ownedFields("only the scanner changes its state", tScan, []string{"example"}, "dataset/xcrepo")
}

func (c *Ctx) scanAccessors(rule string, m map[string]string) {
	for _, k := range []string{"NumFeatures", "NumLabels", "TotalPoints", "LineNumber"} {
		f, ok := m[k]
		if !ok {
			continue
		}
		c.run(tScan+"."+k, nil, func(r *Run) {
			r.eq(rule, r.Name, r.know(), r.Res, r.get0(r.A[0], tScan, f))
			r.onlyWrites("an accessor changes nothing", func(w wr, a *Term) bool { return false })
		})
	}
}

func (v *scanRun) badLabel(j *Term) *Term {
	t := v.tok(j)
	return and(not(v.noLabels()), or(not(eqG(atoiErr(t), Nil)), not(inRange(atoi(t), Zero, v.r.get0(v.s, tScan, "numLabels")))))
}

func (v *scanRun) badFeature(j *Term) *Term {
	p := v.pairTok(j)
	i, x := v.r.strAt(p, Zero), v.r.strAt(p, One)
	return or(not(eqI(slen(p), num(2))), or(not(eqG(atoiErr(i), Nil)), or(not(inRange(atoi(i), Zero, v.r.get0(v.s, tScan, "numFeatures"))),
		not(eqG(app("strconv.ParseFloat#1", x, num(64)), Nil)))))
}

func ruleC02(c *Ctx) {
	c.run(tScan+".Scan", func(r *Run) { r.errGlobals() }, func(r *Run) {
		v := r.scanVoc()
		pc := r.know()
		res := asBool(r.Res)
		failed0 := or(not(eqG(v.err0, Nil)), not(eqG(v.rerr0, Nil)))
		r.noPanic("scanning never aborts", nil)
		r.eq("after an error scanning fails", r.Name, and(pc, failed0), res, False)
		r.eq("after an error the same error keeps being reported", r.Name, and(pc, failed0), v.err1, v.err0)
		for _, ev := range r.events {
			if ev.Kind == "ext" && ev.Name == "bufio.Scanner.Scan" {
				r.holds("after an error no further input is read", fnName(ev.Fn), and(ev.PC, failed0), False, ev.Pos)
			}
		}
		okd := andN(pc, not(failed0), v.scanned, eqG(v.rerr1, Nil))
		j := newIdx("j")
		r.eq("a line with a malformed or out-of-range label is not accepted", r.Name, andN(okd, inRange(j, Zero, slen(v.lt)), v.badLabel(j)), res, False)
		r.eq("a line with a malformed or out-of-range feature is not accepted", r.Name, andN(okd, inRange(j, Zero, v.nf), v.badFeature(j)), res, False)
		r.eq("a line without features is not accepted", r.Name, andN(okd, eqI(v.nf, Zero)), res, False)
		r.holds("a line that is not accepted leaves an error", r.Name, and(okd, not(res)), not(eqG(v.err1, Nil)), r.Fn.Pos())
		r.holds("an accepted line leaves no error", r.Name, and(okd, res), eqG(v.err1, Nil), r.Fn.Pos())
		r.eq("failing to obtain a line is not success", r.Name, andN(pc, or(not(v.scanned), not(eqG(v.rerr1, Nil)))), res, False)
	})
	c.run("dataset/xcrepo.NewScanner", func(r *Run) { r.errGlobals() }, func(r *Run) {
		s := r.Res
		pc := r.know()
		err := r.getIn(r.St, s, tScan, "err")
		rd := simplify(r.getIn(r.St, s, tScan, "bufScanner"), pc)
		ep := r.epoch(r.St, rd)
		r.noPanic("scanning a header never aborts", nil)
		okd := andN(pc, eqG(app("scan.err", rd, ep), Nil), eqG(app("scan.err", rd, r.epochOf(rd)), Nil))
		h := r.headerToks(rd)
		r.holds("a header without exactly three numbers is reported", r.Name, and(okd, not(eqI(slen(h), num(3)))), not(eqG(err, Nil)), r.Fn.Pos())
		j := newIdx("j")
		t := r.strAt(h, j)
		r.holds("a header number that does not parse or is not positive is reported", r.Name,
			andN(okd, inRange(j, Zero, num(3)), or(not(eqG(atoiErr(t), Nil)), not(ltI(Zero, atoi(t))))), not(eqG(err, Nil)), r.Fn.Pos())
	})
	c.run(tScan+".Err", func(r *Run) { r.errGlobals() }, func(r *Run) {
		e := r.get0(r.A[0], tScan, "err")
		rd := r.get0(r.A[0], tScan, "bufScanner")
		r.eq("the error reported is the scanner's own, else the reader's", r.Name, r.know(), r.Res,
			ite(eqG(e, Nil), app("scan.err", rd, r.epochOf(rd)), e))
		r.onlyWrites("an accessor changes nothing", func(w wr, a *Term) bool { return false })
	})
	c.ownedFields("only the scanner changes its state", tScan, []string{"err", "bufScanner"}, "dataset/xcrepo")
	c.constFields("the reader is fixed", tScan, []string{"bufScanner"}, "dataset/xcrepo.NewScanner")
	c.exportedKeep("no other operation clears the error", tScan, "err", map[string]bool{tScan + ".Scan": true})
}

func (r *Run) headerToks(rd *Term) *Term {
	return app("strings.Split", app("scan.text", rd, add(r.epochOf(rd), One)), str(" "))
}

// exportedKeep: the exported methods of a type, except the listed ones, leave a
// field alone.
func (c *Ctx) exportedKeep(rule, typ, field string, except map[string]bool) {
	for _, f := range c.allFuncs() {
		sig := f.Signature
		if sig.Recv() == nil || f.Synthetic != "" || typeKey(sig.Recv().Type()) != "*"+typ || !f.Object().Exported() || except[fnName(f)] {
			continue
		}
		c.run(fnName(f), nil, func(r *Run) {
			r.eq(rule, r.Name, r.know(), r.get1(r.A[0], typ, field), r.get0(r.A[0], typ, field))
		})
	}
}

func ruleC03(c *Ctx) {
	c.run(tScan+".Scan", func(r *Run) { r.errGlobals() }, func(r *Run) {
		v := r.scanVoc()
		res := asBool(r.Res)
		pc := and(r.know(), res)
		_, lt := c.field("dataset.Example", "Labels")
		_, ft := c.field("dataset.Example", "Features")
		j := newIdx("j")
		r.eq("one label per comma-separated item of the first field", r.Name, pc, slen(v.labels), ite(v.noLabels(), Zero, slen(v.lt)))
		r.eq("label j is parsed from item j", r.Name, and(pc, inRange(j, Zero, slen(v.labels))), r.at(r.St, v.labels, j, elemType(lt)), atoi(v.tok(j)))
		r.eq("one pair per following field", r.Name, pc, slen(v.feats), v.nf)
		p := r.at(r.St, v.feats, j, elemType(ft))
		pi, pv := pairParts(p, c)
		t := v.pairTok(j)
		in := and(pc, inRange(j, Zero, slen(v.feats)))
		r.eq("the index of pair j is parsed from field j", r.Name, in, pi, atoi(r.strAt(t, Zero)))
		r.eq("the value of pair j is parsed from field j", r.Name, in, pv, app("strconv.ParseFloat#0", r.strAt(t, One), num(64)))
		// a line counts once it has been read, whether or not it is accepted
		read := andN(r.know(), eqG(v.err0, Nil), eqG(v.rerr0, Nil), v.scanned, eqG(v.rerr1, Nil))
		r.eq("the line number counts the line", r.Name, read, r.get1(v.s, tScan, "lineNumber"), add(r.get0(v.s, tScan, "lineNumber"), One))
		r.eq("the line number counts nothing that was not read", r.Name, and(r.know(), or(or(not(eqG(v.err0, Nil)), not(eqG(v.rerr0, Nil))), not(v.scanned))), r.get1(v.s, tScan, "lineNumber"), r.get0(v.s, tScan, "lineNumber"))
		// every well-formed line is delivered
		good := and(not(existsIdx(slen(v.lt), v.badLabel)), not(existsIdx(v.nf, v.badFeature)))
		r.holds("a well-formed line is delivered", r.Name, andN(r.know(), eqG(v.err0, Nil), eqG(v.rerr0, Nil), v.scanned, eqG(v.rerr1, Nil), ltI(Zero, v.nf), good), res, r.Fn.Pos())
	})
	c.run(tScan+".Example", nil, func(r *Run) {
		for _, f := range []string{"Labels", "Features"} {
			kf, t := c.field("dataset.Example", f)
			_ = kf
			i := 0
			if f == "Labels" {
				i = 1
			}
			st := c.typ("dataset.Example")
			i = fieldIndex(st, f)
			got := fieldOf(r.Res, i, st)
			_ = t
			r.eq("the example delivered is the one scanned", r.Name, r.know(), got, r.exampleF(r.St0, f))
		}
		r.onlyWrites("an accessor changes nothing", func(w wr, a *Term) bool { return false })
	})
	c.run("dataset/xcrepo.NewScanner", func(r *Run) { r.errGlobals() }, func(r *Run) {
		s := r.Res
		pc := and(r.know(), eqG(r.getIn(r.St, s, tScan, "err"), Nil))
		rd := simplify(r.getIn(r.St, s, tScan, "bufScanner"), pc)
		pc = andN(pc, eqG(app("scan.err", rd, r.epoch(r.St, rd)), Nil), eqG(app("scan.err", rd, r.epochOf(rd)), Nil))
		h := r.headerToks(rd)
		for i, f := range []string{"totalPoints", "numFeatures", "numLabels"} {
			r.eq("header number "+itoa(i+1)+" gives "+f, r.Name, pc, r.getIn(r.St, s, tScan, f), atoi(r.strAt(h, num(int64(i)))))
		}
		r.eq("the header counts as a line", r.Name, pc, r.getIn(r.St, s, tScan, "lineNumber"), One)
	})
	c.scanAccessors("the header accessors report their number", map[string]string{"NumFeatures": "numFeatures", "NumLabels": "numLabels", "TotalPoints": "totalPoints", "LineNumber": "lineNumber"})
	c.constFields("the header is fixed", tScan, []string{"totalPoints", "numFeatures", "numLabels"}, "dataset/xcrepo.NewScanner")
	c.ownedFields("only the scanner changes its state", tScan, []string{"example", "lineNumber"}, "dataset/xcrepo")
}

// existsIdx: some index below n satisfies p.
func existsIdx(n *Term, p func(j *Term) *Term) *Term {
	j := newIdx("ex")
	return existsOver(n, j, p(j))
}
