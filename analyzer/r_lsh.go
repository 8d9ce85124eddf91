package main

import (
	"fmt"
	"strings"
)

// C07-C11: buckets and hash tables.

const (
	tFifo = "bucket/fifo.FifoBucket"
	tLSH  = "lsh.LSH"
	tCfg  = "configuration.Configuration"
)

func init() {
	rules["C07"] = rule{"ring buffer of 128 identifiers", ruleC07, "proof"}
}

func (r *Run) fifoInv(b *Term, st *State) (*Term, *Term, *Term) {
	cnt := r.getIn(st, b, tFifo, "count")
	s := r.getIn(st, b, tFifo, "slice")
	c128 := num(128)
	want := ite(ltI(cnt, c128), cnt, c128)
	return and(leI(Zero, cnt), eqI(slen(s), want)), cnt, s
}

func ruleC07(c *Ctx) {
	_, it := c.field(tFifo, "count")
	c.run(tFifo+".Add", func(r *Run) {
		inv, _, _ := r.fifoInv(r.A[0], r.newSt0())
		r.assume(inv)
	}, func(r *Run) {
		c128 := num(128)
		b, id := r.A[0], r.A[1]
		_, cnt, s := r.fifoInv(b, r.St0)
		r.noPanic("adding never fails", nil)
		slot := app("emod", cnt, c128)
		r.eq("the n-th identifier is reported in slot n mod 128", r.Name, r.know(), r.Res, slot)
		inv1, cnt1, s1 := r.fifoInv(b, r.St)
		r.eq("the number of additions is counted", r.Name, r.know(), cnt1, add(cnt, One))
		r.holds("min(n,128) identifiers are held after an addition", r.Name, r.know(), inv1, r.Fn.Pos())
		j := newIdx("j")
		pc := and(r.know(), inRange(j, Zero, slen(s1)))
		r.eq("slot n mod 128 receives the identifier and no other slot changes", r.Name, pc,
			r.at(r.St, s1, j, it), ite(eqI(j, slot), id, r.at(r.St0, s, j, it)))
		r.onlyWrites("an addition writes nothing outside its bucket", func(w wr, a *Term) bool {
			return r.inBucket(b, a)
		})
	})
	c.run(tFifo+".Retrieve", func(r *Run) {
		inv, _, _ := r.fifoInv(r.A[0], r.newSt0())
		r.assume(inv, leI(Zero, r.A[1]))
	}, func(r *Run) {
		c128 := num(128)
		b, i := r.A[0], r.A[1]
		_, _, s := r.fifoInv(b, r.St0)
		r.noPanic("reading never fails", nil)
		pc := r.know()
		r.holds("beyond the capacity a negative marker is returned", r.Name, and(pc, leI(c128, i)), ltI(r.Res, Zero), r.Fn.Pos())
		r.eq("reading returns what is stored, zero for a never-filled slot", r.Name, and(pc, ltI(i, c128)), r.Res,
			ite(ltI(i, slen(s)), r.at(r.St0, s, i, it), Zero))
		r.onlyWrites("reading changes nothing", func(w wr, a *Term) bool { return false })
	})
	c.run(tFifo+".GetAll", func(r *Run) {
		inv, _, _ := r.fifoInv(r.A[0], r.newSt0())
		r.assume(inv)
	}, func(r *Run) {
		_, _, s := r.fifoInv(r.A[0], r.St0)
		r.noPanic("reading never fails", nil)
		r.eq("all identifiers are returned", r.Name, r.know(), slen(r.Res), slen(s))
		j := newIdx("j")
		r.eq("all identifiers are returned", r.Name, and(r.know(), inRange(j, Zero, slen(s))), r.at(r.St, r.Res, j, it), r.at(r.St0, s, j, it))
		r.onlyWrites("reading changes nothing", func(w wr, a *Term) bool { return false })
	})
	c.run(tFifo+".Reset", nil, func(r *Run) {
		r.noPanic("resetting never fails", nil)
		b := r.A[0]
		_, cnt, s := r.fifoInv(b, r.St)
		r.eq("a reset bucket is empty", r.Name, r.know(), cnt, Zero)
		r.eq("a reset bucket is empty", r.Name, r.know(), slen(s), Zero)
		r.onlyWrites("a reset touches only its bucket", func(w wr, a *Term) bool { return r.inBucket(b, a) })
	})
	c.run("bucket/fifo.New", nil, func(r *Run) {
		r.noPanic("creating never fails", nil)
		_, cnt, s := r.fifoInv(r.Res, r.St)
		r.eq("a new bucket is empty", r.Name, r.know(), cnt, Zero)
		r.eq("a new bucket is empty", r.Name, r.know(), slen(s), Zero)
		r.C.ob("a new bucket has storage of its own", r.Name, freshMem(fld(r.Res, "x")) && (freshMem(elem(sbase(s), Zero))), r.Fn.Pos(), "%v", s)
		r.onlyWrites("creating a bucket changes no other memory", func(w wr, a *Term) bool { return false })
	})
	c.ownedFields("only the bucket's own methods change a bucket", tFifo, []string{"slice", "count"}, "bucket/fifo")
}

// inBucket: the address is a field of b or part of b's storage.
func (r *Run) inBucket(b, a *Term) bool {
	rt := root(a)
	if rt == b {
		return true
	}
	k, _ := r.C.field(tFifo, "slice")
	return rt.Op == OpApp && rt.S == "sbase" && rt.K[0].Op == OpSel && rt.K[0].K[1] == fld(b, k)
}

func (r *Run) newSt0() *State { return &State{pc: True, heaps: map[string]*Heap{}} }

func init() {
	rules["C08"] = rule{"insertions and look-ups designate the same buckets", ruleC08, "proof"}
	rules["C09"] = rule{"clearing empties every bucket", ruleC09, "proof"}
	rules["C10"] = rule{"addresses lie in [0, 2^RangePow)", ruleC10, "proof"}
	rules["C11"] = rule{"an address depends on exactly its table's codes", ruleC11, "proof"}
}

// bucketAt is the bucket designated by (table, address) before the call.
func (r *Run) bucketAt(lsh, t, a *Term) *Term {
	_, bt := r.C.field(tLSH, "buckets")
	rt := elemType(bt)
	row := r.at(r.St0, r.get0(lsh, tLSH, "buckets"), t, rt)
	return r.at(r.St0, row, a, elemType(rt))
}

func (r *Run) lshShape(lsh *Term) {
	st := r.newSt0()
	l := r.getIn(st, lsh, tLSH, "l")
	r.assume(leI(Zero, l), eqI(slen(r.getIn(st, lsh, tLSH, "buckets")), l))
	k := r.getIn(st, lsh, tLSH, "k")
	r.assume(leI(Zero, k))
}

func ruleC08(c *Ctx) {
	add := tFifo + ".Add"
	_, it := c.field(tFifo, "count")
	c.run(tLSH+".Add", func(r *Run) {
		r.opq(add)
		r.lshShape(r.A[0])
	}, func(r *Run) {
		lsh, idx, id := r.A[0], r.A[1], r.A[2]
		l := r.get0(lsh, tLSH, "l")
		t := newIdx("table")
		target := r.bucketAt(lsh, t, r.at(r.St0, idx, t, it))
		evs := r.calls(add)
		r.exactlyOnce("one insertion per table, at the given address", evs,
			func(ev *Event) []*Term { return []*Term{ev.Args[0]} }, []*Term{target}, []*Term{t}, inRange(t, Zero, l))
		for _, ev := range evs {
			r.eq("the identifier given is inserted", fnName(ev.Fn), and(ev.PC, okOf(ev)), ev.Args[1], id)
		}
		r.eq("one slot number per table is returned", r.Name, r.know(), slen(r.Res), l)
		r.onlyWrites("an insertion changes nothing but buckets", func(w wr, a *Term) bool { return false })
	})
	c.run(tLSH+".AddSingle", func(r *Run) { r.opq(add) }, func(r *Run) {
		target := r.bucketAt(r.A[0], r.A[1], r.A[2])
		evs := r.calls(add)
		r.exactlyOnce("a single insertion goes to the designated bucket", evs,
			func(ev *Event) []*Term { return []*Term{ev.Args[0]} }, []*Term{target}, nil, True)
		for _, ev := range evs {
			r.eq("the identifier given is inserted", fnName(ev.Fn), ev.PC, ev.Args[1], r.A[3])
		}
		r.onlyWrites("an insertion changes nothing but buckets", func(w wr, a *Term) bool { return false })
	})
	c.run(tLSH+".RetrieveRaw", func(r *Run) { r.lshShape(r.A[0]) }, func(r *Run) {
		lsh, idx := r.A[0], r.A[1]
		l := r.get0(lsh, tLSH, "l")
		t := newIdx("table")
		pc := and(r.know(), inRange(t, Zero, l))
		r.eq("one result per table", r.Name, r.know(), slen(r.Res), l)
		b := r.bucketAt(lsh, t, r.at(r.St0, idx, t, it))
		_, st := c.field(tFifo, "slice")
		r.eq("the result of a table is the content of its designated bucket", r.Name, pc, r.at(r.St, r.Res, t, st), r.get0(b, tFifo, "slice"))
		r.onlyWrites("a query changes nothing", func(w wr, a *Term) bool { return false })
	})
	c.run(tLSH+".Retrieve", func(r *Run) { r.opq(tFifo + ".Retrieve") }, func(r *Run) {
		evs := r.calls(tFifo + ".Retrieve")
		r.exactlyOnce("a single read goes to the designated bucket", evs,
			func(ev *Event) []*Term { return []*Term{ev.Args[0]} }, []*Term{r.bucketAt(r.A[0], r.A[1], r.A[2])}, nil, True)
		for _, ev := range evs {
			r.eq("the slot asked for is read", fnName(ev.Fn), ev.PC, ev.Args[1], r.A[3])
			r.eq("what was read is returned", fnName(ev.Fn), r.know(), r.Res, ev.Res)
		}
		r.onlyWrites("a query changes nothing", func(w wr, a *Term) bool { return false })
	})
	c.run("lsh.New", func(r *Run) { r.assume(leI(Zero, r.A[0]), leI(Zero, r.A[1]), leI(Zero, r.A[2])); nonNeg[r.A[2]] = true }, func(r *Run) {
		k, l, rp := r.A[0], r.A[1], r.A[2]
		r.eq("the tables remember K", r.Name, r.know(), r.get1(r.Res, tLSH, "k"), k)
		r.eq("the tables remember L", r.Name, r.know(), r.get1(r.Res, tLSH, "l"), l)
		r.eq("the tables remember RangePow", r.Name, r.know(), r.get1(r.Res, tLSH, "rangePow"), rp)
		bs := r.get1(r.Res, tLSH, "buckets")
		r.eq("there are L tables", r.Name, r.know(), slen(bs), l)
		_, bt := c.field(tLSH, "buckets")
		rt := elemType(bt)
		t, a, t2, a2 := newIdx("t"), newIdx("a"), newIdx("t2"), newIdx("a2")
		dom := andN(r.know(), inRange(t, Zero, l), inRange(a, Zero, pow2(rp)), inRange(t2, Zero, l), inRange(a2, Zero, pow2(rp)))
		row := r.at(r.St, bs, t, rt)
		r.eq("a table has 2^RangePow buckets", r.Name, dom, slen(row), pow2(rp))
		b := r.at(r.St, row, a, elemType(rt))
		b2 := r.at(r.St, r.at(r.St, bs, t2, rt), a2, elemType(rt))
		b, b2 = simplify(b, dom), simplify(b2, dom)
		r.holds("every (table, address) has a bucket of its own", r.Name, dom, or(not(samePtr(b, b2)), and(eqI(t, t2), eqI(a, a2))), r.Fn.Pos())
		r.C.ob("buckets are created with the tables", r.Name, freshMem(b), r.Fn.Pos(), "%v", b)
		r.eq("buckets start empty", r.Name, dom, r.get1(b, tFifo, "count"), Zero)
		s, s2 := simplify(r.get1(b, tFifo, "slice"), dom), simplify(r.get1(b2, tFifo, "slice"), dom)
		r.eq("buckets start empty", r.Name, dom, slen(s), Zero)
		r.holds("buckets have storage of their own", r.Name, dom, or(not(samePtr(sbase(s), sbase(s2))), and(eqI(t, t2), eqI(a, a2))), r.Fn.Pos())
		r.eq("there is one address constant per code", r.Name, r.know(), slen(r.get1(r.Res, tLSH, "rand1")), mul(k, l))
		r.onlyWrites("building tables changes no other memory", func(w wr, a *Term) bool { return false })
	})
	c.constFields("the table geometry never changes", tLSH, []string{"k", "l", "rangePow", "rand1", "buckets"}, "lsh.New")
	c.constElems("the table geometry never changes", tLSH, "rand1", 1, "lsh.New")
	c.constElems("the table geometry never changes", tLSH, "buckets", 1, "lsh.New")
}

func ruleC09(c *Ctx) {
	c.run(tLSH+".Clear", func(r *Run) { r.lshShape(r.A[0]) }, func(r *Run) {
		lsh := r.A[0]
		l := r.get0(lsh, tLSH, "l")
		bs := r.get0(lsh, tLSH, "buckets")
		_, bt := c.field(tLSH, "buckets")
		rt := elemType(bt)
		t, a := newIdx("t"), newIdx("a")
		row := r.at(r.St0, bs, t, rt)
		dom := andN(r.know(), inRange(t, Zero, l), inRange(a, Zero, slen(row)))
		b := r.at(r.St0, row, a, elemType(rt))
		r.eq("every bucket of every table is emptied", r.Name, dom, r.get1(b, tFifo, "count"), Zero)
		r.eq("every bucket of every table is emptied", r.Name, dom, slen(r.get1(b, tFifo, "slice")), Zero)
		fc, _ := c.field(tFifo, "count")
		fs, _ := c.field(tFifo, "slice")
		r.onlyWrites("clearing changes only buckets", func(w wr, a *Term) bool {
			return a.Op == OpFld && (a.S == fc || a.S == fs)
		})
		r.C.ob("clearing does not stop early", r.Name, r.proves(True, r.St.pc), r.Fn.Pos(), "%v", r.St.pc)
	})
	c.run("layer.Layer.ClearHashTables", func(r *Run) { r.opq(tLSH + ".Clear") }, func(r *Run) {
		evs := r.calls(tLSH + ".Clear")
		r.exactlyOnce("clearing a layer clears its tables", evs, func(ev *Event) []*Term { return []*Term{ev.Args[0]} },
			[]*Term{r.get0(r.A[0], "layer.Layer", "hashTables")}, nil, True)
		r.onlyWrites("clearing changes only buckets", func(w wr, a *Term) bool { return false })
	})
	c.constFields("the table geometry never changes", tLSH, []string{"k", "l", "rangePow", "rand1", "buckets"}, "lsh.New")
	c.constElems("the table geometry never changes", tLSH, "rand1", 1, "lsh.New")
	c.constElems("the table geometry never changes", tLSH, "buckets", 1, "lsh.New")
}

func ruleC10(c *Ctx) {
	c.run(tLSH+".HashesToIndex", func(r *Run) {
		r.lshShape(r.A[0])
		st := r.newSt0()
		l, k := r.getIn(st, r.A[0], tLSH, "l"), r.getIn(st, r.A[0], tLSH, "k")
		rp := r.getIn(st, r.A[0], tLSH, "rangePow")
		nonNeg[rp] = true
		r.assume(leI(Zero, rp), leI(mul(k, l), slen(r.A[1])), eqI(slen(r.getIn(st, r.A[0], tLSH, "rand1")), mul(k, l)))
	}, func(r *Run) {
		_, it := c.field(tFifo, "count")
		l := r.get0(r.A[0], tLSH, "l")
		k := r.get0(r.A[0], tLSH, "k")
		rp := r.get0(r.A[0], tLSH, "rangePow")
		r.eq("one address per table", r.Name, r.know(), slen(r.Res), l)
		t := newIdx("t")
		dom := and(r.know(), inRange(t, Zero, l))
		a := r.at(r.St, r.Res, t, it)
		r.holds("an address is not negative", r.Name, dom, leI(Zero, a), r.Fn.Pos())
		r.holds("an address is below 2^RangePow", r.Name, dom, ltI(a, pow2(rp)), r.Fn.Pos())
		for _, ev := range r.events {
			if ev.Kind == "index" {
				pc := andN(ev.PC, okOf(ev), products(ev, k))
				r.holds("computing addresses stays within the codes and constants", fnName(ev.Fn), pc, inRange(ev.Args[0], Zero, ev.Args[1]), ev.Pos)
			}
			if ev.Kind == "panic" {
				r.holds("every hash function is supported", fnName(ev.Fn), ev.PC, False, ev.Pos)
			}
		}
		r.onlyWrites("computing addresses changes nothing", func(w wr, a *Term) bool { return false })
	})
	c.run("layer.Layer.HashesToIndex", func(r *Run) { r.opq(tLSH + ".HashesToIndex") }, func(r *Run) {
		evs := r.calls(tLSH + ".HashesToIndex")
		r.exactlyOnce("a layer maps codes with its own tables", evs, func(ev *Event) []*Term { return []*Term{ev.Args[0]} },
			[]*Term{r.get0(r.A[0], "layer.Layer", "hashTables")}, nil, True)
		for _, ev := range evs {
			r.eq("a layer maps the codes it is given", r.Name, r.know(), ev.Args[1], r.A[1])
			r.eq("a layer returns the addresses computed", r.Name, r.know(), r.Res, ev.Res)
		}
	})
	c.lshGeometry()
}

// lshGeometry: tables are built, and stay, with L tables of 2^RangePow buckets.
func (c *Ctx) lshGeometry() {
	c.run("lsh.New", func(r *Run) {
		r.assume(leI(Zero, r.A[0]), leI(Zero, r.A[1]), leI(Zero, r.A[2]))
		nonNeg[r.A[2]] = true
	}, func(r *Run) {
		k, l, rp := r.A[0], r.A[1], r.A[2]
		r.eq("the tables remember K", r.Name, r.know(), r.get1(r.Res, tLSH, "k"), k)
		r.eq("the tables remember L", r.Name, r.know(), r.get1(r.Res, tLSH, "l"), l)
		r.eq("the tables remember RangePow", r.Name, r.know(), r.get1(r.Res, tLSH, "rangePow"), rp)
		bs := r.get1(r.Res, tLSH, "buckets")
		r.eq("there are L tables", r.Name, r.know(), slen(bs), l)
		_, bt := c.field(tLSH, "buckets")
		t := newIdx("t")
		r.eq("a table has 2^RangePow buckets", r.Name, and(r.know(), inRange(t, Zero, l)), slen(r.at(r.St, bs, t, elemType(bt))), pow2(rp))
		r.eq("there is one address constant per code", r.Name, r.know(), slen(r.get1(r.Res, tLSH, "rand1")), mul(k, l))
	})
	c.constFields("the table geometry never changes", tLSH, []string{"k", "l", "rangePow", "rand1", "buckets"}, "lsh.New")
	c.constElems("the table geometry never changes", tLSH, "rand1", 1, "lsh.New")
	c.constElems("the table geometry never changes", tLSH, "buckets", 1, "lsh.New")
}

func ruleC11(c *Ctx) {
	_, it := c.field(tFifo, "count")
	for hf := int64(1); hf <= 4; hf++ {
		c.run(tLSH+".HashesToIndex", func(r *Run) {
			r.lshShape(r.A[0])
			r.Label = fmt.Sprintf("%s with hash function %d", r.Name, hf)
			st := r.newSt0()
			r.assume(ltI(Zero, r.getIn(st, r.A[0], tLSH, "k")))
			nonNeg[r.getIn(st, r.A[0], tLSH, "rangePow")] = true
			r.config("HashFunction", num(hf))
		}, func(r *Run) {
			lsh, hashes := r.A[0], r.A[1]
			l, k := r.get0(lsh, tLSH, "l"), r.get0(lsh, tLSH, "k")
			t := newIdx("t")
			dom := and(r.know(), inRange(t, Zero, l))
			a := simplify(r.at(r.St, r.Res, t, it), and(r.Pre, dom))
			rand1 := r.get0(lsh, tLSH, "rand1")
			j := newIdx("code")
			covered := False
			label := func(s string) string { return fmt.Sprintf("hash function %d: %s", hf, s) }
			r.guarded(a, True, func(u, cond *Term, open []*Term) {
				switch u.Op {
				case OpSel:
					ad := u.K[1]
					if ad.Op == OpElem && (ad.K[0] == sbase(hashes) || ad.K[0] == sbase(rand1)) {
						x := sub(ad.K[1], mul(k, t))
						if ad.K[0] == sbase(hashes) {
							x = sub(x, soff(hashes))
						} else {
							x = sub(x, soff(rand1))
						}
						r.holds(label("an address reads only codes K*t..K*t+K-1 of its table"), r.Name, and(dom, cond), inRange(x, Zero, k), r.Fn.Pos())
						if ad.K[0] == sbase(hashes) {
							sol := Sub{}
							s, c := unifyInt(x, j, open, sol)
							if s == uExact {
								c = and(c, subst(cond, sol))
								for _, o := range open {
									if containsP(c, func(t *Term) bool { return t == o }) {
										c = False
									}
								}
								covered = or(covered, c)
							}
						}
						return
					}
					if ad.Op == OpFld && ad.K[0] == lsh {
						return
					}
					if r.isConfig(ad) || c.constGlobalAddr(ad) {
						return
					}
					c.ob(label("an address depends on nothing else"), r.Name, false, r.Fn.Pos(), "depends on %v", u)
				case OpSym:
					if u == lsh || u == hashes || u == t || strings.HasPrefix(u.S, "k:") || strings.HasPrefix(u.S, "any:") {
						return
					}
					c.ob(label("an address depends on nothing else"), r.Name, false, r.Fn.Pos(), "depends on %v", u)
				case OpHavoc, OpLoopH:
					c.ob(label("an address depends on nothing else"), r.Name, false, r.Fn.Pos(), "depends on %v", u)
				}
			})
			r.holds(label("an address depends on all K codes of its table"), r.Name, and(dom, inRange(j, Zero, k)), covered, r.Fn.Pos())
		})
	}
	c.constFields("the address constants never change", tLSH, []string{"k", "l", "rangePow", "rand1"}, "lsh.New")
	c.constElems("the address constants never change", tLSH, "rand1", 1, "lsh.New")
}
