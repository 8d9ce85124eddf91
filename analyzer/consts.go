package main

// Package variables that only their initialiser writes, with a value that can
// be computed from constants.

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// fixedGlobals maps the names of such variables to their values.
func (c *Ctx) fixedGlobals() map[string]*big.Rat {
	if c.P.fixed != nil {
		return c.P.fixed
	}
	out := map[string]*big.Rat{}
	c.P.fixed = out
	for _, p := range c.P.Pkgs {
		init := p.Func("init")
		if init == nil {
			continue
		}
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok || g.Object() == nil {
				continue
			}
			b, ok := ptrElem(g.Type()).Underlying().(*types.Basic)
			if !ok || b.Info()&(types.IsInteger|types.IsFloat) == 0 || !c.constGlobal(g) {
				continue
			}
			var val ssa.Value
			n := 0
			for _, bl := range init.Blocks {
				for _, in := range bl.Instrs {
					for _, op := range in.Operands(nil) {
						if *op != ssa.Value(g) {
							continue
						}
						n++
						if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
							val = s.Val
						}
					}
				}
			}
			if n != 1 || val == nil {
				continue
			}
			if v, ok := foldConst(val); ok && !math.IsNaN(v) && !math.IsInf(v, 0) && (b.Info()&types.IsInteger == 0 || math.Abs(v) < 1<<52) {
				out[globName(g)] = new(big.Rat).SetFloat64(v)
			}
		}
	}
	return out
}

var foldCalls = map[string]func(float64) float64{
	"math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Round": math.Round, "math.Trunc": math.Trunc,
	"math.Log": math.Log, "math.Log2": math.Log2, "math.Log10": math.Log10, "math.Sqrt": math.Sqrt, "math.Exp": math.Exp, "math.Abs": math.Abs,
}

// foldConst computes an arithmetic expression over constants.
func foldConst(v ssa.Value) (float64, bool) {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil || v.Value.Kind() != constant.Int && v.Value.Kind() != constant.Float {
			return 0, false
		}
		f, _ := constant.Float64Val(v.Value)
		return f, true
	case *ssa.ChangeType:
		return foldConst(v.X)
	case *ssa.Convert:
		if !isInteger(v.Type()) && !isFloat(v.Type()) || widthOf(v.Type()) != "64" {
			return 0, false
		}
		x, ok := foldConst(v.X)
		if ok && isInteger(v.Type()) && !isInteger(v.X.Type()) {
			x = math.Trunc(x)
		}
		return x, ok
	case *ssa.BinOp:
		a, ok := foldConst(v.X)
		b, ok2 := foldConst(v.Y)
		if !ok || !ok2 || !isFloat(v.Type()) && !isInteger(v.Type()) {
			return 0, false
		}
		switch v.Op {
		case token.ADD:
			return a + b, true
		case token.SUB:
			return a - b, true
		case token.MUL:
			return a * b, true
		case token.QUO:
			if b == 0 {
				return 0, false
			}
			if isInteger(v.Type()) {
				return math.Trunc(a / b), true
			}
			return a / b, true
		}
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || len(v.Call.Args) != 1 {
			return 0, false
		}
		g := foldCalls[f.String()]
		x, ok := foldConst(v.Call.Args[0])
		if g == nil || !ok {
			return 0, false
		}
		return g(x), true
	}
	return 0, false
}
