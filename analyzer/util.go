package main

import (
	"go/token"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type ssaPos = token.Pos

var (
	oneRat    = big.NewRat(1, 1)
	negOneRat = big.NewRat(-1, 1)
)

func sortedSet(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sortedHeaps(m map[string]*Heap) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sortedVals(m map[ssa.Value]*Term) []ssa.Value {
	out := make([]ssa.Value, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if fa, fb := a.Parent(), b.Parent(); fa != fb && fa != nil && fb != nil {
			return fa.String() < fb.String()
		}
		return a.Name() < b.Name()
	})
	return out
}

func sortedTerms(m map[*Term]bool) []*Term {
	out := make([]*Term, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

var typString = types.Typ[types.String]

func fieldIndex(t types.Type, name string) int {
	if i := structField(typeKey(t), name, t.Underlying().(*types.Struct)); i >= 0 {
		return i
	}
	panic(anchorErr("field " + name + " of " + t.String()))
}
