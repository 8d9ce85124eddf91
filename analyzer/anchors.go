package main

// Names recorded when the rules were written, so that renaming a parameter or
// a private field does not detach a rule from what it is about.

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

//go:embed anchors.json
var anchorsJSON []byte

type anchorTable struct {
	Params map[string][]string
	Fields map[string][][2]string
}

var recorded anchorTable

func init() { json.Unmarshal(anchorsJSON, &recorded) }

func printAnchors() {
	p, err := loadProgram(repoDir())
	if err != nil {
		fatal(err)
	}
	t := anchorTable{map[string][]string{}, map[string][][2]string{}}
	for n, f := range p.Funcs {
		if f.Parent() != nil {
			continue
		}
		l := []string{}
		for _, q := range f.Params {
			l = append(l, q.Name())
		}
		t.Params[n] = l
	}
	for pk, sp := range p.Pkgs {
		for _, m := range sp.Members {
			if ty, ok := m.(*ssa.Type); ok {
				if s, ok := ty.Type().Underlying().(*types.Struct); ok {
					var l [][2]string
					for i := 0; i < s.NumFields(); i++ {
						l = append(l, [2]string{s.Field(i).Name(), typName(s.Field(i).Type())})
					}
					t.Fields[pk+"."+m.Name()] = l
				}
			}
		}
	}
	b, _ := json.MarshalIndent(t, "", " ")
	os.Stdout.Write(b)
	fmt.Println()
}

// paramIndex finds the parameter called name when the rules were written.
func paramIndex(fn *ssa.Function, name string) int {
	rec := recorded.Params[fnName(fn)]
	if len(rec) == len(fn.Params) {
		for i, n := range rec {
			if n == name {
				return i
			}
		}
	}
	for i, p := range fn.Params {
		if p.Name() == name {
			return i
		}
	}
	return -1
}

func typName(t types.Type) string { return types.TypeString(t, nil) }

// structField finds the field called name when the rules were written.
func structField(typ, name string, s *types.Struct) int {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	rec := recorded.Fields[typ]
	was, known := -1, map[string]bool{}
	for i, r := range rec {
		known[r[0]] = true
		if r[0] == name {
			was = i
		}
	}
	if was < 0 {
		return -1
	}
	// the only field of the same type that is new
	found := -1
	for i := 0; i < s.NumFields(); i++ {
		if !known[s.Field(i).Name()] && typName(s.Field(i).Type()) == rec[was][1] {
			if i == was && s.NumFields() == len(rec) {
				return i
			}
			if found >= 0 {
				return -1
			}
			found = i
		}
	}
	return found
}
