package main

// goslidecheck: static decision of the properties of goslide.
//
//	goslidecheck -check C07     decide one property, write evidence/C07.json
//	goslidecheck -all           decide all of them (no evidence), for development
//	goslidecheck -dump FUNC     show the value graph of a function

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type rule struct {
	title string
	fn    func(c *Ctx)
	level string
}

var rules = map[string]rule{}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	d, _ := os.Getwd()
	return d
}

func main() {
	debug.SetGCPercent(400)
	if f := os.Getenv("PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
		go func() { time.Sleep(15 * time.Second); pprof.StopCPUProfile(); w.Close(); os.Exit(9) }()
	}
	if len(os.Args) > 2 && os.Args[1] == "-dump" {
		dumpFn(os.Args[2:])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "-check" {
		os.Exit(check(os.Args[2], true))
	}
	if len(os.Args) > 1 && os.Args[1] == "-anchors" {
		printAnchors()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "-list" {
		for _, id := range ruleIDs() {
			fmt.Println(id, rules[id].level)
		}
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "-all" {
		ids := os.Args[2:]
		if len(ids) == 0 {
			ids = ruleIDs()
		}
		rc := 0
		for _, id := range ids {
			if check(id, false) != 0 {
				rc = 1
			}
		}
		os.Exit(rc)
	}
	fmt.Println("usage: goslidecheck -check ID | -all | -list | -dump FUNC")
	os.Exit(2)
}

func fatal(a ...interface{}) { fmt.Println(a...); os.Exit(3) }

func ruleIDs() []string {
	var ids []string
	for id := range rules {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func check(id string, evidence bool) int {
	start := time.Now()
	ru, ok := rules[id]
	if !ok {
		fatal("no rule for", id)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	c := &Ctx{ID: id, Tier: tier, funcs: map[string]bool{}}
	p, err := loadProgram(repoDir())
	if err != nil {
		c.P = &Program{}
		c.obs = append(c.obs, Ob{Rule: "the tree type-checks", Construct: "/repo", Detail: err.Error(), Pos: "-"})
	} else {
		c.P = p
		func() {
			defer func() {
				if x := recover(); x != nil {
					if os.Getenv("TRACE") != "" {
						panic(x)
					}
					if a, ok := x.(anchorErr); ok {
						c.obs = append(c.obs, Ob{Rule: "anchors resolve", Construct: string(a), Detail: string(a), Pos: "-"})
						return
					}
					c.obs = append(c.obs, Ob{Rule: "the analysis completes", Construct: id, Detail: fmt.Sprint(x), Pos: "-"})
				}
			}()
			ru.fn(c)
		}()
	}
	var bad []Ob
	for _, o := range c.obs {
		if !o.OK {
			bad = append(bad, o)
		}
	}
	if len(c.obs) == 0 {
		bad = append(bad, Ob{Rule: "the rule has instances", Construct: id, Detail: "no obligation was generated", Pos: "-"})
	}
	wall := time.Since(start).Seconds()
	fmt.Printf("%s %s: %d obligations, %d discharged, %d functions, %.1fs\n", id, ru.title, len(c.obs), len(c.obs)-len(bad), len(c.funcs), wall)
	lim := 40
	for i, o := range bad {
		if i == lim {
			fmt.Println("  ...")
			break
		}
		fmt.Printf("  FAILED [%s] %s: %s: %s\n", o.Rule, o.Pos, o.Construct, o.Detail)
	}
	if os.Getenv("OBS") != "" {
		for _, o := range c.obs {
			fmt.Printf("  %v [%s] %s: %s\n", o.OK, o.Rule, o.Pos, o.Construct)
		}
	}
	if !evidence {
		if len(bad) > 0 {
			return 1
		}
		return 0
	}
	vd := verifDir()
	rp := filepath.Join("evidence", "replay", id+".txt")
	os.MkdirAll(filepath.Join(vd, "evidence", "replay"), 0755)
	var b strings.Builder
	fmt.Fprintf(&b, "property %s: %s\nrerun: cd /verif && bin/goslidecheck -check %s\n", id, ru.title, id)
	for _, o := range bad {
		fmt.Fprintf(&b, "\nrule: %s\nat: %s\nconstruct: %s\n%s\n", o.Rule, o.Pos, o.Construct, o.Detail)
	}
	os.WriteFile(filepath.Join(vd, rp), []byte(b.String()), 0644)
	writeEvidence(c, ru, bad, filepath.Join(vd, "evidence", id+".json"), wall)
	if len(bad) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	return 0
}

func writeEvidence(c *Ctx, ru rule, bad []Ob, path string, wall float64) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	byRule := map[string]int{}
	var order []string
	for _, o := range c.obs {
		if byRule[o.Rule] == 0 {
			order = append(order, o.Rule)
		}
		byRule[o.Rule]++
	}
	var samples []interface{}
	done := map[string]bool{}
	for _, o := range c.obs {
		if done[o.Rule] || len(samples) >= 40 {
			continue
		}
		done[o.Rule] = true
		samples = append(samples, map[string]interface{}{"rule": o.Rule, "construct": o.Construct, "at": o.Pos, "holds": o.OK, "instances": byRule[o.Rule]})
	}
	var fs []string
	for f := range c.funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	var viol []interface{}
	for _, o := range bad {
		viol = append(viol, map[string]interface{}{"rule": o.Rule, "construct": o.Construct, "at": o.Pos, "detail": o.Detail})
	}
	cov := map[string]interface{}{
		"obligations":        len(c.obs),
		"discharged":         len(c.obs) - len(bad),
		"rules":              len(order),
		"functions_analysed": fs,
		"roots_evaluated":    c.nRuns,
		"events_examined":    c.nEvents,
		"loops_summarised":   c.nLoops,
		"value_graph_terms":  c.nTerms,
		"checker_cmd":        "bin/goslidecheck -check " + c.ID,
		"trusted_base": []string{"go/types and golang.org/x/tools/go/ssa (program representation)",
			"the value-graph dataflow engine in /verif/analyzer (term.go theory.go heap.go eval.go loop.go models.go)",
			"the library models in models.go"},
		"explanation": "Static dataflow over the SSA form of the current tree: each root function is evaluated once over symbolic inputs (values joined by gating conditions, loops replaced by solved recurrences, heap split by field) and every obligation is a fact about the resulting value graph, effect list or call graph. " + ru.title,
		"samples":     samples,
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": seed, "level": ru.level, "coverage": cov, "wall_s": wall,
	}
	if viol != nil {
		ev["violations"] = viol
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(path, append(j, '\n'), 0644)
}
