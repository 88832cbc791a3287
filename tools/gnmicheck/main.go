// gnmicheck decides semantic properties of openconfig/gnmi statically: it
// loads the current source of the repository, and analyses its SSA form.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"time"

	"golang.org/x/tools/go/ssa"
)

type propCheck struct {
	run         func(p *Program)
	explanation string
	assumptions []string
}

var checks = map[string]*propCheck{}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("evidence", "", "evidence directory")
	tier := flag.String("tier", "quick", "tier")
	flag.Parse()
	debug.SetGCPercent(400)
	if f := os.Getenv("GNMICHECK_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	code := 0
	for _, id := range flag.Args() {
		if !runOne(id, *repo, *out, *tier) {
			code = 1
		}
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}

// loaded is the program, shared by the properties of one invocation.
var loaded *Program

func (p *Program) reset() {
	p.viols, p.vseen, p.obl, p.oblSeen = nil, map[string]bool{}, map[string]int{}, map[string]bool{}
	p.roots, p.states, p.paths, p.insns, p.nsites, p.notes = nil, 0, 0, 0, 0, nil
	p.fns = map[*ssa.Function]bool{}
}

func runOne(id, repo, out, tier string) (ok bool) {
	start := time.Now()
	c := checks[id]
	if c == nil {
		fmt.Println("unknown property", id)
		return false
	}
	var p *Program
	func() {
		defer func() {
			if r := recover(); r != nil {
				if p == nil {
					p = &Program{vseen: map[string]bool{}, obl: map[string]int{}}
				}
				p.viols = append(p.viols, Violation{Rule: "analysis", Construct: id, Msg: fmt.Sprintf("the analysis failed: %v", r), Pos: "-", Stack: []string{string(debug.Stack())}})
			}
		}()
		q, err := loaded, error(nil)
		if q == nil {
			q, err = load(repo)
			loaded = q
		} else {
			q.reset()
		}
		if err != nil {
			p = &Program{vseen: map[string]bool{}, obl: map[string]int{}}
			p.viols = append(p.viols, Violation{Rule: "load", Construct: repo, Msg: err.Error(), Pos: "-"})
			return
		}
		p = q
		p.prop = id
		c.run(p)
	}()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"explanation":           c.explanation,
		"files_loaded":          p.nfiles,
		"functions_loaded":      p.nfuncs,
		"roots":                 uniq(p.roots),
		"functions_analysed":    len(p.fns),
		"abstract_states":       p.states,
		"root_exits":            p.paths,
		"instructions_executed": p.insns,
		"event_sites":           p.nsites,
		"obligations":           p.obl,
	}
	if len(p.notes) > 0 {
		cov["notes"] = p.notes
	}
	total := 0
	for _, n := range p.obl {
		total += n
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage":    cov,
		"assumptions": append(append([]string{}, commonAssumptions...), c.assumptions...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(p.viols),
	}
	if out != "" {
		os.MkdirAll(out, 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(out, id+".json"), append(b, '\n'), 0o644)
	}
	fmt.Printf("%s: %d roots, %d functions, %d abstract states, %d obligation instances, %.1fs\n", id, len(uniq(p.roots)), len(p.fns), p.states, total, time.Since(start).Seconds())
	if len(p.viols) == 0 {
		fmt.Printf("%s: every obligation holds\n", id)
		return true
	}
	replay := filepath.Join(out, id+".violation.txt")
	var txt []byte
	for i, v := range p.viols {
		s := fmt.Sprintf("[%s] %s: %s\n    at %s\n", v.Rule, v.Construct, v.Msg, v.Pos)
		for _, l := range v.Stack {
			s += "      " + l + "\n"
		}
		if i < 10 {
			fmt.Print(s)
		}
		txt = append(txt, s...)
	}
	if out != "" {
		os.WriteFile(replay, txt, 0o644)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return false
}

func uniq(s []string) []string {
	m := map[string]bool{}
	var o []string
	for _, x := range s {
		if !m[x] {
			m[x] = true
			o = append(o, x)
		}
	}
	sort.Strings(o)
	return o
}

var commonAssumptions = []string{
	"standard library, gRPC, protobuf and ygot behave as documented (they are modelled, not analysed)",
	"distinct symbolic objects do not alias unless the code equates them",
	"integer arithmetic on lengths and timestamps does not wrap",
}
