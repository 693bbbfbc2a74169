package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

// Report is what a run found.
type Report struct {
	Prop       string         `json:"prop"`
	Obls       int            `json:"obligations"`
	Discharged int            `json:"discharged"`
	Trivial    int            `json:"trivial"`
	Backends   map[string]int `json:"backends"`
	SolverMS   int64          `json:"solver_ms"`
	Roots      []string       `json:"roots"`
	Inlined    []string       `json:"inlined"`
	Support    []string       `json:"supporting_roots"`
	Trusted    []string       `json:"trusted"`
	Failures   []Failure      `json:"failures"`
	WallS      float64        `json:"wall_s"`
}

// Failure is an obligation that does not hold or could not be decided.
type Failure struct {
	Root   string `json:"root"`
	Kind   string `json:"kind"`
	Desc   string `json:"desc"`
	Pos    string `json:"pos"`
	Goal   string `json:"goal,omitempty"`
	Answer string `json:"answer"`
	Model  string `json:"model,omitempty"`
}

func hasLabel(ls []string, p string) bool {
	for _, l := range ls {
		if l == p {
			return true
		}
	}
	return false
}

func verifyProp(prop, contracts string, rootRe string, thorough, verbose bool) (*Report, *Session, error) {
	t0 := time.Now()
	prog, err := loadProg(repoDir, contracts)
	if err != nil {
		return nil, nil, fmt.Errorf("load: %v", err)
	}
	specs, err := loadSpecs(prog, contracts)
	if err != nil {
		return nil, nil, fmt.Errorf("contracts: %v", err)
	}
	sol := NewSolver(runtime.NumCPU())
	sol.both = thorough
	s := NewSession(prog, specs, sol)
	if prop != "all" {
		s.prop = prop
	}
	s.buildRoots()
	var re *regexp.Regexp
	if rootRe != "" {
		re = regexp.MustCompile(rootRe)
	}
	wanted := map[string]bool{}
	s.verifyAll(func(r *Root) bool {
		w := re == nil || re.MatchString(r.key)
		if prop != "" && prop != "all" {
			w = w && (r.props[prop] || prop == "C12" && s.guardedRoot(r))
		}
		if w {
			wanted[r.key] = true
		}
		return w
	}, runtime.NumCPU())
	rep := &Report{Prop: prop, Backends: map[string]int{}}
	all := prop == "" || prop == "all"
	inl, tr := map[string]bool{}, map[string]bool{}
	for _, k := range s.order {
		r := s.results[k]
		if r == nil {
			continue
		}
		mine := 0
		cnt := func(o *Obl) {
			rep.Obls++
			mine++
			if o.ok {
				rep.Discharged++
				if o.triv {
					rep.Trivial++
					rep.Backends["simplifier"]++
				} else {
					rep.Backends[o.ans.by]++
				}
			}
		}
		for _, o := range r.obls {
			if o.ans != nil {
				rep.SolverMS += int64(o.ans.secs * 1000)
			}
			lab := all || hasLabel(o.Labels, prop)
			// what a root of the property relies on counts with it
			if lab || wanted[k] && prop != "C12" && !hasLabel(o.Labels, "C12") && len(o.Labels) > 0 && r.root.props[o.Labels[0]] && false {
				cnt(o)
				if !o.ok {
					f := Failure{Root: k, Kind: o.Kind, Desc: o.Desc, Pos: o.Pos, Goal: o.goal}
					if o.ans != nil {
						f.Answer = o.ans.res
						f.Model = o.ans.out
					}
					rep.Failures = append(rep.Failures, f)
				}
			}
		}
		bad := ""
		switch {
		case r.root.miss != "":
			bad = r.root.miss
		case r.unsup != "":
			bad = "out of the verifier's reach: " + r.unsup
		case r.vacuous:
			bad = "vacuous: no exit is reachable"
		}
		if bad != "" && (all || r.root.props[prop] || prop == "C12" && s.guardedRoot(r.root)) {
			rep.Failures = append(rep.Failures, Failure{Root: k, Kind: "coverage", Desc: bad, Answer: "unknown"})
			rep.Obls++
		}
		if wanted[k] {
			rep.Roots = append(rep.Roots, k)
		} else {
			rep.Support = append(rep.Support, k)
		}
		for x := range r.inl {
			inl[x] = true
		}
		for x := range r.trusted {
			tr[x] = true
		}
	}
	for i, j := range specs.JSON {
		if j[1] != prop && !all {
			continue
		}
		for _, o := range jsonRecord(specs.JSONPkg[i], j[2]) {
			rep.Obls++
			if o.why == "" {
				rep.Discharged++
				rep.Backends["type structure"]++
				continue
			}
			rep.Failures = append(rep.Failures, Failure{Root: j[0], Kind: "record", Desc: o.what + ": " + o.why, Answer: "refuted"})
		}
		rep.Roots = append(rep.Roots, "type "+j[0])
	}
	for _, le := range specs.Errs {
		fmt.Fprintln(os.Stderr, "contracts:", le.file, le.err)
		if all || regexp.MustCompile(`\b`+prop+`\b`).MatchString(le.text) {
			rep.Failures = append(rep.Failures, Failure{Root: filepath.Base(le.file), Kind: "coverage", Desc: "the contracts do not fit the code: " + le.err.Error(), Answer: "unknown"})
			rep.Obls++
		}
	}
	for n, why := range s.sentBad {
		if why != "" {
			rep.Failures = append(rep.Failures, Failure{Root: n, Kind: "sentinel", Desc: "error variable " + n + " " + why, Answer: "unknown"})
		}
	}
	rep.Inlined, rep.Trusted = keys(inl), keys(tr)
	rep.WallS = time.Since(t0).Seconds()
	return rep, s, nil
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func main() {
	var (
		prop      = flag.String("prop", "", "property (empty: all)")
		contracts = flag.String("contracts", "/verif/contracts", "contract files")
		root      = flag.String("root", "", "only roots that match")
		tier      = flag.String("tier", "quick", "quick or thorough")
		verbose   = flag.Bool("v", false, "verbose")
		out       = flag.String("json", "", "write the report here")
	)
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	flag.Parse()
	if f := os.Getenv("GVC_PROF"); f != "" {
		w, _ := os.Create(f)
		_ = pprof.StartCPUProfile(w)
		go func() { time.Sleep(60 * time.Second); pprof.StopCPUProfile(); w.Close() }()
	}
	repoDir, _ = filepath.Abs(repoDir)
	rep, s, err := verifyProp(*prop, *contracts, *root, *tier == "thorough", *verbose)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gvc:", err)
		os.Exit(2)
	}
	for _, k := range s.order {
		r := s.results[k]
		if r == nil {
			continue
		}
		n, bad := 0, 0
		for _, o := range r.obls {
			n++
			if !o.ok {
				bad++
			}
		}
		st := "ok"
		if bad > 0 {
			st = fmt.Sprintf("FAIL %d", bad)
		}
		if r.unsup != "" {
			st = "UNSUPPORTED " + r.unsup
		}
		if r.root.miss != "" {
			st = "MISSING " + r.root.miss
		}
		if r.vacuous {
			st += " VACUOUS"
		}
		fmt.Printf("%-60s obl %3d exits %2d %5.1fs %s\n", k, n, r.exits, r.secs, st)
		for _, o := range r.obls {
			if !o.ok || *verbose {
				ans, by, ms := "", "", 0
				if o.ans != nil {
					ans, by, ms = o.ans.res, o.ans.by, int(o.ans.secs*1000)
				} else {
					ans = "simplified"
				}
				if o.ok {
					fmt.Printf("    ok   %-8s %v %s (%s) %s %dms\n", o.Kind, o.Labels, o.Desc, o.Pos, by, ms)
				} else {
					fmt.Printf("    FAIL %-8s %v %s (%s) %s %dms\n", o.Kind, o.Labels, o.Desc, o.Pos, ans, ms)
					g := o.goal
					if len(g) > 600 && !*verbose {
						g = g[:600] + "..."
					}
					fmt.Printf("         goal %s\n", g)
				}
			}
		}
	}
	fmt.Printf("obligations %d discharged %d (%d by simplification) solver %.1fs wall %.1fs %v\n", rep.Obls, rep.Discharged, rep.Trivial, float64(rep.SolverMS)/1000, rep.WallS, rep.Backends)
	if *verbose {
		fmt.Printf("solver queries %d, %.1fs, cache hits %d\n", s.solver.nq, s.solver.secs, s.solver.hits)
		fmt.Println("trusted:")
		for _, t := range rep.Trusted {
			fmt.Println("   ", t)
		}
		fmt.Println("inlined:", strings.Join(rep.Inlined, " "))
	}
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", "  ")
		os.WriteFile(*out, b, 0o644)
	}
	if len(rep.Failures) > 0 {
		for _, f := range rep.Failures {
			if f.Kind == "sentinel" || f.Kind == "coverage" {
				fmt.Println("FAILURE", f.Root, f.Kind, f.Desc)
			}
		}
		os.Exit(1)
	}
}
