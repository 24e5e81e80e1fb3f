// Command mc runs one check: mc -property C01 -dir SCRATCH.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verifmc/drv"
	"verifmc/rt"
)

// Finding is an entry of known_findings.json.
type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Grammar  string `json:"grammar,omitempty"`
	Input    string `json:"input,omitempty"`
	Kind     string `json:"kind,omitempty"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
	Text     string `json:"text,omitempty"`
}

// Ctx is the state of one check run.
type Ctx struct {
	*drv.W
	Prop     string
	Level    string
	Findings []Finding
	Coverage map[string]interface{}
	Assume   []string
	Total    rt.Out
	Viols    []rt.V
	known    map[int]bool
	lines    []string
	PreBuild func(us []*drv.Unit, shards []*drv.Shard) error
}

func (c *Ctx) Logf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "[%6.1fs] %s\n", time.Since(c.Start).Seconds(), fmt.Sprintf(f, a...))
}

// Report records a violation unless it is a known finding.
func (c *Ctx) Report(v rt.V) {
	for i, f := range c.Findings {
		if f.Status != "known" || f.Property != c.Prop {
			continue
		}
		if f.Grammar == v.Grammar && f.Input == v.Input && f.Kind == v.Kind {
			if !c.known[i] {
				c.known[i] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, f.What)
			}
			return
		}
	}
	c.Viols = append(c.Viols, v)
}

type check struct {
	level string
	run   func(c *Ctx) error
}

var checks = map[string]check{}

func main() {
	prop := flag.String("property", "", "")
	dir := flag.String("dir", "", "scratch directory")
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	flag.Parse()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ck, ok := checks[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	budget := 10 * time.Minute
	if tier == "thorough" {
		budget = 60 * time.Minute
	}
	if s := os.Getenv("MC_BUDGET"); s != "" {
		var f float64
		fmt.Sscan(s, &f)
		budget = time.Duration(f * float64(time.Second))
	}
	w, err := drv.NewW(*repo, *verif, *dir, tier, seed, budget)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	c := &Ctx{W: w, Prop: *prop, Level: ck.level, Coverage: map[string]interface{}{}, known: map[int]bool{}}
	c.Total.Complete = true
	c.Total.Outcomes = map[string]int{}
	if b, err := os.ReadFile(filepath.Join(*verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &c.Findings); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(2)
		}
	}
	if err := ck.run(c); err != nil {
		fmt.Fprintln(os.Stderr, "check error:", err)
		os.Exit(2)
	}
	os.Exit(c.finish())
}

func (c *Ctx) finish() int {
	drv.SortV(c.Viols)
	t := &c.Total
	cov := c.Coverage
	set := func(k string, v interface{}) {
		if _, ok := cov[k]; !ok {
			cov[k] = v
		}
	}
	set("evaluations", t.Evals)
	set("states", t.States)
	set("transitions", t.Transitions)
	set("traces_validated_against_impl", t.Traces)
	set("exhaustive", t.Complete)
	set("outcomes", t.Outcomes)
	if t.Samples == nil {
		t.Samples = []string{}
	}
	set("samples", t.Samples)
	ev := map[string]interface{}{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": c.Level,
		"coverage": cov, "assumptions": c.Assume,
		"wall_s": time.Since(c.Start).Seconds(), "violations": len(c.Viols),
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	evd := filepath.Join(c.Verif, "evidence")
	os.MkdirAll(evd, 0o755)
	if err := os.WriteFile(filepath.Join(evd, c.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c.Logf("evaluations=%d states=%d transitions=%d cases=%d complete=%v outcomes=%v", t.Evals, t.States, t.Transitions, t.Cases, t.Complete, t.Outcomes)
	if len(c.Viols) == 0 {
		os.Remove(filepath.Join(evd, "replay", c.Prop+".txt"))
		fmt.Printf("OK property=%s evaluations=%d states=%d transitions=%d exhaustive=%v\n", c.Prop, t.Evals, t.States, t.Transitions, t.Complete)
		return 0
	}
	rp := filepath.Join(evd, "replay")
	os.MkdirAll(rp, 0o755)
	fn := filepath.Join(rp, c.Prop+".txt")
	var w strings.Builder
	fmt.Fprintf(&w, "property %s: %d violation(s) observed, shortest first\n", c.Prop, len(c.Viols))
	kinds := map[string]int{}
	for _, v := range c.Viols {
		kinds[v.Kind]++
	}
	fmt.Fprintf(&w, "kinds: %v\n", kinds)
	// put one of each kind first
	sort.SliceStable(c.Viols, func(i, j int) bool { return false })
	for i, v := range c.Viols {
		if i == 400 {
			break
		}
		fmt.Fprintf(&w, "\n--- %d\nkind: %s\ncase: %s unit: %s\ngrammar: %s\ninput: %q\n%s\n", i+1, v.Kind, v.Case, v.Unit, v.Grammar, v.Input, v.Msg)
	}
	for _, l := range c.lines {
		w.WriteString(l + "\n")
	}
	os.WriteFile(fn, []byte(w.String()), 0o644)
	v := c.Viols[0]
	fmt.Printf("first violation: kind=%s grammar={%s} input=%q: %s\n", v.Kind, v.Grammar, v.Input, v.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, fn)
	return 1
}
