package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"verifmc/drv"
	"verifmc/rt"
)

func init() {
	checks["C16"] = check{"model_checking", regenCheck}
}

// dstate is the contents of an output directory.
type dstate struct {
	files map[string]string
	path  string // the operations that led here
	depth int
}

func (s *dstate) key() string {
	var b strings.Builder
	for _, k := range keys(s.files) {
		fmt.Fprintf(&b, "%s\x00%s\x00", k, s.files[k])
	}
	return b.String()
}

// gop is a run of gogll.
type gop struct {
	name  string
	args  []string
	lr    bool
	all   bool
	fresh map[string]string // in an empty directory
	rc    int
	out   string
}

var regenSrc = map[string]string{
	"g0.bnf": "package \"d\"\nS : \"a\" ta ;\nta : 'x' 'y' ;\n",
	"g1.md":  "# T\n```\npackage \"e\"\nS : B S | empty ;\nB : \"b\" tb | tc \"+\" ;\n```\n and\n```\ntb : 'z' { letter } ;\ntc : ('0' | '1') ;\n```\n",
	"g2.bnf": "package \"d\"\nE : E \"+\" E | \"a\" ;\n",
}

var oldReports = map[string]bool{"basic_productions.txt": true, "CFG_items.txt": true, "CFG_symbols.txt": true, "first.txt": true, "LR1_states.txt": true, "LR1_conflicts.txt": true}

const astGo = "ast/ast.go"

type regen struct {
	*Ctx
	mu      sync.Mutex
	faulty  string
	free    chan string // directories to run in
	reports map[string]int
}

// run runs gogll in a directory with the files given. It returns the files
// afterwards, the result and the log of faults.
func (c *regen) run(files map[string]string, bin string, env []string, args ...string) (after map[string]string, res drv.Res, mark string, err error) {
	dir := <-c.free
	defer func() { c.free <- dir }()
	out := filepath.Join(dir, "out")
	os.RemoveAll(out)
	if len(files) > 0 {
		if err = putTree(out, files); err != nil {
			return
		}
	}
	mf := filepath.Join(dir, "mark")
	os.Remove(mf)
	var e []string
	if env != nil {
		e = append(append(os.Environ(), "MC_MARK="+mf), env...)
	}
	res = drv.Run(filepath.Join(dir, "cwd"), e, cliLimit, bin, args...)
	if b, err := os.ReadFile(mf); err == nil {
		mark = string(b)
	}
	after = map[string]string{}
	if _, serr := os.Stat(out); serr == nil {
		if after, err = tree(out); err != nil {
			return
		}
	}
	for sub, want := range map[string]map[string]string{"in": regenSrc, "cwd": {"keep": "kept"}} {
		t, terr := tree(filepath.Join(dir, sub))
		if terr != nil {
			err = terr
			return
		}
		if d := sameTree(want, t); d != "" {
			after["!"+sub] = d
			os.RemoveAll(filepath.Join(dir, sub))
			if err = putTree(filepath.Join(dir, sub), want); err != nil {
				return
			}
		}
	}
	return
}

func (c *regen) viol(path string, op *gop, kind, format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Report(rt.V{Case: "regen", Unit: op.name, Grammar: op.name, Input: path, Kind: kind, Msg: fmt.Sprintf("history [%s], then gogll %s: ", path, op.name) + fmt.Sprintf(format, a...)})
}

// want is what a run leaves behind.
func (op *gop) want(s map[string]string) map[string]string {
	w := map[string]string{}
	for p, t := range s {
		w[p] = t
	}
	for p, t := range op.fresh {
		if _, ok := s[p]; p == astGo && ok && !op.all {
			continue
		}
		w[p] = t
	}
	return w
}

// differ compares the files after a run with those expected.
func (op *gop) differ(want, got map[string]string) string {
	for p, t := range want {
		g, ok := got[p]
		switch {
		case !ok && oldReports[p] && op.lr && op.fresh[p] == "":
		case !ok:
			return p + " is missing"
		case g != t:
			return fmt.Sprintf("%s is not as expected (%d bytes, not %d)", p, len(g), len(t))
		}
	}
	for p, d := range got {
		if _, ok := want[p]; !ok {
			return p + " should not be there " + strings.TrimPrefix(d, "!")
		}
	}
	return ""
}

// torn checks the files left by a run that was cut short.
func (op *gop) torn(old, got map[string]string) (kind, msg string) {
	for p, d := range got {
		if strings.HasPrefix(p, "!") {
			return "outside", p[1:] + ": " + d
		}
		o, had := old[p]
		f, isNew := op.fresh[p]
		switch {
		case had && d == o, isNew && d == f && !(p == astGo && had && !op.all):
		case p == astGo:
			return "ast", fmt.Sprintf("ast/ast.go is neither the old file nor the new one: %.80q", d)
		case isNew && strings.HasPrefix(f, d):
		case !had && !isNew && !strings.HasSuffix(p, ".go"):
			// a temporary file
		default:
			return "torn", fmt.Sprintf("%s is neither old, new nor the beginning of the new file", p)
		}
	}
	for p := range old {
		if _, ok := got[p]; !ok && !(oldReports[p] && op.lr) {
			return "lost", p + " is gone"
		}
	}
	return "", ""
}

func regenCheck(cc *Ctx) error {
	c := &regen{Ctx: cc, free: make(chan string, 64)}
	c.Total.Outcomes = map[string]int{}
	count := func(k string) { c.mu.Lock(); c.Total.Outcomes[k]++; c.mu.Unlock() }
	c.faulty = filepath.Join(c.Dir, "gogll_faulty")
	if err := c.BuildFaulty(c.faulty); err != nil {
		return err
	}
	c.Logf("built with faults")
	for i := 0; i < runtime.NumCPU()*2; i++ {
		d := filepath.Join(c.Dir, "regen", fmt.Sprint(i))
		if err := putTree(d, map[string]string{"cwd/keep": "kept"}); err != nil {
			return err
		}
		if err := putTree(filepath.Join(d, "in"), regenSrc); err != nil {
			return err
		}
		c.free <- d
	}

	// The runs
	var gops []*gop
	add := func(src string, flags ...string) {
		op := &gop{args: append(append([]string{}, flags...), "-o", "../out", "../in/"+src)}
		op.name = strings.Join(append(flags, src), " ")
		for _, f := range flags {
			op.lr = op.lr || f == "-knuth" || f == "-pager"
			op.all = op.all || f == "-a"
		}
		gops = append(gops, op)
	}
	for _, g := range []string{"g0.bnf", "g1.md"} {
		for _, m := range []string{"-gll", "-knuth", "-pager"} {
			for _, f := range []string{"", "-a", "-v"} {
				if f == "" {
					add(g, m)
				} else {
					add(g, m, f)
				}
			}
		}
	}
	for _, m := range []string{"-knuth", "-pager"} {
		add("g2.bnf", m)
		add("g2.bnf", m, "-resolve_conflicts")
		add("g2.bnf", m, "-v", "-a")
	}
	for _, op := range gops {
		t, res, _, err := c.run(nil, c.Gogll, nil, op.args...)
		if err != nil {
			return err
		}
		op.fresh, op.rc, op.out = t, res.RC, res.Out
		count(fmt.Sprintf("fresh exit %d", res.RC))
		wantRC := 0
		if strings.HasPrefix(op.name, "-knuth g2") || strings.HasPrefix(op.name, "-pager g2") || strings.Contains(op.name, "-v -a g2") {
			wantRC = 1
		}
		if res.RC != wantRC || res.TimedOut || panicRe.MatchString(res.Out) {
			c.viol("", op, "exit", "exit %d in an empty directory: %.300s", res.RC, res.Out)
		}
		if d := t["!in"] + t["!cwd"]; d != "" {
			c.viol("", op, "outside", "%s", d)
		}
	}
	// Other ways to name the directories
	for _, op := range gops {
		for _, o := range []string{"../out/", "../out/./", "../in/../out", "../cwd/../out/deep/er"} {
			a := append([]string{}, op.args...)
			a[len(a)-2] = o
			t, res, _, err := c.run(nil, c.Gogll, nil, a...)
			if err != nil {
				return err
			}
			if strings.HasSuffix(o, "deep/er") {
				u := map[string]string{}
				for p, s := range t {
					if !strings.HasPrefix(p, "deep/er/") {
						p = "!" + p
					}
					u[strings.TrimPrefix(p, "deep/er/")] = s
				}
				t = u
			}
			c.Total.Evals++
			if d := sameTree(op.fresh, t); d != "" || res.RC != op.rc {
				c.viol("", op, "outdir", "with -o %s exit %d and %s", o, res.RC, d)
			}
		}
	}

	// Operation sequences
	depth := 3
	if c.Thorough() {
		depth = 4
	}
	start := &dstate{files: map[string]string{}}
	seen := map[string]*dstate{start.key(): start}
	level := []*dstate{start}
	all := []*dstate{start}
	push := func(next *[]*dstate, files map[string]string, s *dstate, name string) *dstate {
		n := &dstate{files: files, path: strings.TrimPrefix(s.path+" ; "+name, " ; "), depth: s.depth + 1}
		k := n.key()
		c.mu.Lock()
		defer c.mu.Unlock()
		c.Total.Transitions++
		if _, ok := seen[k]; ok {
			return nil
		}
		seen[k] = n
		*next = append(*next, n)
		return n
	}
	for d := 1; d <= depth; d++ {
		type job struct {
			s  *dstate
			op *gop
		}
		var jobs []job
		for _, s := range level {
			for _, op := range gops {
				jobs = append(jobs, job{s, op})
			}
		}
		var next []*dstate
		err := drv.Parallel(len(jobs), func(i int) error {
			s, op := jobs[i].s, jobs[i].op
			if c.Left().Seconds() < 60 {
				c.Total.Complete = false
				return nil
			}
			got, res, _, err := c.run(s.files, c.Gogll, nil, op.args...)
			if err != nil {
				return err
			}
			c.mu.Lock()
			c.Total.Evals++
			c.Total.Traces++
			c.mu.Unlock()
			if df := op.differ(op.want(s.files), got); df != "" {
				kind := "files"
				if strings.HasPrefix(df, astGo) {
					kind = "ast"
				}
				c.viol(s.path, op, kind, "%s", df)
			} else if res.RC != op.rc || res.Out != op.out {
				c.viol(s.path, op, "exit", "exit %d, output %.200q; in an empty directory %d, %.200q", res.RC, res.Out, op.rc, op.out)
			}
			delete(got, "!in")
			delete(got, "!cwd")
			if d < depth {
				push(&next, got, s, op.name)
			}
			return nil
		})
		if err != nil {
			return err
		}
		if d < depth {
			for _, s := range level {
				for _, u := range userOps(s.files, d < depth-1) {
					push(&next, u.files, s, u.path)
				}
			}
			sort.Slice(next, func(i, j int) bool { return next[i].path < next[j].path })
		}
		level = next
		all = append(all, next...)
		c.Logf("depth %d: %d runs, %d new states", d, len(jobs), len(next))
	}
	c.Total.States += len(seen)

	// Faults
	var fops []*gop
	for _, op := range gops {
		switch op.name {
		case "-knuth g1.md", "-pager -v g1.md", "-knuth -a g0.bnf", "-gll -v g1.md", "-pager g2.bnf", "-knuth -v -a g2.bnf", "-pager -a g1.md", "-gll g0.bnf":
			fops = append(fops, op)
		}
	}
	limit := 1
	if c.Thorough() {
		fops = gops
		limit = 2
	}
	type fjob struct {
		s     *dstate
		op    *gop
		fault string
	}
	var fj []fjob
	var base []*dstate
	for _, s := range all {
		if s.depth <= limit || s.depth == limit+1 && strings.HasSuffix(s.path, "edit ast") {
			base = append(base, s)
		}
	}
	err := drv.Parallel(len(base), func(i int) error {
		for _, op := range fops {
			if c.Left().Seconds() < 60 {
				c.Total.Complete = false
				return nil
			}
			s := base[i]
			got, res, mark, err := c.run(s.files, c.faulty, []string{"MC_FAULT=n"}, op.args...)
			if err != nil {
				return err
			}
			if df := op.differ(op.want(s.files), got); df != "" || res.RC != op.rc {
				c.viol(s.path, op, "files", "%s (exit %d)", df, res.RC)
			}
			if len(mark) < len(op.fresh) {
				return fmt.Errorf("the fault injector sees %d operations that write %d files", len(mark), len(op.fresh))
			}
			c.mu.Lock()
			for k, o := range mark {
				kinds := "ec"
				if o == 'w' {
					kinds = "epcq"
				}
				for _, q := range kinds {
					fj = append(fj, fjob{s, op, fmt.Sprintf("%c%d", q, k+1)})
				}
			}
			c.mu.Unlock()
		}
		return nil
	})
	if err != nil {
		return err
	}
	sort.Slice(fj, func(i, j int) bool {
		a, b := fj[i], fj[j]
		if a.s != b.s {
			return a.s.path < b.s.path
		}
		if a.op != b.op {
			return a.op.name < b.op.name
		}
		return a.fault < b.fault
	})
	c.Logf("%d faults in runs from %d states", len(fj), len(base))
	done := map[string]bool{}
	nrec := 0
	err = drv.Parallel(len(fj), func(i int) error {
		j := fj[i]
		if c.Left().Seconds() < 30 {
			c.Total.Complete = false
			return nil
		}
		got, res, mark, err := c.run(j.s.files, c.faulty, []string{"MC_FAULT=" + j.fault}, j.op.args...)
		if err != nil {
			return err
		}
		h := j.s.path
		fop := *j.op
		fop.name += " with fault " + j.fault + " (" + mark + ")"
		c.mu.Lock()
		c.Total.Evals++
		c.Total.Traces++
		c.Total.Transitions++
		c.Total.Outcomes["fault "+j.fault[:1]+" in "+mark]++
		c.mu.Unlock()
		if len(mark) != 1 {
			return fmt.Errorf("%s: the fault did not happen", fop.name)
		}
		if res.TimedOut {
			c.viol(h, &fop, "hang", "no end within the hang limit")
			return nil
		}
		if kind, msg := j.op.torn(j.s.files, got); kind != "" {
			c.viol(h, &fop, kind, "%s", msg)
			return nil
		}
		if res.RC == 0 && (j.fault[0] == 'e' || j.fault[0] == 'p') {
			// harmless only if everything is there
			for p, t := range j.op.want(j.s.files) {
				if got[p] != t && !(oldReports[p] && j.op.fresh[p] == "") {
					c.viol(h, &fop, "unnoticed", "exit 0, but %s was not written", p)
					return nil
				}
			}
		}
		// The next run repairs everything
		k := (&dstate{files: got}).key() + j.op.name
		c.mu.Lock()
		old := done[k]
		done[k] = true
		if !old {
			nrec++
		}
		c.mu.Unlock()
		if old {
			return nil
		}
		kept := map[string]string{} // but for temporary files
		for p, t := range got {
			_, had := j.s.files[p]
			if _, isNew := j.op.fresh[p]; had || isNew {
				kept[p] = t
			}
		}
		again, res, _, err := c.run(got, c.Gogll, nil, j.op.args...)
		if err != nil {
			return err
		}
		fop.name += " and again without"
		for p := range got {
			if _, ok := kept[p]; !ok {
				delete(again, p)
			}
		}
		if df := j.op.differ(j.op.want(kept), again); df != "" || res.RC != j.op.rc {
			c.viol(h, &fop, "recovery", "%s (exit %d)", df, res.RC)
			return nil
		}
		for p, t := range j.op.want(j.s.files) {
			if strings.HasSuffix(p, ".go") && again[p] != t {
				c.viol(h, &fop, "recovery", "%s differs from what a run without fault leaves", p)
				return nil
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	c.Total.States += nrec
	c.Total.Evals += nrec
	for i := 0; i < len(all) && len(c.Total.Samples) < 8; i += 1 + len(all)/8 {
		c.Total.Samples = append(c.Total.Samples, all[i].path)
	}
	c.Assume = []string{"Go toolchain", "a crash ends the process, not the operating system: data once written is kept"}
	return nil
}

// userOps are what a user may do to the directory.
func userOps(s map[string]string, deletes bool) (next []*dstate) {
	with := func(name string, f func(m map[string]string)) {
		m := map[string]string{}
		for p, t := range s {
			m[p] = t
		}
		f(m)
		next = append(next, &dstate{files: m, path: name})
	}
	if _, ok := s[astGo]; ok {
		with("edit ast", func(m map[string]string) { m[astGo] = strings.Replace(m[astGo], "\n\n", "\n// my edit\n\n", 1) })
		with("empty ast", func(m map[string]string) { m[astGo] = "" })
	}
	with("own ast", func(m map[string]string) { m[astGo] = "package ast\n\n// mine\n" })
	with("own files", func(m map[string]string) {
		for _, p := range []string{"ast/extra.go", "parser/extra.go", "lexer/x.txt", "README.md", "parser/ast/ast.go", "ast/ast.go.bak", "notes.txt", "LR1_notes.txt", "CFG_old.txt", "first_draft.txt", "basic.txt"} {
			m[p] = "mine: " + p
		}
	})
	if len(s) == 0 {
		return
	}
	gen := func(p string) bool { return p != astGo && !strings.HasPrefix(s[p], "mine") }
	with("longer files", func(m map[string]string) {
		for p := range s {
			if gen(p) {
				m[p] += strings.Repeat("// longer than before\n", 1+len(m[p])/20)
			}
		}
	})
	with("altered files", func(m map[string]string) {
		for p := range s {
			if gen(p) {
				m[p] = strings.NewReplacer("a", "b", "S", "T", "0", "1").Replace(m[p])
			}
		}
	})
	with("cut files", func(m map[string]string) {
		for p := range s {
			if gen(p) {
				m[p] = m[p][:len(m[p])/2]
			}
		}
	})
	if deletes {
		for _, p := range keys(s) {
			p := p
			with("rm "+p, func(m map[string]string) { delete(m, p) })
		}
	}
	return
}
