// Package drv builds gogll from /repo, runs it on grammars, compiles what it
// generates together with adapters and runs the resulting shard programs.
package drv

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"verifmc/gram"
	"verifmc/rt"
)

// W is a scratch workspace.
type W struct {
	Repo   string
	Verif  string
	Dir    string // scratch
	Gogll  string
	Mod    string // scratch module directory (module "mc")
	Tier   string
	Seed   int
	Start  time.Time
	Budget time.Duration // whole-check budget
	Race   bool          // build shards with the race detector
	mu     sync.Mutex
}

func (w *W) Left() time.Duration { return w.Budget - time.Since(w.Start) }
func (w *W) Thorough() bool      { return w.Tier == "thorough" }

// Env is the environment for go commands.
func (w *W) Env() []string {
	env := os.Environ()
	set := map[string]string{
		"GOPROXY": "off", "GOSUMDB": "off", "GOTOOLCHAIN": "local", "GOWORK": "off", "CGO_ENABLED": "0",
		"GOFLAGS": "-mod=mod -trimpath -buildvcs=false", "GO111MODULE": "on",
		"GOCACHE": filepath.Join(w.Dir, "gocache"),
	}
	var out []string
	for _, e := range env {
		k := strings.SplitN(e, "=", 2)[0]
		if _, ok := set[k]; !ok {
			out = append(out, e)
		}
	}
	for k, v := range set {
		out = append(out, k+"="+v)
	}
	return out
}

// NewW prepares the workspace: scratch directory, a copy-on-write view of the
// build cache, the gogll binary built from the current tree.
func NewW(repo, verif, dir, tier string, seed int, budget time.Duration) (*W, error) {
	w := &W{Repo: repo, Verif: verif, Dir: dir, Tier: tier, Seed: seed, Start: time.Now(), Budget: budget}
	w.Mod = filepath.Join(dir, "mod")
	if err := os.MkdirAll(w.Mod, 0o755); err != nil {
		return nil, err
	}
	if err := os.MkdirAll(filepath.Join(dir, "gocache"), 0o755); err != nil {
		return nil, err
	}
	// seed the private cache with hard links to the existing one
	if src := realCache(); src != "" {
		cmd := exec.Command("cp", "-al", src+"/.", filepath.Join(dir, "gocache"))
		if err := cmd.Run(); err != nil {
			exec.Command("cp", "-a", src+"/.", filepath.Join(dir, "gocache")).Run()
		}
	}
	gosum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return nil, err
	}
	req, err := goutilVersion(repo)
	if err != nil {
		return nil, err
	}
	mod := fmt.Sprintf("module mc\n\ngo 1.21\n\nrequire github.com/goccmack/goutil %s\n\nrequire verifmc v0.0.0\n\nrequire %s v3.0.0\n\nreplace verifmc => %s\n\nreplace %s => %s\n", req, RootPkg, filepath.Join(verif, "mc"), RootPkg, repo)
	if err := os.WriteFile(filepath.Join(w.Mod, "go.mod"), []byte(mod), 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(w.Mod, "go.sum"), gosum, 0o644); err != nil {
		return nil, err
	}
	w.Gogll = filepath.Join(dir, "gogll")
	if err := w.BuildGogll(w.Gogll); err != nil {
		return nil, err
	}
	return w, nil
}

func realCache() string {
	if c := os.Getenv("MC_GOCACHE"); c != "" {
		return c
	}
	out, err := exec.Command("go", "env", "GOCACHE").Output()
	if err != nil {
		return ""
	}
	s := strings.TrimSpace(string(out))
	if _, err := os.Stat(s); err != nil {
		return ""
	}
	return s
}

func goutilVersion(repo string) (string, error) {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(strings.TrimPrefix(strings.TrimSpace(l), "require "))
		if len(f) >= 2 && f[0] == "github.com/goccmack/goutil" {
			return f[1], nil
		}
	}
	return "", fmt.Errorf("goutil not found in go.mod")
}

// BuildGogll builds the gogll command from the repository's working tree.
func (w *W) BuildGogll(out string, extra ...string) error {
	args := append([]string{"build", "-mod=readonly", "-o", out}, extra...)
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = w.Repo
	cmd.Env = w.Env()
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("building gogll: %v\n%s", err, b)
	}
	return nil
}

// Res is the outcome of one run of a command.
type Res struct {
	RC       int // -1 when killed on timeout, -2 on a signal
	Out      string
	TimedOut bool
}

// Run runs a command with a generous limit.
func Run(dir string, env []string, limit time.Duration, name string, args ...string) Res {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	if env != nil {
		cmd.Env = env
	}
	var buf limited
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	cmd.WaitDelay = 5 * time.Second
	err := cmd.Run()
	r := Res{Out: buf.b.String()}
	if ctx.Err() != nil {
		r.TimedOut = true
		r.RC = -1
		return r
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			r.RC = ee.ExitCode()
			if r.RC < 0 {
				r.RC = -2
			}
		} else {
			r.RC = -3
			r.Out += err.Error()
		}
	}
	return r
}

type limited struct{ b bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

// GenLimit is how long one gogll run may take before it counts as a hang.
const GenLimit = 100 * time.Second

// RunGogll runs gogll under a memory limit.
func (w *W) RunGogll(dir string, args ...string) Res {
	// ulimit -v keeps a runaway generator from eating the machine
	a := append([]string{"-c", `ulimit -v 6000000; exec "$@"`, "sh", w.Gogll}, args...)
	return Run(dir, nil, GenLimit, "sh", a...)
}

// RootPkg is the import path of gogll.
const RootPkg = "github.com/goccmack/gogll/v3"

// Unit is one generated parser.
type Unit struct {
	ID      string
	Source  string // text of the gogll file without package clause
	File    string // file name, default g.bnf
	Flags   []string
	Adapter string // kind of adapter
	Gs      []*gram.G
	Pre     func(dir string) error // run before gogll
	Post    func(dir string) error // run after gogll, before the adapter
	Gen     Res
	BuildOK bool
	Skip    bool
	Root    bool // no generation: the packages of gogll itself
}

func (w *W) UDir(u *Unit) string { return filepath.Join(w.Mod, u.ID) }

// Generate runs gogll for every unit in parallel; units with a non-zero exit
// are left with Gen.RC != 0.
func (w *W) Generate(us []*Unit) error {
	return Parallel(len(us), func(i int) error {
		u := us[i]
		dir := w.UDir(u)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return err
		}
		if u.Root {
			ad := filepath.Join(dir, "ad")
			if err := os.MkdirAll(ad, 0o755); err != nil {
				return err
			}
			return os.WriteFile(filepath.Join(ad, "ad.go"), []byte(strings.ReplaceAll(adapters[u.Adapter], "@PKG@", RootPkg)), 0o644)
		}
		fn := u.File
		if fn == "" {
			fn = "g.bnf"
		}
		src := u.Source
		if !strings.Contains(src, "package ") {
			src = "package \"mc/" + u.ID + "\"\n\n" + src
		} else {
			src = strings.ReplaceAll(src, "@PKG@", "mc/"+u.ID)
		}
		if err := os.WriteFile(filepath.Join(dir, fn), []byte(src), 0o644); err != nil {
			return err
		}
		if u.Pre != nil {
			if err := u.Pre(dir); err != nil {
				return err
			}
		}
		u.Gen = w.RunGogll(dir, append(append([]string{}, u.Flags...), "-o", ".", fn)...)
		if u.Gen.RC != 0 {
			return nil
		}
		if u.Post != nil {
			if err := u.Post(dir); err != nil {
				return err
			}
		}
		if u.Adapter != "" {
			ad := filepath.Join(dir, "ad")
			if err := os.MkdirAll(ad, 0o755); err != nil {
				return err
			}
			code := strings.ReplaceAll(adapters[u.Adapter], "@PKG@", "mc/"+u.ID)
			if err := os.WriteFile(filepath.Join(ad, "ad.go"), []byte(code), 0o644); err != nil {
				return err
			}
		}
		return nil
	})
}

// Parallel runs f(0..n-1) on all cores.
func Parallel(n int, f func(i int) error) error {
	k := runtime.NumCPU()
	var wg sync.WaitGroup
	ch := make(chan int)
	var mu sync.Mutex
	var first error
	for j := 0; j < k; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				if err := f(i); err != nil {
					mu.Lock()
					if first == nil {
						first = err
					}
					mu.Unlock()
				}
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	return first
}

// Shard is a program linking some units.
type Shard struct {
	Name  string
	Units []*Unit
	Cases []*rt.Case
	Main  string // main func name in package rt, e.g. GLLMain
	Type  string // rt.GLLFunc
	Args  []string
	Out   *rt.Out
	Crash *rt.V
}

// BuildErr is a unit whose generated code does not compile.
type BuildErr struct {
	Unit *Unit
	Msg  string
}

// Build compiles the shards. Units that do not compile are reported and
// removed from their shards.
func (w *W) Build(shards []*Shard) (bad []BuildErr, err error) {
	byID := map[string]*Unit{}
	env := w.Env()
	if w.Race {
		env = append(env, "CGO_ENABLED=1")
	}
	for round := 0; round < 50; round++ {
		args := []string{"build", "-o", filepath.Join(w.Dir, "bin") + "/"}
		if w.Race {
			args = append(args, "-race")
		}
		os.MkdirAll(filepath.Join(w.Dir, "bin"), 0o755)
		n := 0
		for _, s := range shards {
			var us []*Unit
			for _, u := range s.Units {
				byID[u.ID] = u
				if !u.Skip {
					us = append(us, u)
				}
			}
			s.Units = us
			if len(us) == 0 {
				continue
			}
			n++
			d := filepath.Join(w.Mod, "sh", s.Name)
			if err := os.MkdirAll(d, 0o755); err != nil {
				return bad, err
			}
			var b strings.Builder
			b.WriteString("package main\n\nimport (\n\t\"verifmc/rt\"\n")
			for _, u := range us {
				fmt.Fprintf(&b, "\t%s \"mc/%s/ad\"\n", u.ID, u.ID)
			}
			fmt.Fprintf(&b, ")\n\nfunc main() {\n\trt.%s(map[string]rt.%s{\n", s.Main, s.Type)
			for _, u := range us {
				fmt.Fprintf(&b, "\t\t%q: %s.Run,\n", u.ID, u.ID)
			}
			b.WriteString("\t})\n}\n")
			if err := os.WriteFile(filepath.Join(d, "main.go"), []byte(b.String()), 0o644); err != nil {
				return bad, err
			}
			args = append(args, "./sh/"+s.Name)
		}
		if n == 0 {
			return bad, nil
		}
		r := Run(w.Mod, env, 15*time.Minute, "go", args...)
		if r.RC == 0 {
			return bad, nil
		}
		// attribute compile errors to units
		found := map[string]string{}
		cur := ""
		for _, l := range strings.Split(r.Out, "\n") {
			if strings.HasPrefix(l, "# mc/") {
				cur = strings.Split(strings.TrimPrefix(l, "# mc/"), "/")[0]
				continue
			}
			id := ""
			if i := strings.Index(l, "/"); i > 0 {
				if _, ok := byID[strings.TrimPrefix(l[:i], "./")]; ok {
					id = strings.TrimPrefix(l[:i], "./")
				}
			}
			if id == "" && byID[cur] != nil && l != "" {
				id = cur
			}
			if id != "" && len(found[id]) < 600 {
				found[id] += l + "\n"
			}
		}
		if len(found) == 0 {
			return bad, fmt.Errorf("go build failed:\n%.3000s", r.Out)
		}
		for id, m := range found {
			byID[id].Skip = true
			bad = append(bad, BuildErr{byID[id], m})
		}
	}
	return bad, fmt.Errorf("too many compile errors")
}

// RunShards runs the shard programs in parallel.
func (w *W) RunShards(check string, shards []*Shard, seconds float64) error {
	return Parallel(len(shards), func(i int) error {
		s := shards[i]
		if len(s.Units) == 0 {
			s.Out = &rt.Out{Complete: true}
			return nil
		}
		live := map[string]bool{}
		for _, u := range s.Units {
			live[u.ID] = true
		}
		var cs []*rt.Case
		for _, c := range s.Cases {
			if live[c.Unit] {
				cs = append(cs, c)
			}
		}
		b, err := json.Marshal(cs)
		if err != nil {
			return err
		}
		base := filepath.Join(w.Dir, "run-"+s.Name)
		if err := os.WriteFile(base+".cases", b, 0o644); err != nil {
			return err
		}
		os.Remove(base + ".out")
		args := append([]string{"-cases", base + ".cases", "-out", base + ".out", "-check", check,
			"-progress", base + ".prog", "-seconds", fmt.Sprint(seconds), fmt.Sprintf("-thorough=%v", w.Thorough())}, s.Args...)
		var env []string
		if w.Race {
			args = append(args, "-race")
			env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		}
		r := Run(w.Dir, env, time.Duration(seconds+400)*time.Second, filepath.Join(w.Dir, "bin", s.Name), args...)
		ob, rerr := os.ReadFile(base + ".out")
		if r.RC == 0 && rerr == nil {
			s.Out = &rt.Out{}
			return json.Unmarshal(ob, s.Out)
		}
		id, input := rt.ReadMark(base + ".prog")
		for _, c := range cs {
			if c.ID == id {
				kind := "crash"
				msg := fmt.Sprintf("the program died (exit %d): %.1500s", r.RC, r.Out)
				switch {
				case r.RC == rt.ExitHang || r.TimedOut:
					kind, msg = "hang", "no result within the hang limit"
				case r.RC == 66 && strings.Contains(r.Out, "DATA RACE"):
					kind, msg = "race", fmt.Sprintf("%.2500s", r.Out)
				case r.RC == rt.ExitMem:
					kind, msg = "memory", "more than 3 GB of heap in use"
				}
				s.Crash = &rt.V{Case: id, Unit: c.Unit, Grammar: c.Name(), Input: input, Kind: kind, Msg: msg}
				s.Out = &rt.Out{Complete: false, Outcomes: map[string]int{}, NViol: 1, Violations: []rt.V{*s.Crash}}
				return nil
			}
		}
		return fmt.Errorf("shard %s failed (exit %d) before any case: %.2000s", s.Name, r.RC, r.Out)
	})
}

// SortV orders violations: shortest grammar and input first.
func SortV(vs []rt.V) {
	sort.SliceStable(vs, func(i, j int) bool {
		a, b := len(vs[i].Grammar)+len(vs[i].Input), len(vs[j].Grammar)+len(vs[j].Input)
		return a < b
	})
}
