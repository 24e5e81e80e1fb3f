package rt

import (
	"fmt"
	"runtime"
	"strings"

	"verifmc/sched"
)

// What an IsoFunc does: everything, or only the parse, or everything after a
// parse of the same tokens, or everything with a parse of the same tokens
// before the results are read.
const (
	IsoFull = iota
	IsoParse
	IsoTwice
	IsoAgain
)

// IsoFunc scans and parses and gives all results as a text.
type IsoFunc func(in []rune, mode int) string

// Canon writes a result such that equal forests have equal texts.
func (r *GLLResult) Canon() string { return r.canon() }

// IsoMain is the body of a shard that runs parsers next to each other.
func IsoMain(units map[string]IsoFunc) {
	runtime.GOMAXPROCS(1) // goroutines run in turn
	e, done := Start()
	for _, c := range e.Cases {
		if e.Expired() {
			break
		}
		f, ok := units[c.Unit]
		if !ok {
			panic("no unit " + c.Unit)
		}
		e.Out.Cases++
		if Orders == nil {
			isoCase(e, c, f)
			continue
		}
		for _, t := range c.Lex.Inputs {
			Mark(c, t)
			exploreOrders(e.Out, c, t, e.Thorough, func() string { return f([]rune(t), IsoFull) })
			e.Out.Outcome("LR(1)")
		}
	}
	done()
}

func isoDiff(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; i < len(g) || i < len(w); i++ {
		x, y := "nothing", "nothing"
		if i < len(g) {
			x = g[i]
		}
		if i < len(w) {
			y = w[i]
		}
		if x != y {
			return fmt.Sprintf("%.300s\nnot %.300s", x, y)
		}
	}
	return ""
}

func isoCase(e *Env, c *Case, run IsoFunc) {
	o := e.Out
	o.Samples = append(o.Samples, fmt.Sprintf("%s : sequences and interleavings of parses of %q", c.Title, c.Lex.Inputs))
	ts := c.Lex.Inputs
	base := map[[2]int]string{}
	for i, t := range ts {
		Mark(c, t)
		for m := IsoFull; m <= IsoAgain; m++ {
			r := run([]rune(t), m)
			o.Evals++
			k := m
			if m > IsoParse {
				k = IsoFull
			}
			if want, ok := base[[2]int{k, i}]; !ok {
				base[[2]int{k, i}] = r
			} else if r != want {
				what := "a second parse of the same tokens"
				if m == IsoAgain {
					what = "the results after another parse of the same tokens"
				}
				o.Fail(c, t, "reuse", "%s: %s", what, isoDiff(r, want))
				return
			}
		}
	}
	if len(base) == 0 {
		return
	}
	// sequences
	n := len(ts)
	for k := 0; k < n*n*n; k++ {
		for p, i := range []int{k / (n * n), k / n % n, k % n} {
			r := run([]rune(ts[i]), IsoFull)
			o.Evals++
			if want := base[[2]int{IsoFull, i}]; r != want {
				o.Fail(c, ts[i], "sequence", "parse %d of the inputs %q, %q, %q: %s", p+1, ts[k/(n*n)], ts[k/n%n], ts[k%n], isoDiff(r, want))
				return
			}
		}
		o.States++
	}
	// interleavings
	pair := func(i, j, mode int, plan ...sched.Point) bool {
		Mark(c, ts[i]+" | "+ts[j])
		var res [2]string
		sched.Run(plan[0].Who, plan, [2]func(){
			func() { res[0] = run([]rune(ts[i]), mode) },
			func() { res[1] = run([]rune(ts[j]), mode) },
		})
		o.Evals++
		o.Transitions += len(plan)
		for k, x := range []int{i, j} {
			if want := base[[2]int{mode, x}]; res[k] != want {
				o.Fail(c, ts[x], "interleaving", "next to a parse of %q, preempted at %v: %s", ts[[]int{j, i}[k]], plan, isoDiff(res[k], want))
				return false
			}
		}
		return true
	}
	none := sched.Point{At: -1}
	most, cap2 := 2, 12000
	if e.Thorough {
		most, cap2 = 1<<30, 40000
	}
	for i := range ts {
		for j := range ts {
			if e.Expired() {
				return
			}
			if !pair(i, j, IsoFull, none) {
				return
			}
			for s, n := range sched.SiteCounts(0) {
				for k := 1; k <= int(n); k++ {
					if k > most && k < int(n) {
						continue
					}
					if !pair(i, j, IsoFull, sched.Point{Level: 2, Site: s, At: k}) {
						return
					}
				}
			}
			o.Outcome("pair, one preemption anywhere")
			if !pair(i, j, IsoParse, none) {
				return
			}
			if !e.Thorough && (i > 0 || j > 0 && j < len(ts)-1) {
				continue
			}
			ps := [2][]sched.Point{}
			for who := range ps {
				for s, l := range sched.Levels() {
					for k := 1; l > 0 && k <= int(sched.SiteCounts(who)[s]) && k <= most; k++ {
						ps[who] = append(ps[who], sched.Point{Who: who, Level: 2, Site: s, At: k})
					}
				}
			}
			if len(ps[0])*len(ps[1]) > cap2 {
				o.Outcome("pair, too long for two preemptions")
				continue
			}
			for _, p := range ps[0] {
				for _, q := range ps[1] {
					if !pair(i, j, IsoParse, p, q) {
						return
					}
				}
			}
			o.Outcome("pair, two preemptions")
		}
	}
	if s := sched.Stalls(); s > 0 {
		o.Outcomes["runs with synchronisation"] += s
	}
}
