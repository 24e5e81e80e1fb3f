package rt

import (
	"fmt"
	"math"
	"runtime"
	"strings"
	"verifmc/sched"
)

// Cost is the number of statements that were run.
type Cost struct {
	Lex, Parse, Amb, SPPF     int
	LexMem, ParseMem, SPPFMem int // bytes allocated
	Tokens                    int
	OK                        bool
}

var (
	countMem bool
	costMax  int // statements
)

// Measure returns the number of statements that f runs and, if wanted, the
// number of bytes that it allocates.
func Measure(f func()) (steps, mem int) {
	if !countMem {
		return sched.Measure(costMax, f), 0
	}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	steps = sched.Measure(costMax, f)
	runtime.ReadMemStats(&b)
	return steps, int(b.TotalAlloc - a.TotalAlloc)
}

// CostFunc scans and parses.
type CostFunc func(in []rune) Cost

// CostMain is the body of a shard that measures how costs grow with the input.
func CostMain(units map[string]CostFunc) {
	runtime.GOMAXPROCS(1)
	hangLimit = 60
	e, done := Start()
	for _, c := range e.Cases {
		if e.Expired() || costEnough(e) {
			break
		}
		e.Out.Cases++
		costCase(e, c, units[c.Unit])
	}
	done()
}

// costEnough ends a shard that has found enough; it may be very slow.
func costEnough(e *Env) bool {
	if e.Out.NViol < 10 {
		return false
	}
	e.Out.Complete = false
	return true
}

const (
	costLinear = 1.2
	costCubic  = 3.4
	costDeep   = 3.1     // for longer inputs
	costSmall  = 1 << 16 // bytes
	costLimit  = 1e8     // statements
	costFloor  = 20000000
)

// pump is the texts y u^k v^k z, as sequences of symbols 0..n-1.
func pump(n, lu, lv, ly, lz int, f func(y, u, v, z []int)) {
	words := func(max int) (ws [][]int) {
		ws = [][]int{nil}
		for from := 0; max > 0; max-- {
			to := len(ws)
			for _, w := range ws[from:to] {
				for s := 0; s < n; s++ {
					ws = append(ws, append(w[:len(w):len(w)], s))
				}
			}
			from = to
		}
		return
	}
	us, vs, ys, zs := words(lu), words(lv), words(ly), words(lz)
	for _, u := range us[1:] {
		for _, v := range vs {
			for _, y := range ys {
				for _, z := range zs {
					f(y, u, v, z)
				}
			}
		}
	}
}

func costCase(e *Env, c *Case, run CostFunc) {
	n, lz, ly := 0, 1, 1
	if c.Lex != nil {
		n = len([]rune(c.Lex.Alphabet))
		if n > 4 {
			ly, lz = 0, 0
		}
	} else {
		n = len(c.Alone.Ts)
	}
	lu, lv := 2, 2
	if n > 2 {
		lv = 1
	}
	if n > 4 {
		lu, lv = 1, 1
	}
	if c.Extra["linear"] == "" && !e.Thorough {
		lv, ly = lv-1, 0
	}
	bad := e.Out.NViol
	costWords(e, c, run, 8, n, lu, lv, ly, lz)
	if e.Out.NViol > bad {
		return
	}
	deep := 512
	if c.Lex != nil {
		deep = 2048
	}
	switch c.Extra["deep"] {
	case "linear":
		costWords(e, c, run, deep, n, lu, lv-1, 0, 0)
	case "cubic":
		costWords(e, c, run, 32, n, 1, 0, 0, 0)
	}
}

// costWords measures the texts y u^k v^k z with about base, 2*base, .. symbols.
func costWords(e *Env, c *Case, run CostFunc, base, n, lu, lv, ly, lz int) {
	o := e.Out
	countMem = base > 8
	var syms []rune
	if c.Lex != nil {
		syms = []rune(c.Lex.Alphabet)
	}
	pump(n, lu, lv, ly, lz, func(y, u, v, z []int) {
		if e.Expired() || costEnough(e) {
			return
		}
		var f [5]Cost
		var size [5]int
		var text string
		failed := false
		one := func(k int) {
			var w []int
			w = append(w, y...)
			rep := (base << k) / (len(u) + len(v))
			for i := 0; i < rep; i++ {
				w = append(w, u...)
			}
			for i := 0; i < rep; i++ {
				w = append(w, v...)
			}
			w = append(w, z...)
			if c.Lex != nil {
				var b strings.Builder
				b.WriteString(c.Lex.Prefix)
				for _, s := range w {
					b.WriteRune(syms[s])
				}
				text = b.String()
			} else {
				m := w
				if c.Sel >= 0 {
					m = append([]int{c.Sel}, w...)
				}
				text = Text(c.G, m)
			}
			size[k] = len(w)
			Mark(c, text)
			if costMax = 300 * len(w) * len(w) * len(w); costMax < costFloor {
				costMax = costFloor
			}
			if p := Try(func() { f[k] = run([]rune(text)) }); p == "panic: "+sched.TooMany {
				o.Fail(c, text, "cost", "more than %d statements for %d symbols", costMax, len(w))
				failed = true
			} else if p != "" {
				o.Fail(c, text, "panic", "%s", p)
				failed = true
			}
			o.Evals++
			o.States++
			o.Transitions += f[k].Lex + f[k].Parse + f[k].Amb + f[k].SPPF
		}
		for k := 0; k < 3; k++ {
			if one(k); failed {
				return
			}
		}
		check := func(what string, v func(Cost) int, max float64) {
			if v(f[1]) == 0 || v(f[2]) == 0 {
				return
			}
			k, x := 2, 0.0
			for ; ; k++ {
				a, b := float64(v(f[k-1])), float64(v(f[k]))
				x = math.Log(b/a) / math.Log(float64(size[k])/float64(size[k-1]))
				if x <= max || k+1 == len(f) || b*b/a > costLimit {
					break
				}
				// lower order terms may hide the exponent
				if size[k+1] == 0 {
					if one(k + 1); failed {
						return
					}
				}
			}
			cls := "constant"
			switch {
			case x > 2.3:
				cls = "cubic"
			case x > 1.2:
				cls = "quadratic"
			case x > 0.3:
				cls = "linear"
			}
			o.Outcome(what + " " + cls)
			if x > max {
				o.Fail(c, text, "cost", "%s runs %d and %d statements for %d and %d symbols: the exponent is %.2f, not at most %.1f", what, v(f[k-1]), v(f[k]), size[k-1], size[k], x, max)
			}
		}
		check("lexer", func(c Cost) int { return c.Lex }, costLinear)
		max := costCubic
		if base > 8 {
			max = costDeep
		}
		if c.Extra["linear"] != "" {
			max = costLinear
		}
		check("parser", func(c Cost) int { return c.Parse }, max)
		check("IsAmbiguous", func(c Cost) int { return c.Amb }, max)
		check("ToSPPF", func(c Cost) int { return c.SPPF }, max)
		space := func(what string, v func(Cost) int, max float64) {
			a, b := v(f[0]), v(f[2])
			if a == 0 || b < costSmall {
				return
			}
			x := math.Log(float64(b)/float64(a)) / math.Log(float64(size[2])/float64(size[0]))
			if o.Outcome(what + " space"); x > max+0.3 {
				o.Fail(c, text, "space", "%s allocates %d and %d bytes for %d and %d symbols: the exponent is %.2f, not at most %.1f", what, a, b, size[0], size[2], x, max+0.3)
			}
		}
		space("lexer", func(c Cost) int { return c.LexMem }, costLinear)
		space("parser", func(c Cost) int { return c.ParseMem }, max)
		space("ToSPPF", func(c Cost) int { return c.SPPFMem }, max)
		if len(o.Samples) < 12 && f[2].OK {
			o.Samples = append(o.Samples, fmt.Sprintf("%s: %+v", c.Name(), f[:3]))
		}
	})
}
