// Package gram represents small context-free grammars, enumerates them
// exhaustively within a bound and prints them as gogll input.
package gram

import (
	"fmt"
	"sort"
	"strings"
)

// G is a context-free grammar. NTs[0] is the start symbol. In a body a symbol
// s>=0 is terminal Ts[s]; s<0 is nonterminal NTs[-s-1].
type G struct {
	Name string
	NTs  []string
	Ts   []string // terminal literal texts
	Alts [][][]int
	// TokID[t] is true when the terminal is a tokid with a lex rule `Ts[t] : 'x' ;`
	Decl []string // optional extra lexical rules
	TokS []string // optional: how terminal t is written in the gogll source (default: quoted literal)
	Text []string // optional: input text of terminal t (default Ts[t])
}

func NT(i int) int    { return -i - 1 }
func IsNT(s int) bool { return s < 0 }
func Idx(s int) int   { return -s - 1 }

func (g *G) SymSrc(s int) string {
	if s < 0 {
		return g.NTs[-s-1]
	}
	if g.TokS != nil {
		return g.TokS[s]
	}
	return Quote(g.Ts[s])
}

func Quote(t string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(t) + `"`
}

func (g *G) TText(t int) string {
	if g.Text != nil {
		return g.Text[t]
	}
	return g.Ts[t]
}

func (g *G) RuleSrc(nt int) string {
	var w strings.Builder
	fmt.Fprintf(&w, "%s : ", g.NTs[nt])
	for k, alt := range g.Alts[nt] {
		if k > 0 {
			w.WriteString(" | ")
		}
		if len(alt) == 0 {
			w.WriteString("empty")
		}
		for i, s := range alt {
			if i > 0 {
				w.WriteString(" ")
			}
			w.WriteString(g.SymSrc(s))
		}
	}
	w.WriteString(" ;")
	return w.String()
}

func (g *G) Rules() string {
	var w strings.Builder
	for i := range g.NTs {
		w.WriteString(g.RuleSrc(i))
		w.WriteString("\n")
	}
	for _, d := range g.Decl {
		w.WriteString(d + "\n")
	}
	return w.String()
}

// Key is a one-line canonical text of the grammar.
func (g *G) Key() string {
	return strings.TrimSpace(strings.ReplaceAll(g.Rules(), "\n", " "))
}

func (g *G) Source(pkg string) string {
	return "package \"" + pkg + "\"\n\n" + g.Rules()
}

func (g *G) Clone() *G {
	c := *g
	c.NTs = append([]string{}, g.NTs...)
	c.Ts = append([]string{}, g.Ts...)
	c.Alts = make([][][]int, len(g.Alts))
	for i, as := range g.Alts {
		c.Alts[i] = make([][]int, len(as))
		for j, a := range as {
			c.Alts[i][j] = append([]int{}, a...)
		}
	}
	return &c
}

// Prefixed returns g with all nonterminal names prefixed.
func (g *G) Prefixed(p string) *G {
	c := g.Clone()
	for i := range c.NTs {
		c.NTs[i] = p + c.NTs[i]
	}
	return c
}

// Productive reports for each nonterminal whether it derives some string.
func (g *G) Productive() []bool {
	p := make([]bool, len(g.NTs))
	for ch := true; ch; {
		ch = false
		for n := range g.NTs {
			if p[n] {
				continue
			}
			for _, a := range g.Alts[n] {
				ok := true
				for _, s := range a {
					if s < 0 && !p[-s-1] {
						ok = false
						break
					}
				}
				if ok {
					p[n] = true
					ch = true
					break
				}
			}
		}
	}
	return p
}

func (g *G) AllProductive() bool {
	for _, b := range g.Productive() {
		if !b {
			return false
		}
	}
	return true
}

// Nullable reports for each nonterminal whether it derives the empty string.
func (g *G) Nullable() []bool {
	p := make([]bool, len(g.NTs))
	for ch := true; ch; {
		ch = false
		for n := range g.NTs {
			if p[n] {
				continue
			}
		alt:
			for _, a := range g.Alts[n] {
				for _, s := range a {
					if s >= 0 || !p[-s-1] {
						continue alt
					}
				}
				p[n] = true
				ch = true
				break
			}
		}
	}
	return p
}

// Cyclic reports whether some nonterminal derives itself in >=1 steps
// (infinitely ambiguous grammar).
func (g *G) Cyclic() bool {
	n := len(g.NTs)
	nu := g.Nullable()
	r := make([][]bool, n)
	for i := range r {
		r[i] = make([]bool, n)
		for _, a := range g.Alts[i] {
			for p, s := range a {
				if s >= 0 {
					continue
				}
				ok := true
				for q, t := range a {
					if q != p && (t >= 0 || !nu[-t-1]) {
						ok = false
					}
				}
				if ok {
					r[i][-s-1] = true
				}
			}
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if r[i][k] && r[k][j] {
					r[i][j] = true
				}
			}
		}
	}
	for i := range r {
		if r[i][i] {
			return true
		}
	}
	return false
}

// Parse reads a compact grammar notation: rules separated by ';', alternatives
// by '|', symbols by blanks, upper-case initial = nonterminal, "empty" or
// nothing = epsilon. Other symbols are terminals.
func Parse(src string) *G {
	g := &G{}
	nt := map[string]int{}
	type rule struct {
		h string
		b string
	}
	var rules []rule
	for _, r := range strings.Split(src, ";") {
		if strings.TrimSpace(r) == "" {
			continue
		}
		i := strings.Index(r, ":")
		h := strings.TrimSpace(r[:i])
		nt[h] = len(g.NTs)
		g.NTs = append(g.NTs, h)
		rules = append(rules, rule{h, r[i+1:]})
	}
	ts := map[string]int{}
	for _, r := range rules {
		var alts [][]int
		for _, a := range strings.Split(r.b, "|") {
			body := []int{}
			for _, s := range strings.Fields(a) {
				if s == "empty" {
					continue
				}
				if n, ok := nt[s]; ok {
					body = append(body, NT(n))
					continue
				}
				if s[0] >= 'A' && s[0] <= 'Z' {
					panic("undefined nonterminal " + s + " in " + src)
				}
				if len(s) > 2 && s[0] == '"' {
					s = s[1 : len(s)-1]
				}
				t, ok := ts[s]
				if !ok {
					t = len(g.Ts)
					ts[s] = t
					g.Ts = append(g.Ts, s)
				}
				body = append(body, t)
			}
			alts = append(alts, body)
		}
		g.Alts = append(g.Alts, alts)
	}
	return g
}

// Bound of an exhaustive enumeration.
type Bound struct {
	NTs, Ts  int // at most
	MaxAlts  int
	MaxBody  int
	Size     int // sum over alternates of max(1,len(body)) is at most Size
	MinSize  int
	Ordered  bool // enumerate every order of alternates; otherwise one order per set
	NeedProd bool // all nonterminals productive
	// Filter, when set, drops grammars.
	Filter func(*G) bool
}

var tnames = []string{"a", "b", "c", "d"}
var ntnames = []string{"S", "A", "B", "C"}

// Enumerate calls f for every grammar within b, up to renaming of terminals
// and nonterminals (names are assigned in order of first occurrence).
// All nonterminals are reachable.
func Enumerate(b Bound, f func(*G)) (n int) {
	var alts [][][]int // complete rules
	var emit func(maxNT, maxT, size int)
	var rule func(nt int, cur [][]int, maxNT, maxT, size int)
	var body func(nt int, cur [][]int, bd []int, maxNT, maxT, size int)
	emit = func(maxNT, maxT, size int) {
		if size < b.MinSize || maxT == 0 {
			return
		}
		g := &G{NTs: append([]string{}, ntnames[:maxNT]...), Ts: append([]string{}, tnames[:maxT]...)}
		for _, as := range alts {
			var c [][]int
			for _, a := range as {
				c = append(c, append([]int{}, a...))
			}
			g.Alts = append(g.Alts, c)
		}
		if b.NeedProd && !g.AllProductive() {
			return
		}
		if b.Filter != nil && !b.Filter(g) {
			return
		}
		n++
		f(g)
	}
	rule = func(nt int, cur [][]int, maxNT, maxT, size int) {
		// finish the rule
		if len(cur) > 0 {
			alts = append(alts, cur)
			if nt+1 == maxNT {
				emit(maxNT, maxT, size)
			} else {
				rule(nt+1, nil, maxNT, maxT, size)
			}
			alts = alts[:len(alts)-1]
		}
		if len(cur) < b.MaxAlts && size < b.Size {
			body(nt, cur, nil, maxNT, maxT, size)
		}
	}
	body = func(nt int, cur [][]int, bd []int, maxNT, maxT, size int) {
		// finish the body
		sz := size + len(bd)
		if len(bd) == 0 {
			sz = size + 1
		}
		if sz <= b.Size {
			dup := false
			for _, c := range cur {
				if eq(c, bd) {
					dup = true
				}
			}
			if !dup && !b.Ordered && len(cur) > 0 && !less(cur[len(cur)-1], bd) {
				dup = true
			}
			if !dup {
				nc := append(append([][]int{}, cur...), append([]int{}, bd...))
				rule(nt, nc, maxNT, maxT, sz)
			}
		}
		if len(bd) >= b.MaxBody || size+len(bd)+1 > b.Size {
			return
		}
		for t := 0; t <= maxT && t < b.Ts; t++ {
			m := maxT
			if t == maxT {
				m++
			}
			body(nt, cur, append(append([]int{}, bd...), t), maxNT, m, size)
		}
		for a := 0; a <= maxNT && a < b.NTs; a++ {
			m := maxNT
			if a == maxNT {
				m++
			}
			body(nt, cur, append(append([]int{}, bd...), NT(a)), m, maxT, size)
		}
	}
	rule(0, nil, 1, 0, 0)
	return n
}

func eq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// less orders bodies: longer first, then lexicographically with terminals
// before nonterminals and lower indices first. Because names are assigned in
// order of first occurrence, every set of alternates has an order that is
// sorted by less (pick greedily the least remaining alternate), so no set is
// lost when only sorted orders are kept.
func less(a, b []int) bool {
	if len(a) != len(b) {
		return len(a) > len(b)
	}
	k := func(s int) int {
		if s < 0 {
			return 1000 - s
		}
		return s
	}
	for i := range a {
		if a[i] != b[i] {
			return k(a[i]) < k(b[i])
		}
	}
	return false
}

// Dedup removes grammars with the same Key, keeping order.
func Dedup(gs []*G) (out []*G) {
	seen := map[string]bool{}
	for _, g := range gs {
		k := g.Key()
		if !seen[k] {
			seen[k] = true
			out = append(out, g)
		}
	}
	return
}

// SortedKeys for reporting.
func SortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// LL returns the least k <= max for which g is strong LL(k), or 0.
func (g *G) LL(max int) int {
	for k := 1; k <= max; k++ {
		if g.strongLL(k) {
			return k
		}
	}
	return 0
}

// strongLL decides with sets of strings of up to k terminals: the alternates
// of a nonterminal must differ in FIRSTk(body FOLLOWk).
func (g *G) strongLL(k int) bool {
	type set map[string]bool // one byte per terminal, 255 for the end of the input
	cat := func(a, b set) set {
		r := set{}
		for x := range a {
			for y := range b {
				s := x + y
				if len(s) > k {
					s = s[:k]
				}
				r[s] = true
			}
		}
		return r
	}
	grow := func(a, b set) bool {
		n := len(a)
		for x := range b {
			a[x] = true
		}
		return len(a) > n
	}
	first, follow := make([]set, len(g.NTs)), make([]set, len(g.NTs))
	for i := range first {
		first[i], follow[i] = set{}, set{}
	}
	fst := func(body []int) set {
		r := set{"": true}
		for _, s := range body {
			if s < 0 {
				r = cat(r, first[Idx(s)])
			} else {
				r = cat(r, set{string([]byte{byte(s)}): true})
			}
		}
		return r
	}
	for ch := true; ch; {
		ch = false
		for n := range g.NTs {
			for _, a := range g.Alts[n] {
				ch = grow(first[n], fst(a)) || ch
			}
		}
	}
	end := ""
	for len(end) < k {
		end += "\xff"
	}
	follow[0][end] = true
	for ch := true; ch; {
		ch = false
		for n := range g.NTs {
			for _, a := range g.Alts[n] {
				for i, s := range a {
					if s < 0 {
						ch = grow(follow[Idx(s)], cat(fst(a[i+1:]), follow[n])) || ch
					}
				}
			}
		}
	}
	for n := range g.NTs {
		seen := map[string]bool{}
		for _, a := range g.Alts[n] {
			for x := range cat(fst(a), follow[n]) {
				if seen[x] {
					return false
				}
			}
			for x := range cat(fst(a), follow[n]) {
				seen[x] = true
			}
		}
	}
	return true
}
