// Package cf is the reference model for context-free parsing: derivability,
// viable prefixes and the set of derivations, straight from the definitions,
// by fixpoints over spans. It knows nothing of GLL, BSR, FIRST or FOLLOW.
package cf

import (
	"fmt"
	"sort"
	"strings"

	"verifmc/gram"
)

// MaxLen is the length bound of inputs whose span sets are bit masks.
const MaxLen = 60

// M is the model of one grammar on one token string.
type M struct {
	G *gram.G
	W []int
	// D[nt][i] is the set of j such that nt derives W[i:j].
	D    [][]uint64
	long *long // instead of D for inputs longer than MaxLen
	prod []bool

	given  bool
	forest map[Node][]Deriv
}

// Given is a model whose forest is known; it is nil for words that are not in
// the language.
func Given(g *gram.G, w []int, forest map[Node][]Deriv) *M {
	return &M{G: g, W: w, given: true, forest: forest}
}

// New computes the derivability relation of g on w.
func New(g *gram.G, w []int) *M {
	n := len(w)
	if n > MaxLen {
		return &M{G: g, W: w, long: newLong(g, w)}
	}
	m := &M{G: g, W: w, D: make([][]uint64, len(g.NTs))}
	for k := range m.D {
		m.D[k] = make([]uint64, n+1)
	}
	for ch := true; ch; {
		ch = false
		for nt := range g.NTs {
			for _, a := range g.Alts[nt] {
				for i := 0; i <= n; i++ {
					s := m.seq(a, i)
					if s&^m.D[nt][i] != 0 {
						m.D[nt][i] |= s
						ch = true
					}
				}
			}
		}
	}
	return m
}

func (m *M) step(s int, set uint64) uint64 {
	var r uint64
	n := len(m.W)
	for i := 0; i <= n; i++ {
		if set&(1<<uint(i)) == 0 {
			continue
		}
		if s >= 0 {
			if i < n && m.W[i] == s {
				r |= 1 << uint(i+1)
			}
		} else {
			r |= m.D[-s-1][i]
		}
	}
	return r
}

func (m *M) seq(body []int, i int) uint64 {
	set := uint64(1) << uint(i)
	for _, s := range body {
		set = m.step(s, set)
		if set == 0 {
			return 0
		}
	}
	return set
}

// Derives reports whether nt derives W[i:j].
func (m *M) Derives(nt, i, j int) bool {
	if m.long != nil {
		return m.long.has[nt][i][j]
	}
	return m.D[nt][i]&(1<<uint(j)) != 0
}

// ends lists the positions up to max where a symbol that starts at i can end.
func (m *M) ends(s, i, max int) (es []int) {
	if m.long != nil {
		for _, e := range m.long.step(s, i) {
			if e <= max {
				es = append(es, e)
			}
		}
		sort.Ints(es)
		return
	}
	set := m.step(s, 1<<uint(i))
	for e := i; e <= max; e++ {
		if set&(1<<uint(e)) != 0 {
			es = append(es, e)
		}
	}
	return
}

// Accepts reports whether W is in L(G).
func (m *M) Accepts() bool {
	if m.given {
		return m.forest != nil
	}
	return m.Derives(0, 0, len(m.W))
}

// Viable reports whether W is a prefix of some string of L(G).
func (m *M) Viable() bool {
	g, n := m.G, len(m.W)
	if m.prod == nil {
		m.prod = g.Productive()
	}
	altProd := func(a []int) bool {
		for _, s := range a {
			if s < 0 && !m.prod[-s-1] {
				return false
			}
		}
		return true
	}
	if m.long != nil {
		return m.long.viable(altProd, m.prod)
	}
	// p[nt][i]: nt derives W[i:]v for some v
	p := make([][]bool, len(g.NTs))
	for k := range p {
		p[k] = make([]bool, n+1)
		p[k][n] = m.prod[k]
	}
	for ch := true; ch; {
		ch = false
		for nt := range g.NTs {
			for i := 0; i < n; i++ {
				if p[nt][i] {
					continue
				}
			alts:
				for _, a := range g.Alts[nt] {
					if !altProd(a) {
						continue
					}
					set := uint64(1) << uint(i)
					for q := 0; q <= len(a); q++ {
						if set&(1<<uint(n)) != 0 {
							p[nt][i] = true
							ch = true
							break alts
						}
						if q == len(a) {
							break
						}
						if s := a[q]; s < 0 {
							for j := 0; j < n; j++ {
								if set&(1<<uint(j)) != 0 && p[-s-1][j] {
									p[nt][i] = true
									ch = true
									break alts
								}
							}
						}
						set = m.step(a[q], set)
					}
				}
			}
		}
	}
	return p[0][0]
}

// Deriv is one way to derive a span with an alternate: Cut[0]=i .. Cut[len(body)]=j.
type Deriv struct {
	Alt int
	Cut []int
}

func (d Deriv) String() string { return fmt.Sprintf("alt%d%v", d.Alt, d.Cut) }

// Derivs lists every (alternate, cut vector) by which nt derives W[i:j].
func (m *M) Derivs(nt, i, j int) (ds []Deriv) {
	for k, a := range m.G.Alts[nt] {
		cut := make([]int, len(a)+1)
		cut[0] = i
		var rec func(q int)
		rec = func(q int) {
			if q == len(a) {
				if cut[q] == j {
					ds = append(ds, Deriv{k, append([]int{}, cut...)})
				}
				return
			}
			for _, e := range m.ends(a[q], cut[q], j) {
				cut[q+1] = e
				rec(q + 1)
			}
		}
		rec(0)
	}
	return
}

// Node is a nonterminal span.
type Node struct{ NT, L, R int }

// Forest maps every nonterminal span reachable from the root (start symbol over
// the whole input) to its derivations. nil if W is not in L(G).
func (m *M) Forest() map[Node][]Deriv {
	if m.given {
		return m.forest
	}
	if !m.Accepts() {
		return nil
	}
	f := map[Node][]Deriv{}
	todo := []Node{{0, 0, len(m.W)}}
	for len(todo) > 0 {
		nd := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if _, ok := f[nd]; ok {
			continue
		}
		ds := m.Derivs(nd.NT, nd.L, nd.R)
		f[nd] = ds
		for _, d := range ds {
			for q, s := range m.G.Alts[nd.NT][d.Alt] {
				if s < 0 {
					todo = append(todo, Node{-s - 1, d.Cut[q], d.Cut[q+1]})
				}
			}
		}
	}
	return f
}

// Ambiguous reports whether W has more than one derivation tree.
func Ambiguous(f map[Node][]Deriv) bool {
	for _, ds := range f {
		if len(ds) > 1 {
			return true
		}
	}
	return false
}

// Describe renders a forest for reports.
func Describe(g *gram.G, f map[Node][]Deriv) string {
	var out []string
	for nd, ds := range f {
		var s []string
		for _, d := range ds {
			s = append(s, d.String())
		}
		sort.Strings(s)
		out = append(out, fmt.Sprintf("%s[%d,%d]={%s}", g.NTs[nd.NT], nd.L, nd.R, strings.Join(s, " ")))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// Strings enumerates every string over 0..k-1 of length <= n, in length-
// lexicographic order by depth-first extension (each string is visited after
// its prefix).
func Strings(k, n int, f func(w []int)) {
	var rec func(w []int)
	rec = func(w []int) {
		f(w)
		if len(w) == n {
			return
		}
		for t := 0; t < k; t++ {
			rec(append(w[:len(w):len(w)], t))
		}
	}
	rec(nil)
}
