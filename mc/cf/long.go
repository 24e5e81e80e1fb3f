package cf

import "verifmc/gram"

// long is the derivability relation for inputs of any length, as lists.
type long struct {
	g   *gram.G
	w   []int
	has [][][]bool // has[nt][i][j]: nt derives w[i:j]
	end [][][]int  // end[nt][i]: the js, in the order in which they were found
}

func newLong(g *gram.G, w []int) *long {
	n := len(w)
	l := &long{g: g, w: w, has: make([][][]bool, len(g.NTs)), end: make([][][]int, len(g.NTs))}
	for k := range g.NTs {
		l.has[k] = make([][]bool, n+1)
		l.end[k] = make([][]int, n+1)
		for i := range l.has[k] {
			l.has[k][i] = make([]bool, n+1)
		}
	}
	// a symbol at i depends on symbols at i and after i
	for i := n; i >= 0; i-- {
		for ch := true; ch; {
			ch = false
			for nt := range g.NTs {
				for _, a := range g.Alts[nt] {
					for _, j := range l.seq(a, i) {
						if !l.has[nt][i][j] {
							l.has[nt][i][j] = true
							l.end[nt][i] = append(l.end[nt][i], j)
							ch = true
						}
					}
				}
			}
		}
	}
	return l
}

func (l *long) step(s, i int) []int {
	if s < 0 {
		return l.end[-s-1][i]
	}
	if i < len(l.w) && l.w[i] == s {
		return []int{i + 1}
	}
	return nil
}

func (l *long) seq(body []int, i int) []int {
	set := []int{i}
	for _, s := range body {
		if len(set) == 0 {
			return nil
		}
		if len(set) == 1 {
			set = l.step(s, set[0])
			continue
		}
		seen := make([]bool, len(l.w)+1)
		var next []int
		for _, k := range set {
			for _, e := range l.step(s, k) {
				if !seen[e] {
					seen[e] = true
					next = append(next, e)
				}
			}
		}
		set = next
	}
	return set
}

// viable reports whether w is a prefix of a string of the language.
func (l *long) viable(altProd func([]int) bool, prod []bool) bool {
	n := len(l.w)
	p := make([][]bool, len(l.g.NTs)) // p[nt][i]: nt derives w[i:]v for some v
	for k := range p {
		p[k] = make([]bool, n+1)
		p[k][n] = prod[k]
	}
	for i := n - 1; i >= 0; i-- {
		for ch := true; ch; {
			ch = false
			for nt := range p {
				if p[nt][i] {
					continue
				}
				for _, a := range l.g.Alts[nt] {
					if altProd(a) && l.overruns(p, a, i) {
						p[nt][i] = true
						ch = true
						break
					}
				}
			}
		}
	}
	return p[0][0]
}

// overruns reports whether the first symbols of a body can derive w[i:], the
// last of them with more text after it.
func (l *long) overruns(p [][]bool, a []int, i int) bool {
	n := len(l.w)
	for q := 0; q <= len(a); q++ {
		for _, j := range l.seq(a[:q], i) {
			if j == n || q < len(a) && a[q] < 0 && p[-a[q]-1][j] {
				return true
			}
		}
	}
	return false
}

// Items is the number of Earley items of the input: pairs of a position and an
// alternate with a dot in it, that are met from the left.
func (m *M) Items() int {
	type at struct{ nt, i int }
	seen := map[at]bool{{0, 0}: true}
	todo := []at{{0, 0}}
	items := 0
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		for _, a := range m.G.Alts[x.nt] {
			set := map[int]bool{x.i: true}
			for q := 0; ; q++ {
				items += len(set)
				if q == len(a) {
					break
				}
				next := map[int]bool{}
				for k := range set {
					if y := (at{-a[q] - 1, k}); a[q] < 0 && !seen[y] {
						seen[y] = true
						todo = append(todo, y)
					}
					for _, e := range m.ends(a[q], k, len(m.W)) {
						next[e] = true
					}
				}
				set = next
			}
		}
	}
	return items
}
