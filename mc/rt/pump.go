package rt

import (
	"fmt"

	"verifmc/cf"
	"verifmc/gram"
	"verifmc/lr"
)

// pumped visits longer words y u^k x v^k z of a case, of about the given
// lengths. The lengths after the second are for words on which the number of
// Earley items grows linearly.
func pumped(c *Case, n int, lengths []int, f func(w []int)) {
	lu, lv, ly, lz := 2, 1, 0, 1
	if len(lengths) == 1 {
		lz = 0
	}
	if n > 2 || len(lengths) == 1 {
		lu = 1
	}
	if n > 5 {
		ly, lv = 1, 0
	}
	seen := map[string]bool{}
	pumpMid(n, lu, lv, ly, lz, func(word func(l int) []int) {
		for i, l := range lengths {
			if i == 2 && !linear(c, word) {
				break
			}
			w := word(l)
			if s := fmt.Sprint(w); !seen[s] {
				seen[s] = true
				f(w)
			}
		}
	})
}

// linear reports whether the number of Earley items grows linearly.
func linear(c *Case, word func(l int) []int) bool {
	return 2*cf.New(c.G, word(48)).Items() <= 5*cf.New(c.G, word(24)).Items()
}

// pumpMid enumerates the words y u^k x v^k z.
func pumpMid(n, lu, lv, ly, lz int, f func(word func(l int) []int)) {
	for mid := -1; mid < n; mid++ {
		pump(n, lu, lv, ly, lz, func(y, u, v, z []int) {
			if mid >= 0 && len(v)+len(z) != 1 {
				return // x makes no difference, or has little to do with z
			}
			f(func(l int) []int {
				k := l / (len(u) + len(v))
				w := append([]int{}, y...)
				for j := 0; j < k; j++ {
					w = append(w, u...)
				}
				if mid >= 0 {
					w = append(w, mid)
				}
				for j := 0; j < k; j++ {
					w = append(w, v...)
				}
				return append(w, z...)
			})
		})
	}
}

// huge visits very long words y u^k x v^k z of a case with an LR(1) grammar:
// for each of them the automaton has to come far.
func huge(c *Case, n, nok, nbad int, f func(w []int)) {
	lv := 1
	if n < 4 {
		lv = 2
	}
	seen := map[string]bool{}
	ok, bad := 0, 0
	pumpMid(n, 2, lv, 1, 1, func(word func(l int) []int) {
		w := word(24)
		r := c.auto.Parse(w, 1<<30)
		s := fmt.Sprint(w)
		if !r.Accept && r.ErrPos < 20 || seen[s] || !linear(c, word) {
			return
		}
		seen[s] = true
		if r.Accept {
			if ok++; ok > nok {
				return
			}
		} else if bad++; bad > nbad {
			return
		}
		f(word(c.Huge))
	})
}

// automaton is the model for very long inputs of LR(1) grammars.
type automaton struct{ *lr.Auto }

// hugeAuto is the automaton of a case that has very long inputs.
func hugeAuto(c *Case) *automaton {
	if c.Huge == 0 {
		return nil
	}
	a := lr.Build(c.G, 1000)
	if a == nil || a.Conflict {
		return nil
	}
	return &automaton{a}
}

func (a *automaton) viable(w []int) bool {
	r := a.Parse(w, 1<<30)
	return r.Accept || r.ErrPos == len(w)
}

// model takes the forest of a word from its only derivation.
func (a *automaton) model(g *gram.G, w []int) *cf.M {
	r := a.Parse(w, 1<<30)
	if !r.Accept {
		return cf.Given(g, w, nil)
	}
	f := map[cf.Node][]cf.Deriv{}
	left := make([]int, len(r.Events))
	for i, e := range r.Events {
		p := a.Prods[e.P]
		var cut []int
		for _, v := range e.Args {
			if v.Tok >= 0 {
				cut = append(cut, v.Tok)
			} else {
				cut = append(cut, left[v.Ev])
			}
		}
		cut = append(cut, e.Pos)
		left[i] = cut[0]
		if p.NT >= 0 {
			f[cf.Node{NT: p.NT, L: cut[0], R: e.Pos}] = []cf.Deriv{{Alt: p.Alt, Cut: cut}}
		}
	}
	return cf.Given(g, w, f)
}
