// Package lr is the reference model for LR(1): the canonical LR(1) automaton
// built from the definition (Knuth 1965), conflict detection, and a driver that
// records the reductions. It shares nothing with the generator under test.
package lr

import (
	"fmt"
	"sort"
	"strings"

	"verifmc/gram"
)

// Prod is a production; production 0 is the added start production.
type Prod struct {
	NT, Alt int // NT -1 for production 0
	Body    []int
}

// Act is an action of the automaton.
type Act struct {
	Kind byte // 's' shift, 'r' reduce (production 0: accept)
	N    int  // next state or production
}

func (a Act) String() string { return fmt.Sprintf("%c%d", a.Kind, a.N) }

// Auto is the canonical LR(1) automaton of a grammar. Terminal index len(Ts)
// is the end of input.
type Auto struct {
	G        *gram.G
	Prods    []Prod
	Actions  [][][]Act // state, terminal
	Goto     [][]int   // state, nonterminal
	Conflict bool
	NConf    int // state/terminal pairs with more than one action
	RRConf   bool
	SRConf   bool
	Sets     []Set // items of each state
	first    []uint64
	null     []bool
	start    []int // first production of each NT
}

// Item is a production with a position.
type Item struct{ P, Dot int }

// Set is a set of items with their contexts.
type Set map[Item]uint64

// Build constructs the automaton. It gives up (nil) beyond maxStates.
func Build(g *gram.G, maxStates int) *Auto {
	a := &Auto{G: g}
	a.Prods = append(a.Prods, Prod{-1, 0, []int{gram.NT(0)}})
	a.start = make([]int, len(g.NTs))
	for n := range g.NTs {
		a.start[n] = len(a.Prods)
		for k, b := range g.Alts[n] {
			a.Prods = append(a.Prods, Prod{n, k, b})
		}
	}
	// FIRST
	a.null = g.Nullable()
	a.first = make([]uint64, len(g.NTs))
	for ch := true; ch; {
		ch = false
		for _, p := range a.Prods[1:] {
			f := a.firstOf(p.Body, 0)
			if f&^a.first[p.NT] != 0 {
				a.first[p.NT] |= f
				ch = true
			}
		}
	}
	eof := len(g.Ts)
	key := func(s Set) string {
		var ks []string
		for it, la := range s {
			ks = append(ks, fmt.Sprintf("%d.%d.%x", it.P, it.Dot, la))
		}
		sort.Strings(ks)
		return strings.Join(ks, " ")
	}
	states := []Set{a.Closure(Set{Item{0, 0}: 1 << uint(eof)})}
	index := map[string]int{key(states[0]): 0}
	for i := 0; i < len(states); i++ {
		if len(states) > maxStates {
			return nil
		}
		s := states[i]
		next := a.Next(s)
		var xs []int
		for x := range next {
			xs = append(xs, x)
		}
		sort.Ints(xs)
		acts := make([][]Act, eof+1)
		gt := make([]int, len(g.NTs))
		for k := range gt {
			gt[k] = -1
		}
		for _, x := range xs {
			n := a.Closure(next[x])
			k := key(n)
			j, ok := index[k]
			if !ok {
				j = len(states)
				index[k] = j
				states = append(states, n)
			}
			if x < 0 {
				gt[gram.Idx(x)] = j
			} else {
				acts[x] = append(acts[x], Act{'s', j})
			}
		}
		var reds []int
		for it := range s {
			if it.Dot == len(a.Prods[it.P].Body) {
				reds = append(reds, it.P)
			}
		}
		sort.Ints(reds)
		for _, p := range reds {
			la := s[Item{p, len(a.Prods[p].Body)}]
			for t := 0; t <= eof; t++ {
				if la&(1<<uint(t)) != 0 {
					acts[t] = append(acts[t], Act{'r', p})
				}
			}
		}
		for _, as := range acts {
			if len(as) > 1 {
				a.Conflict = true
				a.NConf++
				if as[0].Kind == 's' {
					a.SRConf = true
				}
				if as[len(as)-2].Kind == 'r' {
					a.RRConf = true
				}
			}
		}
		a.Actions = append(a.Actions, acts)
		a.Goto = append(a.Goto, gt)
	}
	a.Sets = states
	return a
}

// Closure is s with all items that follow from its items.
func (a *Auto) Closure(from Set) Set {
	s := Set{}
	todo := []Item{}
	for it, la := range from {
		s[it] = la
		todo = append(todo, it)
	}
	for len(todo) > 0 {
		it := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		b := a.Prods[it.P].Body
		if it.Dot >= len(b) || b[it.Dot] >= 0 {
			continue
		}
		la := a.firstOf(b[it.Dot+1:], s[it])
		nt := gram.Idx(b[it.Dot])
		for k := range a.G.Alts[nt] {
			ni := Item{a.start[nt] + k, 0}
			old, ok := s[ni]
			if !ok || la&^old != 0 {
				s[ni] = old | la
				todo = append(todo, ni)
			}
		}
	}
	return s
}

// Next is the items after each symbol that can follow in s.
func (a *Auto) Next(s Set) map[int]Set {
	next := map[int]Set{}
	for it, la := range s {
		b := a.Prods[it.P].Body
		if it.Dot < len(b) {
			x := b[it.Dot]
			if next[x] == nil {
				next[x] = Set{}
			}
			next[x][Item{it.P, it.Dot + 1}] |= la
		}
	}
	return next
}

func (a *Auto) firstOf(body []int, ctx uint64) (f uint64) {
	for _, s := range body {
		if s >= 0 {
			return f | 1<<uint(s)
		}
		f |= a.first[gram.Idx(s)]
		if !a.null[gram.Idx(s)] {
			return f
		}
	}
	return f | ctx
}

// Val is the value of a symbol: a token (Tok>=0, index of the token) or the
// value returned by event Ev.
type Val struct{ Tok, Ev int }

// Event is one reduction.
type Event struct {
	P    int
	Args []Val
	Pos  int // of the next token
}

// Run is the result of parsing.
type Run struct {
	Accept bool
	Loop   bool // gave up: too many reductions
	Events []Event
	ErrPos int // index of the token that caused the error
	State  int // state in which the error was found
}

// Parse drives the automaton. Conflicts are resolved in favour of the shift,
// then of the production with the lowest number.
func (a *Auto) Parse(w []int, maxEvents int) (r Run) {
	stack := []int{0}
	vals := []Val{{-1, -1}}
	i := 0
	for {
		t := len(a.G.Ts)
		if i < len(w) {
			t = w[i]
		}
		top := stack[len(stack)-1]
		as := a.Actions[top][t]
		if len(as) == 0 {
			r.ErrPos, r.State = i, top
			return
		}
		act := as[0]
		if act.Kind == 's' {
			stack = append(stack, act.N)
			vals = append(vals, Val{i, -1})
			i++
			continue
		}
		p := a.Prods[act.N]
		n := len(p.Body)
		args := append([]Val{}, vals[len(vals)-n:]...)
		stack, vals = stack[:len(stack)-n], vals[:len(vals)-n]
		r.Events = append(r.Events, Event{act.N, args, i})
		if act.N == 0 {
			r.Accept = true
			return
		}
		if len(r.Events) > maxEvents {
			r.Loop = true
			return
		}
		stack = append(stack, a.Goto[stack[len(stack)-1]][p.NT])
		vals = append(vals, Val{-1, len(r.Events) - 1})
	}
}

// Expected lists the terminals with an action in a state.
func (a *Auto) Expected(state int) (ts []int) {
	for t, as := range a.Actions[state] {
		if len(as) > 0 {
			ts = append(ts, t)
		}
	}
	return
}
