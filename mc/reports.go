package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verifmc/drv"
	"verifmc/gram"
	"verifmc/lr"
	"verifmc/lx"
	"verifmc/rt"
)

func init() {
	checks["C13"] = check{"model_checking", reportsCheck}
}

// synRule is a rule of a grammar in terms of the names that reports use.
type synRule struct {
	head string
	alts [][]string
}

// synRules gives the rules of an amalgam or of one grammar.
func synRules(gs []*gram.G, alone bool) (rs []synRule) {
	if !alone {
		st := synRule{head: "Start"}
		for i := range gs {
			st.alts = append(st.alts, []string{sel(i), fmt.Sprintf("X%dS", i)})
		}
		rs = append(rs, st)
	}
	nts := map[string]bool{}
	name := func(i, k int) string {
		if alone {
			return gs[i].NTs[k]
		}
		return fmt.Sprintf("X%d%s", i, ntLetters(k))
	}
	for i, g := range gs {
		for k := range g.NTs {
			nts[name(i, k)] = true
		}
	}
	for i, g := range gs {
		for k := range g.NTs {
			r := synRule{head: name(i, k)}
			for _, b := range g.Alts[k] {
				ss := []string{}
				for _, s := range b {
					if s < 0 {
						ss = append(ss, name(i, gram.Idx(s)))
					} else if nts[g.Ts[s]] && g.TokS == nil {
						ss = append(ss, `"`+g.Ts[s]+`"`)
					} else {
						ss = append(ss, g.Ts[s])
					}
				}
				r.alts = append(r.alts, ss)
			}
			rs = append(rs, r)
		}
	}
	return
}

// synSets is FIRST and FOLLOW by iteration to the least fixed point.
type synSets struct {
	nt            map[string]bool
	first, follow map[string]map[string]bool // with "empty" and "$"
}

func newSynSets(rs []synRule) *synSets {
	s := &synSets{map[string]bool{}, map[string]map[string]bool{}, map[string]map[string]bool{}}
	for _, r := range rs {
		s.nt[r.head] = true
		s.first[r.head], s.follow[r.head] = map[string]bool{}, map[string]bool{}
	}
	s.follow[rs[0].head]["$"] = true
	grow := func(m map[string]bool, x string) bool {
		if m[x] {
			return false
		}
		m[x] = true
		return true
	}
	for ch := true; ch; {
		ch = false
		for _, r := range rs {
			for _, b := range r.alts {
				for x := range s.of(b) {
					ch = grow(s.first[r.head], x) || ch
				}
				for i, y := range b {
					if !s.nt[y] {
						continue
					}
					f := s.of(b[i+1:])
					for x := range f {
						if x != "empty" {
							ch = grow(s.follow[y], x) || ch
						}
					}
					if f["empty"] {
						for x := range s.follow[r.head] {
							ch = grow(s.follow[y], x) || ch
						}
					}
				}
			}
		}
	}
	return s
}

// of is FIRST of a string of symbols.
func (s *synSets) of(b []string) map[string]bool {
	out := map[string]bool{}
	for _, y := range b {
		if !s.nt[y] {
			out[y] = true
			return out
		}
		for x := range s.first[y] {
			if x != "empty" {
				out[x] = true
			}
		}
		if !s.first[y]["empty"] {
			return out
		}
	}
	out["empty"] = true
	return out
}

func setString(m map[string]bool) string {
	var xs []string
	for x := range m {
		xs = append(xs, x)
	}
	sort.Strings(xs)
	return strings.Join(xs, " ")
}

func sortedLines(s string) (ls []string) {
	for _, l := range strings.Split(s, "\n") {
		if l = strings.Join(strings.Fields(l), " "); l != "" {
			ls = append(ls, l)
		}
	}
	sort.Strings(ls)
	return
}

// diffLines describes the first difference of two sorted lists.
func diffLines(got, want []string) string {
	for i, j := 0, 0; i < len(got) || j < len(want); {
		switch {
		case j == len(want) || i < len(got) && got[i] < want[j]:
			return fmt.Sprintf("has %q, which is wrong", got[i])
		case i == len(got) || want[j] < got[i]:
			return fmt.Sprintf("lacks %q", want[j])
		}
		i++
		j++
	}
	return ""
}

// checkSyntaxReports compares the reports about the syntax rules.
func checkSyntaxReports(dir string, rs []synRule, unused []string) (kind, msg string, n int) {
	s := newSynSets(rs)
	ts := map[string]bool{}
	for _, t := range unused {
		ts[t] = true
	}
	var slots []string
	for _, r := range rs {
		for _, b := range r.alts {
			for i := 0; i <= len(b); i++ {
				l := r.head + " :"
				for k, x := range b {
					if k == i {
						l += " ∙" + x
					} else {
						l += " " + x
					}
				}
				if i == len(b) {
					l += " ∙"
				}
				slots = append(slots, l)
			}
			for _, x := range b {
				if !s.nt[x] {
					ts[x] = true
				}
			}
		}
	}
	var syms, ff []string
	for t := range ts {
		syms = append(syms, t)
		ff = append(ff, t+": "+t)
	}
	for x := range s.nt {
		syms = append(syms, x)
		ff = append(ff, strings.TrimSpace(x+": "+setString(s.first[x])), strings.TrimSpace("Follow("+x+"): "+setString(s.follow[x])))
	}
	for _, f := range []struct {
		name string
		want []string
	}{{"symbols.txt", syms}, {"first_follow.txt", ff}, {"grammar_slots.txt", slots}} {
		b, err := os.ReadFile(filepath.Join(dir, f.name))
		if err != nil {
			return f.name, err.Error(), n
		}
		sort.Strings(f.want)
		n += len(f.want)
		if d := diffLines(sortedLines(string(b)), f.want); d != "" {
			return f.name, f.name + " " + d, n
		}
	}
	return "", "", n
}

// lrState is a state in LR1_states.txt.
type lrState struct {
	items map[string]string // item, context set
	next  map[string]int
	acts  map[string]string
}

func readLRStates(txt string) (ss []*lrState, bad string) {
	mode := ""
	for _, l := range strings.Split(txt, "\n") {
		var n int
		switch {
		case l == "":
		case strings.HasSuffix(l, " {") && strings.HasPrefix(l, "S"):
			if _, err := fmt.Sscanf(l, "S%d {", &n); err != nil || n != len(ss) {
				return nil, fmt.Sprintf("line %q where state %d begins", l, len(ss))
			}
			ss = append(ss, &lrState{map[string]string{}, map[string]int{}, map[string]string{}})
			mode = "items"
		case l == "}" && mode == "items":
		case l == "Transitions:" || l == "Actions:":
			mode = l
		case len(ss) == 0:
			return nil, fmt.Sprintf("line %q before the first state", l)
		case mode == "items":
			s := ss[len(ss)-1]
			l = strings.TrimSpace(l)
			k := strings.LastIndex(l, " {")
			if k < 0 || !strings.HasSuffix(l, "}") {
				return nil, fmt.Sprintf("line %q is not an item", l)
			}
			if _, dup := s.items[l[:k]]; dup {
				return nil, fmt.Sprintf("item %q twice", l)
			}
			s.items[l[:k]] = strings.Join(sortedLines(strings.ReplaceAll(l[k+2:len(l)-1], ", ", "\n")), " ")
		case mode == "Transitions:":
			f := strings.Fields(l)
			if len(f) != 3 || f[1] != "->" {
				return nil, fmt.Sprintf("line %q is not a transition", l)
			}
			if _, err := fmt.Sscan(f[2], &n); err != nil {
				return nil, fmt.Sprintf("line %q is not a transition", l)
			}
			if _, dup := ss[len(ss)-1].next[f[0]]; dup {
				return nil, fmt.Sprintf("transition %q twice", l)
			}
			ss[len(ss)-1].next[f[0]] = n
		case mode == "Actions:":
			f := strings.Fields(l)
			if len(f) != 2 || !strings.HasSuffix(f[0], ":") {
				return nil, fmt.Sprintf("line %q is not an action", l)
			}
			t := f[0][:len(f[0])-1]
			if _, dup := ss[len(ss)-1].acts[t]; dup {
				return nil, fmt.Sprintf("action %q twice", l)
			}
			ss[len(ss)-1].acts[t] = f[1]
		}
	}
	for i, s := range ss {
		for x, n := range s.next {
			if n < 0 || n >= len(ss) {
				return nil, fmt.Sprintf("transition of state %d on %s to %d", i, x, n)
			}
		}
	}
	return
}

// lrReports compares the reports about the LR(1) states with the model.
type lrReports struct {
	g  *gram.G
	a  *lr.Auto
	ss []*lrState
}

func (r *lrReports) sym(s int) string {
	if s < 0 {
		return r.g.NTs[gram.Idx(s)]
	}
	if s == len(r.g.Ts) {
		return "$"
	}
	return r.g.Ts[s]
}

func (r *lrReports) item(it lr.Item) string {
	p := r.a.Prods[it.P]
	l := "G0 :"
	if p.NT >= 0 {
		l = r.g.NTs[p.NT] + " :"
	}
	for k, s := range p.Body {
		if k == it.Dot {
			l += " •" + r.sym(s)
		} else {
			l += " " + r.sym(s)
		}
	}
	if it.Dot == len(p.Body) {
		l += "•"
	}
	return l
}

func (r *lrReports) ctx(la uint64) string {
	m := map[string]bool{}
	for t := 0; t <= len(r.g.Ts); t++ {
		if la&(1<<uint(t)) != 0 {
			m[r.sym(t)] = true
		}
	}
	return setString(m)
}

// set is the state of the report in terms of the model.
func (r *lrReports) set(n int) (lr.Set, string) {
	index := map[string]lr.Item{}
	for p := range r.a.Prods {
		for d := 0; d <= len(r.a.Prods[p].Body); d++ {
			it := lr.Item{P: p, Dot: d}
			index[r.item(it)] = it
		}
	}
	tix := map[string]uint{}
	for t := 0; t <= len(r.g.Ts); t++ {
		tix[r.sym(t)] = uint(t)
	}
	s := lr.Set{}
	for l, c := range r.ss[n].items {
		it, ok := index[l]
		if !ok {
			return nil, fmt.Sprintf("state %d has the unknown item %q", n, l)
		}
		la := uint64(0)
		for _, x := range strings.Fields(c) {
			t, ok := tix[x]
			if !ok {
				return nil, fmt.Sprintf("state %d has the unknown context %q", n, x)
			}
			la |= 1 << t
		}
		s[it] = la
	}
	return s, ""
}

func (r *lrReports) String(s lr.Set) string {
	var ls []string
	for it, la := range s {
		ls = append(ls, r.item(it)+" {"+r.ctx(la)+"}")
	}
	sort.Strings(ls)
	return strings.Join(ls, "; ")
}

// check: each state is closed, each transition goes to a state with the items
// after it and at least their contexts, contexts are those of the canonical
// states with the same items, actions and conflicts follow from the items. For
// Knuth the states are the canonical ones.
func (r *lrReports) check(txt, conflicts string, knuth bool) (kind, msg string) {
	var bad string
	if r.ss, bad = readLRStates(txt); bad != "" {
		return "lr1-states", "LR1_states.txt: " + bad
	}
	if len(r.ss) == 0 {
		return "lr1-states", "LR1_states.txt has no states"
	}
	core := func(s lr.Set) string {
		var ks []string
		for it := range s {
			ks = append(ks, fmt.Sprintf("%d.%d", it.P, it.Dot))
		}
		sort.Strings(ks)
		return strings.Join(ks, " ")
	}
	eq := func(a, b lr.Set) bool {
		if len(a) != len(b) {
			return false
		}
		for it, la := range a {
			if x, ok := b[it]; !ok || x != la {
				return false
			}
		}
		return true
	}
	lalr := map[string]lr.Set{}
	for _, s := range r.a.Sets {
		k := core(s)
		if lalr[k] == nil {
			lalr[k] = lr.Set{}
		}
		for it, la := range s {
			lalr[k][it] |= la
		}
	}
	var sets []lr.Set
	for i := range r.ss {
		s, bad := r.set(i)
		if bad != "" {
			return "lr1-states", "LR1_states.txt: " + bad
		}
		sets = append(sets, s)
	}
	if !eq(sets[0], r.a.Sets[0]) {
		return "lr1-states", fmt.Sprintf("state 0 is %s\nnot %s", r.String(sets[0]), r.String(r.a.Sets[0]))
	}
	if knuth && len(sets) != len(r.a.Sets) || len(sets) > len(r.a.Sets) {
		return "lr1-states", fmt.Sprintf("%d states, the canonical automaton has %d", len(sets), len(r.a.Sets))
	}
	var want []string
	seen := map[string]bool{}
	for i, s := range sets {
		if k := r.String(s); seen[k] {
			return "lr1-states", fmt.Sprintf("state %d occurs twice: %s", i, k)
		} else {
			seen[k] = true
		}
		u := lalr[core(s)]
		if u == nil {
			return "lr1-states", fmt.Sprintf("state %d has items that no state of the canonical automaton has: %s", i, r.String(s))
		}
		for it, la := range s {
			if la&^u[it] != 0 || la == 0 {
				return "lr1-contexts", fmt.Sprintf("state %d: %s has contexts %s, those of the canonical states are %s", i, r.item(it), r.ctx(la), r.ctx(u[it]))
			}
		}
		if c := r.a.Closure(s); !eq(c, s) {
			return "lr1-states", fmt.Sprintf("state %d is not closed: %s\nnot %s", i, r.String(s), r.String(c))
		}
		next := r.a.Next(s)
		if len(next) != len(r.ss[i].next) {
			return "lr1-transitions", fmt.Sprintf("state %d has %d transitions, not %d", i, len(r.ss[i].next), len(next))
		}
		for x, n := range next {
			to, ok := r.ss[i].next[r.sym(x)]
			if !ok {
				return "lr1-transitions", fmt.Sprintf("state %d has no transition on %s", i, r.sym(x))
			}
			n = r.a.Closure(n)
			t := sets[to]
			if knuth && !eq(n, t) {
				return "lr1-transitions", fmt.Sprintf("state %d goes on %s to state %d: %s\nnot %s", i, r.sym(x), to, r.String(t), r.String(n))
			}
			if core(n) != core(t) {
				return "lr1-transitions", fmt.Sprintf("state %d goes on %s to state %d with other items: %s\nnot %s", i, r.sym(x), to, r.String(t), r.String(n))
			}
			for it, la := range n {
				if la&^t[it] != 0 {
					return "lr1-transitions", fmt.Sprintf("state %d goes on %s to state %d, where %s has contexts %s without all of %s", i, r.sym(x), to, r.item(it), r.ctx(t[it]), r.ctx(la))
				}
			}
		}
		nacts := 0
		for t := 0; t <= len(r.g.Ts); t++ {
			var all []string
			if to, ok := r.ss[i].next[r.sym(t)]; ok {
				all = append(all, fmt.Sprintf("Shift(%d)", to))
			}
			for p := range r.a.Prods {
				if s[lr.Item{P: p, Dot: len(r.a.Prods[p].Body)}]&(1<<uint(t)) != 0 {
					if p == 0 {
						all = append(all, "accept")
					} else {
						all = append(all, fmt.Sprintf("Reduce(%d)", p))
					}
				}
			}
			got := r.ss[i].acts[r.sym(t)]
			if len(all) == 0 {
				if got != "" {
					return "lr1-actions", fmt.Sprintf("state %d has the action %s for %s", i, got, r.sym(t))
				}
				continue
			}
			nacts++
			if got != all[0] {
				return "lr1-actions", fmt.Sprintf("state %d has the action %q for %s, not %s", i, got, r.sym(t), all[0])
			}
			if len(all) > 1 {
				sort.Strings(all)
				want = append(want, fmt.Sprintf("S%d %s %s", i, r.sym(t), strings.Join(all, " ")))
			}
		}
		if nacts != len(r.ss[i].acts) {
			return "lr1-actions", fmt.Sprintf("state %d has %d actions, not %d", i, len(r.ss[i].acts), nacts)
		}
	}
	// conflicts
	var got []string
	if conflicts != "" {
		for i, l := range strings.Split(strings.TrimSuffix(conflicts, "\n"), "\n") {
			if i == 0 {
				if l != fmt.Sprintf("%d LR(1) Conflicts:", len(want)) {
					return "lr1-conflicts", fmt.Sprintf("%q for %d conflicts", l, len(want))
				}
				continue
			}
			f := strings.Fields(strings.NewReplacer("{", " ", "}", " ", ",", " ").Replace(l))
			if len(f) < 5 || f[0] != fmt.Sprintf("%d)", i) || !strings.HasSuffix(f[1], ":") || !strings.HasSuffix(f[2], ":") {
				return "lr1-conflicts", fmt.Sprintf("line %q is not conflict %d", l, i)
			}
			as := f[3:]
			sort.Strings(as)
			got = append(got, fmt.Sprintf("S%s %s %s", strings.TrimSuffix(f[1], ":")[1:], strings.TrimSuffix(f[2], ":"), strings.Join(as, " ")))
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if d := diffLines(got, want); d != "" {
		return "lr1-conflicts", "LR1_conflicts.txt " + d
	}
	return "", ""
}

// items checks CFG_items.txt.
func (r *lrReports) items(txt string) string {
	var want []string
	n := 0
	for p := range r.a.Prods {
		b := r.a.Prods[p].Body
		for d := 0; d <= len(b); d++ {
			want = append(want, fmt.Sprintf("%d: %s", n, r.item(lr.Item{P: p, Dot: d})))
			n++
			if d < len(b) {
				want = append(want, fmt.Sprintf("next: %d", n))
			}
		}
	}
	var got []string
	for _, l := range strings.Split(txt, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			got = append(got, l)
		}
	}
	for i := 0; i < len(got) || i < len(want); i++ {
		if i == len(got) || i == len(want) || got[i] != want[i] {
			return fmt.Sprintf("entry %d is not as it should be, %q", i, want[min(i, len(want)-1)])
		}
	}
	return ""
}

// fsaState is a state in lexfsa.txt.
type fsaState struct {
	accept map[string]bool
	on     [][]*lx.Node // all of them must contain the rune
	next   []int
}

func readFSA(txt string) (ss []*fsaState, bad string) {
	mode := ""
	for _, l := range strings.Split(txt, "\n") {
		var n int
		switch {
		case l == "":
		case l[0] == 'S':
			if _, err := fmt.Sscanf(l, "S%d:", &n); err != nil || n != len(ss) {
				return nil, fmt.Sprintf("line %q where state %d begins", l, len(ss))
			}
			ss = append(ss, &fsaState{accept: map[string]bool{}})
			mode = "items"
		case len(ss) == 0:
			return nil, fmt.Sprintf("line %q before the first state", l)
		case l == "  Transitions:":
			mode = "transitions"
		case mode == "items":
			l = strings.TrimSpace(l)
			k := strings.Index(l, " : ")
			if k < 0 || !strings.Contains(l, "•") {
				return nil, fmt.Sprintf("line %q is not an item", l)
			}
			if strings.HasSuffix(l, "•") {
				ss[len(ss)-1].accept[l[:k]] = true
			}
		default:
			k := strings.LastIndex(l, " -> S")
			if k < 0 {
				return nil, fmt.Sprintf("line %q is not a transition", l)
			}
			if _, err := fmt.Sscan(l[k+5:], &n); err != nil {
				return nil, fmt.Sprintf("line %q is not a transition", l)
			}
			var all []*lx.Node
			for _, x := range strings.Split(strings.TrimSpace(l[:k]), " & ") {
				var ns []*lx.Node
				x = strings.ReplaceAll(x, "},", "}") // ranges are listed with commas
				if x == "'''" {
					x = `'\''`
				}
				if p := rt.Try(func() { ns = lx.Parse("t : "+x+" ;", nil).Syms() }); p != "" || len(ns) != 1 {
					return nil, fmt.Sprintf("%q is not a symbol: %s", x, p)
				}
				all = append(all, ns[0])
			}
			s := ss[len(ss)-1]
			s.on, s.next = append(s.on, all), append(s.next, n)
		}
	}
	for i, s := range ss {
		for _, n := range s.next {
			if n < 0 || n >= len(ss) {
				return nil, fmt.Sprintf("transition of state %d to %d", i, n)
			}
		}
	}
	return
}

// move takes the first transition that contains the rune.
func (s *fsaState) move(c rune) int {
	for i, ns := range s.on {
		in := true
		for _, n := range ns {
			in = in && n.In(c)
		}
		if in {
			return s.next[i]
		}
	}
	return -1
}

// checkFSA explores the states of the model and of the report side by side.
func checkFSA(txt string, sp *lx.Spec, reps []rune) (msg string, states, trans int) {
	ss, bad := readFSA(txt)
	if bad != "" || len(ss) == 0 {
		return "lexfsa.txt: no states " + bad, 0, 0
	}
	w := sp.Walk()
	type pair struct{ m, s int }
	seen := map[pair]string{{0, 0}: ""}
	todo := []pair{{0, 0}}
	reached := map[int]bool{}
	for len(todo) > 0 {
		p := todo[0]
		todo = todo[1:]
		reached[p.s] = true
		want := map[string]bool{}
		for _, id := range w.Accept(p.m) {
			want[id] = true
		}
		if g, x := setString(ss[p.s].accept), setString(want); g != x {
			return fmt.Sprintf("lexfsa.txt: after %q state %d accepts {%s}, not {%s}", seen[p], p.s, g, x), len(seen), trans
		}
		for _, c := range reps {
			m, s := w.Move(p.m, c), ss[p.s].move(c)
			trans++
			if (m < 0) != (s < 0) {
				return fmt.Sprintf("lexfsa.txt: after %q state %d has a transition on %q: %v", seen[p], p.s, c, s >= 0), len(seen), trans
			}
			if n := (pair{m, s}); m >= 0 {
				if _, ok := seen[n]; !ok {
					seen[n] = seen[p] + string(c)
					todo = append(todo, n)
				}
			}
		}
	}
	for i := range ss {
		if !reached[i] {
			return fmt.Sprintf("lexfsa.txt: nothing leads to state %d", i), len(seen), trans
		}
	}
	return "", len(seen), trans
}

func reportsCheck(c *Ctx) error {
	type finding struct {
		v                    rt.V
		states, trans, evals int
	}
	add := func(fs []finding) {
		for _, f := range fs {
			c.Total.Evals += f.evals
			c.Total.States += f.states
			c.Total.Transitions += f.trans
			if f.v.Kind != "" {
				c.Report(f.v)
			} else {
				c.Total.Traces++
			}
		}
	}
	// syntax
	us, _ := gllUnits(gllFamilies(c, "reports"), 64)
	for i, g := range enum(gram.Bound{NTs: 2, Ts: 2, MaxAlts: 3, MaxBody: 3, Size: 3, Ordered: true, NeedProd: true}) {
		g = g.Clone()
		g.TokS = []string{"xx", "x1"}
		g.Ts = []string{"xx", "x1"}
		g.Decl = []string{"xx : 'x' 'x' ;", "x1 : 'x' '1' ;", "!ws : ' ' ;", "un : 'u' ;"}
		us = append(us, &drv.Unit{ID: fmt.Sprintf("t%d", i), Source: g.Rules(), Gs: []*gram.G{g}})
	}
	fs := make([]finding, len(us))
	err := drv.Parallel(len(us), func(i int) error {
		u := us[i]
		u.Adapter = ""
		u.Flags = []string{"-v"}
		if err := c.Generate([]*drv.Unit{u}); err != nil {
			return err
		}
		defer os.RemoveAll(c.UDir(u))
		f := &fs[i]
		f.v = rt.V{Unit: u.ID, Grammar: u.Source}
		if u.Gen.RC != 0 {
			f.v.Kind, f.v.Msg = "generation", genMsg(u.Gen)
			return nil
		}
		var unused []string
		if u.Gs[0].TokS != nil {
			unused = []string{"xx", "x1", "ws", "un"}
		}
		f.v.Kind, f.v.Msg, f.evals = checkSyntaxReports(c.UDir(u), synRules(u.Gs, !strings.Contains(u.Source, "Start :")), unused)
		f.states = f.evals
		return nil
	})
	if err != nil {
		return err
	}
	add(fs)
	c.Logf("syntax reports of %d parsers", len(us))
	// lexical
	lus, lcs := lexFamilies(c)
	byUnit := map[string][]*rt.Case{}
	for _, k := range lcs {
		byUnit[k.Unit] = append(byUnit[k.Unit], k)
	}
	fs = make([]finding, len(lus))
	err = drv.Parallel(len(lus), func(i int) error {
		u := lus[i]
		u.Adapter = ""
		u.Flags = []string{"-v"}
		if err := c.Generate([]*drv.Unit{u}); err != nil {
			return err
		}
		defer os.RemoveAll(c.UDir(u))
		f := &fs[i]
		f.v = rt.V{Unit: u.ID, Grammar: u.Source}
		if u.Gen.RC != 0 {
			f.v.Kind, f.v.Msg = "generation", genMsg(u.Gen)
			return nil
		}
		rules, alphabet := "", ""
		lits := []string{}
		for _, k := range byUnit[u.ID] {
			rules += k.Lex.Rules
			alphabet += k.Lex.Alphabet + k.Lex.Prefix
			for _, l := range k.Lex.Lits {
				lits = append(lits, l)
				alphabet += l
			}
		}
		b, err := os.ReadFile(filepath.Join(c.UDir(u), "lexfsa.txt"))
		if err != nil {
			f.v.Kind, f.v.Msg = "lexfsa", err.Error()
			return nil
		}
		sp := lx.Parse(rules, uniq(lits))
		var reps []rune
		seen := map[int]bool{}
		chars := []rune(alphabet + rules + "abc1_ ")
		for r := rune(0); r < 0x1ffff; r++ {
			chars = append(chars, r)
		}
		for _, r := range append(chars, 0x10ffff) {
			if k := sp.Class(r); !seen[k] {
				seen[k] = true
				reps = append(reps, r)
			}
		}
		f.v.Msg, f.states, f.trans = checkFSA(string(b), sp, reps)
		f.evals = f.trans
		if f.v.Msg != "" {
			f.v.Kind = "lexfsa"
		}
		return nil
	})
	if err != nil {
		return err
	}
	add(fs)
	c.Logf("lexical reports of %d lexers", len(lus))
	// LR(1)
	gs := lrFamily(c)
	for _, flag := range []string{"-knuth", "-pager"} {
		flag := flag
		fs = make([]finding, len(gs))
		err = drv.Parallel(len(gs), func(i int) error {
			g := gs[i]
			a := lr.Build(g, 3000)
			if a == nil || dupAlts(g) {
				return nil
			}
			f := &fs[i]
			f.v = rt.V{Grammar: g.Key()}
			fail := func(kind, msg string) error {
				f.v.Kind, f.v.Msg = kind, "gogll "+flag+": "+msg
				return nil
			}
			d := filepath.Join(c.Dir, "rep", fmt.Sprint(i))
			if err := os.MkdirAll(d, 0o755); err != nil {
				return err
			}
			defer os.RemoveAll(d)
			if err := os.WriteFile(filepath.Join(d, "g.bnf"), []byte(g.Source("g")), 0o644); err != nil {
				return err
			}
			r := c.RunGogll(d, flag, "-v", "-resolve_conflicts", "-o", ".", "g.bnf")
			if r.RC != 0 {
				return fail("generation", genMsg(r))
			}
			read := func(n string) string {
				b, _ := os.ReadFile(filepath.Join(d, n))
				return string(b)
			}
			x := &lrReports{g: g, a: a}
			kind, msg := x.check(read("LR1_states.txt"), read("LR1_conflicts.txt"), flag == "-knuth")
			f.evals, f.states = 1, len(x.ss)
			for _, s := range x.ss {
				f.trans += len(s.next) + len(s.acts)
			}
			if kind != "" {
				return fail(kind, msg)
			}
			if bad := x.items(read("CFG_items.txt")); bad != "" {
				return fail("cfg-items", "CFG_items.txt: "+bad)
			}
			if kind, msg, n := checkSyntaxReports(d, synRules([]*gram.G{g}, true), nil); kind != "" {
				return fail(kind, msg)
			} else {
				f.evals += n
			}
			if a.Conflict {
				was := read("LR1_conflicts.txt")
				r := c.RunGogll(d, flag, "-o", ".", "g.bnf")
				if r.RC == 0 || read("LR1_conflicts.txt") != was {
					return fail("lr1-conflicts", fmt.Sprintf("exit code %d and other conflicts without -resolve_conflicts", r.RC))
				}
				n := strings.SplitN(was, " ", 2)[0]
				if !strings.Contains(r.Out, n+" LR(1) conflicts") {
					return fail("lr1-conflicts", fmt.Sprintf("does not print the number of conflicts, %s: %s", n, r.Out))
				}
			}
			return nil
		})
		if err != nil {
			return err
		}
		add(fs)
		c.Logf("LR(1) reports of %d parsers (%s)", len(gs), flag)
	}
	c.Coverage["bounds"] = map[string]interface{}{"parsers": len(us), "lexers": len(lus), "LR(1) grammars": len(gs)}
	c.Coverage["model"] = "canonical LR(1) automaton (package lr), NFA simulation (package lx), FIRST and FOLLOW by definition"
	for i := 0; i < len(gs); i += len(gs)/6 + 1 {
		c.Total.Samples = append(c.Total.Samples, "LR1_states.txt of "+gs[i].Key())
	}
	for i := 0; i < len(lus); i += len(lus)/6 + 1 {
		c.Total.Samples = append(c.Total.Samples, "lexfsa.txt of "+strings.Join(strings.Fields(lus[i].Source), " "))
	}
	return nil
}

func uniq(xs []string) (out []string) {
	seen := map[string]bool{}
	for _, x := range xs {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return
}

func dupAlts(g *gram.G) bool {
	for _, as := range g.Alts {
		seen := map[string]bool{}
		for _, a := range as {
			k := fmt.Sprint(a)
			if seen[k] {
				return true
			}
			seen[k] = true
		}
	}
	return false
}
