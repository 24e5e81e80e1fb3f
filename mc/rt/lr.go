package rt

import (
	"fmt"
	"strings"

	"verifmc/cf"
	"verifmc/gram"
	"verifmc/lr"
)

// LRVal is the value of a symbol as the action routines see it.
type LRVal struct {
	Kind string // "nil", "tok", "ev", "other"
	Lext int    // token
	Rext int
	Type string
	Ev   int // event
	Str  string
}

func (v LRVal) String() string {
	switch v.Kind {
	case "tok":
		return fmt.Sprintf("token(%s@%d)", v.Type, v.Lext)
	case "ev":
		return fmt.Sprintf("value of event %d", v.Ev)
	}
	return v.Kind + v.Str
}

// LREvent is one call of an action routine.
type LREvent struct {
	Name string
	Args []LRVal
}

type LRResult struct {
	Panic  string
	Toks   []Tok
	Events []LREvent
	Res    LRVal
	Err    string
	HasErr bool
	Loop   bool
}

// LRFlags control the recorder: the action routine with number FailAt (from 0)
// returns an error; more than Max calls end the parse.
type LRFlags struct {
	FailAt int
	Max    int
}

type LRFunc func(in []rune, fl LRFlags) *LRResult

// Node is the value that the recording action routines return.
type Node struct{ Ev int }

// LoopPanic ends a parse that calls too many actions.
const LoopPanic = "verifmc: too many actions"

// LRMain is the body of an LR shard.
func LRMain(units map[string]LRFunc) {
	e, done := Start()
	for _, c := range e.Cases {
		if e.Expired() {
			break
		}
		f, ok := units[c.Unit]
		if !ok {
			panic("no unit " + c.Unit)
		}
		e.Out.Cases++
		lrCase(e, c, f)
	}
	done()
}

func lrCase(e *Env, c *Case, run LRFunc) {
	o := e.Out
	var alpha []int
	for t := range c.G.Ts {
		if t != c.Sel {
			alpha = append(alpha, t)
		}
	}
	auto := lr.Build(c.G, 4000)
	if auto == nil {
		o.Outcome("automaton-too-big")
		return
	}
	accepted := 0
	visit := func(w []int) {
		if e.Expired() {
			return
		}
		full := w
		if c.Sel >= 0 {
			full = append([]int{c.Sel}, w...)
		}
		var m *cf.M
		var acc bool
		want := auto.Parse(full, 400+8*len(full))
		if c.auto != nil {
			m, acc = cf.Given(c.G, full, nil), want.Accept
		} else {
			m = cf.New(c.G, full)
			acc = m.Accepts()
		}
		if acc {
			accepted++
			o.Outcome("accept")
		} else {
			o.Outcome("reject")
		}
		text := Text(c.G, full)
		Mark(c, text)
		o.Evals++
		o.States++
		if len(w) > 0 {
			o.Transitions++
		}
		before := o.NViol
		switch e.Check {
		case "lrlang":
			lrLang(o, c, acc, text, run)
		case "lractions":
			lrActions(o, c, acc, want, text, run)
		case "lrresolve":
			lrResolve(o, c, m, acc, want, text, run)
		case "lrerrors":
			lrErrors(o, c, m, auto, want, text, run)
		default:
			panic("unknown check " + e.Check)
		}
		if o.NViol == before {
			o.Traces++
		}
		if len(o.Samples) < 3 && acc && len(w) > 2 {
			o.Samples = append(o.Samples, fmt.Sprintf("grammar {%s} input %q: %d reductions", c.Alone.Key(), text, len(want.Events)))
		}
	}
	if c.Inputs != nil {
		for _, w := range c.Inputs {
			visit(w)
		}
	} else {
		cf.Strings(len(alpha), c.MaxLen, func(w []int) {
			v := make([]int, len(w))
			for i, x := range w {
				v[i] = alpha[x]
			}
			visit(v)
		})
	}
	if c.Long != nil {
		pumped(c, len(alpha), c.Long, visit)
	}
	if c.auto = hugeAuto(c); c.auto != nil {
		huge(c, len(alpha), 8, 4, visit)
		c.auto = nil
	}
	if accepted > 0 {
		o.Outcome("cases-with-accepted-input")
	} else {
		o.Outcome("cases-without-accepted-input")
	}
}

// lrMax bounds the calls of action routines: grammars of the checks have far
// fewer reductions per token.
func lrMax(text string) int { return 4000 + 8*len(text) }

// lrLang: the parser accepts exactly the language.
func lrLang(o *Out, c *Case, acc bool, text string, run LRFunc) {
	r := run([]rune(text), LRFlags{FailAt: -1, Max: lrMax(text)})
	if r.Loop {
		o.Fail(c, text, "loop", "the parser called more than %d action routines", lrMax(text))
		return
	}
	if r.Panic != "" {
		o.Fail(c, text, "crash", "%s", r.Panic)
		return
	}
	if r.HasErr == acc {
		o.Fail(c, text, "recognition", "input in language: %v, parser returned error: %v (%s)", acc, r.HasErr, r.Err)
		return
	}
	if r.HasErr && r.Res.Kind != "nil" {
		o.Fail(c, text, "result", "parse failed but the result is %s", r.Res)
	}
}

// evName is the name of the action routine of a production of the model.
func evName(c *Case, g *gram.G, auto []lr.Prod, p int) string {
	if p == 0 {
		return "G00"
	}
	pr := auto[p]
	return fmt.Sprintf("%s%d", g.NTs[pr.NT], realAlt(c, pr.NT, pr.Alt))
}

func prods(g *gram.G) []lr.Prod {
	ps := []lr.Prod{{NT: -1, Alt: 0, Body: []int{gram.NT(0)}}}
	for n := range g.NTs {
		for k, b := range g.Alts[n] {
			ps = append(ps, lr.Prod{NT: n, Alt: k, Body: b})
		}
	}
	return ps
}

func lrDescribe(evs []LREvent) string {
	var s []string
	for i, e := range evs {
		var as []string
		for _, a := range e.Args {
			as = append(as, a.String())
		}
		s = append(s, fmt.Sprintf("%d: %s(%s)", i, e.Name, strings.Join(as, ", ")))
	}
	return strings.Join(s, "; ")
}

// eqEvents compares the first n events of a run with the model.
func eqEvents(c *Case, ps []lr.Prod, want []lr.Event, r *LRResult, n int) string {
	if len(r.Events) != n {
		return fmt.Sprintf("%d calls of action routines, want %d: %s", len(r.Events), n, lrDescribe(r.Events))
	}
	for i := 0; i < n; i++ {
		w, g := want[i], r.Events[i]
		name := evName(c, c.G, ps, w.P)
		if g.Name != name {
			return fmt.Sprintf("call %d is %s, want %s: %s", i, g.Name, name, lrDescribe(r.Events))
		}
		if len(g.Args) != len(w.Args) {
			return fmt.Sprintf("call %d (%s) has %d parameters, want %d", i, g.Name, len(g.Args), len(w.Args))
		}
		for k, a := range w.Args {
			b := g.Args[k]
			if a.Tok >= 0 {
				if b.Kind != "tok" || b.Lext != r.Toks[a.Tok].Lext || b.Type != r.Toks[a.Tok].ID {
					return fmt.Sprintf("call %d (%s) parameter %d is %s, want token %d (%s)", i, g.Name, k, b, a.Tok, r.Toks[a.Tok].ID)
				}
			} else if b.Kind != "ev" || b.Ev != a.Ev {
				return fmt.Sprintf("call %d (%s) parameter %d is %s, want the value of call %d", i, g.Name, k, b, a.Ev)
			}
		}
	}
	return ""
}

// lrActions: reductions of accepted inputs, and errors injected at each of them.
func lrActions(o *Out, c *Case, acc bool, want lr.Run, text string, run LRFunc) {
	if !acc {
		return
	}
	ps := prods(c.G)
	r := run([]rune(text), LRFlags{FailAt: -1, Max: lrMax(text)})
	if r.Panic != "" {
		o.Fail(c, text, "crash", "%s", r.Panic)
		return
	}
	if r.HasErr {
		o.Fail(c, text, "recognition", "sentence rejected: %s", r.Err)
		return
	}
	if d := eqEvents(c, ps, want.Events, r, len(want.Events)); d != "" {
		o.Fail(c, text, "actions", "%s", d)
		return
	}
	if r.Res.Kind != "ev" || r.Res.Ev != len(want.Events)-1 {
		o.Fail(c, text, "result", "Parse returned %s, want the value of the last action routine", r.Res)
		return
	}
	for k, n := 0, len(want.Events); k < n; k++ {
		if n > 60 && k > 20 && k < n-20 && (k%16 != 0 || n > 4000) || n > 4000 && k%19 != 0 {
			continue
		}
		o.Evals++
		o.Transitions++
		o.Outcome("injected-error")
		r := run([]rune(text), LRFlags{FailAt: k, Max: lrMax(text)})
		if r.Panic != "" {
			o.Fail(c, text, "crash", "action routine %d returns an error: %s", k, r.Panic)
			return
		}
		if !r.HasErr {
			o.Fail(c, text, "action-error", "the error returned by call %d (%s) is lost", k, evName(c, c.G, ps, want.Events[k].P))
			return
		}
		if !strings.Contains(r.Err, fmt.Sprintf("injected error %d!", k)) {
			o.Fail(c, text, "action-error", "the error returned by call %d is not in the parse error: %q", k, r.Err)
			return
		}
		if r.Res.Kind != "nil" {
			o.Fail(c, text, "action-error", "call %d returns an error and Parse a result: %s", k, r.Res)
			return
		}
		if d := eqEvents(c, ps, want.Events, r, k+1); d != "" {
			o.Fail(c, text, "action-error", "the error of call %d does not end the parse: %s", k, d)
			return
		}
	}
}

// lrResolve: a parser with resolved conflicts returns only derivations of the
// input, and (check extra "exact") exactly those of the canonical automaton in
// which shift beats reduce and the first production beats later ones.
func lrResolve(o *Out, c *Case, m *cf.M, acc bool, want lr.Run, text string, run LRFunc) {
	if want.Loop {
		o.Outcome("resolution-loops")
		return
	}
	exact := c.Extra["exact"] != ""
	r := run([]rune(text), LRFlags{FailAt: -1, Max: lrMax(text)})
	if r.Loop {
		if exact {
			o.Fail(c, text, "loop", "the parser called more than %d action routines", lrMax(text))
		} else {
			o.Outcome("merged-resolution-loops")
		}
		return
	}
	if r.Panic != "" {
		o.Fail(c, text, "crash", "%s", r.Panic)
		return
	}
	if !r.HasErr && !acc {
		o.Fail(c, text, "unsound", "an input outside the language is accepted")
		return
	}
	if exact && r.HasErr == want.Accept {
		o.Fail(c, text, "resolution", "parser returned error: %v (%s), but with shift before reduce and first production before later ones the automaton accepts: %v", r.HasErr, r.Err, want.Accept)
		return
	}
	if r.HasErr {
		return
	}
	if exact {
		if d := eqEvents(c, prods(c.G), want.Events, r, len(want.Events)); d != "" {
			o.Fail(c, text, "resolution", "%s", d)
		}
		return
	}
	// replay the reductions as a derivation of the input
	if d := isDerivation(c, prods(c.G), m.W, r); d != "" {
		o.Fail(c, text, "derivation", "%s: %s", d, lrDescribe(r.Events))
	}
}

// isDerivation checks that the events are a rightmost derivation in reverse.
func isDerivation(c *Case, ps []lr.Prod, w []int, r *LRResult) string {
	names := map[string]int{}
	for p := range ps {
		names[evName(c, c.G, ps, p)] = p
	}
	type span struct{ nt, l, r int }
	var vals []span
	pos := map[int]int{}
	for i, t := range r.Toks {
		pos[t.Lext] = i
	}
	used := map[int]bool{}
	for i, e := range r.Events {
		p, ok := names[e.Name]
		if !ok {
			return "unknown action routine " + e.Name
		}
		b := ps[p].Body
		if len(b) != len(e.Args) {
			return fmt.Sprintf("call %d has %d parameters", i, len(e.Args))
		}
		l, rt := -1, -1
		for k, s := range b {
			a := e.Args[k]
			var al, ar int
			if s >= 0 {
				q, ok := pos[a.Lext]
				if a.Kind != "tok" || !ok || q >= len(w) || w[q] != s {
					return fmt.Sprintf("parameter %d of call %d is %s", k, i, a)
				}
				al, ar = q, q+1
			} else {
				if a.Kind != "ev" || a.Ev >= i || vals[a.Ev].nt != gram.Idx(s) {
					return fmt.Sprintf("parameter %d of call %d is %s", k, i, a)
				}
				if used[a.Ev] {
					return fmt.Sprintf("value of call %d is used twice", a.Ev)
				}
				used[a.Ev] = true
				al, ar = vals[a.Ev].l, vals[a.Ev].r
			}
			if al >= 0 {
				if rt >= 0 && rt != al {
					return fmt.Sprintf("parameter %d of call %d does not follow the one before it", k, i)
				}
				if l < 0 {
					l = al
				}
				rt = ar
			}
		}
		nt := ps[p].NT
		vals = append(vals, span{nt, l, rt})
	}
	last := len(r.Events) - 1
	if last < 0 || r.Events[last].Name != "G00" {
		return "the last action is not that of the start production"
	}
	for i := range vals[:last] {
		if !used[i] {
			return fmt.Sprintf("value of call %d is lost", i)
		}
	}
	if len(w) > 0 && (vals[last].l != 0 || vals[last].r != len(w)) {
		return fmt.Sprintf("derivation of the tokens %d to %d only", vals[last].l, vals[last].r)
	}
	if r.Res.Kind != "ev" || r.Res.Ev != last {
		return "result is " + r.Res.String()
	}
	return ""
}

// lrErrors: the error of a rejected input.
func lrErrors(o *Out, c *Case, m *cf.M, auto *lr.Auto, want lr.Run, text string, run LRFunc) {
	if want.Accept {
		return
	}
	r := run([]rune(text), LRFlags{FailAt: -1, Max: lrMax(text)})
	if r.Panic != "" {
		o.Fail(c, text, "crash", "%s", r.Panic)
		return
	}
	if !r.HasErr {
		o.Fail(c, text, "recognition", "accepted")
		return
	}
	p := want.ErrPos
	// the canonical automaton has the valid prefix property; check the model
	if c.auto == nil && (!cf.New(c.G, m.W[:p]).Viable() || (p < len(m.W) && cf.New(c.G, m.W[:p+1]).Viable())) {
		panic("model error: " + c.G.Key() + " " + text)
	}
	if c.Sel >= 0 && p == 0 {
		return
	}
	ln, col := LineCol([]rune(text), r.Toks[p].Lext)
	tok := fmt.Sprintf("%s (%d,%d)", r.Toks[p].ID, r.Toks[p].Lext, r.Toks[p].Rext)
	if !strings.Contains(r.Err, fmt.Sprintf("line %d col %d ", ln, col)) {
		o.Fail(c, text, "error-position", "token %d at line %d column %d cannot continue the input, but the error is %q", p, ln, col, r.Err)
		return
	}
	if !strings.Contains(r.Err, tok) {
		o.Fail(c, text, "error-token", "token %s cannot continue the input, but the error is %q", tok, r.Err)
		return
	}
	i := strings.LastIndex(r.Err, "expected one of: ")
	if i < 0 {
		o.Fail(c, text, "error-expected", "no expected tokens in %q", r.Err)
		return
	}
	got := map[string]bool{}
	for _, f := range strings.Fields(r.Err[i+len("expected one of: "):]) {
		got[f] = true
	}
	exp := map[string]bool{}
	for _, t := range auto.Expected(want.State) {
		if t == len(c.G.Ts) {
			exp["$"] = true
		} else {
			exp[c.G.Ts[t]] = true
		}
	}
	if len(got) == 0 {
		o.Fail(c, text, "error-expected", "no expected tokens in %q", r.Err)
		return
	}
	if p < len(m.W) && got[c.G.Ts[m.W[p]]] || p == len(m.W) && got["$"] {
		o.Fail(c, text, "error-expected", "the offending token is listed as expected: %q", r.Err)
		return
	}
	if c.Extra["knuth"] != "" && !EqStrings(SortedSet(got), SortedSet(exp)) {
		o.Fail(c, text, "error-expected", "expected tokens %v, but the tokens that can follow are %v", SortedSet(got), SortedSet(exp))
	}
}
