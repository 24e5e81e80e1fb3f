package rt

import (
	"fmt"
	"strings"

	"verifmc/gs"
)

// FrontRes is what gogll's own front end did with a source.
type FrontRes struct {
	Toks     []Tok
	OK       bool
	Panic    string
	NErr     int
	Bad      int // left extent of the token of the first error
	Line     int
	Col      int
	Amb      bool
	AST      string
	ASTPanic string
	Sorted   bool
	NoExp    string // an error which expects its own token, or none
}

// FrontFunc runs gogll's lexer, parser and, if build is set, AST builder.
type FrontFunc func(in []rune, build bool) *FrontRes

// FrontMain explores the viable prefixes of gogll source.
func FrontMain(fs map[string]FrontFunc) {
	e, done := Start()
	for _, c := range e.Cases {
		if e.Expired() {
			break
		}
		e.Out.Cases++
		(&front{e: e, c: c, f: fs[c.Unit], er: gs.NewEarley(c.G)}).run()
	}
	done()
}

type front struct {
	e    *Env
	c    *Case
	f    FrontFunc
	er   *gs.Earley
	w    []int
	part int
	n    int
	nw   int
}

// tokens renders a token string; each token has a text of its own.
func (x *front) tokens(w []int) (ts []gs.T, src string) {
	g := x.c.G
	var b strings.Builder
	pos := 0
	last := "t_0" // the latest head of a lexical rule
	lexBody := false
	start := true
	cand := ""
	for k, t := range w {
		if k > 0 {
			b.WriteByte(" \n"[(k+1)%2])
			pos++
		}
		id := g.Ts[t]
		txt := id
		switch id {
		case "string_lit":
			txt = fmt.Sprintf(`"s%d"`, k)
		case "tokid":
			switch {
			case start:
				cand = fmt.Sprintf("t%d", k)
				txt = cand
			case lexBody:
				txt = last
			default:
				txt = fmt.Sprintf("u%d", k)
			}
		case "nt":
			txt = fmt.Sprintf("N%d", k)
		case "char_lit":
			txt = fmt.Sprintf("'%c'", 'a'+k%26)
		}
		switch id {
		case ";":
			if lexBody {
				last = cand
			}
			start, lexBody = true, false
		case ":":
			lexBody = k > 0 && g.Ts[w[k-1]] == "tokid"
			start = false
		case "!":
		default:
			if k > 1 && id != "tokid" {
				start = false
			}
		}
		if k < 2 {
			start = true
		}
		ts = append(ts, gs.T{Kind: id, Text: txt, Pos: pos})
		b.WriteString(txt)
		pos += len([]rune(txt))
	}
	return ts, b.String()
}

// try parses a token string of which the tokens before bad are a viable prefix;
// bad is -1 for a sentence.
func (x *front) try(w []int, bad int) {
	ts, src := x.tokens(w)
	Mark(x.c, src)
	o := x.e.Out
	o.Evals++
	ast, def := "", false
	if bad < 0 {
		ast, def = gs.AST(ts)
	}
	r := x.f([]rune(src), def)
	if r.Panic != "" {
		o.Fail(x.c, src, "panic", "%s", r.Panic)
		return
	}
	if len(r.Toks) != len(w)+1 {
		o.Fail(x.c, src, "tokens", "got %v for tokens %v", r.Toks, ts)
		return
	}
	for i, t := range ts {
		if r.Toks[i].ID != t.Kind || r.Toks[i].Lext != t.Pos {
			o.Fail(x.c, src, "tokens", "got %v for tokens %v", r.Toks, ts)
			return
		}
	}
	if bad >= 0 {
		o.Outcome("rejected")
		at := len([]rune(src))
		if bad < len(ts) {
			at = ts[bad].Pos
		}
		if r.OK {
			o.Fail(x.c, src, "language", "accepted, but token %d cannot stand there", bad)
			return
		}
		l, c := lineCol([]rune(src), at)
		if r.NErr == 0 || r.Bad != at || r.Line != l || r.Col != c {
			o.Fail(x.c, src, "position", "%d errors, the first at %d (line %d column %d), expected at %d (line %d column %d)", r.NErr, r.Bad, r.Line, r.Col, at, l, c)
		} else if r.NoExp != "" {
			o.Fail(x.c, src, "expected", "%s", r.NoExp)
		}
		return
	}
	if !r.OK {
		o.Fail(x.c, src, "language", "rejected at %d (line %d column %d), but it is a sentence of gogll.md", r.Bad, r.Line, r.Col)
		return
	}
	if r.Amb {
		o.Fail(x.c, src, "ambiguous", "reported as ambiguous")
	}
	if !def {
		o.Outcome("accepted, with undefined names")
		return
	}
	o.Outcome("accepted, AST compared")
	o.Traces++
	if r.ASTPanic != "" {
		o.Fail(x.c, src, "ast", "%s", r.ASTPanic)
	} else if r.AST != ast {
		o.Fail(x.c, src, "ast", "the AST is\n%s\nexpected\n%s", r.AST, ast)
	}
	if len(o.Samples) < 12 && len(w) > 6 {
		o.Samples = append(o.Samples, strings.ReplaceAll(src, "\n", " "))
	}
}

func (x *front) run() {
	// Extra: parts/part divide the prefixes of a certain length among shards;
	// alpha lists the terminals with which prefixes are extended, wrong those
	// put behind each prefix.
	var parts, part, cut int
	fmt.Sscan(x.c.Extra["parts"], &parts)
	fmt.Sscan(x.c.Extra["part"], &part)
	fmt.Sscan(x.c.Extra["cut"], &cut)
	ix := map[string]int{}
	for i, t := range x.c.G.Ts {
		ix[t] = i
	}
	list := func(s string) (ks []int) {
		for _, t := range strings.Fields(x.c.Extra[s]) {
			k, ok := ix[t]
			if !ok {
				panic("no terminal " + t)
			}
			ks = append(ks, k)
		}
		return
	}
	alpha, wrong := list("alpha"), list("wrong")
	seen := 0
	var rec func()
	rec = func() {
		if x.e.Expired() {
			return
		}
		mine := part == 0
		if len(x.w) == cut {
			seen++
			if seen%parts != part {
				return
			}
		}
		if len(x.w) >= cut {
			mine = true
		}
		exp := x.er.Expected()
		if mine {
			x.e.Out.States++
			if x.er.Accept() {
				x.try(x.w, -1)
			} else {
				x.try(x.w, len(x.w))
			}
			for _, t := range wrong {
				if !exp[t] {
					x.e.Out.Transitions++
					x.try(append(append([]int{}, x.w...), t), len(x.w))
				}
			}
		}
		if len(x.w) == x.c.MaxLen {
			return
		}
		for _, t := range alpha {
			if !exp[t] {
				continue
			}
			x.e.Out.Transitions++
			x.er.Shift(t)
			x.w = append(x.w, t)
			rec()
			x.w = x.w[:len(x.w)-1]
			x.er.Pop()
		}
	}
	rec()
}
