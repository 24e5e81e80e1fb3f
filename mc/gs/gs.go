// Package gs reads gogll source by its own small reader, independent of the
// code under test: the grammar of gogll (gogll.md) becomes a model of its
// front end, and token lists become the AST that they stand for.
package gs

import (
	"fmt"
	"strings"
	"unicode"

	"verifmc/gram"
)

// Code is the text of the code blocks of a Markdown file.
func Code(md string) string {
	var b strings.Builder
	for i, p := range strings.Split(md, "```") {
		if i%2 == 1 {
			b.WriteString(p)
			b.WriteString("\n")
		}
	}
	return b.String()
}

// Grammar is what a gogll source defines.
type Grammar struct {
	G     *gram.G  // Ts are IDs of tokens and values of literals
	Lex   string   // the lexical rules
	Lits  []string // the insides of the string literals of the syntax rules
	IsLit []bool   // per terminal of G
}

func toks(src string) (ts []string) {
	rs := []rune(src)
	for i := 0; i < len(rs); {
		j := i + 1
		switch c := rs[i]; {
		case unicode.IsSpace(c):
			i++
			continue
		case c == '"' || c == '\'':
			for rs[j] != c || c == '\'' && rs[j+1] == '\'' && j == i+1 {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			j++
		case unicode.IsLetter(c):
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsNumber(rs[j]) || rs[j] == '_') {
				j++
			}
		}
		ts = append(ts, string(rs[i:j]))
		i = j
	}
	return
}

func unq(s string) string {
	var b strings.Builder
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		if rs[i] == '\\' && i+1 < len(rs) {
			i++
			if k := strings.IndexRune("nrt", rs[i]); k >= 0 {
				b.WriteByte("\n\r\t"[k])
				continue
			}
		}
		b.WriteRune(rs[i])
	}
	return b.String()
}

// Read reads a gogll source without unicode sets.
func Read(src string) *Grammar {
	ts := toks(src)
	if ts[0] != "package" {
		panic("no package")
	}
	ts = ts[2:]
	g := &Grammar{G: &gram.G{}}
	var rules [][]string
	for len(ts) > 0 {
		j := 0
		for ts[j] != ";" {
			j++
		}
		r := ts[:j]
		ts = ts[j+1:]
		if unicode.IsUpper([]rune(r[0])[0]) {
			rules = append(rules, r)
			g.G.NTs = append(g.G.NTs, r[0])
		} else {
			g.Lex += strings.Join(r, " ") + " ;\n"
		}
	}
	nt, tm := map[string]int{}, map[string]int{}
	for i, n := range g.G.NTs {
		nt[n] = i
	}
	for _, r := range rules {
		var alts [][]int
		cur := []int{}
		for _, s := range append(r[2:len(r):len(r)], "|") {
			switch {
			case s == "|":
				alts = append(alts, cur)
				cur = []int{}
			case s == "empty":
			default:
				if i, ok := nt[s]; ok {
					cur = append(cur, gram.NT(i))
					continue
				}
				v := s
				if s[0] == '"' {
					v = unq(s[1 : len(s)-1])
				}
				i, ok := tm[v]
				if !ok {
					i = len(g.G.Ts)
					tm[v] = i
					g.G.Ts = append(g.G.Ts, v)
					g.IsLit = append(g.IsLit, s[0] == '"')
					if s[0] == '"' {
						g.Lits = append(g.Lits, s[1:len(s)-1])
					}
				}
				cur = append(cur, i)
			}
		}
		g.G.Alts = append(g.G.Alts, alts)
	}
	return g
}

// T is a token of gogll source.
type T struct {
	Kind string // ID of the token, or value of the literal
	Text string
	Pos  int
}

// AST is the text of the AST that a sentence of gogll stands for, with the
// positions of its symbols. ok is false if an identifier is not defined where it
// must be, or twice.
func AST(ts []T) (s string, ok bool) {
	r := &reader{ts: ts, defs: map[string]string{}}
	defer func() {
		if x := recover(); x != nil {
			if x != undef {
				panic(x)
			}
			s, ok = fmt.Sprint("undefined: ", r.why), false
		}
	}()
	return r.file(), true
}

type undefT string

const undef = undefT("undef")

type reader struct {
	ts   []T
	i    int
	defs map[string]string
	why  string
}

func (r *reader) fail(why string) { r.why = why; panic(undef) }

func (r *reader) next() T { t := r.ts[r.i]; r.i++; return t }
func (r *reader) peek() string {
	if r.i < len(r.ts) {
		return r.ts[r.i].Kind
	}
	return "$"
}
func (r *reader) need(k string) T {
	if r.peek() != k {
		panic("not a sentence: " + k + " expected")
	}
	return r.next()
}

func (r *reader) file() string {
	r.need("package")
	p := r.need("string_lit")
	var lex, syn []string
	nts := map[string]bool{}
	for r.peek() != "$" {
		sup := ""
		if r.peek() == "!" {
			r.next()
			sup = "!"
		}
		h := r.next()
		r.need(":")
		if h.Kind == "tokid" {
			b := r.regexp()
			if r.defs[h.Text] != "" {
				r.fail("duplicate " + h.Text)
			}
			r.defs[h.Text] = b
			lex = append(lex, fmt.Sprintf("%s%s@%d :%s ;", sup, h.Text, h.Pos, b))
		} else {
			b := ""
			for {
				switch t := r.next(); t.Kind {
				case "empty":
				case ";", "|":
					b += " " + t.Text
				default:
					x := t.Text
					if t.Kind == "string_lit" {
						x = unq(x[1 : len(x)-1])
						if strings.ContainsAny(x, " \t\r\n") {
							r.fail("white space")
						}
					}
					b += fmt.Sprintf(" %s:%s@%d", t.Kind, x, t.Pos)
				}
				if strings.HasSuffix(b, " ;") {
					break
				}
			}
			if nts[h.Text] {
				r.fail("duplicate " + h.Text)
			}
			nts[h.Text] = true
			syn = append(syn, fmt.Sprintf("%s@%d :%s", h.Text, h.Pos, b))
		}
		if h.Kind == "tokid" {
			r.need(";")
		}
	}
	return "package " + p.Text[1:len(p.Text)-1] + "\n" + strings.Join(append(lex, syn...), "\n")
}

var closer = map[string]string{"(": ")", "[": "]", "{": "}", "<": ">"}

func (r *reader) regexp() (s string) {
	for {
		switch k := r.peek(); k {
		case ";", "|", ")", "]", "}", ">":
			return
		case ".", "letter", "upcase", "lowcase", "number":
			t := r.next()
			s += fmt.Sprintf(" %s@%d", t.Kind, t.Pos)
		case "any", "not":
			t := r.next()
			l := r.need("string_lit")
			in := unq(l.Text[1 : len(l.Text)-1])
			s += fmt.Sprintf(" %s{%s}@%d", k, sorted(in), t.Pos)
		case "char_lit":
			t := r.next()
			s += fmt.Sprintf(" char{%s}@%d", unq(t.Text[1:len(t.Text)-1]), t.Pos)
		case "'[":
			t := r.next()
			b := ""
			seen := map[string]bool{}
			for r.peek() != "]'" {
				x := r.next()
				if x.Kind == "-" {
					b += " -"
					x = r.next()
				} else {
					b += " +"
				}
				if seen[x.Kind] {
					r.fail("duplicate range")
				}
				seen[x.Kind] = true
				b += x.Kind
			}
			r.next()
			s += fmt.Sprintf(" set{%s}@%d", b, t.Pos)
		case "tokid":
			t := r.next()
			d, ok := r.defs[t.Text]
			if !ok {
				r.fail(t.Text)
			}
			s += d
		case "(", "[", "{", "<":
			t := r.next()
			s += fmt.Sprintf(" %s@%d", k, t.Pos)
			for {
				s += r.regexp()
				if x := r.next(); x.Kind == "|" {
					s += " |"
				} else if x.Kind == closer[k] {
					s += " " + x.Kind
					break
				} else {
					panic("not a sentence")
				}
			}
		default:
			panic("not a sentence: " + k)
		}
	}
}

func sorted(s string) string {
	set := map[rune]bool{}
	for _, r := range s {
		set[r] = true
	}
	var out []rune
	for r := range set {
		i := len(out)
		out = append(out, r)
		for i > 0 && out[i-1] > out[i] {
			out[i-1], out[i] = out[i], out[i-1]
			i--
		}
	}
	return string(out)
}

// Earley recognises prefixes of sentences.
type Earley struct {
	g        *gram.G
	nullable []bool
	sets     [][]item
	idx      []map[item]bool
	alts     []alt
	of       [][]int // alternates per nonterminal
}

type alt struct {
	nt   int
	body []int
}

type item struct{ alt, dot, from int }

func NewEarley(g *gram.G) *Earley {
	e := &Earley{g: g, nullable: g.Nullable()}
	for n, as := range g.Alts {
		var ks []int
		for _, a := range as {
			ks = append(ks, len(e.alts))
			e.alts = append(e.alts, alt{n, a})
		}
		e.of = append(e.of, ks)
	}
	e.push()
	for _, k := range e.of[0] {
		e.add(0, item{k, 0, 0})
	}
	e.close(0)
	return e
}

func (e *Earley) push() {
	e.sets = append(e.sets, nil)
	e.idx = append(e.idx, map[item]bool{})
}

func (e *Earley) add(k int, it item) {
	if !e.idx[k][it] {
		e.idx[k][it] = true
		e.sets[k] = append(e.sets[k], it)
	}
}

func (e *Earley) close(k int) {
	for i := 0; i < len(e.sets[k]); i++ {
		it := e.sets[k][i]
		a := e.alts[it.alt]
		if it.dot == len(a.body) {
			for j := 0; j < len(e.sets[it.from]); j++ {
				p := e.sets[it.from][j]
				b := e.alts[p.alt].body
				if p.dot < len(b) && gram.IsNT(b[p.dot]) && gram.Idx(b[p.dot]) == a.nt {
					e.add(k, item{p.alt, p.dot + 1, p.from})
				}
			}
			continue
		}
		if s := a.body[it.dot]; gram.IsNT(s) {
			for _, x := range e.of[gram.Idx(s)] {
				e.add(k, item{x, 0, k})
			}
			if e.nullable[gram.Idx(s)] {
				e.add(k, item{it.alt, it.dot + 1, it.from})
			}
		}
	}
}

// Expected are the terminals that can follow the prefix.
func (e *Earley) Expected() []bool {
	x := make([]bool, len(e.g.Ts))
	for _, it := range e.sets[len(e.sets)-1] {
		a := e.alts[it.alt]
		if it.dot < len(a.body) && !gram.IsNT(a.body[it.dot]) {
			x[a.body[it.dot]] = true
		}
	}
	return x
}

// Accept says whether the prefix is a sentence.
func (e *Earley) Accept() bool {
	for _, it := range e.sets[len(e.sets)-1] {
		a := e.alts[it.alt]
		if a.nt == 0 && it.from == 0 && it.dot == len(a.body) {
			return true
		}
	}
	return false
}

// Shift appends a terminal that is expected.
func (e *Earley) Shift(t int) {
	k := len(e.sets)
	e.push()
	for _, it := range e.sets[k-1] {
		a := e.alts[it.alt]
		if it.dot < len(a.body) && a.body[it.dot] == t {
			e.add(k, item{it.alt, it.dot + 1, it.from})
		}
	}
	e.close(k)
}

// Pop removes the last terminal.
func (e *Earley) Pop() {
	e.sets = e.sets[:len(e.sets)-1]
	e.idx = e.idx[:len(e.idx)-1]
}

// Items is the size of the last set.
func (e *Earley) Items() int { return len(e.sets[len(e.sets)-1]) }
