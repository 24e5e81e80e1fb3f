package rt

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode"

	"verifmc/lx"
)

// LexCase is a set of lexical rules to explore.
type LexCase struct {
	Rules     string   // the rules of this case, as gogll source
	Lits      []string // insides of string literals
	Prefix    string   // put in front of every input
	Alphabet  string
	MaxLen    int
	Inputs    []string // explicit inputs, in addition
	Templates []string // for AllRunes: \x00 stands for the rune
	Unsupp    string   // IDs of suppressed rules
}

// LexFlags says what an adapter should collect.
type LexFlags struct {
	API  bool
	File string // read this file instead of the runes
	Pair bool
}

// LexTok is a token of a generated lexer.
type LexTok struct {
	ID         string
	L, R       int
	Line, Col  int
	LLine, LCo int
	LitStr     string
	Lit        []rune
	Strip      []rune
	StripStr   string
	StripPanic string
	Sup        bool
	Str        string
	InSame     bool
	RoundTrip  string
}

// LexResult is what a generated lexer did.
type LexResult struct {
	Toks  []LexTok
	Panic string
	Pairs map[[2]int]string
	I     []rune
}

// LexFunc runs a generated lexer.
type LexFunc func(in []rune, fl LexFlags) *LexResult

func runes(s string) []rune { return []rune(s) }

// EachString calls f with every string over the alphabet up to a length.
func EachString(alpha []rune, n int, f func(w []rune) bool) {
	w := make([]rune, 0, n)
	var rec func() bool
	rec = func() bool {
		if !f(w) {
			return false
		}
		if len(w) == n {
			return true
		}
		for _, r := range alpha {
			w = append(w, r)
			ok := rec()
			w = w[:len(w)-1]
			if !ok {
				return false
			}
		}
		return true
	}
	rec()
}

// LexMain is the main function of lexer shards.
func LexMain(fs map[string]LexFunc) {
	e, done := Start()
	for _, c := range e.Cases {
		if e.Expired() {
			break
		}
		e.Out.Cases++
		sp := lx.Parse(c.Lex.Rules, c.Lex.Lits)
		f := fs[c.Unit]
		switch e.Check {
		case "lextok":
			lexTok(e, c, sp, f)
		case "lexsets":
			lexSets(e, c, sp, f)
		case "lexeach":
			lexEach(e, c, sp, f)
		case "lexapi":
			lexAPI(e, c, sp, f)
		case "lexmd":
			lexMd(e, c, sp, f)
		}
	}
	done()
}

func tokStr(ts []LexTok) string {
	var b strings.Builder
	for i, t := range ts {
		if i == 40 {
			b.WriteString(" ...")
			break
		}
		fmt.Fprintf(&b, " %s(%d,%d)", t.ID, t.L, t.R)
	}
	return b.String()
}

func modStr(ts []lx.Tok) string {
	var b strings.Builder
	for i, t := range ts {
		if i == 40 {
			b.WriteString(" ...")
			break
		}
		fmt.Fprintf(&b, " %s(%d,%d)", t.ID, t.Lext, t.Rext)
	}
	return b.String()
}

func sameToks(a []LexTok, b []lx.Tok) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].ID != b[i].ID || a[i].L != b[i].Lext || a[i].R != b[i].Rext {
			return false
		}
	}
	return true
}

func lexTok(e *Env, c *Case, sp *lx.Spec, f LexFunc) {
	one := func(in []rune) bool {
		s := string(in)
		Mark(c, s)
		r := f(in, LexFlags{})
		want := sp.Tokens(in)
		e.Out.Evals++
		e.Out.Traces++
		e.Out.States += len(want)
		e.Out.Transitions += len(in)
		if r.Panic != "" {
			e.Out.Fail(c, s, "panic", "%s", r.Panic)
			return true
		}
		if !sameToks(r.Toks, want) {
			e.Out.Fail(c, s, "tokens", "got tokens%s, expected%s", tokStr(r.Toks), modStr(want))
		}
		switch {
		case len(want) > 0 && want[0].ID == "Error":
			e.Out.Outcome("first token is an Error token")
		case len(want) == 1:
			e.Out.Outcome("no token")
		default:
			if len(want[0].IDs) > 1 {
				e.Out.Outcome("several rules match the first token")
			}
			e.Out.Outcome("first token is a token")
		}
		return !e.Expired()
	}
	pre := runes(c.Lex.Prefix)
	if c.Lex.Alphabet != "" {
		buf := make([]rune, 0, 40)
		EachString(runes(c.Lex.Alphabet), c.Lex.MaxLen, func(w []rune) bool {
			buf = append(append(buf[:0], pre...), w...)
			return one(append([]rune{}, buf...))
		})
	}
	for _, s := range c.Lex.Inputs {
		one(runes(s))
	}
	lexLong(c, sp, e.Out.Cases <= 6, func(w []rune) { one(w) })
	if len(e.Out.Samples) < 12 {
		e.Out.Samples = append(e.Out.Samples, fmt.Sprintf("%s : all strings over %q up to length %d", c.Title, c.Lex.Alphabet, c.Lex.MaxLen))
	}
}

const maxRune = 0x10FFFF

var symBits = map[string][]bool{}

func bitsOf(n *lx.Node) []bool {
	if b := symBits[n.Src]; b != nil {
		return b
	}
	b := make([]bool, maxRune+1)
	for r := rune(0); r <= maxRune; r++ {
		b[r] = n.In(r)
	}
	symBits[n.Src] = b
	return b
}

// lexSets puts every rune there is in the place of \x00 of the templates.
func lexSets(e *Env, c *Case, sp *lx.Spec, f LexFunc) {
	var bits [][]bool
	seen := map[string]bool{}
	for _, n := range sp.Syms() {
		if !seen[n.Src] {
			seen[n.Src] = true
			bits = append(bits, bitsOf(n))
		}
	}
	type exp struct{ toks []lx.Tok }
	for _, tm := range c.Lex.Templates {
		t := runes(tm)
		hole := -1
		for i, r := range t {
			if r == 0 {
				hole = i
			}
		}
		memo := map[string]*exp{}
		key := make([]byte, len(bits)+1)
		const chunk = 4096
		in := make([]rune, 0, chunk*len(t))
		Mark(c, tm)
		for lo := rune(0); lo <= maxRune; lo += chunk {
			hi := lo + chunk
			if hi > maxRune+1 {
				hi = maxRune + 1
			}
			in = in[:0]
			for r := lo; r < hi; r++ {
				in = append(in, t...)
				in[len(in)-len(t)+hole] = r
			}
			res := f(in, LexFlags{})
			Mark(c, tm)
			if res.Panic != "" {
				e.Out.Fail(c, tm, "panic", "runes from %U: %s", lo, res.Panic)
				continue
			}
			k := 0
			bad := 0
			for r := lo; r < hi; r++ {
				for i, b := range bits {
					key[i] = '0'
					if b[r] {
						key[i] = '1'
					}
				}
				key[len(bits)] = '0'
				if unicode.IsSpace(r) {
					key[len(bits)] = '1'
				}
				x := memo[string(key)]
				if x == nil {
					w := append([]rune{}, t...)
					w[hole] = r
					w = append(w, t[0])
					ts := sp.Tokens(w)
					// the last two are the dangling first rune and the end of file
					if len(ts) < 2 || ts[len(ts)-2].Lext != len(t) {
						panic("template " + tm + " does not stand alone in " + c.Title)
					}
					x = &exp{ts[:len(ts)-2]}
					memo[string(key)] = x
					e.Out.States++
				}
				e.Out.Evals++
				e.Out.Transitions += len(t)
				base := int(r-lo) * len(t)
				ok := k+len(x.toks) <= len(res.Toks)
				if ok {
					for i, w := range x.toks {
						g := res.Toks[k+i]
						if g.ID != w.ID || g.L != base+w.Lext || g.R != base+w.Rext {
							ok = false
						}
					}
				}
				if !ok {
					hi2 := k + len(x.toks) + 1
					if hi2 > len(res.Toks) {
						hi2 = len(res.Toks)
					}
					got := append([]LexTok{}, res.Toks[k:hi2]...)
					for i := range got {
						got[i].L -= base
						got[i].R -= base
					}
					e.Out.Fail(c, strings.ReplaceAll(tm, "\x00", fmt.Sprintf("<%U>", r)), "set", "rune %U: got tokens%s, expected%s", r, tokStr(got), modStr(x.toks))
					bad++
					// resynchronise
					for k < len(res.Toks) && res.Toks[k].L < base+len(t) {
						k++
					}
					if bad > 20 {
						break
					}
					continue
				}
				k += len(x.toks)
				e.Out.Traces++
			}
		}
		e.Out.Outcomes["character classes distinguished"] += len(memo)
	}
	if len(e.Out.Samples) < 12 {
		e.Out.Samples = append(e.Out.Samples, fmt.Sprintf("%s : every rune in %q", c.Title, c.Lex.Templates))
	}
}

// lexEach puts every rune there is in the place of \x00 of the templates. A rune
// which does not change where the next token starts shares an input with others.
func lexEach(e *Env, c *Case, sp *lx.Spec, f LexFunc) {
	for _, tm := range c.Lex.Templates {
		t := runes(tm)
		hole := -1
		for i, r := range t {
			if r == 0 {
				hole = i
			}
		}
		alone := map[int]bool{}
		run := func(in []rune) {
			Mark(c, string(in[:len(t)]))
			res := f(in, LexFlags{})
			want := sp.Tokens(in)
			e.Out.Evals++
			e.Out.Traces += (len(in) + len(t)) / (len(t) + 1)
			e.Out.States += len(want)
			e.Out.Transitions += len(in)
			if res.Panic != "" {
				e.Out.Fail(c, string(in[:len(t)]), "panic", "%s", res.Panic)
			} else if !sameToks(res.Toks, want) {
				k := 0
				for k+1 < len(res.Toks) && k+1 < len(want) && sameToks(res.Toks[k:k+1], want[k:k+1]) {
					k++
				}
				w := len(t) + 1
				at := want[k].Lext / w * w
				if at+len(t) > len(in) {
					at = len(in) - len(t)
				}
				e.Out.Fail(c, string(in[at:at+len(t)]), "set", "rune %U: at %d of %d runes got%s, expected%s", in[at+hole], at, len(in), tokStr(res.Toks[k:k+1]), modStr(want[k:k+1]))
			}
		}
		var batch []rune
		for r := rune(0); r <= maxRune; r++ {
			key := sp.Class(r)
			in := append([]rune{}, t...)
			in[hole] = r
			al, ok := alone[key]
			if !ok {
				ts := sp.Tokens(append(append(append([]rune{}, in...), ';'), in...))
				al = true
				for _, x := range ts {
					if x.Lext == len(in) && x.Rext == len(in)+1 {
						al = false
					}
				}
				alone[key] = al
			}
			if al {
				run(in)
				continue
			}
			batch = append(append(batch, in...), ';')
			if len(batch) > 40000 {
				run(batch)
				batch = batch[:0]
			}
		}
		run(batch)
		e.Out.Outcomes["character classes distinguished"] += len(alone)
		e.Out.Outcome("templates with every rune")
	}
	if len(e.Out.Samples) < 12 {
		e.Out.Samples = append(e.Out.Samples, fmt.Sprintf("%s : every rune in %q", c.Title, c.Lex.Templates))
	}
}

func lineCol(in []rune, i int) (l, c int) {
	l, c = 1, 1
	for _, r := range in[:i] {
		switch r {
		case '\n':
			l, c = l+1, 1
		case '\t':
			c += 4
		default:
			c++
		}
	}
	return
}

func stripEsc(lit []rune) []rune { return lx.Unquote(string(lit)) }

func lexAPI(e *Env, c *Case, sp *lx.Spec, f LexFunc) {
	EachString(runes(c.Lex.Alphabet), c.Lex.MaxLen, func(w []rune) bool {
		in := append([]rune{}, w...)
		s := string(in)
		Mark(c, s)
		r := f(in, LexFlags{API: true, Pair: len(w) <= 4})
		checkAPI(e, c, sp, in, s, r)
		return !e.Expired()
	})
	lexLong(c, sp, false, func(in []rune) {
		Mark(c, string(in))
		checkAPI(e, c, sp, in, string(in), f(in, LexFlags{API: true}))
	})
	if len(e.Out.Samples) < 12 {
		e.Out.Samples = append(e.Out.Samples, fmt.Sprintf("%s : all strings over %q up to length %d", c.Title, c.Lex.Alphabet, c.Lex.MaxLen))
	}
}

// lexLong visits texts u^k v^k of hundreds of runes, and of very many.
func lexLong(c *Case, sp *lx.Spec, huge bool, f func(in []rune)) {
	alpha := runes(c.Lex.Alphabet)
	n := len(alpha)
	if n == 0 {
		return
	}
	lu, lv := 2, 1
	if n > 3 {
		lu = 1
	}
	if n > 6 {
		lv = 0
	}
	word := func(w []int, k int, to []rune) []rune {
		for ; k > 0; k-- {
			for _, s := range w {
				to = append(to, alpha[s])
			}
		}
		return to
	}
	many := 0
	pump(n, lu, lv, 0, 0, func(y, u, v, z []int) {
		text := func(n int) []rune {
			k := n / (len(u) + len(v))
			return word(v, k, word(u, k, runes(c.Lex.Prefix)))
		}
		f(text(300))
		if len(u) == 1 && len(v) == 0 && c.Lex.Prefix == "" {
			f(text(5000))
		}
		if !huge || many == 3 {
			return
		}
		// scanning to find an error can take quadratic time
		for _, t := range sp.Tokens(text(40)) {
			if t.ID == "Error" {
				return
			}
		}
		many++
		f(text(66000))
		f(text(5000))
	})
}

func checkAPI(e *Env, c *Case, sp *lx.Spec, in []rune, s string, r *LexResult) {
	want := sp.Tokens(in)
	e.Out.Evals++
	e.Out.States += len(want)
	e.Out.Transitions += len(in)
	if r.Panic != "" {
		e.Out.Fail(c, s, "panic", "%s", r.Panic)
		return
	}
	if string(r.I) != string(in) {
		e.Out.Fail(c, s, "input", "Lexer.I is %q", string(r.I))
	}
	if !sameToks(r.Toks, want) {
		e.Out.Fail(c, s, "tokens", "got tokens%s, expected%s", tokStr(r.Toks), modStr(want))
		return
	}
	for i, t := range r.Toks {
		l, k := lineCol(in, t.L)
		lit := in[t.L:t.R]
		fail := func(kind, format string, a ...interface{}) {
			e.Out.Fail(c, s, kind, "token %d %s(%d,%d): "+format, append([]interface{}{i, t.ID, t.L, t.R}, a...)...)
		}
		if t.Line != l || t.Col != k {
			fail("position", "Token.GetLineColumn is %d,%d, expected %d,%d", t.Line, t.Col, l, k)
		}
		if t.LLine != l || t.LCo != k {
			fail("position", "Lexer.GetLineColumnOfToken is %d,%d, expected %d,%d", t.LLine, t.LCo, l, k)
		}
		if string(t.Lit) != string(lit) || t.LitStr != string(lit) {
			fail("literal", "Literal is %q, LiteralString %q, expected %q", string(t.Lit), t.LitStr, string(lit))
		}
		if !endsInEscape(lit) {
			if t.StripPanic != "" {
				fail("strip", "LiteralStripEscape: %s", t.StripPanic)
			} else if x := string(stripEsc(lit)); string(t.Strip) != x || t.StripStr != x {
				fail("strip", "LiteralStripEscape of %q is %q (string %q), expected %q", string(lit), string(t.Strip), t.StripStr, x)
			}
		} else if t.StripPanic != "" {
			fail("strip", "LiteralStripEscape of %q: %s", string(lit), t.StripPanic)
		}
		if t.Sup {
			fail("suppress", "is suppressed but in the token list")
		}
		if x := fmt.Sprintf("%s (%d,%d) %s", t.ID, t.L, t.R, string(lit)); t.Str != x {
			fail("string", "String is %q, expected %q", t.Str, x)
		}
		if !t.InSame {
			fail("input", "GetInput is not the input")
		}
		if t.RoundTrip != "" {
			fail("type", "%s", t.RoundTrip)
		}
	}
	for p, got := range r.Pairs {
		x := string(in[r.Toks[p[0]].L:r.Toks[p[1]].R])
		if got != x {
			e.Out.Fail(c, s, "getstring", "GetString(%d,%d) is %q, expected %q", p[0], p[1], got, x)
		}
	}
	e.Out.Traces++
	if len(want) > 1 {
		e.Out.Outcome("inputs with tokens")
	} else {
		e.Out.Outcome("inputs without tokens")
	}
}

// a lone backslash at the end has nothing to escape
func endsInEscape(lit []rune) bool {
	for i := 0; i < len(lit); i++ {
		if lit[i] == '\\' {
			if i == len(lit)-1 {
				return true
			}
			i++
		}
	}
	return false
}

// blank is the model of Markdown input: what is outside code blocks, and the
// fences, is white space; line ends stay.
func blank(in []rune) []rune {
	out := append([]rune{}, in...)
	code := false
	for i := 0; i < len(in); {
		if i+3 <= len(in) && in[i] == '`' && in[i+1] == '`' && in[i+2] == '`' {
			code = !code
			out[i], out[i+1], out[i+2] = ' ', ' ', ' '
			i += 3
			continue
		}
		if !code && in[i] != '\n' {
			out[i] = ' '
		}
		i++
	}
	return out
}

func lexMd(e *Env, c *Case, sp *lx.Spec, f LexFunc) {
	dir, err := os.MkdirTemp(".", "md")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	files := []string{filepath.Join(dir, "f.md"), filepath.Join(dir, "f.txt"), filepath.Join(dir, "f.md.bnf")}
	n := 0
	one := func(w []rune) bool {
		in := append([]rune{}, w...)
		s := string(in)
		for k, fn := range files {
			if k > 0 && len(w) > 4 && len(w) < 100 || k > 1 && len(w) > 4 {
				break
			}
			Mark(c, s)
			if err := os.WriteFile(fn, []byte(s), 0o644); err != nil {
				panic(err)
			}
			r := f(nil, LexFlags{API: true, File: fn})
			eff := in
			if k == 0 {
				eff = blank(in)
			}
			checkMd(e, c, sp, eff, fmt.Sprintf("%s: %s", filepath.Base(fn), s), r)
			b, _ := os.ReadFile(fn)
			if string(b) != s {
				e.Out.Fail(c, s, "file", "the input file was changed")
			}
		}
		n++
		return !e.Expired()
	}
	EachString(runes(c.Lex.Alphabet), c.Lex.MaxLen, one)
	lexLong(c, sp, false, func(in []rune) { one(in) })
	// every part of a text across the end of a block of a file
	for size := 512; size <= 65536; size *= 2 {
		for _, tail := range []string{c.Lex.Alphabet + "\u672c\U0001f600", "```" + c.Lex.Alphabet + "\u672c```" + c.Lex.Alphabet, "\r\n" + c.Lex.Alphabet} {
			for k := 0; k <= len(tail) && k < 24; k++ {
				in := runes(strings.Repeat(" ", size-k) + tail)
				for _, head := range []string{"", "```"} {
					if head != "" {
						copy(in, runes(head))
					}
					one(in)
				}
			}
		}
	}
}

func checkMd(e *Env, c *Case, sp *lx.Spec, eff []rune, s string, r *LexResult) {
	if r.Panic != "" {
		e.Out.Evals++
		e.Out.Fail(c, s, "panic", "%s", r.Panic)
		return
	}
	r.I = eff // how blanked text is kept is not observed, only the tokens
	for i := range r.Toks {
		r.Toks[i].InSame = true
	}
	checkAPI(e, c, sp, eff, s, r)
}
