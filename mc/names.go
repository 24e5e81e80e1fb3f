package main

import (
	"fmt"
	"strings"

	"verifmc/drv"
	"verifmc/gram"
	"verifmc/lr"
	"verifmc/rt"
)

func init() {
	checks["C18"] = check{"model_checking", namesCheck}
}

// term is a way to write a terminal.
type term struct {
	src, text, decl string
}

func lit(v string) term { return term{gram.Quote(v), v, ""} }

// named returns g with other names for its nonterminals and terminals.
func named(g *gram.G, nts []string, ts []term) *gram.G {
	c := g.Clone()
	c.NTs = append([]string{}, nts[:len(g.NTs)]...)
	c.Ts, c.TokS, c.Text, c.Decl = nil, nil, nil, nil
	for i := range g.Ts {
		c.Ts = append(c.Ts, ts[i].text)
		c.TokS = append(c.TokS, ts[i].src)
		c.Text = append(c.Text, ts[i].text)
		if ts[i].decl != "" {
			c.Decl = append(c.Decl, ts[i].decl)
		}
	}
	return c
}

// joinNamed is an amalgam of grammars which keeps their names.
func joinNamed(id, start string, gs []*gram.G) (src string, cs []*rt.Case) {
	var w strings.Builder
	fmt.Fprintf(&w, "%s : ", start)
	for i, g := range gs {
		if i > 0 {
			w.WriteString("\n  | ")
		}
		fmt.Fprintf(&w, "%s %s", gram.Quote(sel(i)), g.NTs[0])
	}
	w.WriteString(" ;\n")
	decl := map[string]bool{}
	for i, g := range gs {
		for k := range g.NTs {
			w.WriteString(g.RuleSrc(k) + "\n")
		}
		for _, d := range g.Decl {
			if !decl[d] {
				decl[d] = true
				w.WriteString(d + "\n")
			}
		}
		n := len(g.Ts)
		m := &gram.G{NTs: append([]string{start}, g.NTs...), Ts: append(append([]string{}, g.Ts...), sel(i)), Text: append(append([]string{}, g.Text...), sel(i))}
		m.Alts = append(m.Alts, [][]int{{n, gram.NT(1)}})
		for _, as := range g.Alts {
			var na [][]int
			for _, a := range as {
				b := []int{}
				for _, s := range a {
					if s < 0 {
						s--
					}
					b = append(b, s)
				}
				na = append(na, b)
			}
			m.Alts = append(m.Alts, na)
		}
		cs = append(cs, &rt.Case{ID: fmt.Sprintf("%s.%d", id, i), Unit: id, G: m, Alone: g, Sel: n, AltOff: i})
	}
	return w.String(), cs
}

// nameBases are LR(1) grammars over two nonterminals and two terminals.
func nameBases() (gs []*gram.G) {
	for _, s := range []string{
		"S : a A | b ; A : b S | a",
		"S : a S | A ; A : b A a | empty",
		"S : A a | S b ; A : b A | a b",
	} {
		g := gram.Parse(s)
		if a := lr.Build(g, 1000); a == nil || a.Conflict {
			panic("not LR(1): " + s)
		}
		gs = append(gs, g)
	}
	return
}

var alikePool = []string{"a", "aa", "aaa", "•", "•a", "a•", "∙a", "a∙", ",", "a,a", ":", "a:", "a;a", "a|a"}

// alikeBase has bodies that are part of another.
func alikeBase() *gram.G {
	g := gram.Parse("S : a | b | a a | a b | b a A | b b S ; A : a | b | a b | b a a | a b b")
	if a := lr.Build(g, 1000); a == nil || a.Conflict {
		panic("not LR(1)")
	}
	return g
}

// wideBase has more than ten alternates for both nonterminals.
func wideBase() *gram.G {
	var s, a []string
	for i := 0; i < 12; i++ {
		b := ""
		for k := 0; k < 4; k++ {
			b += " " + string("ab"[i>>k&1])
		}
		s = append(s, "a"+b)
		a = append(a, "b"+b+" b")
	}
	return gram.Parse("S : " + strings.Join(s, " | ") + " | b A ; A : " + strings.Join(a, " | "))
}

var ntPool = []string{"S", "A", "G0", "G00", "G", "S1", "S10", "S1R0", "S0R", "X_", "X__", "Ä", "Ωμ", "NT", "T", "Error", "EOF", "Label", "Symbol",
	"Slot", "Empty", "String", "INVALID", "If", "E2E", "S_1", "Z9", "É٣", "NT_S", "T_0", "Token", "Lexer"}

var litPool = []string{"$", "Error", "EOF", "ϵ", "ℇ", "ε", "empty", "G0", "G00", "S", "A", "S1", "If", "S0R0", "T_0", "T_1", "NT_S", "INVALID", "any", "not", "letter", "package", "end of file",
	"'", "''", `"`, `""`, "`", "``", "*/", "/*", "//", `\`, `\\`, `\n`, "%", "%s", "%d", "%!", "{{", "}}", "{{end}}", "{{.}}", "<", ">", "&", "&amp;", "_", "0", "-1", "∙", "•", ":", ";", "|", "S:a",
	"é", "ß", "λ", "𝛼", "\u0301", "\ufeff", "\u200b", "\x00", "\x01", "\x07", "\x1b", "\x7f", "\u0081", "\ufffd", "\ufffe", "\U0010ffff", "true", "nil", "func", "token.EOF", "\"Error\"", "\"S\"", "id", "err"}

// tokens rules with names that are also literals or special
var rulePool = []term{
	{"id", "#id", "id : '#' 'i' 'd' ;"}, {"empty1", "#em", "empty1 : '#' 'e' 'm' ;"}, {"err", "#err", "err : '#' 'e' 'r' 'r' ;"},
	{"eof", "#eof", "eof : '#' 'e' 'o' 'f' ;"}, {"s1", "#s1", "s1 : '#' 's' '1' ;"}, {"éa", "#é", "éa : '#' 'é' ;"}, {"t_0", "#t", "t_0 : '#' 't' ;"}, {"func", "#func", "func : '#' 'f' 'u' 'n' 'c' ;"},
	{"nil", "#nil", "nil : '#' 'n' 'i' 'l' ;"}, {"λ2", "#λ", "λ2 : '#' 'λ' ;"}, {"ß_", "#ß", "ß_ : '#' 'ß' ;"},
}

type nameUnits struct {
	us []*drv.Unit
	cs []*rt.Case
}

func (n *nameUnits) alone(id string, g *gram.G, max int, gen genKind) {
	id += gen.suffix
	n.us = append(n.us, &drv.Unit{ID: id, Source: g.Rules(), Adapter: gen.adapter, Flags: gen.flags, Gs: []*gram.G{g}})
	n.cs = append(n.cs, &rt.Case{ID: id, Unit: id, G: g, Alone: g, Sel: -1, MaxLen: max})
}

func (n *nameUnits) joined(id, start string, gs []*gram.G, max int, gen genKind) {
	id += gen.suffix
	src, cs := joinNamed(id, start, gs)
	for _, c := range cs {
		c.MaxLen = max
	}
	n.us = append(n.us, &drv.Unit{ID: id, Source: src, Adapter: gen.adapter, Flags: gen.flags})
	n.cs = append(n.cs, cs...)
}

type genKind struct {
	suffix, adapter string
	flags           []string
}

var (
	genGLL   = genKind{"g", "gll", nil}
	genKnuth = genKind{"k", "lrplain", []string{"-knuth"}}
	genPager = genKind{"p", "lrplain", []string{"-pager"}}
)

func pairs(ts []term) (ps [][]term) {
	for i := 0; i < len(ts); i += 2 {
		ps = append(ps, []term{ts[i], ts[(i+1)%len(ts)]})
	}
	return
}

// nastyChars are those that some stage of the generation may treat specially.
const nastyChars = "\"\\'`$%{}&#*/<>-n0x\x00\x7f\ufeffé中\u0301"

func namesCheck(c *Ctx) error {
	bases := nameBases()
	var all []term
	for _, l := range litPool {
		if !strings.ContainsAny(l, " \t\r\n") {
			all = append(all, lit(l))
		}
	}
	run := func(gen genKind, main, typ, check string) error {
		var n nameUnits
		// nonterminal names, all in one grammar
		for b, base := range bases {
			if b > 0 && !c.Thorough() {
				break
			}
			for rot := 0; rot < 2; rot++ {
				var gs []*gram.G
				for i := 0; i+1 < len(ntPool); i += 2 {
					x, y := ntPool[(i+rot)%len(ntPool)], ntPool[(i+1+rot)%len(ntPool)]
					gs = append(gs, named(base, []string{x, y}, []term{lit("a"), lit("b")}))
				}
				n.joined(fmt.Sprintf("nt%dr%d", b, rot), "Start", gs, 4, gen)
			}
		}
		// literals, token rules
		ts := append(append([]term{}, all...), rulePool...)
		pl := pairs(ts)
		for rot := 0; rot < 2; rot++ {
			const per = 24
			for i := 0; i < len(pl); i += per {
				var gs []*gram.G
				for k := i; k < i+per && k < len(pl); k++ {
					p := pl[k]
					gs = append(gs, named(bases[(k+rot)%len(bases)], []string{fmt.Sprintf("L%dS", k-i), fmt.Sprintf("L%dA", k-i)}, []term{p[rot], p[1-rot]}))
				}
				n.joined(fmt.Sprintf("li%dr%d", i/per, rot), "Start", gs, 4, gen)
			}
		}
		// alone: one special name at a time, in each role
		for i, x := range ntPool {
			y := "Other"
			n.alone(fmt.Sprintf("an%d", i), named(bases[i%len(bases)], []string{x, y}, []term{lit(x), lit(y)}), 4, gen)
			if c.Thorough() {
				n.alone(fmt.Sprintf("ao%d", i), named(bases[(i+1)%len(bases)], []string{y, x}, []term{lit(x), lit("b")}), 4, gen)
			}
		}
		for i, x := range []string{"$", "Error", "EOF", "ϵ", "ℇ", "empty", "G0", "id", "#id", "err", "*/", "`", `\`, `"`, "\"S\"", "\"id\""} {
			r := term{"id", "#i", "id : '#' 'i' ;"}
			if x == "#id" {
				r = term{"id", "#id", "id : '#' 'i' 'd' ;"}
				n.alone(fmt.Sprintf("at%d", i), named(bases[i%len(bases)], []string{"S", "A"}, []term{lit("id"), r}), 4, gen)
				continue
			}
			n.alone(fmt.Sprintf("at%d", i), named(bases[i%len(bases)], []string{"S", "A"}, []term{lit(x), r}), 4, gen)
			if c.Thorough() {
				n.alone(fmt.Sprintf("au%d", i), named(bases[(i+1)%len(bases)], []string{"S", "A"}, []term{lit("x"), lit(x)}), 4, gen)
			}
		}
		for i, p := range [][]string{{"S", "S1"}, {"S1", "S"}, {"S", "S0R"}, {"G", "G0"}, {"G0", "G"}, {"S_", "S_1"}, {"S1", "S10"}} {
			n.alone(fmt.Sprintf("aw%d", i), named(wideBase(), p, []term{lit("a"), lit("b")}), 6, gen)
		}
		// pairs of literals of which the concatenations, also with signs that
		// may separate symbols, are alike
		var alike []*gram.G
		for _, x := range alikePool {
			for _, y := range alikePool {
				if x != y {
					k := len(alike) % 26
					alike = append(alike, named(alikeBase(), []string{fmt.Sprintf("L%dS", k), fmt.Sprintf("L%dA", k)}, []term{lit(x), lit(y)}))
				}
			}
		}
		for i := 0; i < len(alike); i += 26 {
			n.joined(fmt.Sprintf("al%d", i/26), "Start", alike[i:i+26], 4, gen)
		}
		// every character as a literal
		var rs []rune
		for r := rune(0); r < 0x180; r++ {
			rs = append(rs, r)
		}
		for _, r := range []rune{0x2028, 0x200b, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0xe000, 0x1f600, 0x10ffff, 0x301, 0x202e, 0xfdd0} {
			rs = append(rs, r)
		}
		var cl []term
		for _, r := range rs {
			if !isSpace(r) {
				cl = append(cl, lit(string(r)))
			}
		}
		nasty := []rune(nastyChars)
		for _, x := range nasty {
			for _, y := range nasty {
				cl = append(cl, lit(string(x)+string(y)))
			}
		}
		per := 100
		for i := 0; i < len(cl); i += per {
			j := i + per
			if j > len(cl) {
				j = len(cl)
			}
			g := &gram.G{NTs: []string{"List", "Char"}, Alts: [][][]int{{{gram.NT(0), gram.NT(1)}, {}}, nil}}
			for k, t := range cl[i:j] {
				g.Ts, g.TokS, g.Text = append(g.Ts, t.text), append(g.TokS, t.src), append(g.Text, t.text)
				g.Alts[1] = append(g.Alts[1], []int{k})
			}
			id := fmt.Sprintf("ch%d%s", i/per, gen.suffix)
			cs := &rt.Case{ID: id, Unit: id, G: g, Alone: g, Sel: -1, Title: fmt.Sprintf("List : List Char | empty ; Char : %s | ... %s", cl[i].src, cl[j-1].src)}
			for k := range g.Ts {
				cs.Inputs = append(cs.Inputs, []int{k}, []int{k, (k + 1) % len(g.Ts)}, []int{(k + 7) % len(g.Ts), k, k})
			}
			n.us = append(n.us, &drv.Unit{ID: id, Source: g.Rules(), Adapter: gen.adapter, Flags: gen.flags, Gs: []*gram.G{g}})
			n.cs = append(n.cs, cs)
		}
		return c.runUnits(check, n.us, n.cs, 8, main, typ)
	}
	if err := run(genGLL, "GLLMain", "GLLFunc", "recog"); err != nil {
		return err
	}
	if err := run(genKnuth, "LRMain", "LRFunc", "lrlang"); err != nil {
		return err
	}
	if err := run(genPager, "LRMain", "LRFunc", "lrlang"); err != nil {
		return err
	}
	// every character in lexical rules
	var a []lexSpec
	for r := rune(0); r < 0x180; r++ {
		a = append(a, charSpecs(r)...)
	}
	for _, r := range []rune{0x2028, 0x200b, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0xe000, 0x1f600, 0x10ffff, 0x301} {
		a = append(a, charSpecs(r)...)
	}
	us, cs := lexUnits("lc", a, 100)
	if err := c.runUnits("lextok", us, cs, 8, "LexMain", "LexFunc"); err != nil {
		return err
	}
	c.Assume = []string{"Go toolchain", "package unicode"}
	return nil
}

func isSpace(r rune) bool {
	return strings.TrimSpace("x"+string(r)) == "x"
}

// charSpecs are the rules in which character r is written.
func charSpecs(r rune) (a []lexSpec) {
	s := string(r)
	cs, ss := s, s
	switch r {
	case '\'':
		cs = `\'`
	case '\\':
		cs, ss = `\\`, `\\`
	case '"':
		ss = `\"`
	}
	al := s + "q'\\"
	if r == 'q' || r == '\'' || r == '\\' {
		al = "q'\\z"
	}
	spec := func(cs, ss string) {
		a = append(a, lexSpec{rules: [][2]string{{"t0", "'" + cs + "'"}, {"t1", `'x' any "z` + ss + `"`}, {"t2", `'y' not "` + ss + `z"`}}, alphabet: al + "xy", maxLen: 2})
	}
	spec(cs, ss)
	// the escape sequences
	if i := strings.IndexRune("\t\n\r", r); i >= 0 {
		e := `\` + string("tnr"[i])
		spec(e, e)
	}
	return
}
