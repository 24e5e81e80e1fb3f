package main

import (
	"fmt"
	"sort"
	"strings"

	"verifmc/drv"
	"verifmc/lx"
	"verifmc/rt"
)

func init() {
	checks["C06"] = check{"model_checking", lexTokCheck}
	checks["C07"] = check{"model_checking", lexAPICheck}
	checks["C19"] = check{"model_checking", lexSetsCheck}
}

// lexSpec is a small set of lexical rules; names are made unique when several
// are joined into one lexer.
type lexSpec struct {
	rules    [][2]string // {name, body}; the name may start with !
	lits     []string
	alphabet string
	maxLen   int
	inputs   []string
	tmpl     []string
}

func (l lexSpec) title() string {
	var b strings.Builder
	for _, r := range l.rules {
		fmt.Fprintf(&b, "%s : %s ; ", r[0], r[1])
	}
	for _, s := range l.lits {
		fmt.Fprintf(&b, "%q ", s)
	}
	return strings.TrimSpace(b.String())
}

func tokName(r string, pre string) string {
	if strings.HasPrefix(r, "!") {
		return "!" + pre + r[1:]
	}
	return pre + r
}

func lexSource(rules string, specs []*rt.LexCase) string {
	var b strings.Builder
	b.WriteString(rules)
	b.WriteString("Start : ")
	n := 0
	seen := map[string]bool{}
	alt := func(s string) {
		if seen[s] {
			return
		}
		seen[s] = true
		if n > 0 {
			b.WriteString(" | ")
		}
		n++
		b.WriteString(s)
	}
	for _, c := range specs {
		for _, l := range c.Lits {
			alt(`"` + l + `"`)
		}
	}
	if n == 0 {
		for _, r := range lx.Parse(specs[0].Rules, nil).Rules {
			if !r.Suppress {
				alt(r.ID)
			}
		}
	}
	b.WriteString(" ;\n")
	return b.String()
}

// lexUnits joins specs into lexers, each spec behind its own marker rune.
func lexUnits(fam string, specs []lexSpec, per int) (us []*drv.Unit, cs []*rt.Case) {
	for i := 0; i < len(specs); i += per {
		j := i + per
		if j > len(specs) {
			j = len(specs)
		}
		id := fmt.Sprintf("%s%d", fam, i/per)
		var all strings.Builder
		var lcs []*rt.LexCase
		for k, s := range specs[i:j] {
			m := sel(k)
			var b strings.Builder
			for _, r := range s.rules {
				fmt.Fprintf(&b, "%s : '%s' %s ;\n", tokName(r[0], fmt.Sprintf("c%d", k)), m, r[1])
			}
			lc := &rt.LexCase{Rules: b.String(), Prefix: m, Alphabet: strings.ReplaceAll(s.alphabet, "\x01", m), MaxLen: s.maxLen}
			for _, l := range s.lits {
				lc.Lits = append(lc.Lits, m+l)
			}
			for _, in := range s.inputs {
				lc.Inputs = append(lc.Inputs, m+in)
			}
			for _, t := range s.tmpl {
				lc.Templates = append(lc.Templates, m+t)
			}
			all.WriteString(b.String())
			lcs = append(lcs, lc)
			cs = append(cs, &rt.Case{ID: fmt.Sprintf("%s.%d", id, k), Unit: id, Sel: -1, Title: s.title(), Lex: lc})
		}
		us = append(us, &drv.Unit{ID: id, Source: lexSource(all.String(), lcs), Adapter: "lex"})
	}
	return
}

// lexAlone makes one lexer per spec.
func lexAlone(fam string, specs []lexSpec) (us []*drv.Unit, cs []*rt.Case) {
	for i, s := range specs {
		id := fmt.Sprintf("%s%d", fam, i)
		var b strings.Builder
		for _, r := range s.rules {
			fmt.Fprintf(&b, "%s : %s ;\n", r[0], r[1])
		}
		lc := &rt.LexCase{Rules: b.String(), Lits: s.lits, Alphabet: s.alphabet, MaxLen: s.maxLen, Inputs: s.inputs, Templates: s.tmpl}
		cs = append(cs, &rt.Case{ID: id, Unit: id, Sel: -1, Title: s.title(), Lex: lc})
		us = append(us, &drv.Unit{ID: id, Source: lexSource(b.String(), []*rt.LexCase{lc}), Adapter: "lex"})
	}
	return
}

// res enumerates regular expressions of exactly n nodes over {a,b}.
func res(n int) []string {
	type k struct {
		n    int
		item bool
	}
	memo := map[k][]string{}
	var seqs, items func(n int) []string
	items = func(n int) (out []string) {
		if x, ok := memo[k{n, true}]; ok {
			return x
		}
		if n == 1 {
			out = []string{"'a'", "'b'"}
		} else {
			var alts []string
			alts = append(alts, seqs(n-1)...)
			for i := 1; i < n-1; i++ {
				for _, x := range seqs(i) {
					for _, y := range seqs(n - 1 - i) {
						alts = append(alts, x+" | "+y)
					}
				}
			}
			for _, br := range []string{"()", "[]", "{}", "<>"} {
				for _, a := range alts {
					out = append(out, br[:1]+a+br[1:])
				}
			}
		}
		memo[k{n, true}] = out
		return
	}
	seqs = func(n int) (out []string) {
		if x, ok := memo[k{n, false}]; ok {
			return x
		}
		out = append(out, items(n)...)
		for i := 1; i < n; i++ {
			for _, x := range items(i) {
				for _, y := range seqs(n - i) {
					out = append(out, x+" "+y)
				}
			}
		}
		memo[k{n, false}] = out
		return
	}
	return seqs(n)
}

// resUpTo is all of them up to n nodes, one of each pair that differs by
// swapping a and b.
func resUpTo(n int, canon bool) (out []string) {
	for i := 1; i <= n; i++ {
		for _, r := range res(i) {
			if canon {
				if x := strings.IndexAny(r, "ab"); r[x] == 'b' {
					continue
				}
			}
			out = append(out, r)
		}
	}
	return
}

var overlapSyms = []string{"'a'", "'1'", `any "ab"`, `any "b1"`, `any "cA"`, `not "a"`, `not "b1"`, ".", "letter", "upcase", "lowcase", "number",
	`'[\p{Lu}\p{Nd}]'`, `'[\p{L}-\p{Lu}]'`, `'[\p{Hex_Digit}]'`}

func lexFamilies(c *Ctx) (us []*drv.Unit, cs []*rt.Case) {
	add := func(u []*drv.Unit, k []*rt.Case) { us = append(us, u...); cs = append(cs, k...) }
	th := c.Thorough()
	n1, l1 := 5, 6
	if th {
		n1, l1 = 5, 9
	}
	var a []lexSpec
	for _, r := range resUpTo(n1, true) {
		a = append(a, lexSpec{rules: [][2]string{{"t0", r}}, alphabet: "ab", maxLen: l1})
	}
	add(lexUnits("ra", a, 60))
	// two rules: the second one's name sorts first
	a = nil
	n2 := 3
	if th {
		n2 = 4
	}
	for _, r := range resUpTo(n2, true) {
		for _, q := range resUpTo(2, false) {
			a = append(a, lexSpec{rules: [][2]string{{"t1", r}, {"t0", q}}, alphabet: "ab", maxLen: 4})
		}
	}
	add(lexUnits("rb", a, 60))
	// a literal and a rule
	a = nil
	for _, r := range resUpTo(n2, false) {
		for _, l := range []string{"a", "b", "ab", "ba", "aa", "aab"} {
			if l != "aab" && l != "ab" && !th {
				continue
			}
			a = append(a, lexSpec{rules: [][2]string{{"t0", r}}, lits: []string{l, "b"}, alphabet: "ab", maxLen: 4})
		}
	}
	add(lexUnits("rc", a, 60))
	// overlapping sets: triples
	a = nil
	n := len(overlapSyms)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			for k := j + 1; k < n; k++ {
				x, y, z := overlapSyms[i], overlapSyms[j], overlapSyms[k]
				a = append(a, lexSpec{rules: [][2]string{{"t0", x + " '('"}, {"t1", y + " '['"}, {"t2", z + " '{'"}},
					alphabet: "abc1Aé中Ǆǅ²_ ([{", maxLen: 2})
			}
		}
	}
	add(lexUnits("oa", a, 40))
	// pairs in loops and options
	a = nil
	for i, x := range overlapSyms {
		for j, y := range overlapSyms {
			if i == j {
				continue
			}
			for _, f := range []string{"{X} Y", "<X | Y '('> X", "X [Y] X", "[X] {Y}"} {
				if !th && f == "X [Y] X" {
					continue
				}
				b := strings.ReplaceAll(strings.ReplaceAll(f, "X", x), "Y", y)
				a = append(a, lexSpec{rules: [][2]string{{"t0", b}, {"t1", x + " " + y}}, alphabet: "abc1A(é", maxLen: 3})
			}
		}
	}
	add(lexUnits("ob", a, 40))
	add(lexAlone("cu", curatedLexers()))
	return
}

func longSeq(n int) string { return strings.TrimSpace(strings.Repeat("'a' ", n)) }

func curatedLexers() (a []lexSpec) {
	add := func(alpha string, n int, lits []string, rules ...string) *lexSpec {
		s := lexSpec{lits: lits, alphabet: alpha, maxLen: n}
		for _, r := range rules {
			p := strings.SplitN(r, ":", 2)
			s.rules = append(s.rules, [2]string{strings.TrimSpace(p[0]), strings.TrimSpace(p[1])})
		}
		a = append(a, s)
		return &a[len(a)-1]
	}
	// several tokens in sequence, white space, suppressed tokens
	add("ab1 \n", 6, nil, "id : letter {letter | number}", "nm : <number>")
	add("ab1 \n", 6, []string{"ab", "a"}, "id : letter {letter | number}", "nm : <number>")
	add("ab#\n ", 6, nil, "id : <letter>", "!co : '#' {not \"\\n\"}")
	add("a/*b \n", 6, []string{"/"}, "id : <letter>", `!co : '/' '*' {not "*" | '*' not "/"} '*' '/'`)
	add("a/*\n", 6, nil, "id : <letter>", `!co : '/' '/' {not "\n"}`)
	add("\"a\\n ", 6, nil, `st : '"' {not "\\\"" | '\\' any "\\\"nrt"} '"'`)
	add("'a\\n ", 6, nil, `ch : '\'' (not "'\\" | '\\' any "\\'nrt") '\''`)
	add("ab \t\r\v\u0085\u00a0\u2003", 4, nil, "tk : 'a' {'b'}", "sp : 'b' ' ' 'b'")
	// references to earlier tokens
	add("ab1_ ", 6, nil, "id : letter {letter | number | '_'}", "ref : '_' id", "two : id '_' id '1'")
	add("ab1.", 7, nil, "num : <number>", "flt : num '.' num", "rng : num '.' '.' num", "ab : 'a' num 'b'")
	add("ab", 7, nil, "opt : 'a' ['b']", "rep : opt opt", "lst : <rep> 'b' 'b'")
	for _, n := range []int{2, 3, 5, 9, 16, 17, 18, 20, 33} {
		s := add("ab", 2, nil, fmt.Sprintf("long : %s", longSeq(n)), "one : long 'b' 'a'", "two : long 'c' 'b'", "thr : long 'd'")
		s.alphabet = ""
		for _, tail := range []string{"", "ba", "cb", "d", "bb", "ca", "db", "b", "c"} {
			s.inputs = append(s.inputs, strings.Repeat("a", n)+tail, strings.Repeat("a", n-1)+tail, strings.Repeat("a", n+1)+tail)
		}
		add("ab", 2, nil, fmt.Sprintf("long : %s", longSeq(n)), "one : (long 'b')", "two : [long 'c'] 'b'", "thr : {long}")
	}
	for _, n := range []int{4, 8, 16, 17} {
		s := add("", 0, nil, fmt.Sprintf("base : %s", longSeq(n)), "x1 : base 'p' 'q'", "x2 : base 'r'", "x3 : x1 'u'", "x4 : x1 'v'", "x5 : x3 'w'")
		for _, t := range []string{"pq", "r", "pqu", "pqv", "pquw", "pqw", "rv", "pquv"} {
			s.inputs = append(s.inputs, strings.Repeat("a", n)+t)
		}
	}
	// many rules for one text, names not in order of declaration
	var many []string
	for i := 0; i < 40; i++ {
		many = append(many, fmt.Sprintf("q%02d : 'a' [%s]", (i*17+5)%40, "'"+string(rune('b'+i%3))+"'"))
	}
	add("abcd", 4, nil, many...)
	add("abcd", 4, []string{"ab"}, many...)
	var many2 []string
	for i := 0; i < 14; i++ {
		many2 = append(many2, fmt.Sprintf("q%02d : 'a'", 13-i))
	}
	add("ab", 3, nil, many2...)
	add("ab", 3, []string{"a"}, many2...)
	// literals only
	add("ab<=>-", 5, []string{"<", "<=", "=>", "<=>", "-", "->", "--", "==", "a", "ab"})
	add("ifor ", 6, []string{"if", "for", "or"}, "id : <letter>")
	add("ifor ", 6, []string{"if", "for", "or"}, "id : letter {letter}", "fo : 'f' 'o' any \"ri\"")
	add("\\nt'ra", 5, []string{`\\`, `\\n`, `\\t`, "'", "n"})
	add("\"\\a'", 5, []string{`\"`, `\"a\"`, `'`})
	add("é中aλ𝛼", 5, []string{"é", "é中", "λ𝛼", "𝛼"}, "id : <letter>")
	// nested and nullable brackets
	add("ab", 7, nil, "t0 : 'a' {{'a'}} 'b'")
	add("ab", 7, nil, "t0 : 'a' {['a']} ['b']", "t1 : 'b' [{'a'}] 'b'")
	add("ab", 7, nil, "t0 : 'a' <['a']> 'b'", "t1 : 'b' <{'a' | 'b' 'b'}> 'a'")
	add("ab", 7, nil, "t0 : 'a' {{{'b'} 'a'}} 'b'", "t1 : 'b' <<'a'>> 'b'")
	add("ab", 7, nil, "t0 : {<'a'> | [['b']]} 'b'")
	add("ab", 7, nil, "t0 : {[{'a' | ['b']}]} 'b' 'b'")
	add("abc", 6, nil, "t0 : {'a' {'b' {'c'}}} 'c'")
	add("abc", 6, nil, "t0 : ('a' | 'b' | 'c' 'c') ['a' | 'b' | 'c'] {'a' | 'b' | 'c'} 'c'")
	add("abc", 6, nil, "t0 : < ('a' | 'b') ['c' | 'a' 'a'] > ( 'b' | 'c' 'b')")
	add("abc", 6, nil, "t0 : 'a' ( 'a' ( 'a' ( 'b' | 'c' ) | 'b' ) | 'c' )", "t1 : 'a' {'b'} {'c'} {'a'}")
	// dot
	add("ab\n ", 5, nil, "t0 : 'a' . 'b'", "t1 : 'a' 'a' .", "t2 : 'b' {.} 'a'")
	add("ab\n ", 6, nil, "t0 : 'a' {.} 'b'")
	add("ab-", 6, nil, "t0 : '-' < not \"-\" > '-'", "t1 : '-' '-'")
	// rules of which one is a prefix of the other
	add("abc", 6, nil, "t0 : 'a'", "t1 : 'a' 'b' 'c'")
	add("abc", 6, nil, "t1 : 'a' 'b'", "t0 : 'a' 'b' 'c' 'c'", "t2 : 'c'")
	// a rule that can match nothing
	add("ab ", 5, nil, "t0 : {'a'}", "t1 : ['b']")
	add("ab ", 5, nil, "t0 : {'a'} ['b']", "t1 : 'b'")
	// char literals
	add("'\\\"\n\t\ra", 4, nil, `t0 : '\''`, `t1 : '\\' '\\'`, `t2 : '"'`, `t3 : 'a' ('\n' | '\t' | '\r')`)
	add("\"`$%{}&", 4, nil, "t0 : '`'", "t1 : '$'", "t2 : '%' '{'", "t3 : '&' '}'")
	return
}

func lexTokCheck(c *Ctx) error {
	us, cs := lexFamilies(c)
	if err := c.runUnits("lextok", us, cs, 8, "LexMain", "LexFunc"); err != nil {
		return err
	}
	c.Coverage["model"] = "NFA simulation of the lexical rules (package lx)"
	c.Coverage["bounds"] = map[string]interface{}{"lexers": len(us), "rule sets": len(cs)}
	c.Assume = []string{"Go toolchain", "package unicode", "what the rules say is as read by package lx"}
	return nil
}

var categories = strings.Fields(`Cc Cf Co Cs Digit Nd Letter L Lm Lo Lower Ll Mark M Mc Me Mn Nl No Number N Other C Pc Pd Pe Pf Pi Po Ps Punct P Sc Sk Sm So Space Z Symbol S Title Lt Upper Lu Zl Zp Zs`)
var properties = strings.Fields(`ASCII_Hex_Digit Bidi_Control Dash Deprecated Diacritic Extender Hex_Digit Hyphen IDS_Binary_Operator IDS_Trinary_Operator Ideographic Join_Control Logical_Order_Exception Noncharacter_Code_Point Other_Alphabetic Other_Default_Ignorable_Code_Point Other_Grapheme_Extend Other_ID_Continue Other_ID_Start Other_Lowercase Other_Math Other_Uppercase Pattern_Syntax Pattern_White_Space Prepended_Concatenation_Mark Quotation_Mark Radical Regional_Indicator STerm Sentence_Terminal Soft_Dotted Terminal_Punctuation Unified_Ideograph Variation_Selector White_Space`)

func pset(n string) string { return `'[\p{` + n + `}]'` }

func lexSetsCheck(c *Ctx) error {
	var us []*drv.Unit
	var cs []*rt.Case
	add := func(u []*drv.Unit, k []*rt.Case) { us = append(us, u...); cs = append(cs, k...) }
	// each symbol alone
	syms := []string{".", "letter", "upcase", "lowcase", "number", "'a'", "'é'", "'\\n'", "'\\''", "'\\\\'", "'\"'", `any "aé中𝛼\n\\\""`, `not "aé中𝛼\n\\\""`, `any "z"`, `not "z"`}
	for _, n := range categories {
		syms = append(syms, pset(n))
	}
	for _, n := range properties {
		syms = append(syms, pset(n))
	}
	for _, n := range []string{`\p{L}\p{Nl}\p{Other_ID_Start}-\p{Pattern_Syntax}-\p{Pattern_White_Space}`, `\p{L}-\p{Lu}`, `\p{L}-\p{Lu}-\p{Ll}\p{Nd}`,
		`\p{Hex_Digit}-\p{Nd}`, `\p{N}\p{L}`, `\p{Zs}\p{Cc}`, `\p{L}-\p{L}`, `\p{Letter}-\p{Upper}`, `\p{Mn}\p{Mc}\p{Nd}\p{Pc}\p{Other_ID_Continue}-\p{Pattern_Syntax}`} {
		syms = append(syms, `'[`+n+`]'`)
	}
	var a []lexSpec
	for _, s := range syms {
		a = append(a, lexSpec{rules: [][2]string{{"t0", s}}, tmpl: []string{"\x00"}})
	}
	add(lexUnits("sa", a, 8))
	// every pair out of a selection: which of two overlapping sets has the rune
	sel2 := []string{".", "letter", "upcase", "lowcase", "number", "'a'", "'1'", `any "aé1A"`, `any "aZ中"`, `not "aé1A"`, `not "Z"`,
		pset("L"), pset("Lu"), pset("Nd"), pset("Hex_Digit"), pset("Other_Lowercase"), `'[\p{L}-\p{Lu}]'`, `'[\p{L}\p{Nl}-\p{Pattern_Syntax}]'`, pset("Letter"), pset("Sm"), pset("White_Space"), `'[\p{Lu}\p{Nd}]'`, `'[\p{Lt}\p{Lm}]'`}
	if c.Thorough() {
		sel2 = append(sel2, pset("N"), pset("Ll"), pset("Upper"), pset("P"), pset("Z"), pset("C"), pset("Cc"), pset("Soft_Dotted"), pset("Ideographic"), pset("Pattern_Syntax"), pset("ASCII_Hex_Digit"), `'[\p{N}-\p{Nd}]'`, `any "\n\t "`, `not "\n"`)
	}
	a = nil
	for i := range sel2 {
		for j := i + 1; j < len(sel2); j++ {
			a = append(a, lexSpec{rules: [][2]string{{"t0", sel2[i] + " '('"}, {"t1", sel2[j] + " '['"}}, tmpl: []string{"\x00(", "\x00["}})
		}
	}
	add(lexUnits("sb", a, 8))
	// triples of classes
	a = nil
	tri := []string{"letter", "upcase", "number", `any "a1A"`, `not "aB2"`, pset("Hex_Digit"), `'[\p{L}-\p{Lu}]'`, pset("Nd"), "."}
	for i := range tri {
		for j := i + 1; j < len(tri); j++ {
			for k := j + 1; k < len(tri); k++ {
				a = append(a, lexSpec{rules: [][2]string{{"t0", tri[i] + " '('"}, {"t1", tri[j] + " '['"}, {"t2", tri[k] + " '{'"}}, tmpl: []string{"\x00(", "\x00[", "\x00{"}})
			}
		}
	}
	if !c.Thorough() {
		var b []lexSpec
		for i := range a {
			if i%2 == 0 {
				b = append(b, a[i])
			}
		}
		a = b
	}
	add(lexUnits("sc", a, 8))
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].Unit < cs[j].Unit })
	if err := c.runUnits("lexsets", us, cs, 8, "LexMain", "LexFunc"); err != nil {
		return err
	}
	c.Coverage["bounds"] = map[string]interface{}{"runes": "every rune U+0000..U+10FFFF", "symbols alone": len(syms), "pairs of": len(sel2), "triples of": len(tri), "lexers": len(us), "rule sets": len(cs)}
	c.Coverage["model"] = "membership by the tables of package unicode, NFA simulation per class of runes (package lx)"
	c.Assume = []string{"Go toolchain", "package unicode"}
	return nil
}

func lexAPICheck(c *Ctx) error {
	n := 1
	if c.Thorough() {
		n = 2
	}
	specs := []lexSpec{
		{rules: [][2]string{{"id", "letter {letter | number}"}}, alphabet: "aé1 \n\t", maxLen: 5 + n},
		{rules: [][2]string{{"id", "<letter>"}, {"!co", `'#' {not "\n"}`}}, lits: []string{"+"}, alphabet: "a+#\n\t\r", maxLen: 5 + n},
		{rules: [][2]string{{"st", `'"' {not "\\\"" | '\\' .} '"'`}}, alphabet: "\"\\ntra\n", maxLen: 5 + n},
		{rules: [][2]string{{"!ws", "'_' {'_'}"}, {"bs", `'\\' {.}`}}, lits: []string{"中"}, alphabet: "_\\n中t\n", maxLen: 5 + n},
		{rules: [][2]string{{"!sp", "'a' 'b'"}, {"tk", "'a' 'c'"}}, lits: []string{"\\\\", "$$"}, alphabet: "abc\\$\n", maxLen: 5 + n},
		{rules: [][2]string{{"tx", `'a' {any "a \n\t"} 'b'`}}, alphabet: "ab \n\t", maxLen: 6 + n},
	}
	us, cs := lexAlone("ap", specs)
	if err := c.runUnits("lexapi", us, cs, 6, "LexMain", "LexFunc"); err != nil {
		return err
	}
	md := []lexSpec{
		{rules: [][2]string{{"id", "<letter>"}, {"bq", "'`'"}}, alphabet: "`a\n", maxLen: 9 + n},
		{rules: [][2]string{{"id", "letter"}, {"bb", "'`' '`'"}, {"an", `'#' {not "#"} '#'`}}, alphabet: "`a#", maxLen: 8 + n},
		{rules: [][2]string{{"id", "<letter>"}}, alphabet: "`é\t\n", maxLen: 7 + n},
	}
	us, cs = lexAlone("md", md)
	if err := c.runUnits("lexmd", us, cs, 3, "LexMain", "LexFunc"); err != nil {
		return err
	}
	c.Coverage["bounds"] = map[string]interface{}{"token functions": "all inputs over 5-6 characters up to length 6-7 (thorough 7-8), 6 lexers", "markdown": "all files over 3-4 characters up to length 8-10 (thorough 9-11), 3 lexers"}
	c.Coverage["model"] = "extents by the lexer model; lines, columns, escapes and code blocks by their definition"
	c.Assume = []string{"Go toolchain", "package unicode"}
	return nil
}
