package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verifmc/drv"
	"verifmc/gs"
	"verifmc/lx"
	"verifmc/rt"
)

func init() {
	checks["C15"] = check{"model_checking", frontCheck}
}

// frontAlphabets are the sets of terminals over which all viable prefixes up to
// a number of tokens are explored.
var frontAlphabets = []struct {
	name, alpha     string
	quick, thorough int
}{
	{"core", `package string_lit tokid nt : ; | ( ) . empty`, 10, 11},
	{"syntax", `package string_lit nt tokid : ; | empty`, 11, 13},
	{"symbols", `package string_lit tokid nt : ; ! . any not letter upcase lowcase number char_lit`, 8, 9},
	{"brackets", `package string_lit tokid : ; | ( ) [ ] { } < > char_lit`, 8, 9},
	{"nest", `package string_lit tokid : ; | ( ) [ ] .`, 11, 13},
	{"repeat", `package string_lit tokid : ; | { } < > .`, 9, 11},
	{"sets", `package string_lit tokid : ; '[ \p{L} \p{White_Space} \p{Nd} - ]'`, 11, 13},
	{"rules", `package string_lit tokid nt ! : ; .`, 13, 15},
}

func frontCheck(c *Ctx) error {
	b, err := os.ReadFile(filepath.Join(c.Repo, "gogll.md"))
	if err != nil {
		return err
	}
	src := gs.Read(gs.Code(string(b)))
	var all []string
	sets := map[string]bool{}
	for _, t := range src.G.Ts {
		all = append(all, t)
		if strings.HasPrefix(t, `\p`) {
			sets[t] = true
		}
	}
	// of the categories and properties a few represent the others as wrong tokens
	var wrong []string
	n := 0
	for _, t := range all {
		if sets[t] {
			if n++; n%20 != 1 {
				continue
			}
		}
		wrong = append(wrong, t)
	}
	const parts = 8
	var us []*drv.Unit
	var cs []*rt.Case
	for p := 0; p < parts; p++ {
		id := fmt.Sprintf("fr%d", p)
		us = append(us, &drv.Unit{ID: id, Root: true, Adapter: "front"})
		add := func(name, alpha, wrong string, max, cut int) {
			cs = append(cs, &rt.Case{ID: fmt.Sprintf("%s.%s", id, name), Unit: id, G: src.G, Sel: -1, MaxLen: max, Title: "gogll.md over " + name,
				Extra: map[string]string{"parts": fmt.Sprint(parts), "part": fmt.Sprint(p), "cut": fmt.Sprint(cut), "alpha": alpha, "wrong": wrong}})
		}
		// every terminal, behind every prefix
		add("all", strings.Join(all, " "), strings.Join(all, " "), 6, 5)
		for _, a := range frontAlphabets {
			k := a.quick
			if c.Thorough() {
				k = a.thorough
			}
			add(a.name, a.alpha, a.alpha, k, 6)
		}
	}
	if err := c.runUnits("front", us, cs, parts, "FrontMain", "FrontFunc"); err != nil {
		return err
	}
	// the lexer of gogll
	us, cs = nil, nil
	lexer := func(id, alpha string, n int) {
		us = append(us, &drv.Unit{ID: id, Root: true, Adapter: "lex"})
		cs = append(cs, &rt.Case{ID: id, Unit: id, Sel: -1, Title: "gogll.md's lexer", Lex: &rt.LexCase{Rules: src.Lex, Lits: src.Lits, Alphabet: alpha, MaxLen: n}})
	}
	deep := 0
	if c.Thorough() {
		deep = 1
	}
	lexer("rl0", "\"'\\na[", 7+deep)
	lexer("rl1", "aAé1_Ⅷ'\"- ", 5+deep)
	lexer("rl2", ":;|!.()[]{}<>-'\"", 4+deep)
	lexer("rl3", "emptyx_ ", 6+deep)
	lexer("rl4", "\\p{L}u']", 6+deep)
	lexer("rl5", "notayE", 6+deep)
	lexer("rl6", "'\\nrt\"q", 6+deep)
	// every literal: all its prefixes, in all small contexts
	id := "rl7"
	lexer(id, "", 0)
	lc := cs[len(cs)-1].Lex
	for _, l := range src.Lits {
		v := string(lx.Unquote(l))
		for i := range v + "." {
			for _, ch := range " aZ_é1\"'\\;|}]L" {
				lc.Inputs = append(lc.Inputs, v[:i]+string(ch), string(ch)+v[:i], v[:i]+string(ch)+v[i:])
			}
		}
		for _, m := range src.Lits {
			lc.Inputs = append(lc.Inputs, v+string(lx.Unquote(m)), string(lx.Unquote(m))+" "+v)
		}
	}
	// every rune
	for i, tm := range []string{"\x00", "a\x00", "A\x00", "'\x00'", "\"\x00\"", "'\\\x00'", "\"\\\x00\"", "\\\x00"} {
		lexer(fmt.Sprintf("rs%d", i), "", 0)
		cs[len(cs)-1].Lex.Templates = []string{tm}
	}
	lcs, scs := cs[:8], cs[8:]
	ul, uset := us[:8], us[8:]
	if err := c.runUnits("lextok", ul, lcs, 8, "LexMain", "LexFunc"); err != nil {
		return err
	}
	if err := c.runUnits("lexeach", uset, scs, 8, "LexMain", "LexFunc"); err != nil {
		return err
	}
	us, cs = nil, nil
	lexer("rm0", "`\na\"", 6+deep)
	lexer("rm1", "`a\r\n'", 6+deep)
	lexer("rm2", "`é\t;", 6+deep)
	if err := c.runUnits("lexmd", us, cs, 8, "LexMain", "LexFunc"); err != nil {
		return err
	}
	c.Assume = []string{"Go toolchain", "gogll.md, read by the small reader mc/gs, is the definition of the language"}
	return nil
}
