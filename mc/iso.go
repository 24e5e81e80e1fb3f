package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verifmc/drv"
	"verifmc/gram"
	"verifmc/instr"
	"verifmc/rt"
	"verifmc/sched"
)

func init() {
	checks["C17"] = check{"model_checking", isoCheck}
}

type isoSpec struct {
	rules string
	lr    bool // also as LR(1) parser
	in    []string
}

func isoSpecs() []isoSpec {
	return []isoSpec{
		{`S : "a" S | "b" ; `, true, []string{"b", "a b", "a", "c"}},
		{`S : A B ; A : "a" | "a" "a" ; B : "b" | "a" "b" | empty ;`, false, []string{"a", "a a", "a a b", "b"}},
		{`S : S S | "a" | empty ;`, false, []string{"", "a", "a a", "b"}},
		{`E : E "+" T | T ; T : T "*" F | F ; F : "(" E ")" | id ;
id : letter {letter|number} ; !ws : '/' {not "/"} '/' ;`, true, []string{"x", "x+y", "(x", "/c/*"}},
		{`S : X Y | empty ; X : num | str ; Y : S ;
num : <number> ; str : any "'" {not "'\n"} any "'" ; hex : '0' 'x' <any "abc"|number> ;`, true, []string{"1", "'q' 12", "0x", "'"}},
		{`S : I ; I : "if" I | "if" I "else" I | xx ; xx : <'x'> ;`, false, []string{"x", "if x", "if if x else x", "if"}},
		{`S : "a" A "d" | "b" B "d" | "a" B "e" | "b" A "e" ; A : "c" ; B : "c" ;`, true, []string{"a c d", "b c d", "a c", "c"}},
	}
}

// pureActions makes action routines that build a tree and share nothing.
func pureActions(dir string) error {
	fn := filepath.Join(dir, "ast", "ast.go")
	b, err := os.ReadFile(fn)
	if err != nil {
		return err
	}
	var w strings.Builder
	w.WriteString("package ast\n\nimport \"fmt\"\n\nvar _ = fmt.Sprint\n\n")
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "func ") {
			continue
		}
		i, j := strings.Index(l, "("), strings.Index(l, ")")
		if i < 0 || j < i {
			return fmt.Errorf("ast.go: %q", l)
		}
		n := 0
		if strings.TrimSpace(l[i+1:j]) != "" {
			n = strings.Count(l[i:j], ",") + 1
		}
		var ps []string
		for k := 0; k < n; k++ {
			ps = append(ps, fmt.Sprintf("p%d", k))
		}
		name := strings.TrimSpace(l[5:i])
		typ := ""
		if n > 0 {
			typ = " interface{}"
		}
		sep := ""
		if n > 0 {
			sep = ", "
		}
		fmt.Fprintf(&w, "func %s(%s%s) (interface{}, error) {\n\treturn fmt.Sprint(%q%s%s, \")\"), nil\n}\n\n", name, strings.Join(ps, ", "), typ, name+"(", sep, strings.Join(ps, `, " ", `))
	}
	return os.WriteFile(fn, []byte(w.String()), 0o644)
}

func isoCheck(c *Ctx) error {
	c.Race = true
	var us []*drv.Unit
	var cs []*rt.Case
	add := func(id, rules, adapter string, post func(string) error, in []string, flags ...string) {
		us = append(us, &drv.Unit{ID: id, Source: rules + "\n", Flags: flags, Adapter: adapter, Gs: []*gram.G{}, Post: post})
		cs = append(cs, &rt.Case{ID: id, Unit: id, Sel: -1, Title: strings.Join(strings.Fields(rules), " ") + " " + strings.Join(flags, " "), Lex: &rt.LexCase{Inputs: in}})
	}
	for i, s := range isoSpecs() {
		add(fmt.Sprintf("g%d", i), s.rules, "isogll", nil, s.in)
		if s.lr {
			add(fmt.Sprintf("k%d", i), s.rules, "isolr", pureActions, s.in, "-knuth")
			add(fmt.Sprintf("p%d", i), s.rules, "isolr", pureActions, s.in, "-pager")
		}
	}
	c.PreBuild = func(live []*drv.Unit, shards []*drv.Shard) error {
		n := 0
		for _, u := range live {
			k, err := instr.Yields(c.UDir(u), "ad", "ast")
			if err != nil {
				return err
			}
			if k > sched.Sites {
				return fmt.Errorf("%d statements", k)
			}
			n += k
		}
		c.Logf("%d points of preemption in the code", n)
		c.Coverage["preemption_points"] = n
		return nil
	}
	c.Coverage["bounds"] = map[string]interface{}{"parsers": len(us), "sequences of": 3, "preemptions": "1 at any statement, 2 at beginnings of functions and loop bodies"}
	c.Coverage["model"] = "the result of the parse on its own"
	c.Assume = append(c.Assume, "interleavings within a statement are covered by the race detector only")
	return c.runUnits("iso", us, cs, len(us), "IsoMain", "IsoFunc")
}
