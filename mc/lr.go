package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verifmc/drv"
	"verifmc/gram"
	"verifmc/lr"
	"verifmc/rt"
)

// recorder replaces the generated skeleton of action routines by routines that
// record their calls, and keeps the skeleton as package skel with a check that
// it has a routine of the right type for every alternate.
func recorder(g *gram.G) func(dir string) error {
	return func(dir string) error {
		skel, err := os.ReadFile(filepath.Join(dir, "ast", "ast.go"))
		if err != nil {
			return err
		}
		var rec, chk strings.Builder
		rec.WriteString("package ast\n\nvar Rec func(string, []interface{}) (interface{}, error)\n\n")
		chk.WriteString("package ast\n\nvar _ = []interface{}{\n")
		fn := func(name string, n int) {
			var ps, as []string
			for i := 0; i < n; i++ {
				ps = append(ps, fmt.Sprintf("p%d interface{}", i))
				as = append(as, fmt.Sprintf("p%d", i))
			}
			fmt.Fprintf(&rec, "func %s(%s) (interface{}, error) { return Rec(%q, []interface{}{%s}) }\n", name, strings.Join(ps, ", "), name, strings.Join(as, ", "))
			fmt.Fprintf(&chk, "\t(func(%s) (interface{}, error))(%s),\n", strings.TrimSuffix(strings.Repeat("interface{}, ", n), ", "), name)
		}
		fn("G00", 1)
		for k, nt := range g.NTs {
			for a, b := range g.Alts[k] {
				fn(fmt.Sprintf("%s%d", nt, a), len(b))
			}
		}
		chk.WriteString("}\n")
		if err := os.MkdirAll(filepath.Join(dir, "skel"), 0o755); err != nil {
			return err
		}
		for f, b := range map[string]string{"ast/ast.go": rec.String(), "skel/skel.go": string(skel), "skel/chk.go": chk.String()} {
			if err := os.WriteFile(filepath.Join(dir, f), []byte(b), 0o644); err != nil {
				return err
			}
		}
		return nil
	}
}

// whole returns the grammar of an amalgam for the recorder.
func whole(gs []*gram.G) *gram.G {
	w := &gram.G{NTs: []string{"Start"}, Alts: [][][]int{nil}}
	for i, g := range gs {
		w.Alts[0] = append(w.Alts[0], []int{0, 0}) // two symbols
		for k := range g.NTs {
			w.NTs = append(w.NTs, fmt.Sprintf("X%d%s", i, ntLetters(k)))
			w.Alts = append(w.Alts, g.Alts[k])
		}
	}
	return w
}

// lrUnits makes units of grammars for the LR generators.
func lrUnits(pre string, gs []*gram.G, alone int, per int, cap int, flags []string, extra map[string]string) (us []*drv.Unit, cs []*rt.Case) {
	for i, g := range gs {
		if i >= alone {
			break
		}
		id := fmt.Sprintf("%sl%d", pre, i)
		us = append(us, &drv.Unit{ID: id, Source: g.Rules(), Flags: flags, Adapter: "lr", Gs: []*gram.G{g}, Post: recorder(g)})
		cs = append(cs, &rt.Case{ID: id, Unit: id, G: g, Alone: g, Sel: -1, MaxLen: strLen(len(g.Ts), cap), Long: []int{12, 24, 60, 300}, Huge: 66000, Extra: extra})
	}
	if alone > len(gs) {
		alone = len(gs)
	}
	gs = gs[alone:]
	for i := 0; i < len(gs); i += per {
		j := i + per
		if j > len(gs) {
			j = len(gs)
		}
		id := fmt.Sprintf("%sm%d", pre, i/per)
		src, cases := amalgam(id, gs[i:j])
		for _, c := range cases {
			c.MaxLen = strLen(len(c.Alone.Ts), cap)
			c.Long = []int{12}
			c.Extra = extra
		}
		us = append(us, &drv.Unit{ID: id, Source: src, Flags: flags, Adapter: "lr", Gs: gs[i:j], Post: recorder(whole(gs[i:j]))})
		cs = append(cs, cases...)
	}
	return
}

// bracketFamily: S has up to n alternates p X q with p, q terminals (q possibly
// missing), X one of two nonterminals that share their first symbols. These
// are the grammars on which merging LR(1) states matters.
func bracketFamily(n int) (gs []*gram.G) {
	defs := [][][]string{
		{{"e"}, {"e"}},
		{{"e"}, {"e", "e e"}},
		{{"e"}, {"A"}},
		{{"e", "A e"}, {"e"}},
		{{"e A", "e"}, {"e B", "e"}},
		{{""}, {""}},
		{{"e", ""}, {""}},
	}
	var bodies []string
	for _, p := range []string{"a", "b"} {
		for _, x := range []string{"A", "B"} {
			for _, q := range []string{"c", "d", ""} {
				bodies = append(bodies, strings.TrimSpace(p+" "+x+" "+q))
			}
		}
	}
	var rec func(from int, cur []string)
	rec = func(from int, cur []string) {
		if len(cur) > 0 {
			s := strings.Join(cur, " | ")
			if strings.Contains(s, "A") && strings.Contains(s, "B") {
				for _, d := range defs {
					gs = append(gs, gram.Parse(fmt.Sprintf("S : %s ; A : %s ; B : %s", s, strings.Join(d[0], " | "), strings.Join(d[1], " | "))))
				}
			}
		}
		if len(cur) == n {
			return
		}
		for i := from; i < len(bodies); i++ {
			rec(i+1, append(cur[:len(cur):len(cur)], bodies[i]))
		}
	}
	rec(0, nil)
	return
}

func lrCurated() (gs []*gram.G) {
	for _, s := range []string{
		"S : a A d | b B d | a B e | b A e ; A : c ; B : c",
		"S : L e R | R ; L : s R | i ; R : L",
		"E : E p T | T ; T : T m F | F ; F : l E r | a",
		"S : A A ; A : a A | b",
		"S : a A a | b A b | a B b | b B a ; A : c A | c ; B : c B | c",
		"S : x A y | x B z | u A z | u B y ; A : C ; B : C2 ; C : t W ; C2 : t V ; W : w ; V : w",
		"S : a X | b Y ; X : P c | Q d ; Y : P d | Q c ; P : T ; Q : U ; T : t ; U : t",
		"S : a S b | empty",
		"S : S A | empty ; A : a | b S c",
		"S : A B C d ; A : a | empty ; B : b | empty ; C : c | empty",
		"S : i S | i S e S | a",
		"E : E p E | E m E | a",
		"S : S S | a",
		"S : S | a",
		"S : A | B ; A : a ; B : a",
		"X : Y a | Z b ; Y : c Y | c ; Z : c Z | c",
		"S : a A b | a B c ; A : D e ; B : F e ; D : d D | empty ; F : d F | empty",
	} {
		gs = append(gs, gram.Parse(s))
	}
	return
}

// lrSplit classifies grammars with the model.
func lrSplit(gs []*gram.G) (lr1, conf []*gram.G) {
	for _, g := range gs {
		a := lr.Build(g, 3000)
		if a == nil {
			continue
		}
		if a.Conflict {
			conf = append(conf, g)
		} else {
			lr1 = append(lr1, g)
		}
	}
	return
}

// classify runs gogll on every grammar alone: it must report conflicts if and
// only if the grammar is not LR(1).
func (c *Ctx) classify(gs []*gram.G, flag string) error {
	type res struct {
		r    drv.Res
		conf bool
	}
	rs := make([]res, len(gs))
	err := drv.Parallel(len(gs), func(i int) error {
		d := filepath.Join(c.Dir, "cls", fmt.Sprint(i))
		if err := os.MkdirAll(d, 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(d, "g.bnf"), []byte(gs[i].Source("g")), 0o644); err != nil {
			return err
		}
		rs[i].r = c.RunGogll(d, flag, "-o", ".", "g.bnf")
		_, err := os.Stat(filepath.Join(d, "LR1_conflicts.txt"))
		rs[i].conf = err == nil
		return os.RemoveAll(d)
	})
	if err != nil {
		return err
	}
	for i, g := range gs {
		a := lr.Build(g, 3000)
		if a == nil {
			c.Total.Complete = false
			continue
		}
		c.Total.Evals++
		c.Total.States += len(a.Actions)
		r := rs[i]
		crash := r.r.TimedOut || r.r.RC < 0 || r.r.RC == 2 || strings.Contains(r.r.Out, "goroutine ")
		switch {
		case crash:
			c.Report(rt.V{Grammar: g.Key(), Kind: "generator-crash", Msg: "gogll " + flag + ": " + genMsg(r.r)})
		case a.Conflict && (r.r.RC == 0 || !r.conf):
			c.Report(rt.V{Grammar: g.Key(), Kind: "conflict-missed", Msg: fmt.Sprintf("not LR(1), but gogll %s exits with %d, conflicts reported: %v", flag, r.r.RC, r.conf)})
		case !a.Conflict && (r.r.RC != 0 || r.conf):
			c.Report(rt.V{Grammar: g.Key(), Kind: "false-conflict", Msg: fmt.Sprintf("LR(1), but gogll %s exits with %d, conflicts reported: %v: %s", flag, r.r.RC, r.conf, genMsg(r.r))})
		default:
			c.Total.Traces++
			if a.Conflict {
				c.Total.Outcomes["conflict-reported"]++
			} else {
				c.Total.Outcomes["conflict-free"]++
			}
		}
	}
	c.Logf("classified %d grammars", len(gs))
	return nil
}

// lrFamily is the space of grammars of the LR checks.
func lrFamily(c *Ctx) []*gram.G {
	gs := append(lrCurated(), enum(gram.Bound{NTs: 2, Ts: 2, MaxAlts: 3, MaxBody: 4, Size: 5, NeedProd: true})...)
	gs = append(gs, enum(gram.Bound{NTs: 3, Ts: 3, MaxAlts: 3, MaxBody: 3, Size: 5, MinSize: 5, NeedProd: true})...)
	if c.Tier == "thorough" {
		gs = append(gs, enum(gram.Bound{NTs: 2, Ts: 2, MaxAlts: 3, MaxBody: 4, Size: 6, MinSize: 6, NeedProd: true})...)
		gs = append(gs, bracketFamily(4)...)
	} else {
		gs = append(gs, bracketFamily(3)...)
	}
	return gram.Dedup(gs)
}

func init() {
	for _, p := range []struct{ id, flag string }{{"C08", "-knuth"}, {"C09", "-pager"}} {
		p := p
		checks[p.id] = check{"model_checking", func(c *Ctx) error {
			gs := lrFamily(c)
			if err := c.classify(gs, p.flag); err != nil {
				return err
			}
			lr1, _ := lrSplit(gs)
			us, cs := lrUnits("", lr1, 24, 64, 130, []string{p.flag}, nil)
			return c.runUnits("lrlang", us, cs, 16, "LRMain", "LRFunc")
		}}
	}
	both := func(c *Ctx, name string, gs []*gram.G, alone, cap int, flags []string, knuth map[string]string) error {
		us, cs := lrUnits("k", gs, alone, 64, cap, append([]string{"-knuth"}, flags...), knuth)
		us2, cs2 := lrUnits("p", gs, alone, 64, cap, append([]string{"-pager"}, flags...), nil)
		return c.runUnits(name, append(us, us2...), append(cs, cs2...), 16, "LRMain", "LRFunc")
	}
	checks["C10"] = check{"model_checking", func(c *Ctx) error {
		_, conf := lrSplit(lrFamily(c))
		return both(c, "lrresolve", conf, 12, 130, []string{"-resolve_conflicts"}, map[string]string{"exact": "1"})
	}}
	checks["C11"] = check{"model_checking", func(c *Ctx) error {
		lr1, _ := lrSplit(lrFamily(c))
		return both(c, "lractions", lr1, 12, 260, nil, nil)
	}}
	checks["C12"] = check{"model_checking", func(c *Ctx) error {
		lr1, _ := lrSplit(lrFamily(c))
		return both(c, "lrerrors", lr1, 12, 130, nil, map[string]string{"knuth": "1"})
	}}
}
