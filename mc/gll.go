package main

import (
	"fmt"
	"strings"

	"verifmc/drv"
	"verifmc/gram"
	"verifmc/rt"
)

func init() {
	for _, p := range []struct{ id, name string }{{"C01", "recog"}, {"C02", "forest"}, {"C03", "ambig"}, {"C04", "sppf"}, {"C05", "errors"}, {"C21", "report"}} {
		p := p
		checks[p.id] = check{"model_checking", func(c *Ctx) error { return gllCheck(c, p.name) }}
	}
}

// strLen is the bound on input length for k terminals so that about cap strings are enumerated.
func strLen(k, cap int) int {
	n, tot, pw := 0, 1, 1
	for n < 12 {
		pw *= k
		if tot+pw > cap {
			break
		}
		tot += pw
		n++
		if k == 1 && n >= 9 {
			break
		}
	}
	return n
}

// family is an exhaustively enumerated set of grammars.
type family struct {
	name  string
	gs    []*gram.G
	cap   int      // strings per grammar
	alone bool     // one parser per grammar instead of amalgams
	names bool     // terminals have the names of nonterminals
	ts    []string // texts of the terminals
}

func enum(b gram.Bound) (gs []*gram.G) {
	gram.Enumerate(b, func(g *gram.G) { gs = append(gs, g) })
	return
}

// amalgam joins grammars into one: Start : sel_i S_i.
func amalgam(id string, gs []*gram.G) (src string, cases []*rt.Case) {
	var w strings.Builder
	big := &gram.G{}
	_ = big
	w.WriteString("Start : ")
	for i := range gs {
		if i > 0 {
			w.WriteString("\n  | ")
		}
		fmt.Fprintf(&w, "%s X%dS", gram.Quote(sel(i)), i)
	}
	w.WriteString(" ;\n")
	for i, g := range gs {
		// nonterminal names end in a letter so that labels never collide
		p := g.Clone()
		for k := range p.NTs {
			p.NTs[k] = fmt.Sprintf("X%d%s", i, ntLetters(k))
		}
		for k := range p.NTs {
			w.WriteString(p.RuleSrc(k) + "\n")
		}
		m := &gram.G{NTs: append([]string{"Start"}, p.NTs...), Ts: append(append([]string{}, g.Ts...), sel(i)), Text: nil}
		st := len(g.Ts)
		m.Alts = append(m.Alts, [][]int{{st, gram.NT(1)}})
		for _, as := range p.Alts {
			var na [][]int
			for _, a := range as {
				b := []int{}
				for _, s := range a {
					if s < 0 {
						s--
					}
					b = append(b, s)
				}
				na = append(na, b)
			}
			m.Alts = append(m.Alts, na)
		}
		cases = append(cases, &rt.Case{ID: fmt.Sprintf("%s.%d", id, i), Unit: id, G: m, Alone: g, Sel: st, AltOff: i})
	}
	return w.String(), cases
}

func ntLetters(k int) string { return []string{"S", "A", "B", "C", "D", "E", "F"}[k] }

func sel(i int) string { return string(rune(0x4e00 + i)) }

// gllUnits turns families into units and cases.
func gllUnits(fams []family, per int) (us []*drv.Unit, cs []*rt.Case) {
	seen := map[string]bool{}
	for fi, f := range fams {
		var gs []*gram.G
		for _, g := range f.gs {
			if f.ts != nil {
				g = g.Clone()
				copy(g.Ts, f.ts)
			}
			k := g.Key() + fmt.Sprint(f.alone, f.names)
			if !seen[k] {
				seen[k] = true
				gs = append(gs, g)
			}
		}
		if f.alone {
			for i, g := range gs {
				id := fmt.Sprintf("f%di%d", fi, i)
				us = append(us, &drv.Unit{ID: id, Source: g.Rules(), Adapter: "gll", Gs: []*gram.G{g}})
				cs = append(cs, &rt.Case{ID: id, Unit: id, G: g, Alone: g, Sel: -1, MaxLen: strLen(len(g.Ts), f.cap)})
			}
			continue
		}
		for i := 0; i < len(gs); i += per {
			j := i + per
			if j > len(gs) {
				j = len(gs)
			}
			id := fmt.Sprintf("f%da%d", fi, i/per)
			part := gs[i:j]
			if f.names {
				part = nil
				for k, g := range gs[i:j] {
					g = g.Clone()
					for t := range g.Ts {
						if t < len(g.NTs) {
							g.Ts[t] = fmt.Sprintf("X%d%s", k, ntLetters((t+1)%len(g.NTs)))
						}
					}
					part = append(part, g)
				}
			}
			src, cases := amalgam(id, part)
			for _, c := range cases {
				c.MaxLen = strLen(len(c.Alone.Ts), f.cap)
			}
			us = append(us, &drv.Unit{ID: id, Source: src, Adapter: "gll", Gs: part})
			cs = append(cs, cases...)
		}
	}
	return
}

// runUnits generates, compiles and runs units; shared by every check that uses shards.
func (c *Ctx) runUnits(checkName string, us []*drv.Unit, cs []*rt.Case, nshard int, mainFn, typ string) error {
	c.Logf("%d units, %d cases", len(us), len(cs))
	if err := c.Generate(us); err != nil {
		return err
	}
	var live []*drv.Unit
	for _, u := range us {
		if u.Gen.RC != 0 {
			// find the culprit
			if len(u.Gs) > 1 {
				var singles []*drv.Unit
				for i, g := range u.Gs {
					singles = append(singles, &drv.Unit{ID: fmt.Sprintf("%sx%d", u.ID, i), Source: g.Rules(), Flags: u.Flags, Gs: []*gram.G{g}})
				}
				if err := c.Generate(singles); err != nil {
					return err
				}
				n := 0
				for _, s := range singles {
					if s.Gen.RC != 0 {
						n++
						c.Report(rt.V{Case: s.ID, Unit: s.ID, Grammar: s.Gs[0].Key(), Kind: "generation", Msg: genMsg(s.Gen)})
					}
				}
				if n > 0 {
					continue
				}
			}
			k := u.Source
			if len(u.Gs) == 1 {
				k = u.Gs[0].Key()
			}
			c.Report(rt.V{Case: u.ID, Unit: u.ID, Grammar: k, Kind: "generation", Msg: genMsg(u.Gen)})
			continue
		}
		live = append(live, u)
	}
	c.Logf("generated")
	if nshard > len(live) {
		nshard = len(live)
	}
	var shards []*drv.Shard
	byUnit := map[string]*drv.Shard{}
	for i := 0; i < nshard; i++ {
		shards = append(shards, &drv.Shard{Name: fmt.Sprintf("s%d", i), Main: mainFn, Type: typ})
	}
	for i, u := range live {
		s := shards[i%nshard]
		s.Units = append(s.Units, u)
		byUnit[u.ID] = s
	}
	for _, k := range cs {
		if s := byUnit[k.Unit]; s != nil {
			s.Cases = append(s.Cases, k)
		}
	}
	if c.PreBuild != nil {
		if err := c.PreBuild(live, shards); err != nil {
			return err
		}
	}
	bad, err := c.Build(shards)
	for _, b := range bad {
		k := b.Unit.Source
		if len(b.Unit.Gs) == 1 {
			k = b.Unit.Gs[0].Key()
		}
		c.Report(rt.V{Case: b.Unit.ID, Unit: b.Unit.ID, Grammar: k, Kind: "compile", Msg: "the generated code does not compile:\n" + b.Msg})
	}
	if err != nil {
		return err
	}
	c.Logf("compiled")
	secs := c.Left().Seconds() - 60
	if secs < 20 {
		secs = 20
	}
	if err := c.RunShards(checkName, shards, secs); err != nil {
		return err
	}
	for _, s := range shards {
		if s.Out == nil {
			continue
		}
		for _, v := range s.Out.Violations {
			c.Report(v)
		}
		s.Out.Violations = nil
		c.Total.Add(s.Out)
	}
	c.Logf("explored")
	return nil
}

func genMsg(r drv.Res) string {
	return fmt.Sprintf("gogll exit=%d timeout=%v: %.800s", r.RC, r.TimedOut, r.Out)
}

func gllFamilies(c *Ctx, name string) []family {
	fams := []family{
		{name: "curated", gs: curated(), cap: 400, alone: true},
		{name: "ordered<=3", gs: enum(gram.Bound{NTs: 2, Ts: 2, MaxAlts: 3, MaxBody: 3, Size: 3, Ordered: true, NeedProd: true}), cap: 130, alone: true},
		{name: "2nt<=5", gs: enum(gram.Bound{NTs: 2, Ts: 2, MaxAlts: 3, MaxBody: 4, Size: 5, NeedProd: true}), cap: 130},
		{name: "names", gs: enum(gram.Bound{NTs: 2, Ts: 2, MaxAlts: 3, MaxBody: 3, Size: 4, NeedProd: true}), cap: 130, names: true},
		{name: "quotes", gs: enum(gram.Bound{NTs: 2, Ts: 2, MaxAlts: 3, MaxBody: 3, Size: 3, NeedProd: true}), cap: 65, ts: []string{`"`, `\\`}},
		{name: "3nt<=5", gs: enum(gram.Bound{NTs: 3, Ts: 2, MaxAlts: 2, MaxBody: 3, Size: 5, NeedProd: true}), cap: 65},
		{name: "1t<=6", gs: enum(gram.Bound{NTs: 2, Ts: 1, MaxAlts: 3, MaxBody: 5, Size: 6, NeedProd: true}), cap: 100},
	}
	if c.Thorough() {
		for i := range fams {
			fams[i].cap *= 3
		}
		fams = append(fams,
			family{name: "2nt<=6", gs: enum(gram.Bound{NTs: 2, Ts: 2, MaxAlts: 3, MaxBody: 4, Size: 6, NeedProd: true}), cap: 130},
			family{name: "3nt<=6", gs: enum(gram.Bound{NTs: 3, Ts: 1, MaxAlts: 2, MaxBody: 3, Size: 6, NeedProd: true}), cap: 130},
			family{name: "1nt<=9", gs: enum(gram.Bound{NTs: 1, Ts: 1, MaxAlts: 3, MaxBody: 6, Size: 9, NeedProd: true}), cap: 130},
			family{name: "1nt2t<=7", gs: enum(gram.Bound{NTs: 1, Ts: 2, MaxAlts: 3, MaxBody: 6, Size: 7, NeedProd: true}), cap: 130})
	}
	return fams
}

func gllCheck(c *Ctx, name string) error {
	us, cs := gllUnits(gllFamilies(c, name), 64)
	for _, k := range cs {
		alone := k.Sel < 0
		switch {
		case name == "report" && alone: // reports are long
			k.Long = []int{10, 12, 60}
		case alone:
			k.Long = []int{12, 24}
			if strings.HasPrefix(k.ID, "f0i") {
				k.Long = []int{12, 24, 60, 300}
				k.Huge = 66000
			}
		case name != "report":
			k.Long = []int{12}
		}
	}
	return c.runUnits(name, us, cs, 16, "GLLMain", "GLLFunc")
}

func curated() (gs []*gram.G) {
	for _, s := range []string{
		"S : a S b S | a S | c",
		"S : A B c ; A : a | a a ; B : a | a a",
		"E : E p E | E m E | a",
		"E : E p T | T ; T : T m F | F ; F : l E r | a",
		"S : S S S | S S | b",
		"S : S S | a | empty",
		"S : A S d | B S | empty ; A : a | c ; B : a | b",
		"S : l S r | a",
		"S : A ; A : A | a",
		"S : A B c | \"A\" B c ; A : \"A\" | \"A\" \"A\" ; B : b | \"A\" b",
		"A : \"A\" A \"A\" | \"A\" | empty",
		"S : T S | T ; T : a | b | a a | a b | b a | b b | a a a | a a b | a b a | a b b | b a a | b a b",
		"S : a b a b a b a b a b a b S | A c ; A : a A | empty",
		"S : A A A A A A A A A A A A ; A : a | empty",
		"S : a S | b",
		"S : S A | empty ; A : a | b a",
	} {
		gs = append(gs, gram.Parse(s))
	}
	return
}
