package main

import (
	"fmt"

	"verifmc/drv"
	"verifmc/gram"
	"verifmc/instr"
	"verifmc/rt"
	"verifmc/sched"
)

func init() {
	checks["C22"] = check{"model_checking", costCheck}
}

// onlyLL is the grammars that are LL(1).
func onlyLL(gs []*gram.G) (ll []*gram.G) {
	for _, g := range gs {
		if g.LL(1) > 0 {
			ll = append(ll, g)
		}
	}
	return
}

// costGrammars is LL grammars that call nonterminals more than once where they
// are, and some of the shapes that programming languages have.
func costGrammars() (gs []*gram.G) {
	for _, s := range []string{
		"S : A B b S | c ; A : C ; B : C ; C : empty",
		"S : A B b S | c ; A : C d | C ; B : C ; C : empty",
		"S : X a S | X b S | c ; X : d",
		"S : X a S | X b S | c ; X : Y ; Y : empty | d",
		"S : A S | b ; A : B C D ; B : E ; C : E ; D : E a ; E : empty",
		"S : A S e | b ; A : B C D ; B : E ; C : E ; D : E a ; E : empty",
		"S : a S R | b ; R : N c | N N d ; N : empty",
		"S : l L r ; L : a M | empty ; M : k a M | empty",
		"V : l M r | n ; M : empty | V N ; N : k V N | empty",
		"E : T F ; F : p T F | empty ; T : U V ; V : m U V | empty ; U : a | l E r",
		"S : i a t S e S | a",
		"S : A A2 A3 b S | empty ; A : N ; A2 : N ; A3 : N ; N : M ; M : empty",
	} {
		gs = append(gs, gram.Parse(s))
	}
	return
}

// deepTs is how many terminals a grammar may have to be measured with long inputs.
const deepTs = 1

// costAmbiguous is grammars with all the parse trees there can be.
func costAmbiguous() (gs []*gram.G) {
	for _, s := range []string{
		"S : S S | a",
		"S : S S S | a",
		"S : S S | a | empty",
		"S : a S | S a | a",
		"S : A A A | a ; A : S | a a",
		"S : S A S | a ; A : a | empty",
		"S : A S | a ; A : A a | empty",
		"S : a S a | S S | a",
	} {
		gs = append(gs, gram.Parse(s))
	}
	return
}

func costCheck(c *Ctx) error {
	fams := []family{
		{name: "curated", gs: append(curated(), moreCurated()...), cap: 64, alone: true},
		{name: "2nt", gs: enum(gram.Bound{NTs: 2, Ts: 2, MaxAlts: 3, MaxBody: 3, Size: 4, NeedProd: true}), cap: 16},
	}
	b := gram.Bound{NTs: 3, Ts: 2, MaxAlts: 2, MaxBody: 3, Size: 5, MinSize: 4, NeedProd: true}
	if c.Thorough() {
		b.Size = 6
	}
	fams = append(fams, family{name: "ll", gs: onlyLL(enum(b)), cap: 16},
		family{name: "shapes", gs: append(costGrammars(), costAmbiguous()...), cap: 16, alone: true})
	us, cs := gllUnits(fams, 64)
	for _, u := range us {
		u.Adapter = "costgll"
	}
	nll := 0
	for _, k := range cs {
		if k.Alone.LL(1) == 1 {
			k.Extra = map[string]string{"linear": "1"}
			nll++
			if k.Sel < 0 {
				k.Extra["deep"] = "linear"
			}
		} else if k.Sel < 0 && len(k.Alone.Ts) <= deepTs {
			k.Extra = map[string]string{"deep": "cubic"}
		}
	}
	c.Logf("%d of %d grammars are LL(1)", nll, len(cs))
	lr1, _ := lrSplit(lrCurated())
	l2, _ := lrSplit(enum(gram.Bound{NTs: 2, Ts: 2, MaxAlts: 3, MaxBody: 3, Size: 4, NeedProd: true}))
	lr1 = append(lr1, l2...)
	for _, flag := range []string{"-knuth", "-pager"} {
		u, k := lrUnits(flag[1:2], lr1, len(lr1)-len(l2), 64, 16, []string{flag}, map[string]string{"linear": "1"})
		for _, u := range u {
			u.Adapter, u.Post = "costlr", nil
		}
		for _, k := range k {
			if k.Sel < 0 {
				k.Extra = map[string]string{"linear": "1", "deep": "linear"}
			}
		}
		us, cs = append(us, u...), append(cs, k...)
	}
	lexs := func(u []*drv.Unit, k []*rt.Case) {
		for _, u := range u {
			u.Adapter = "costlex"
		}
		us, cs = append(us, u...), append(cs, k...)
	}
	lexs(lexAlone("lc", curatedLexers()))
	for _, k := range cs {
		if k.Lex != nil {
			k.Extra = map[string]string{"deep": "linear"}
		}
	}
	var a []lexSpec
	for _, r := range resUpTo(4, true) {
		a = append(a, lexSpec{rules: [][2]string{{"t0", r}}, alphabet: "ab"})
	}
	lexs(lexUnits("lr", a, 60))
	c.Coverage["model"] = "LL(1) and LR(1) by the definitions (packages gram and lr); none of the results, which other checks compare"
	c.Coverage["bounds"] = map[string]interface{}{"parsers and lexers": len(us), "grammars and rule sets": len(cs), "inputs": "y u^k v^k z, |u|<=2, |v|<=2, |y|,|z|<=1 with 8, 16, 32 symbols; 128 for cubic, 2048 for linear parsers and 8192 for lexers", "transitions": "statements executed"}
	c.PreBuild = func(live []*drv.Unit, shards []*drv.Shard) error {
		for _, u := range live {
			n, err := instr.Yields(c.UDir(u), "ad", "ast")
			if err != nil {
				return err
			}
			if n > sched.Sites {
				return fmt.Errorf("%d statements", n)
			}
		}
		return nil
	}
	return c.runUnits("cost", us, cs, 16, "CostMain", "CostFunc")
}
