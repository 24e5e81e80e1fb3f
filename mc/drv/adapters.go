package drv

import "strings"

var adapters = map[string]string{"gll": gllAdapter, "lr": lrAdapter, "lex": lexAdapter, "lrplain": lrPlainAdapter, "front": frontAdapter, "isogll": isoGLLAdapter, "isolr": isoLRAdapter, "costgll": costGLLAdapter, "costlr": costLRAdapter, "costlex": costLexAdapter}

const gllAdapter = `package ad

import (
	"os"
	"sort"

	"@PKG@/lexer"
	"@PKG@/parser"
	"@PKG@/parser/bsr"
	"@PKG@/parser/symbols"
	"@PKG@/sppf"
	"verifmc/rt"
)

var _ symbols.NT
var _ *sppf.SymbolNode

func Run(in []rune, fl rt.Flags) *rt.GLLResult {
	r := &rt.GLLResult{RootOne: -1, SPPFRoot: -1}
	var set *bsr.Set
	var errs []*parser.Error
	r.Panic = rt.Try(func() {
		lex := lexer.New(in)
		for _, t := range lex.Tokens {
			r.Toks = append(r.Toks, rt.Tok{ID: t.TypeID(), Lext: t.Lext(), Rext: t.Rext()})
		}
		if fl.Again == 1 {
			parser.Parse(lex)
		}
		set, errs = parser.Parse(lex)
		if fl.Again == 2 {
			parser.Parse(lex)
		}
	})
	if r.Panic != "" {
		return r
	}
	r.SetNil = set == nil
	r.OK = set != nil
	for _, e := range errs {
		pe := rt.PErr{Tok: e.Token.TypeID(), TokLext: e.Token.Lext(), Line: e.Line, Col: e.Column, Head: e.Slot.Head().String(), Alt: e.Slot.Alternate()}
		if fl.Errs {
			for k, v := range e.Expected {
				pe.Expected = append(pe.Expected, v)
				pe.ExpectedID = append(pe.ExpectedID, k.ID())
			}
			sort.Sort(pair{pe.Expected, pe.ExpectedID})
			pe.Str = e.String()
		}
		r.Errs = append(r.Errs, pe)
	}
	if set == nil {
		return r
	}
	if fl.Forest {
		r.ForestPan = rt.Try(func() { forest(r, set, fl) })
	}
	if fl.Amb {
		r.AmbPanic = rt.Try(func() { r.Amb = set.IsAmbiguous() })
	}
	if fl.SPPF {
		r.SPPFPanic = rt.Try(func() { toSPPF(r, set) })
	}
	if fl.Report {
		rt.Capture(&r.Report, set.ReportAmbiguous)
		rt.Capture(&r.Dump, set.Dump)
		for _, b := range set.GetAll() {
			r.All = append(r.All, b.String())
		}
		f := rt.Scratch + ".dot"
		os.Remove(f)
		if p := rt.Try(func() { set.ToSPPF().DotFile(f) }); p != "" {
			r.Dot = "panic " + p
		} else if b, err := os.ReadFile(f); err != nil {
			r.Dot = err.Error()
		} else {
			r.Dot = string(b)
		}
	}
	return r
}

type pair struct{ a, b []string }

func (p pair) Len() int           { return len(p.a) }
func (p pair) Less(i, j int) bool { return p.a[i] < p.a[j] }
func (p pair) Swap(i, j int)      { p.a[i], p.a[j] = p.a[j], p.a[i]; p.b[i], p.b[j] = p.b[j], p.b[i] }

func forest(r *rt.GLLResult, set *bsr.Set, fl rt.Flags) {
	ids := map[bsr.BSR]int{}
	var todo []bsr.BSR
	id := func(b bsr.BSR) int {
		k, ok := ids[b]
		if !ok {
			k = len(todo)
			ids[b] = k
			todo = append(todo, b)
		}
		return k
	}
	for _, b := range set.GetRoots() {
		r.Roots = append(r.Roots, id(b))
	}
	rt.Try(func() { r.RootOne = id(set.GetRoot()) })
	r.RightExt = set.GetRightExtent()
	for i := 0; i < len(todo); i++ {
		b := todo[i]
		n := rt.BNode{Head: b.Label.Head().String(), Alt: b.Alternate(), L: b.LeftExtent(), P: b.Pivot(), R: b.RightExtent()}
		if !fl.NoText {
			n.Label = b.String()
		}
		occ := map[string]int{}
		for k, s := range b.Label.Symbols() {
			n.Syms = append(n.Syms, s.String())
			n.NT = append(n.NT, s.IsNonTerminal())
			var kids []int
			kp := ""
			one, by := -1, -1
			var tk rt.TKid
			if s.IsNonTerminal() {
				kp = rt.Try(func() {
					for _, c := range b.GetNTChildrenI(k) {
						kids = append(kids, id(c))
					}
				})
				o := occ[s.String()]
				occ[s.String()]++
				rt.Try(func() { one = id(b.GetNTChildI(k)) })
				rt.Try(func() { by = id(b.GetNTChild(s.(symbols.NT), o)) })
			} else if fl.TKids {
				tk.Set = true
				tk.Panic = rt.Try(func() {
					t := b.GetTChildI(k)
					tk.Type, tk.Lext = t.TypeID(), t.Lext()
				})
			}
			n.Kids = append(n.Kids, kids)
			n.KidPanic = append(n.KidPanic, kp)
			n.TK = append(n.TK, tk)
			n.One = append(n.One, one)
			n.ByName = append(n.ByName, by)
		}
		rt.Try(func() {
			for _, l := range b.GetAllNTChildren() {
				var ks []int
				for _, c := range l {
					ks = append(ks, id(c))
				}
				n.AllKids = append(n.AllKids, ks)
			}
		})
		r.Nodes = append(r.Nodes, n)
	}
}

func toSPPF(r *rt.GLLResult, set *bsr.Set) {
	root := set.ToSPPF()
	ids := map[sppf.Node]int{}
	var todo []sppf.Node
	id := func(n sppf.Node) int {
		k, ok := ids[n]
		if !ok {
			k = len(todo)
			ids[n] = k
			todo = append(todo, n)
		}
		return k
	}
	r.SPPFRoot = id(root)
	for i := 0; i < len(todo); i++ {
		switch n := todo[i].(type) {
		case *sppf.SymbolNode:
			s := rt.SNode{Kind: 's', Sym: n.Symbol, L: n.Lext, R: n.Rext, Left: -1, Right: -1, Label: n.Label(), Descr: n.String()}
			for _, c := range n.Children {
				s.Kids = append(s.Kids, id(c))
			}
			r.SPPF = append(r.SPPF, s)
		case *sppf.IntermediateNode:
			s := rt.SNode{Kind: 'i', NT: n.NT.String(), Body: n.Body.Strings(), Pos: n.Pos, L: n.Lext, R: n.Rext, Left: -1, Right: -1, Label: n.Label(), Descr: n.String()}
			for _, c := range n.Children {
				s.Kids = append(s.Kids, id(c))
			}
			r.SPPF = append(r.SPPF, s)
		case *sppf.PackedNode:
			s := rt.SNode{Kind: 'p', NT: n.NT.String(), Body: n.Body.Strings(), Pos: n.Pos, L: n.Lext, P: n.Pivot, R: n.Rext, Left: -1, Right: -1, Label: n.Label(), Descr: n.String()}
			if n.LeftChild != nil {
				s.Left = id(n.LeftChild)
			}
			if n.RightChild != nil {
				s.Right = id(n.RightChild)
			}
			r.SPPF = append(r.SPPF, s)
		}
	}
}
`

// isoGLLAdapter gives all results of a parser as one text.
var isoGLLAdapter = strings.Replace(gllAdapter, "func Run(", "func run(", 1) + `
func Run(in []rune, mode int) string {
	if mode == rt.IsoParse {
		return run(in, rt.Flags{Errs: true}).Canon()
	}
	fl := rt.Flags{Forest: true, Amb: true, SPPF: true, TKids: true, Errs: true}
	if mode == rt.IsoTwice {
		fl.Again = 1
	}
	if mode == rt.IsoAgain {
		fl.Again = 2
	}
	return run(in, fl).Canon()
}
`

const isoLRAdapter = `package ad

import (
	"fmt"

	"@PKG@/lexer"
	"@PKG@/parser"
	"verifmc/rt"
)

func Run(in []rune, mode int) (s string) {
	p := rt.Try(func() {
		lex := lexer.New(in)
		for _, t := range lex.Tokens {
			s += t.String() + "\n"
		}
		if mode == rt.IsoTwice {
			parser.New(lex).Parse()
		}
		res, err := parser.New(lex).Parse()
		if mode == rt.IsoAgain {
			parser.New(lex).Parse()
		}
		s += fmt.Sprintf("%v\n%v", res, err)
	})
	return s + p
}
`

const lrAdapter = `package ad

import (
	"errors"
	"fmt"

	"@PKG@/ast"
	"@PKG@/lexer"
	"@PKG@/parser"
	_ "@PKG@/skel"
	"@PKG@/token"
	"verifmc/rt"
)

func val(x interface{}) rt.LRVal {
	switch v := x.(type) {
	case nil:
		return rt.LRVal{Kind: "nil"}
	case *token.Token:
		if v == nil {
			return rt.LRVal{Kind: "nil token"}
		}
		return rt.LRVal{Kind: "tok", Lext: v.Lext(), Rext: v.Rext(), Type: v.TypeID()}
	case *rt.Node:
		return rt.LRVal{Kind: "ev", Ev: v.Ev}
	}
	return rt.LRVal{Kind: "other", Str: fmt.Sprint(x)}
}

func Run(in []rune, fl rt.LRFlags) *rt.LRResult {
	r := &rt.LRResult{}
	ast.Rec = func(name string, args []interface{}) (interface{}, error) {
		e := rt.LREvent{Name: name}
		for _, a := range args {
			e.Args = append(e.Args, val(a))
		}
		r.Events = append(r.Events, e)
		if len(r.Events) > fl.Max {
			r.Loop = true
			panic(rt.LoopPanic)
		}
		if n := len(r.Events) - 1; n == fl.FailAt {
			return nil, errors.New(fmt.Sprintf("injected error %d!", n))
		} else {
			return &rt.Node{Ev: n}, nil
		}
	}
	r.Panic = rt.Try(func() {
		lex := lexer.New(in)
		for _, t := range lex.Tokens {
			r.Toks = append(r.Toks, rt.Tok{ID: t.TypeID(), Lext: t.Lext(), Rext: t.Rext()})
		}
		res, err := parser.New(lex).Parse()
		r.Res = val(res)
		if err != nil {
			r.HasErr = true
			r.Err = err.Error()
		}
	})
	return r
}
`

const lexAdapter = `package ad

import (
	"fmt"

	"@PKG@/lexer"
	"@PKG@/token"
	"verifmc/rt"
)

func Run(in []rune, fl rt.LexFlags) *rt.LexResult {
	r := &rt.LexResult{}
	r.Panic = rt.Try(func() {
		var lex *lexer.Lexer
		if fl.File != "" {
			lex = lexer.NewFile(fl.File)
		} else {
			lex = lexer.New(in)
		}
		r.I = lex.I
		r.Toks = make([]rt.LexTok, len(lex.Tokens))
		for i, t := range lex.Tokens {
			x := &r.Toks[i]
			x.ID, x.L, x.R = t.TypeID(), t.Lext(), t.Rext()
			if !fl.API {
				continue
			}
			x.Line, x.Col = t.GetLineColumn()
			x.LLine, x.LCo = lex.GetLineColumnOfToken(i)
			x.Lit, x.LitStr = t.Literal(), t.LiteralString()
			x.StripPanic = rt.Try(func() { x.Strip, x.StripStr = t.LiteralStripEscape(), t.LiteralStringStripEscape() })
			x.Sup, x.Str = t.Suppress(), t.String()
			gi := t.GetInput()
			x.InSame = string(gi) == string(lex.I) && len(gi) == len(lex.I)
			ty := t.Type()
			if token.StringToType[ty.String()] != ty {
				x.RoundTrip = fmt.Sprintf("StringToType[%q] is %d, not %d", ty.String(), token.StringToType[ty.String()], ty)
			} else if token.IDToType[ty.ID()] != ty {
				x.RoundTrip = fmt.Sprintf("IDToType[%q] is %d, not %d", ty.ID(), token.IDToType[ty.ID()], ty)
			} else if ty.ID() != t.TypeID() {
				x.RoundTrip = "Type.ID differs from TypeID"
			}
		}
		if fl.Pair {
			r.Pairs = map[[2]int]string{}
			for i := range lex.Tokens {
				for j := i; j < len(lex.Tokens); j++ {
					r.Pairs[[2]int{i, j}] = lex.GetString(i, j)
				}
			}
		}
	})
	return r
}
`

// lrPlainAdapter runs the parser with the generated skeleton of actions.
const lrPlainAdapter = `package ad

import (
	"os"

	"@PKG@/lexer"
	"@PKG@/parser"
	"verifmc/rt"
)

var null, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

func Run(in []rune, fl rt.LRFlags) *rt.LRResult {
	r := &rt.LRResult{}
	out := os.Stdout
	os.Stdout = null // the skeleton prints
	defer func() { os.Stdout = out }()
	r.Panic = rt.Try(func() {
		res, err := parser.New(lexer.New(in)).Parse()
		r.Res = rt.LRVal{Kind: "nil"}
		if res != nil {
			r.Res.Kind = "other"
		}
		if err != nil {
			r.HasErr = true
			r.Err = err.Error()
		}
	})
	return r
}
`

// frontAdapter runs gogll's own lexer, parser and AST builder.
const frontAdapter = `package ad

import (
	"fmt"
	"sort"
	"strings"

	"@PKG@/ast"
	"@PKG@/lexer"
	"@PKG@/parser"
	"@PKG@/parser/bsr"
	"verifmc/rt"
)

func Run(in []rune, build bool) *rt.FrontRes {
	r := &rt.FrontRes{Sorted: true}
	var set *bsr.Set
	var lex *lexer.Lexer
	r.Panic = rt.Try(func() {
		lex = lexer.New(in)
		for _, t := range lex.Tokens {
			r.Toks = append(r.Toks, rt.Tok{ID: t.TypeID(), Lext: t.Lext(), Rext: t.Rext()})
		}
		var errs []*parser.Error
		set, errs = parser.Parse(lex)
		r.OK = errs == nil && set != nil
		r.NErr = len(errs)
		for i, e := range errs {
			if i == 0 {
				r.Bad, r.Line, r.Col = e.Token.Lext(), e.Line, e.Column
			}
			if _, ok := e.Expected[e.Token.Type()]; ok || len(e.Expected) == 0 {
				r.NoExp = "an error expects its own token, or nothing: " + e.String()
			}
		}
		if r.OK {
			r.Amb = set.IsAmbiguous()
		}
	})
	if r.Panic != "" || !r.OK || r.Amb || !build {
		return r
	}
	r.ASTPanic = rt.Try(func() {
		g := ast.Build(set.GetRoot(), lex, "f.bnf")
		s := "package " + g.Package.GetString()
		for _, l := range g.LexRules {
			sup := ""
			if l.Suppress {
				sup = "!"
			}
			s += fmt.Sprintf("\n%s%s@%d :%s ;", sup, l.ID(), l.Lext(), regexp(l.RegExp))
		}
		for _, y := range g.SyntaxRules {
			s += fmt.Sprintf("\n%s@%d :", y.ID(), y.Lext())
			for i, a := range y.Alternates {
				if i > 0 {
					s += " |"
				}
				for _, x := range a.Symbols {
					k := "?"
					switch x.(type) {
					case *ast.NT:
						k = "nt"
					case *ast.TokID:
						k = "tokid"
					case *ast.StringLit:
						k = "string_lit"
					}
					s += fmt.Sprintf(" %s:%s@%d", k, x.ID(), x.Lext())
				}
			}
			s += " ;"
		}
		r.AST = s
	})
	return r
}

func sorted(rs []rune) string {
	rs = append([]rune{}, rs...)
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	return string(rs)
}

func regexp(re *ast.RegExp) (s string) {
	for _, x := range re.Symbols {
		switch y := x.(type) {
		case *ast.Any:
			s += fmt.Sprintf(" .@%d", y.Lext())
		case *ast.AnyOf:
			s += fmt.Sprintf(" any{%s}@%d", sorted(y.Set.Elements()), y.Lext())
		case *ast.Not:
			s += fmt.Sprintf(" not{%s}@%d", sorted(y.Set.Elements()), y.Lext())
		case *ast.CharLiteral:
			s += fmt.Sprintf(" char{%c}@%d", y.Char(), y.Lext())
		case *ast.UnicodeClass:
			s += fmt.Sprintf(" %s@%d", y.String(), y.Lext())
		case *ast.UnicodeSet:
			b := ""
			for _, g := range y.Ranges {
				c := " +"
				if g.Exclude {
					c = " -"
				}
				b += c + "\\p{" + g.Range + "}"
			}
			s += fmt.Sprintf(" set{%s}@%d", b, y.Lext())
		case *ast.LexBracket:
			p := map[ast.BracketType]string{ast.LexGroup: "()", ast.LexOptional: "[]", ast.LexZeroOrMore: "{}", ast.LexOneOrMore: "<>"}[y.Type]
			var as []string
			for _, a := range y.Alternates {
				as = append(as, regexp(a))
			}
			s += fmt.Sprintf(" %s@%d%s %s", p[:1], y.Lext(), strings.Join(as, " |"), p[1:])
		default:
			s += fmt.Sprintf(" %T", x)
		}
	}
	return
}
`

// costGLLAdapter counts the statements run by lexer and parser.
const costGLLAdapter = `package ad

import (
	"@PKG@/lexer"
	"@PKG@/parser"
	"@PKG@/parser/bsr"
	"verifmc/rt"
)

func Run(in []rune) (c rt.Cost) {
	var lex *lexer.Lexer
	c.Lex, c.LexMem = rt.Measure(func() { lex = lexer.New(in) })
	c.Tokens = len(lex.Tokens)
	var set *bsr.Set
	c.Parse, c.ParseMem = rt.Measure(func() {
		set, _ = parser.Parse(lex)
	})
	if c.OK = set != nil; !c.OK {
		return
	}
	c.Amb, _ = rt.Measure(func() { set.IsAmbiguous() })
	c.SPPF, c.SPPFMem = rt.Measure(func() { set.ToSPPF() })
	return
}
`

const costLRAdapter = `package ad

import (
	"@PKG@/lexer"
	"@PKG@/parser"
	"verifmc/rt"
)

func Run(in []rune) (c rt.Cost) {
	var lex *lexer.Lexer
	c.Lex, c.LexMem = rt.Measure(func() { lex = lexer.New(in) })
	c.Tokens = len(lex.Tokens)
	c.Parse, c.ParseMem = rt.Measure(func() {
		_, err := parser.New(lex).Parse()
		c.OK = err == nil
	})
	return
}
`

const costLexAdapter = `package ad

import (
	"@PKG@/lexer"
	"verifmc/rt"
)

func Run(in []rune) (c rt.Cost) {
	var lex *lexer.Lexer
	c.Lex, c.LexMem = rt.Measure(func() { lex = lexer.New(in) })
	c.Tokens = len(lex.Tokens)
	c.OK = true
	return
}
`
