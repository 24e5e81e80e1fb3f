import sys; sys.path.insert(0,'/tmp/w')
from mk1 import seed
P='gen/golang/gll/parser.go'; B='gen/golang/gll/bsr/bsr.go'
H='''package main

import (
	"fmt"
	"os"

	"demo/lexer"
	"demo/parser"
	"demo/parser/bsr"
	"demo/parser/symbols"
	"demo/sppf"
)

var _ bsr.BSR
var _ symbols.NT
var _ sppf.Node

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

func parse(s string) *bsr.Set {
	set, errs := parser.Parse(lexer.New([]rune(s)))
	if set == nil {
		fail("%q rejected: %v", s, errs[0])
	}
	return set
}

'''
seed('C01-reuse-empty','C01',P,'if pnd.X == X && pnd.k == j {','if pnd.X == X && pnd.k == j && pnd.j > j {',
 'a nullable nonterminal called a second time at the same input position, after it already returned the empty string there',
 'sentences that need the empty derivation on the second call are rejected',
 'S : A A "b" ;\nA : "a" | empty ;', H+'''func main() {
	for _, s := range []string{"b", "a b", "a a b"} {
		parse(s)
	}
}
''')
seed('C02-reuse-bsr','C02',P,'''					p.dscAdd(L, i, pnd.j)
					p.bsrSet.Add(L, i, j, pnd.j)
''','''					p.dscAdd(L, i, pnd.j)
					if !L.EoR() || !p.bsrSet.Contain(X, i, pnd.j) {
						p.bsrSet.Add(L, i, j, pnd.j)
					}
''','a right recursive body whose last nonterminal was already parsed at that position, and whose own symbol spans the same text',
 'a derivation is missing from the forest when its last nonterminal was already parsed at the pivot',
 'S : S S | "a" ;',H+'''func main() {
	set := parse("a a a a")
	n := 0
	var count func(b bsr.BSR) int
	count = func(b bsr.BSR) int {
		p := 1
		for _, l := range b.GetAllNTChildren() {
			k := 0
			for _, c := range l {
				k += count(c)
			}
			p *= k
		}
		return p
	}
	for _, r := range set.GetRoots() {
		n += count(r)
	}
	if n != 5 {
		fail("%d trees, want 5", n)
	}
}
''')
seed('C03-first-child','C03',B,'''                if isAmbiguous(b1) {
                    return true
                }
''','''                return isAmbiguous(b1)
''','the ambiguity is below a nonterminal child that is not the first one of its parent',
 'an ambiguous parse is reported unambiguous',
 'S : A B ;\nA : "x" ;\nB : C "d" ;\nC : "c" | D ;\nD : "c" ;',H+'''func main() {
	if !parse("x c d").IsAmbiguous() {
		fail("ambiguous parse reported unambiguous")
	}
}
''')
seed('C04-pn-label','C04','gen/golang/gll/sppf/sppf.go','''	return fmt.Sprintf("\\"%s,%d,%d,%d\\"", slotString(n.NT, n.Body, n.Pos), n.Lext, n.Pivot, n.Rext)''',
'''	return fmt.Sprintf("\\"%s,%d,%d\\"", slotString(n.NT, n.Body, n.Pos), n.Lext, n.Rext)''',
 'two derivations of one span with the same alternate and different pivots',
 'packed nodes of different pivots are merged, so the SPPF loses derivations',
 'S : A A ;\nA : "a" | "a" "a" ;',H+'''func main() {
	r := parse("a a a").ToSPPF()
	piv := map[int]bool{}
	for _, c := range r.Children {
		piv[c.Pivot] = true
	}
	if len(r.Children) != 2 || len(piv) != 2 {
		fail("%d packed nodes with pivots %v", len(r.Children), piv)
	}
}
''')
seed('C05-sort-linecol','C05',P,'''	sort.Slice(p.parseErrors,
		func(i, j int) bool {
			return p.parseErrors[j].Token.Lext() < p.parseErrors[i].Token.Lext()
		})
	for _, pe := range p.parseErrors {
		pe.Line, pe.Column = p.lex.GetLineColumn(pe.Token.Lext())
	}
''','''	for _, pe := range p.parseErrors {
		pe.Line, pe.Column = p.lex.GetLineColumn(pe.Token.Lext())
	}
	sort.Slice(p.parseErrors,
		func(i, j int) bool {
			pi, pj := p.parseErrors[i], p.parseErrors[j]
			return pj.Line < pi.Line || pj.Column < pi.Column
		})
''','errors on several lines where a later line has the smaller column',
 'the errors of a failed parse are not sorted from the last position to the first, so the first one is not the one of interest',
 'S : "a" A | "a" "b" B ;\nA : "c" ;\nB : "d" ;',H+'''func main() {
	set, errs := parser.Parse(lexer.New([]rune("a  b\\nx")))
	if set != nil {
		fail("accepted")
	}
	for i := 1; i < len(errs); i++ {
		if errs[i-1].Token.Lext() < errs[i].Token.Lext() {
			fail("not sorted: %v", errs)
		}
	}
	if errs[0].Line != 2 {
		fail("first error at line %d", errs[0].Line)
	}
}
''')
