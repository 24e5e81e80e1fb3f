src=open('/verif/tools/seeding/seeds8.py').read().split("if __name__")[0]
exec(src)
# C22; needs /tmp/w/demo_gll.sh
H=open('/verif/tools/seeding/seeds1.py').read().split("H='''")[1].split("'''")[0].replace('\\\\n','\\n')
HT=H.replace('"os"','"os"\n\t"runtime"\n\t"strings"\n\t"time"').replace('func fail(','''// cost is the least time and memory that f took in three runs.
func cost(f func()) (t, m float64) {
	for i := 0; i < 3; i++ {
		var a, b runtime.MemStats
		runtime.GC()
		runtime.ReadMemStats(&a)
		t0 := time.Now()
		f()
		d := time.Since(t0).Seconds()
		runtime.ReadMemStats(&b)
		if i == 0 || d < t {
			t = d
		}
		m = float64(b.TotalAlloc - a.TotalAlloc)
	}
	return
}

func fail(''')
seed('C22-ambig-twice','C22','gen/golang/gll/bsr/bsr.go','''            if len(b.GetNTChildrenI(i)) != 1 {
                return true
            }
            for _, b1 := range b.GetNTChildrenI(i) {
                if isAmbiguous(b1) {
                    return true
                }
            }
        }
    }
    return false
''','''            if hasAmbiguousChild(b, i) {
                return true
            }
            if len(b.GetNTChildrenI(i)) != 1 {
                return true
            }
            for _, b1 := range b.GetNTChildrenI(i) {
                if isAmbiguous(b1) {
                    return true
                }
            }
        }
    }
    return false
''','IsAmbiguous asked of an unambiguous parse whose tree is deep','IsAmbiguous takes exponential time in the depth of the tree','S : "a" S | empty ;',HT+'''
func main() {
	set := parse(strings.Repeat("a ", 60))
	done := make(chan bool)
	go func() { done <- set.IsAmbiguous() }()
	select {
	case a := <-done:
		if a {
			fail("ambiguous")
		}
	case <-time.After(20 * time.Second):
		fail("IsAmbiguous of a tree of depth 60 does not end within 20 s")
	}
}
''',extra=[('gen/golang/gll/bsr/bsr.go','''//---- SPPF ------------
''','''// hasAmbiguousChild returns true if symbol i of b has an ambiguous subtree.
func hasAmbiguousChild(b BSR, i int) bool {
    for _, b1 := range b.GetNTChildrenI(i) {
        if isAmbiguous(b1) {
            return true
        }
    }
    return false
}

//---- SPPF ------------
''')])
seed('C22-space-rest','C22','gen/golang/lexer/lexer.go','''		for lext < len(lex.I) && unicode.IsSpace(lex.I[lext]) {
			lext++
		}
''','''		rest := strings.TrimLeftFunc(string(lex.I[lext:]), unicode.IsSpace)
		lext = len(lex.I) - utf8.RuneCountInString(rest)
''','an input of many tokens','the lexer takes quadratic time and space','S : "a" S | empty ;',HT+'''
func main() {
	size := func(n int) (s float64) {
		in := []rune(strings.Repeat("a ", n))
		_, s = cost(func() { lexer.New(in) })
		return
	}
	a, b := size(3000), size(12000)
	if b > 8*a {
		fail("%.0f bytes for 3000 tokens, %.0f for 12000", a, b)
	}
}
''',extra=[('gen/golang/lexer/lexer.go','''	"unicode"

	"{{.Package}}/token"
''','''	"unicode"
	"unicode/utf8"

	"{{.Package}}/token"
''')])
seed('C22-lr-push','C22','gen/golang/lr1/parser/parser.go','''	this.state = append(this.state, s)
''','''	state := make([]int, len(this.state), len(this.state)+1)
	copy(state, this.state)
	this.state = append(state, s)
''','an LR(1) parse with a deep stack: right recursion, nested brackets','the LR(1) parser takes quadratic time and space','S : "a" S | "b" ;',"""package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"

	"demo/lexer"
	"demo/parser"
)

func size(n int) float64 {
	l := lexer.New([]rune(strings.Repeat("a ", n) + "b"))
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	_, err := parser.New(l).Parse()
	runtime.ReadMemStats(&b)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	return float64(b.TotalAlloc - a.TotalAlloc)
}

func main() {
	a, b := size(2000), size(8000)
	if b > 8*a {
		fmt.Printf("%.0f bytes for 2000 tokens, %.0f for 8000\\n", a, b)
		os.Exit(1)
	}
}
""",flags='-knuth')
seed('C22-popped-scan','C22','gen/golang/gll/parser.go','''	if _, exist := p.popped[pn]; !exist {
''','''	if !p.hasPopped(pn) {
''','a long input','a GLL parser of an LL grammar takes quadratic time','S : "a" S | empty ;',HT+'''
func main() {
	took := func(n int) (t float64) {
		l := lexer.New([]rune(strings.Repeat("a ", n)))
		t, _ = cost(func() {
			if set, _ := parser.Parse(l); set == nil {
				fail("rejected")
			}
		})
		return
	}
	a, b := took(500), took(30000)
	if b > 1 && b > 300*a {
		fail("%f s for 500 tokens, %f for 30000", a, b)
	}
}
''',extra=[('gen/golang/gll/parser.go','''func (p *parser) rtn(''','''// hasPopped returns true if pn was popped before.
func (p *parser) hasPopped(pn poppedNode) bool {
	for n := range p.popped {
		if n.X == pn.X && n.j == pn.j && n.k == pn.k {
			return true
		}
	}
	return false
}

func (p *parser) rtn(''')])
seed('C22-sppf-strings','C22','gen/golang/gll/bsr/bsr.go','''                for _, str := range pf.GetAllStrings(alpha, in.Lext, in.Rext) {
''','''                for _, str := range pf.getStringBSRs() {
                    if !str.Symbols.Equal(alpha) || str.leftExtent != in.Lext || str.rightExtent != in.Rext {
                        continue
                    }
''','a grammar with bodies of more than two symbols and a long input','building the SPPF takes more than cubic time, and is not linear for LL grammars','S : "a" "b" "c" "d" S | empty ;',HT+'''
func main() {
	took := func(n int) (t float64) {
		set := parse(strings.Repeat("a b c d ", n))
		t, _ = cost(func() { set.ToSPPF() })
		return
	}
	a, b := took(50), took(800)
	if b > 0.5 && b > 64*a {
		fail("%f s for 200 tokens, %f for 3200", a, b)
	}
}
''')
