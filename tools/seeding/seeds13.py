src=open('/verif/tools/seeding/seeds8.py').read().split("if __name__")[0]
exec(src)
# long inputs; needs /tmp/w/demo_gll.sh
H=open('/verif/tools/seeding/seeds1.py').read().split("H='''")[1].split("'''")[0].replace('\\\\n','\\n')
HL=H.replace('"os"','"os"\n\t"strings"')
B='gen/golang/gll/bsr/bsr.go'
seed('C02-slot-uint16','C02',B,'''    nt          symbols.NT
    leftExtent  int
    rightExtent int
}

// BSR is''','''    nt          symbols.NT
    leftExtent  uint16
    rightExtent uint16
}

// BSR is''','an input of more than 65536 tokens','subtrees at positions that differ by 65536 are mixed up','S : "a" S | "b" ;',HL+'''
func main() {
	n := 66000
	b := parse(strings.Repeat("a ", n) + "b").GetRoot()
	for i := 0; ; i++ {
		if b.LeftExtent() != i || b.RightExtent() != n+1 {
			fail("subtree at %d is %d to %d", i, b.LeftExtent(), b.RightExtent())
		}
		if i == n {
			return
		}
		if k := len(b.GetNTChildrenI(1)); k != 1 {
			fail("%d subtrees at %d", k, i+1)
		}
		b = b.GetNTChildI(1)
	}
}
''',extra=[(B,'nt := ntSlot{b.Label.Head(), b.leftExtent, b.rightExtent}','nt := ntSlot{b.Label.Head(), uint16(b.leftExtent), uint16(b.rightExtent)}'),
(B,'s.ntSlotEntries[ntSlot{nt, leftExtent, rightExtent}]','s.ntSlotEntries[ntSlot{nt, uint16(leftExtent), uint16(rightExtent)}]')])
P='gen/golang/gll/parser.go'
seed('C01-crf-uint16','C01',P,'''	L slot.Label
	i int
}
''','''	L slot.Label
	i uint16
}
''','an input of more than 65536 tokens','sentences are rejected, or parsed wrong','S : "a" S | "b" ;',HL+'''
func main() {
	parse(strings.Repeat("a ", 66000) + "b")
}
''',extra=[(P,'u, exist := p.crfNodes[crfNode{L, i}]','u, exist := p.crfNodes[crfNode{L, uint16(i)}]'),
(P,'u = &crfNode{L, i}','u = &crfNode{L, uint16(i)}'),
(P,'''			p.dscAdd(nd.L, nd.i, j)
			p.bsrSet.Add(nd.L, nd.i, k, j)''','''			p.dscAdd(nd.L, int(nd.i), j)
			p.bsrSet.Add(nd.L, int(nd.i), k, j)''')])
L='gen/golang/lr1/parser/parser.go'
seed('C11-stack-grow','C11',L,'''	this.state = append(this.state, s)
''','''	if len(this.state) == cap(this.state) {
		this.grow()
	}
	this.state = append(this.state, s)
''','an LR(1) parse with a stack of more than 200 symbols','action routines get nil instead of the values of their symbols','S : "a" S "c" | "b" ;',"""package main

import (
	"fmt"
	"os"
	"strings"

	"demo/lexer"
	"demo/parser"
)

func main() {
	n := 300
	res, err := parser.New(lexer.New([]rune(strings.Repeat("a ", n) + "b" + strings.Repeat(" c", n)))).Parse()
	if err != nil || res != n {
		fmt.Println(res, err)
		os.Exit(1)
	}
}
""",flags='-knuth',extra=[(L,'''func(this *stack) top() int {
''','''// grow doubles the capacity
func (this *stack) grow() {
	state := make([]int, len(this.state), 2*cap(this.state))
	attrib := make([]interface{}, len(this.attrib), 2*cap(this.state))
	copy(state, this.state)
	copy(attrib, this.attrib[len(this.attrib)-iNITIAL_STACK_SIZE:])
	this.state, this.attrib = state, attrib
}

func(this *stack) top() int {
''')])
open('/verif/seeded/C11-stack-grow/ast.go.txt','w').write("""package ast

import "fmt"

func G00(p0 interface{}) (interface{}, error) { return p0, nil }

func S0(p0, p1, p2 interface{}) (interface{}, error) {
	if p0 == nil {
		return nil, fmt.Errorf("no value for a token")
	}
	return p1.(int) + 1, nil
}

func S1(p0 interface{}) (interface{}, error) { return 0, nil }
""")
X='gen/golang/lexer/lexer.go'
T='gen/golang/token/token.go'
HX='''package main

import (
	"fmt"
	"os"
	"strings"

	"demo/lexer"
)

func main() {
'''
seed('C06-length-uint16','C06',T,'''    lext, rext int
    input      []rune
''','''    lext       int
    length     uint16
    input      []rune
''','a token of more than 65535 runes','the lexer returns a shorter token, and scans the rest of it again','word : \'a\' {\'a\'} ;\nS : word ;',HX+'''	l := lexer.New([]rune(strings.Repeat("a", 70000)))
	if len(l.Tokens) != 2 || l.Tokens[0].Rext() != 70000 {
		fmt.Println(len(l.Tokens), l.Tokens[0].Rext())
		os.Exit(1)
	}
}
''',extra=[(T,'''        lext:  lext,
        rext:  rext,
        input: input,
''','''        lext:   lext,
        length: uint16(rext - lext),
        input:  input,
'''),(T,'t.input[t.lext:t.rext]','t.input[t.lext:t.Rext()]'),(T,'    return t.rext\n','    return t.lext + int(t.length)\n'),(T,'t.lext, t.rext, t','t.lext, t.Rext(), t')])
seed('C07-file-chunks','C07',X,'''	buf, err := ioutil.ReadFile(fname)
	if err != nil {
		panic(err)
	}
	input := []rune(string(buf))
''','''	input, err := readFile(fname)
	if err != nil {
		panic(err)
	}
''','a file of more than 4096 bytes with a character of several bytes across the end of a block','NewFile gives U+FFFD instead of the character','word : letter {letter} ;\nS : word ;',HX.replace('"fmt"','"fmt"\n\t"io/ioutil"')+'''	for _, n := range []int{100, 4094, 4095, 4096, 9000} {
		s := strings.Repeat("a", n) + "本 b"
		if err := ioutil.WriteFile("in.txt", []byte(s), 0644); err != nil {
			panic(err)
		}
		if got := string(lexer.NewFile("in.txt").I); got != s {
			fmt.Println(n, got[n-2:])
			os.Exit(1)
		}
	}
}
''',extra=[(X,'''func loadMd(''','''// readFile returns the runes of the file.
func readFile(fname string) (input []rune, err error) {
	f, err := os.Open(fname)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	buf := make([]byte, 4096)
	for {
		n, err := f.Read(buf)
		input = append(input, []rune(string(buf[:n]))...)
		if err == io.EOF {
			return input, nil
		}
		if err != nil {
			return nil, err
		}
	}
}

func loadMd('''),(X,'''	"io/ioutil"
	"strings"
	"unicode"

	"{{''','''	"io"
	"os"
	"strings"
	"unicode"

	"{{''')])
