src=open('/verif/tools/seeding/seeds8.py').read().split("if __name__")[0]
exec(src)
# C17; needs /tmp/w/demo_gll.sh
H=open('/verif/tools/seeding/seeds1.py').read().split("H='''")[1].split("'''")[0].replace('\\\\n','\\n')
seed('C17-expected-alias','C17','gen/golang/gll/parser.go','''			for k, v := range first[l] {
				expected[k] = v
			}
''','''			if len(expected) == 0 {
				expected = first[l]
			} else {
				for k, v := range first[l] {
					expected[k] = v
				}
			}
''','a parse that fails where two alternates of a nonterminal could begin, and a later parse','a failed parse changes the errors of later parses','S : "a" "x" | "b" "y" ;',H+'''
func errs(s string) string {
	_, es := parser.Parse(lexer.New([]rune(s)))
	return fmt.Sprint(es)
}

func main() {
	want := errs("b c")
	errs("c")
	if got := errs("b c"); got != want {
		fail("after another parse:\\n%s\\nnot\\n%s", got, want)
	}
}
''')
seed('C17-lexer-scratch','C17','gen/golang/lexer/lexer.go','''		Tokens: make([]*token.Token, 0, 2048),
	}
	lext := 0
''','''		Tokens: scratch[:0],
	}
	lext := 0
''','two lexers at work at the same time','the tokens of one lexer appear in the other','S : S "a" | S "b" | "a" | "b" ;',H.replace('"os"','"os"\n\t"strings"\n\t"sync"')+'''
func main() {
	in := [2]string{strings.Repeat("a ", 900), strings.Repeat("b ", 900)}
	parse("a b")
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		s := in[g%2]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 500; i++ {
				lex := lexer.New([]rune(s))
				for _, t := range lex.Tokens[:len(lex.Tokens)-1] {
					if t.LiteralString() != s[:1] {
						fail("token %s in %s...", t, s[:1])
					}
				}
			}
		}()
	}
	wg.Wait()
}
''',extra=[('gen/golang/lexer/lexer.go','''	lex.add(token.EOF, len(input), len(input))
	return lex
''','''	lex.add(token.EOF, len(input), len(input))
	scratch = lex.Tokens
	lex.Tokens = append([]*token.Token{}, scratch...)
	return lex
'''),('gen/golang/lexer/lexer.go','''func (l *Lexer) scan(i int) *token.Token {
''','''// scratch holds the tokens while they are scanned
var scratch = make([]*token.Token, 0, 2048)

func (l *Lexer) scan(i int) *token.Token {
''')])
seed('C17-key-buffer','C17','gen/golang/gll/bsr/bsr.go','''    return stringKey(fmt.Sprintf("%s,%d,%d", symbols, lext, rext))
''','''    keyBuf.Reset()
    fmt.Fprintf(&keyBuf, "%s,%d,%d", symbols, lext, rext)
    return stringKey(keyBuf.String())
''','two parsers at work at the same time','keys of strings of a forest get mixed up between parsers','S : A A "b" ;\nA : "a" | "a" A ;',H.replace('"os"','"os"\n\t"strings"\n\t"sync"')+'''
func main() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		s := strings.Repeat("a ", g+3) + "b"
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				parse(s).ToSPPF()
			}
		}()
	}
	wg.Wait()
}
''',extra=[('gen/golang/gll/bsr/bsr.go','''func (s *stringBSR) key() stringKey {
''','''var keyBuf bytes.Buffer

func (s *stringBSR) key() stringKey {
''')])
def lr(id,file,old,new,needs,breaks,bnf,ast,main,extra=None):
    steps(id,'C17',file,old,new,needs,breaks,bnf,'''gogll -knuth -o . g.bnf || exit 1
cp "$here/main.go.txt" main.go && cp "$here/ast.go.txt" ast/ast.go || exit 1
export GOFLAGS="-mod=mod -trimpath -buildvcs=false"
go build -o demo . || exit 1
timeout 60 ./demo
''',1,extra)
    d='/verif/seeded/'+id
    open(d+'/ast.go.txt','w').write(ast); open(d+'/main.go.txt','w').write(main)
P='gen/golang/lr1/parser/parser.go'
lr('C17-lr-stack',P,'''	return &stack{ 	state: 	make([]int, 0, iNITIAL_STACK_SIZE),
					attrib: make([]interface{}, 0, iNITIAL_STACK_SIZE),
			}
''','''	return &stack{ 	state: 	initialStates[:0],
					attrib: initialAttribs[:0],
			}
''','a parser that is used by an action routine of another one, or two parsers at work at the same time','the stacks of the parsers get mixed up',
'''S : "a" S "b" | include ;
include : '<' ;''','''package ast

import "fmt"

func G00(p0 interface{}) (interface{}, error) {
	return p0, nil
}

// Parse is set by main
var Parse func(s string) (interface{}, error)

func S0(p0, p1, p2 interface{}) (interface{}, error) {
	return fmt.Sprintf("(%v)", p1), nil
}

func S1(p0 interface{}) (interface{}, error) {
	f := Parse
	if f == nil {
		return "leaf", nil
	}
	Parse = nil
	return f("aa<bb")
}
''','''package main

import (
	"fmt"
	"os"

	"d/ast"
	"d/lexer"
	"d/parser"
)

func main() {
	p := func(s string) (interface{}, error) { return parser.New(lexer.New([]rune(s))).Parse() }
	ast.Parse = p
	res, err := p("aaa<bbb")
	if fmt.Sprintf("%v %v", res, err) != "(((((leaf))))) <nil>" {
		fmt.Println(res, err)
		os.Exit(1)
	}
}
''',extra=[(P,'''func newStack() *stack {
''','''var (
	initialStates  = make([]int, 0, iNITIAL_STACK_SIZE)
	initialAttribs = make([]interface{}, 0, iNITIAL_STACK_SIZE)
)

func newStack() *stack {
''')])
lr('C17-lr-consume',P,'''	if p.i < len(p.tokens) {
		p.nextToken = p.tokens[p.i]
		p.i++
	}
''','''	if p.i < len(p.tokens) {
		p.nextToken, p.tokens[p.i] = p.tokens[p.i], p.nextToken
		p.i++
	}
''','a second parser on the same tokens','a parse consumes the tokens of the lexer','''S : "a" S "b" | "c" ;''','''package ast

import "fmt"

func G00(p0 interface{}) (interface{}, error) {
	return p0, nil
}

func S0(p0, p1, p2 interface{}) (interface{}, error) {
	return fmt.Sprintf("(%v)", p1), nil
}

func S1(p0 interface{}) (interface{}, error) {
	return "c", nil
}
''','''package main

import (
	"fmt"
	"os"

	"d/lexer"
	"d/parser"
)

func main() {
	lex := lexer.New([]rune("aacbb"))
	for i := 0; i < 2; i++ {
		if res, err := parser.New(lex).Parse(); fmt.Sprintf("%v %v", res, err) != "((c)) <nil>" {
			fmt.Println(res, err)
			os.Exit(1)
		}
	}
}
''')

d='/verif/seeded/C17-key-buffer/demo.sh'
t=open(d).read().replace('CGO_ENABLED=0','CGO_ENABLED=1').replace('go build -o "$d/demo"','go build -race -o "$d/demo"')
open(d,'w').write(t)
seed('C17-arena','C17','gen/golang/lexer/lexer.go','''		Tokens: make([]*token.Token, 0, 2048),
	}
	lext := 0
''','''	}
	arena.Lock()
	first := len(arena.tokens)
	arena.Unlock()
	lext := 0
''','two lexers at work at the same time','the tokens of one lexer appear in the other, without a data race','S : S "a" | S "b" | "a" | "b" ;',H.replace('"os"','"os"\n\t"strings"\n\t"sync"')+'''
func main() {
	in := [2]string{strings.Repeat("a ", 900), strings.Repeat("b ", 900)}
	parse("a b")
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		s := in[g%2]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				lex := lexer.New([]rune(s))
				for _, t := range lex.Tokens[:len(lex.Tokens)-1] {
					if t.LiteralString() != s[:1] {
						fail("token %s in %s...", t, s[:1])
					}
				}
			}
		}()
	}
	wg.Wait()
}
''',extra=[('gen/golang/lexer/lexer.go','''	lex.add(token.EOF, len(input), len(input))
	return lex
''','''	lex.add(token.EOF, len(input), len(input))
	arena.Lock()
	defer arena.Unlock()
	lex.Tokens = arena.tokens[first:len(arena.tokens):len(arena.tokens)]
	return lex
'''),('gen/golang/lexer/lexer.go','''	l.Tokens = append(l.Tokens, tok)
''','''	arena.Lock()
	defer arena.Unlock()
	arena.tokens = append(arena.tokens, tok)
'''),('gen/golang/lexer/lexer.go','''func (l *Lexer) scan(i int) *token.Token {
''','''// arena holds the tokens of all lexers
var arena struct {
	sync.Mutex
	tokens []*token.Token
}

func (l *Lexer) scan(i int) *token.Token {
'''),('gen/golang/lexer/lexer.go','''	"strings"
	"unicode"

	"{{.Package}}/token"
''','''	"strings"
	"sync"
	"unicode"

	"{{.Package}}/token"
''')])
