exec(open('/tmp/w/mk1.py').read())
L='''package main

import (
	"fmt"
	"os"

	"demo/lexer"
)

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

func toks(in string) (s string) {
	for _, t := range lexer.New([]rune(in)).Tokens {
		s += fmt.Sprintf("%s(%d,%d) ", t.TypeID(), t.Lext(), t.Rext())
	}
	return
}

func want(in, w string) {
	if g := toks(in); g != w {
		fail("%q: %s expected %s", in, g, w)
	}
}
'''
seed('C06-stale-accept','C06','gen/golang/lexer/lexer.go','''			typ = accept[s]
			s = nextState[s](l.I[rext])''','''			if accept[s] != token.Error {
				typ = accept[s]
			}
			s = nextState[s](l.I[rext])''','a token of which a proper prefix is a token, cut off between the two lengths by another character',
 'the lexer keeps the type of the shorter token for text that is no token',
 "S : one | two ;\none : 'a' ;\ntwo : 'a' 'b' 'c' ;",L+'''
func main() {
	want("a", "one(0,1) $(1,1) ")
	want("abc", "two(0,3) $(3,3) ")
	want("ax", "one(0,1) Error(1,2) $(2,2) ")
	want("abx", "Error(0,3) $(3,3) ")
}
''')
seed('C07-md-last-fence','C07','gen/golang/lexer/lexer.go','if i <= len(input)-3 && input[i]','if i < len(input)-3 && input[i]','a Markdown file that ends with the closing fence of a code block, without a line end behind it',
 'the last fence of the file is read as input text',
 "S : <id_tok> ;\nid_tok : <letter> ;".replace('<id_tok>','id_tok'),L.replace('"os"','"os"\n\t"path/filepath"')+'''
func main() {
	fn := filepath.Join(filepath.Dir(os.Args[0]), "f.md")
	if err := os.WriteFile(fn, []byte("text\\n```\\nabc\\n```"), 0o644); err != nil {
		fail("%v", err)
	}
	lex := lexer.NewFile(fn)
	if len(lex.Tokens) != 2 || lex.Tokens[0].LiteralString() != "abc" {
		fail("tokens %v", lex.Tokens)
	}
	_ = want
}
''')
seed('C07-line-of-token','C07','gen/golang/token/token.go','''    line, col = 1, 1
    for j := 0; j < t.lext; j++ {
        switch t.input[j] {
        case '\\n':''','''    line, col = 1, 1
    for j := 0; j < t.lext; j++ {
        switch t.input[j] {
        case '\\r':
            col = 1
        case '\\n':''','an input with carriage returns, asked for the position of a token after one',
 'Token.GetLineColumn restarts the columns at a carriage return, other than Lexer.GetLineColumn',
 "S : id_tok ;\nid_tok : <letter> ;",L+'''
func main() {
	lex := lexer.New([]rune("ab \\r cd"))
	l, c := lex.Tokens[1].GetLineColumn()
	l1, c1 := lex.GetLineColumnOfToken(1)
	if l != l1 || c != c1 || c != 6 {
		fail("%d,%d and %d,%d", l, c, l1, c1)
	}
	_ = want
}
''')
seed('C19-excl-named','C19','ast/lex.go','''	return unicode.In(r, incl...) && !unicode.In(r, excl...)
}''','''	return unicode.In(r, incl...) && (len(incl) > 0 || !unicode.In(r, excl...))
}''','a character named in one symbol that a Unicode set in another rule excludes',
 'the character is taken to be in the set that excludes it',
 "S : one | two ;\none : any \"aZ\" '1' ;\ntwo : '[\\p{L}-\\p{Lu}]' '2' ;",L+'''
func main() {
	want("a1", "one(0,2) $(2,2) ")
	want("a2", "two(0,2) $(2,2) ")
	want("Z1", "one(0,2) $(2,2) ")
	want("Z2", "Error(0,2) $(2,2) ")
}
''')
seed('C19-table','C19','gen/golang/lexer/lexer.go','_Other_ID_Start                     = unicode.Other_ID_Start ','_Other_ID_Start                     = unicode.Other_ID_Continue ','a Unicode set with the property Other_ID_Start',
 'the generated lexer looks the property up in another table',
 "S : one ;\none : '[\\p{L}\\p{Nl}\\p{Other_ID_Start}]' ;",L+'''
func main() {
	want("a", "one(0,1) $(1,1) ")
	want("\\u212e", "one(0,1) $(1,1) ")
	want("\\u00b7", "Error(0,1) $(1,1) ")
}
''')
