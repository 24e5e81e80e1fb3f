import sys; sys.path.insert(0,'/tmp/w')
from mk1 import seed
H='''package main

import (
	"fmt"
	"os"

	"demo/lexer"
	"demo/parser"
)

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

func parse(s string) (interface{}, error) {
	return parser.New(lexer.New([]rune(s))).Parse()
}

'''
acc=lambda *ss: H+'''func main() {
	for _, s := range []string{%s} {
		if _, err := parse(s); err != nil {
			fail("%%q rejected: %%v", s, err)
		}
	}
}
''' % ', '.join('"%s"'%s for s in ss)
seed('C08-context-subset','C08','lr1/states/contextset.go',"""	if len(this.List) != len(that.List) {
		return false
	}
	for sym := range this.Contain {""","""	if len(this.List) > len(that.List) {
		return false
	}
	for sym := range this.Contain {""",'two states with the same core, the later with a strictly larger context than the earlier',
 'a state with a smaller context is reused for one with a larger context, so sentences are rejected',
 'S : "a" A "x" | "b" B ;\nA : "c" ;\nB : A "x" | A "y" ;',acc("a c x","b c x","b c y"),'-knuth')
seed('C09-clone-context','C09','lr1/states/configgroupset.go','clone.Add(NewConfigGroup(cfg.Item, cfg.ContextSet.Clone().List...))','clone.Add(&ConfigGroup{Item: cfg.Item, ContextSet: cfg.ContextSet, hashKey: cfg.hashKey})',
 'a state whose context grows when it is merged after its own successors were computed',
 'a clone of a configuration group set shares the contexts of the original, so Pager does not notice that a merged state grew',
 'S : "a" S "b" | empty ;',acc("a b","a a b b"),'-pager')
seed('C10-last-production','C10','lr1/action/action.go','''		if this < that {
			return this
		}
		return that''','''		if this == that {
			return this
		}
		return that''','a reduce/reduce conflict resolved with -resolve_conflicts',
 'the last instead of the first of conflicting productions is reduced',
 'S : A | B ;\nA : "a" ;\nB : "a" ;',H.replace('"demo/lexer"','"demo/ast"\n\t"demo/lexer"')+'''func main() {
	ast.Log = nil
	if _, err := parse("a"); err != nil {
		fail("rejected: %v", err)
	}
	if s := fmt.Sprint(ast.Log); s != "[A0 S0 G00]" {
		fail("reductions %s", s)
	}
}
''','-knuth -resolve_conflicts')
seed('C11-error-at-eof','C11','gen/golang/lr1/parser/parser.go','''	if err != nil {
		w.WriteString(err.Error())
	} else {
		w.WriteString(", expected''','''	if err != nil && P.nextToken.Type() != token.EOF {
		w.WriteString(err.Error())
	} else {
		w.WriteString(", expected''','an action routine that fails in a reduction whose lookahead is the end of the input',
 'the error of the action routine is replaced by a list of expected tokens',
 'S : "a" S | "b" ;',H.replace('"os"','"os"\n\t"strings"').replace('"demo/lexer"','"demo/ast"\n\t"demo/lexer"')+'''func main() {
	ast.Fail = "S0"
	_, err := parse("a b")
	if err == nil || !strings.Contains(err.Error(), "S0 failed") {
		fail("error of the action lost: %v", err)
	}
}
''','-knuth')
seed('C12-pop-all','C12','gen/golang/lr1/parser/parser.go','''	if rs, ok := P.firstRecoveryState(); ok {
		errorSymbols''','''	if rs, ok := P.firstRecoveryState(); ok || rs == 0 {
		errorSymbols''','an error found in a state from which the parser cannot recover, below the start state',
 'the stack is emptied before the error is built, so the expected tokens are those of the start of the input',
 'S : "a" "b" ;',H.replace('"os"','"os"\n\t"strings"')+'''func main() {
	_, err := parse("a a")
	if err == nil {
		fail("accepted")
	}
	i := strings.Index(err.Error(), "expected one of: ")
	if i < 0 || strings.TrimSpace(err.Error()[i+17:]) != "b" {
		fail("wrong expected tokens: %v", err)
	}
}
''','-knuth')
import os
for id,prods in (('C10-last-production',[('G00',1),('S0',1),('S1',1),('A0',1),('B0',1)]),('C11-error-at-eof',[('G00',1),('S0',2),('S1',1)])):
    d='/verif/seeded/'+id
    s='package ast\n\nimport "fmt"\n\nvar Log []string\nvar Fail string\n\nfunc call(n string) (interface{}, error) {\n\tLog = append(Log, n)\n\tif n == Fail {\n\t\treturn nil, fmt.Errorf("%s failed", n)\n\t}\n\treturn n, nil\n}\n\n'
    for n,k in prods:
        s+='func %s(%s interface{}) (interface{}, error) { return call("%s") }\n'%(n,', '.join('p%d'%i for i in range(k)),n)
    open(d+'/ast.go.txt','w').write(s)
