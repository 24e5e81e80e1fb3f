exec(open('/verif/tools/seeding/mk1.py').read())
def steps(id,prop,file,old,new,needs,breaks,bnf,cmds,count=1,extra=None):
    seed(id,prop,file,old,new,needs,breaks,None,None,None,count,extra)
    d='/verif/seeded/'+id
    open(d+'/g.bnf','w').write('package "d"\n\n'+bnf+'\n')
    open(d+'/steps.sh','w').write(cmds)
    open(d+'/demo.sh','w').write('''#!/bin/bash
# Builds gogll from the current directory and runs steps.sh with it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
GOFLAGS="-mod=readonly -trimpath -buildvcs=false" go build -o "$d/gogll" . || exit 2
cp go.mod go.sum "$d/" && cp "$here/g.bnf" "$d/" && cd "$d" || exit 2
sed -i 's|^module .*|module d|' go.mod
gogll() { timeout 60 "$d/gogll" "$@" >log 2>&1; }
. "$here/steps.sh"
''')
same='''for i in $(seq 400); do
  mkdir r$i && gogll %s -o r$i g.bnf || exit 1
  cp log r$i/log
  diff -r r1 r$i >/dev/null || { echo "run $i differs"; exit 1; }
  test $i = 1 || rm -r "$d/r$i"
done
'''
if __name__=='__main__':
    steps('C14-follow-last','C14','frstflw/frstflw.go','''			f := ff.genFollowOf(nt)
			if f.Len() != ff.followSets[nt].Len() {
				again = true
				ff.followSets[nt] = f
			}
''','''			f := ff.genFollowOf(nt)
			again = f.Len() != ff.followSets[nt].Len()
			if again {
				ff.followSets[nt] = f
			}
''','a follow set that reaches a nonterminal through others, and an order of the nonterminals in which the last one is finished first','the follow sets are complete in some runs only','''S : A "x" | "y" S ;
F : "f" | empty ;
D : "d" F | "z" ;
C : "c" D | "z" ;
B : "b" C | "z" ;
A : "a" B | "z" ;''',same%'-v')
    steps('C14-equal-first','C14','lr1/states/configgroupset.go','''		if !grp.Equal(thatGrp) {
			return false
		}
	}
	return true
''','''		return grp.Equal(thatGrp)
	}
	return true
''','two LR(1) states with the same items in which some contexts are equal and others differ','which states are merged, and so the tables, differ from run to run','''S : "a" A "d" | "a" B "e" | "b" A "d" | "b" B "f" ;
A : "c" ;
B : "c" ;''',same%'-v -knuth')
    steps('C14-trans-order','C14','lr1/states/transitions.go','''		for _, sym := range this.symbols {
			if st, exist := this.transitions[sym]; exist {
				this.list = append(this.list, Transition{State: st, Sym: sym})
			}
		}
''','''		for sym, st := range this.transitions {
			this.list = append(this.list, Transition{State: st, Sym: sym})
		}
''','a state with two or more transitions','the numbers of the states, and so the tables, differ from run to run','''S : "a" A "d" | "a" B "e" | "b" A "d" | "b" B "f" ;
A : "c" ;
B : "c" ;''',same%'-pager')
    steps('C14-err-once','C14','gen/golang/gll/parser.go','''func (p *parser) sortParseErrors() {
''','''func (p *parser) sortParseErrors() {
	type place struct {
		slot slot.Label
		cI   int
	}
	seen := map[place]*Error{}
	for _, pe := range p.parseErrors {
		seen[place{pe.Slot, pe.cI}] = pe
	}
	p.parseErrors = p.parseErrors[:0]
	for _, pe := range seen {
		p.parseErrors = append(p.parseErrors, pe)
	}
''','an input with errors in two slots at the same token','the order of the errors at one token differs from run to run','''S : "a" "b" | "a" "c" | "a" "d" | "a" "e" ;''','''gogll g.bnf || exit 1
cat >main.go <<'E'
package main

import (
	"d/lexer"
	"d/parser"
	"fmt"
	"os"
)

func main() {
	_, errs := parser.Parse(lexer.New([]rune("a a")))
	for _, e := range errs {
		fmt.Println(e)
	}
	if len(errs) == 0 {
		os.Exit(1)
	}
}
E
go build -mod=mod -o p . || exit 1
./p >want || exit 1
for i in $(seq 60); do
  ./p >got || exit 1
  cmp -s got want || { echo "run $i differs"; exit 1; }
done
''')
