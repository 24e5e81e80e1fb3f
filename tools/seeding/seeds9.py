exec(open('/verif/tools/seeding/mk1.py').read())
H=open('/verif/tools/seeding/seeds1.py').read().split("H='''")[1].split("'''")[0].replace('\\\\n','\\n').replace('"fmt"\n\t"os"','"fmt"\n\t"io/ioutil"\n\t"os"\n\t"strings"')
CAP='''
// printed returns what f prints
func printed(f func()) string {
	out, old := "out.txt", os.Stdout
	w, err := os.Create(out)
	if err != nil {
		panic(err)
	}
	os.Stdout = w
	f()
	os.Stdout = old
	w.Close()
	b, _ := ioutil.ReadFile(out)
	return string(b)
}

'''
B='gen/golang/gll/bsr/bsr.go'; SP='gen/golang/gll/sppf/sppf.go'
seed('C21-report-first','C21',B,'''            for _, b1 := range b.GetNTChildrenI(i) {
                if s.report(b1, done) {''','''            for _, b1 := range b.GetNTChildrenI(i)[:1] {
                if s.report(b1, done) {''',
 'an ambiguous child of which one subtree holds a further ambiguity and the first one does not',
 'ReportAmbiguous does not list ambiguities in further subtrees of an ambiguous child',
 'S : X | Y ;\nX : B C | D ;\nY : "a" ;\nB : "a" ;\nC : "b" | E ;\nE : "b" ;\nD : "a" F ;\nF : "b" | E | G ;\nG : "b" ;',H+CAP+'''func main() {
	set := parse("a b")
	out := printed(set.ReportAmbiguous)
	if !strings.Contains(out, "NT C (1)") || !strings.Contains(out, "NT F (1)") {
		fail("%s", out)
	}
}
''')
seed('C21-dot-shared','C21',SP,'''		if !bld.done(n.RightChild) {
			n.RightChild.dot(bld)
		}
		fmt.Fprintf(bld.w, "%s -> %s\\n", n.Label(), n.RightChild.Label())
''','''		if !bld.done(n.RightChild) {
			n.RightChild.dot(bld)
			fmt.Fprintf(bld.w, "%s -> %s\\n", n.Label(), n.RightChild.Label())
		}
''','a right child of a packed node that is shared with a node drawn before','edges to shared nodes are missing in the dot file',
 'S : A B | C B ;\nA : "a" ;\nC : "a" ;\nB : "b" ;',H+CAP+'''func main() {
	parse("a b").ToSPPF().DotFile("x.dot")
	b, _ := ioutil.ReadFile("x.dot")
	n := 0
	for _, l := range strings.Split(string(b), "\\n") {
		if strings.Contains(l, "->") && strings.Contains(l, "B,1,2") {
			if f := strings.Split(l, "->"); strings.Contains(f[1], "B,1,2") {
				n++
			}
		}
	}
	if n != 2 {
		fail("%d edges to B,1,2\\n%s", n, b)
	}
}
''')
