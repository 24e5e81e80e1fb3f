exec(open('/tmp/w/seeds5.py').read().replace("if __name__=='__main__':","if False:"))
def rg(id,file,old,new,needs,breaks,steps,count=1,extra=None):
    seed(id,'C16',file,old,new,needs,breaks,None,None,None,count,extra)
    d='/verif/seeded/'+id
    open(d+'/steps.sh','w').write(steps)
    subprocess.check_call(['cp','/tmp/w/demo_regen.sh',d+'/demo.sh'])
rg('C16-own-ast','gen/golang/lr1/ast/ast.go','''	if ioutil.Exist(fname) && !*cfg.All {
''','''	if ioutil.Exist(fname) && ioutil.Exist(filepath.Join(cfg.BaseDir, "parser", "productionstable.go")) && !*cfg.All {
''','an ast.go without the generated parser: written by hand before the first run, or after the parser directory was deleted','the file of the user is overwritten','''
gogll -knuth -o o g0.bnf || exit 1
echo '// mine' >>o/ast/ast.go; cp o/ast/ast.go want
gogll -knuth -o o g1.bnf || exit 1
cmp o/ast/ast.go want || exit 1
rm -rf o/parser
gogll -knuth -o o g1.bnf || exit 1
cmp o/ast/ast.go want || exit 1
''')
rg('C16-no-trunc','gen/golang/token/token.go','''	if err = ioutil.WriteFile(tokenFile(g.Package.GetString()), buf.Bytes()); err != nil {
		panic(err)
	}
''','''	fname := tokenFile(g.Package.GetString())
	if err = ioutil.MkdirAll(filepath.Dir(fname)); err != nil {
		panic(err)
	}
	f, err := os.OpenFile(fname, os.O_WRONLY|os.O_CREATE, 0644)
	if err != nil {
		panic(err)
	}
	if _, err = f.Write(buf.Bytes()); err != nil {
		panic(err)
	}
	if err = f.Close(); err != nil {
		panic(err)
	}
''','generating over a longer token.go of an earlier run','the end of the old file stays, the code does not compile','''
gogll -o o g1.bnf && gogll -o o g0.bnf && gogll -o p g0.bnf && cmp o/token/token.go p/token/token.go || exit 1
''',extra=[('gen/golang/token/token.go','''	"bytes"
''','''	"bytes"
	"os"
''')])
rg('C16-same-size','gen/golang/lexer/lexer.go','''	if err = ioutil.WriteFile(lexFile, buf.Bytes()); err != nil {
''','''	if old, err := os.Stat(lexFile); err == nil && old.Size() == int64(buf.Len()) {
		return // nothing has changed
	}
	if err = ioutil.WriteFile(lexFile, buf.Bytes()); err != nil {
''','a change of the grammar that leaves the size of lexer.go as it is','the old lexer stays','''
gogll -o o g0.bnf && gogll -o o g2.bnf && gogll -o p g2.bnf && cmp o/lexer/lexer.go p/lexer/lexer.go || exit 1
''',extra=[('gen/golang/lexer/lexer.go','''	"bytes"
''','''	"bytes"
	"os"
''')])
rg('C16-goto-error','gen/golang/lr1/parser/gototable.go','''	if err := ioutil.WriteFile(path.Join(outDir, "parser", "gototable.go"), wr.Bytes()); err != nil {
		panic(err)
	}
''','''	fname := path.Join(outDir, "parser", "gototable.go")
	if ioutil.WriteFile(fname, wr.Bytes()) != nil && !ioutil.Exist(fname) {
		panic("cannot write " + fname)
	}
''','an error while gototable.go is written','exit code 0 with an old or incomplete file','''
mkdir -p o/parser/gototable.go
if gogll -knuth -o o g0.bnf; then echo "not noticed"; exit 1; fi
''')
rg('C16-old-reports','lr1/gen.go','''	os.Remove(path.Join(cfg.BaseDir, "LR1_states.txt"))
	os.Remove(path.Join(cfg.BaseDir, "LR1_conflicts.txt"))
''','''	old, _ := filepath.Glob(path.Join(cfg.BaseDir, "LR1_*.txt"))
	for _, f := range old {
		os.Remove(f)
	}
''','a file of the user whose name begins like those of the reports','it is deleted','''
mkdir o; echo mine >o/LR1_notes.txt
gogll -pager -o o g0.bnf || exit 1
[ "$(cat o/LR1_notes.txt)" = mine ] || { echo "file lost"; exit 1; }
''',extra=[('lr1/gen.go','	"path"\n','	"path"\n	"path/filepath"\n')])
