exec(open('/tmp/w/seeds5.py').read().replace("if __name__=='__main__':","if False:"))
front('C20-dup-adjacent','C20','ast/build.go','''		if nts.Contain(r.Head.ID()) {
			bld.fail(fmt.Errorf("Duplicate rule %s", r.Head.ID()), r.Head.Lext())
		} else {
			nts.Add(r.Head.ID())
		}
''','''		nts.Add(r.Head.ID())
''','a syntax rule that is repeated after another rule, not directly','the second rule is accepted and ignored',[('S : "a" A ;\nA : "b" ;\nS : "c" ;','line 5 col 1'),],extra=[('ast/build.go','''	if nil != bld.gogll.GetSyntaxRule(r.ID()) {
''','''	if n := len(bld.gogll.SyntaxRules); n > 0 && bld.gogll.SyntaxRules[n-1].ID() == r.ID() {
''')])
def files(id,*a,**k):
    front(id,*a,**k); subprocess.check_call(['cp','/tmp/w/demo_files.sh','/verif/seeded/'+id+'/demo.sh'])
files('C20-verbose-first','C20','main.go','''	sc.Go(g, lex)
	symbols.Init(g)
''','''	symbols.Init(g)
''','an undefined symbol and -v','reports are written although the source is refused',[('S : "a" ta ;\n','./g.bnf ./out')],flags='-v',extra=[('main.go','''		gensymbols.Gen(g)
''','''		gensymbols.Gen(g)
	}
	sc.Go(g, lex)
	if cfg.Verbose {
''')])
files('C20-range-sign','C20','ast/build.go','''		if ranges.Contain(rng) {
			bld.fail''','''		if ranges.ContainRange(rng) {
			bld.fail''','a Unicode set that includes and excludes the same range','a right source is refused',[("S : ta ;\nta : '[\\p{L}\\p{Lu}-\\p{Nd}-\\p{Lu}\\p{Nd}]' ;\n",'rc=0')],extra=[('ast/build.go','''	if ranges.Contain(rng) {
		bld.fail''','''	if ranges.ContainRange(rng) {
		bld.fail''')])
files('C20-first-follow-dir','C20','gen/firstfollow/firstfollow.go','''	fname := path.Join(cfg.BaseDir, "first_follow.txt")
''','''	fname := path.Join(path.Dir(cfg.SrcFile), "first_follow.txt")
''','-v with -o and a source in another directory','a file is written outside the output directory',[('S : "a" ;\n','./out ./o/first_follow.txt')],flags='-v')
files('C20-verbose-first','C20','main.go','''	sc.Go(g, lex)
	symbols.Init(g)
''','''	gensymbols.Gen(g)
	sc.Go(g, lex)
	symbols.Init(g)
''','an undefined symbol and -v','a report is written although the source is refused',[('S : "a" ta ;\n','./out end')],flags='-v',extra=[('main.go','''	if cfg.Verbose {
		gensymbols.Gen(g)
''','''	if cfg.Verbose {
''')])
