exec(open('/tmp/w/mk1.py').read())
def front(id,prop,file,old,new,needs,breaks,cases,flags=None,count=1,extra=None):
    seed(id,prop,file,old,new,needs,breaks,None,None,None,count,extra)
    d='/verif/seeded/'+id
    for i,(src,want) in enumerate(cases):
        open(d+'/case%d.bnf'%i,'w').write('package "demo"\n\n'+src+'\n')
        open(d+'/case%d.want'%i,'w').write(want)
    if flags: open(d+'/flags','w').write(flags)
    subprocess.check_call(['cp','/tmp/w/demo_front.sh',d+'/demo.sh'])
if __name__=='__main__':
  front('C15-first-brace','C15','parser/parser.go','''	// LexOptional : [ LexAlternates ] ∙
	{
		token.T_1:   "'[",
		token.T_2:   "(",
		token.T_3:   ")",
''','''	// LexOptional : [ LexAlternates ] ∙
	{
		token.T_1:   "'[",
		token.T_2:   "(",
''','nothing but a table entry','placeholder',[('S : ab ;\nab : ( \'a\' [ \'b\' ] ) \'c\' ;','rc=0')])
  front('C15-keyword-prefix','C15','lexer/lexer.go','''		case r == '_':
			return 33 
		case r == 'c':
			return 52 
		case unicode.IsLetter(r):
			return 33 
		case unicode.IsNumber(r):
			return 33 
''','''		case r == '_':
			return 33 
		case r == 'c':
			return 52 
		case unicode.IsLetter(r):
			return 33 
''','a token ID that is the beginning of the word package followed by a digit','gogll splits the token ID and rejects the source',[('S : pa1 ;\npa1 : \'a\' ;','rc=0')])
  front('C15-sort-line','C15','parser/parser.go','''			return p.parseErrors[j].Token.Lext() < p.parseErrors[i].Token.Lext()
		})
	for _, pe := range p.parseErrors {
		pe.Line, pe.Column = p.lex.GetLineColumn(pe.Token.Lext())
	}
''','''			return p.parseErrors[j].Column < p.parseErrors[i].Column || p.parseErrors[j].Column == p.parseErrors[i].Column && p.parseErrors[j].Line < p.parseErrors[i].Line
		})
''','an error on a line that is shorter than one before it','gogll reports a position before the error',[('S : "a" "b" "c" "d"\n| ! ;','line 4 col 3')],
  extra=[('parser/parser.go','''	p.sortParseErrors()
		return nil''','''	for _, pe := range p.parseErrors {
			pe.Line, pe.Column = p.lex.GetLineColumn(pe.Token.Lext())
		}
		p.sortParseErrors()
		return nil''')])
  front('C15-suppress-nested','C15','ast/build.go','''		re.Symbols = bld.getLexRuleBody(b.GetTChildI(0))
		re1 := bld.regexp(b.GetNTChild(symbols.NT_RegExp, 0))
		re.Symbols = append(re.Symbols, re1.Symbols...)
	default:''','''		re.Symbols = bld.getLexRuleBody(b.GetTChildI(0))
		if re1 := bld.regexp(b.GetNTChild(symbols.NT_RegExp, 0)); len(re1.Symbols) > 0 && re1.Symbols[0] != re.Symbols[0] {
			re.Symbols = append(re.Symbols, re1.Symbols...)
		}
	default:''','a token rule that refers to the same token twice in a row','the second reference is dropped',[('S : cd ;\nab : \'a\' ;\ncd : ab ab ;','')])
