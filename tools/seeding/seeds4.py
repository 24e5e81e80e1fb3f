exec(open('/tmp/w/mk1.py').read())
L=open('/tmp/w/seeds3.py').read().split("L='''")[1].split("'''")[0].replace('\\\\n','\\n')
seed('C18-escape-cr','C18','ast/lex.go','''		case 'r':
			return '\\r'
		default:''','''		case 'r':
			return '\\n'
		default:''','a character literal that is the escape sequence of a carriage return','the generated lexer matches a line feed instead of the carriage return',
"S : eol_t ;\neol_t : 'x' '\\r' ;",L+'''
func main() {
	want("x\\r", "eol_t(0,2) $(2,2) ")
	want("x\\n", "Error(0,2) $(2,2) ")
}
''')
seed('C18-item-key','C18','lr1/items/item.go','''		hashKey:      itemHashKey(index, 0),
	}
	item0.str = makeItemString(item0.Id, item0.Symbols, item0.Position)
''','''	}
	item0.str = makeItemString(item0.Id, item0.Symbols, item0.Position)
	item0.hashKey = item0.str
''','an LR(1) grammar with string literals that contain the dot with which items are printed, in alternates of one nonterminal',
'two items have the same key, so items are lost and the parser rejects sentences',
'S : "x•" | "•x" ;','''package main

import (
	"os"

	"demo/lexer"
	"demo/parser"
)

func main() {
	for _, in := range []string{"x•", "•x"} {
		if _, err := parser.New(lexer.New([]rune(in))).Parse(); err != nil {
			println(in, err.Error())
			os.Exit(1)
		}
	}
}
''',extra=[('lr1/items/item.go','''	return &Item{
		BasicProdIdx: this.BasicProdIdx,
		Id:           this.Id,
		Symbols:      this.Symbols,
		Position:     this.Position + 1,
		hashKey:      itemHashKey(this.BasicProdIdx, this.Position+1),
		str:          makeItemString(this.Id, this.Symbols, this.Position+1),
	}
''','''	str := makeItemString(this.Id, this.Symbols, this.Position+1)
	return &Item{
		BasicProdIdx: this.BasicProdIdx,
		Id:           this.Id,
		Symbols:      this.Symbols,
		Position:     this.Position + 1,
		hashKey:      str,
		str:          str,
	}
'''),('lr1/items/item.go','''func itemHashKey(pIndex, pos int) string {
	return fmt.Sprintf("%d:%d", pIndex, pos)
}

''','')],flags='-knuth')
