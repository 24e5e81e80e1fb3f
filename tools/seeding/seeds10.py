src=open('/verif/tools/seeding/seeds8.py').read().split("if __name__")[0]
exec(src)
steps('C13-three-way','C13','lr1/action/conflict.go','''	if !this.contain(act2) {
		this.Actions = append(this.Actions, act2)
	}
	return this
''','''	if !this.contain(act2) && len(this.Actions) < 2 {
		this.Actions = append(this.Actions, act2)
	}
	return this
''','a state with three actions for one symbol','LR1_conflicts.txt names two of the actions only','''S : A "x" | B "x" | C "x" ;
A : "a" ;
B : "a" ;
C : "a" ;''','''gogll -knuth -v -o . g.bnf
test -f LR1_conflicts.txt || exit 1
grep -q 'Reduce(4), Reduce(5), Reduce(6)' LR1_conflicts.txt || { cat LR1_conflicts.txt; exit 1; }
''')
steps('C13-follow-head','C13','frstflw/frstflw.go','''				if first.Contain(Empty) {
					// fmt.Printf("  add folow(%s)\\n", r.Head.StringValue())
''','''				if first.Contain(Empty) || idx == len(bs)-2 && ff.FirstOfSymbol(nt).Contain(Empty) {
					// fmt.Printf("  add folow(%s)\\n", r.Head.StringValue())
''','a nullable nonterminal in front of the last symbol of an alternate','FOLLOW has tokens that cannot follow','''S : A "x" "y" | "z" A "x" ;
A : B "b" ;
B : "c" | empty ;''','''gogll -v -o . g.bnf || exit 1
grep -qx 'Follow(B): b *' first_follow.txt || { cat first_follow.txt; exit 1; }
''')
steps('C13-action-order','C13','lr1/gen.go','''				if action := actions[si][symT]; action != nil {
					fmt.Fprintf(w, "\\t%s: %s\\n", symT, action)
				}
''','''				if st := state.Transitions.Transition(symT); st != nil {
					fmt.Fprintf(w, "\\t%s: Shift(%d)\\n", symT, st.Number)
				} else if act := actions[si][symT]; act != nil && !act.Equal(action.ACCEPT) || len(state.ConfigGroups().List()) == 1 && act != nil {
					fmt.Fprintf(w, "\\t%s: %s\\n", symT, act)
				}
''','a state that accepts and has other items','the accepting action is missing from LR1_states.txt','''S : S "a" | "b" ;''','''gogll -knuth -v -o . g.bnf || exit 1
grep -q 'accept' LR1_states.txt || { cat LR1_states.txt; exit 1; }
''')
