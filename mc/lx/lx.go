// Package lx is the reference model of gogll's lexical rules: regular
// expressions over sets of runes, simulated as an NFA. It has its own parser of
// the rules and shares nothing with the generator under test.
package lx

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
)

// Node is a regular expression.
type Node struct {
	Kind byte // 's' symbol, '.' sequence, '(' '[' '{' '<' brackets with alternates
	Subs []*Node
	In   func(r rune) bool
	Src  string
	Spec []rune // In depends on these runes one by one
	All  bool   // apart from Spec, In is the same for all runes
}

// Rule is a token definition.
type Rule struct {
	ID       string
	Suppress bool
	Lit      bool
	Re       *Node
	n        *nfa
}

// Spec is a set of token definitions.
type Spec struct {
	Rules  []*Rule
	init   *dstate
	states map[string]*dstate
	single map[rune]bool
	preds  []func(r rune) bool
}

// Class is the same for runes which no rule tells apart.
func (sp *Spec) Class(r rune) int {
	if sp.single == nil {
		sp.single = map[rune]bool{}
		sp.preds = append(sp.preds, unicode.IsSpace)
		seen := map[string]bool{}
		for _, n := range sp.Syms() {
			for _, c := range n.Spec {
				sp.single[c] = true
			}
			if !n.All && !seen[n.Src] {
				seen[n.Src] = true
				sp.preds = append(sp.preds, n.In)
			}
		}
		if len(sp.preds) > 40 {
			panic("too many predicates")
		}
	}
	if sp.single[r] {
		return int(r)
	}
	k := 1 << 40
	for i, p := range sp.preds {
		if p(r) {
			k |= 1 << i
		}
	}
	return k
}

type parser struct {
	s    []rune
	i    int
	defs map[string]*Node
}

func (p *parser) ws() {
	for p.i < len(p.s) && unicode.IsSpace(p.s[p.i]) {
		p.i++
	}
}

func (p *parser) peek() rune {
	p.ws()
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}

func (p *parser) ident() string {
	p.ws()
	j := p.i
	for j < len(p.s) && (unicode.IsLetter(p.s[j]) || unicode.IsNumber(p.s[j]) || p.s[j] == '_') {
		j++
	}
	id := string(p.s[p.i:j])
	p.i = j
	return id
}

func unesc(r rune) rune {
	switch r {
	case 'n':
		return '\n'
	case 'r':
		return '\r'
	case 't':
		return '\t'
	}
	return r
}

// Unquote gives the runes of the inside of a string or char literal.
func Unquote(s string) (rs []rune) {
	in := []rune(s)
	for i := 0; i < len(in); i++ {
		if in[i] == '\\' && i+1 < len(in) {
			i++
			rs = append(rs, unesc(in[i]))
		} else {
			rs = append(rs, in[i])
		}
	}
	return
}

func (p *parser) quoted(q rune) []rune {
	if p.peek() != q {
		panic("quote expected at " + string(p.s[p.i:]))
	}
	p.i++
	j := p.i
	for p.s[p.i] != q {
		if p.s[p.i] == '\\' {
			p.i++
		}
		p.i++
	}
	p.i++
	return Unquote(string(p.s[j : p.i-1]))
}

func has(set []rune, r rune) bool {
	for _, x := range set {
		if x == r {
			return true
		}
	}
	return false
}

// Table returns the range table that package unicode has under a name.
func Table(name string) *unicode.RangeTable {
	long := map[string]*unicode.RangeTable{"Digit": unicode.Digit, "Letter": unicode.Letter, "Lower": unicode.Lower, "Mark": unicode.Mark,
		"Number": unicode.Number, "Other": unicode.Other, "Punct": unicode.Punct, "Space": unicode.Space, "Symbol": unicode.Symbol,
		"Title": unicode.Title, "Upper": unicode.Upper}
	if t := long[name]; t != nil {
		return t
	}
	if t := unicode.Categories[name]; t != nil {
		return t
	}
	if t := unicode.Properties[name]; t != nil {
		return t
	}
	panic("no table " + name)
}

func (p *parser) symbol() *Node {
	c := p.peek()
	st := p.i
	sym := func(in func(r rune) bool) *Node {
		return &Node{Kind: 's', In: in, Src: string(p.s[st:p.i])}
	}
	chars := func(in func(r rune) bool, rs ...rune) *Node {
		return &Node{Kind: 's', In: in, Src: string(p.s[st:p.i]), Spec: rs, All: true}
	}
	switch {
	case c == '.':
		p.i++
		return chars(func(rune) bool { return true })
	case c == '\'' && p.s[p.i+1] == '[' && p.s[p.i+2] == '\\':
		p.i += 2
		var incl, excl []*unicode.RangeTable
		for {
			c := p.peek()
			if c == ']' {
				p.i += 2
				break
			}
			ex := c == '-'
			if ex {
				p.i++
			}
			p.ws()
			j := p.i + 3
			for p.s[p.i] != '}' {
				p.i++
			}
			t := Table(string(p.s[j:p.i]))
			p.i++
			if ex {
				excl = append(excl, t)
			} else {
				incl = append(incl, t)
			}
		}
		return sym(func(r rune) bool { return unicode.In(r, incl...) && !unicode.In(r, excl...) })
	case c == '\'':
		rs := p.quoted('\'')
		return chars(func(r rune) bool { return r == rs[0] }, rs[0])
	case strings.ContainsRune("([{<", c):
		p.i++
		n := &Node{Kind: byte(c)}
		for {
			n.Subs = append(n.Subs, p.seq())
			if p.peek() != '|' {
				break
			}
			p.i++
		}
		p.peek()
		p.i++
		return n
	}
	id := p.ident()
	switch id {
	case "any":
		set := p.quoted('"')
		return chars(func(r rune) bool { return has(set, r) }, set...)
	case "not":
		set := p.quoted('"')
		return chars(func(r rune) bool { return !has(set, r) }, set...)
	case "letter":
		return sym(unicode.IsLetter)
	case "upcase":
		return sym(unicode.IsUpper)
	case "lowcase":
		return sym(unicode.IsLower)
	case "number":
		return sym(unicode.IsNumber)
	}
	if d := p.defs[id]; d != nil {
		return d
	}
	panic("bad symbol " + id + " at " + string(p.s[st:]))
}

func (p *parser) seq() *Node {
	n := &Node{Kind: '.'}
	for {
		if c := p.peek(); c == 0 || strings.ContainsRune(";|)]}>", c) {
			return n
		}
		n.Subs = append(n.Subs, p.symbol())
	}
}

// Parse reads lexical rules, given as gogll source, and string literals.
func Parse(rules string, lits []string) *Spec {
	p := &parser{s: []rune(rules), defs: map[string]*Node{}}
	sp := &Spec{}
	for p.peek() != 0 {
		r := &Rule{}
		if p.peek() == '!' {
			p.i++
			r.Suppress = true
		}
		r.ID = p.ident()
		if p.peek() != ':' {
			panic("colon expected: " + rules)
		}
		p.i++
		r.Re = p.seq()
		p.i++
		p.defs[r.ID] = r.Re
		sp.Rules = append(sp.Rules, r)
	}
	for _, l := range lits {
		rs := Unquote(l)
		n := &Node{Kind: '.'}
		for _, c := range rs {
			c := c
			n.Subs = append(n.Subs, &Node{Kind: 's', In: func(r rune) bool { return r == c }, Src: fmt.Sprintf("literal %q", c), Spec: []rune{c}, All: true})
		}
		sp.Rules = append(sp.Rules, &Rule{ID: string(rs), Lit: true, Re: n})
	}
	for _, r := range sp.Rules {
		r.n = compile(r.Re)
	}
	return sp
}

type nfa struct {
	eps  [][]int
	on   []func(r rune) bool
	next []int
	fin  int
}

func compile(re *Node) *nfa {
	n := &nfa{}
	st := func() int {
		n.eps = append(n.eps, nil)
		n.on = append(n.on, nil)
		n.next = append(n.next, 0)
		return len(n.eps) - 1
	}
	var build func(x *Node, from int) int
	build = func(x *Node, from int) int {
		switch x.Kind {
		case 's':
			f := st()
			t := st()
			n.eps[from] = append(n.eps[from], f)
			n.on[f], n.next[f] = x.In, t
			return t
		case '.':
			for _, s := range x.Subs {
				from = build(s, from)
			}
			return from
		}
		in, out := st(), st()
		n.eps[from] = append(n.eps[from], in)
		for _, s := range x.Subs {
			a := st()
			n.eps[in] = append(n.eps[in], a)
			e := build(s, a)
			n.eps[e] = append(n.eps[e], out)
		}
		if x.Kind == '[' || x.Kind == '{' {
			n.eps[in] = append(n.eps[in], out)
		}
		if x.Kind == '<' || x.Kind == '{' {
			n.eps[out] = append(n.eps[out], in)
		}
		res := st()
		n.eps[out] = append(n.eps[out], res)
		return res
	}
	n.fin = build(re, st())
	return n
}

func (n *nfa) closure(s map[int]bool) map[int]bool {
	var todo []int
	for k := range s {
		todo = append(todo, k)
	}
	for len(todo) > 0 {
		k := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, e := range n.eps[k] {
			if !s[e] {
				s[e] = true
				todo = append(todo, e)
			}
		}
	}
	return s
}

func (n *nfa) step(s map[int]bool, r rune) map[int]bool {
	t := map[int]bool{}
	for k := range s {
		if n.on[k] != nil && n.on[k](r) {
			t[n.next[k]] = true
		}
	}
	return n.closure(t)
}

// Tok is a token of the model.
type Tok struct {
	ID       string
	Lext     int
	Rext     int
	Suppress bool
	IDs      []string // all rules that match the text
}

// Scan finds the token at i: the longest text with which a token can start. If
// that text is a token its type is that of the rule that matches it: a literal,
// else the rule with the smallest ID. Otherwise it is an Error token, which
// takes in the rune at which no token can continue.
func (sp *Spec) Scan(in []rune, i int) Tok {
	cur := sp.start()
	j := i
	for j < len(in) {
		nx := sp.move(cur, in[j])
		if nx == nil {
			break
		}
		cur = nx
		j++
	}
	if j == i {
		return Tok{ID: "Error", Lext: i, Rext: i + 1}
	}
	t := cur.tok
	t.Lext, t.Rext = i, j
	if len(t.IDs) == 0 && j < len(in) {
		t.Rext = j + 1
	}
	return t
}

// dstate is the set of NFA states of each rule.
type dstate struct {
	sets []map[int]bool
	next map[int]*dstate
	tok  Tok // without extents
}

func (sp *Spec) start() *dstate {
	if sp.init == nil {
		s := &dstate{}
		for _, r := range sp.Rules {
			s.sets = append(s.sets, r.n.closure(map[int]bool{0: true}))
		}
		sp.init = sp.intern(s)
	}
	return sp.init
}

// move is nil if no token can continue with the rune.
func (sp *Spec) move(s *dstate, c rune) *dstate {
	cl := sp.Class(c)
	if t, ok := s.next[cl]; ok {
		return t
	}
	t := &dstate{}
	live := false
	for k, r := range sp.Rules {
		x := r.n.step(s.sets[k], c)
		live = live || len(x) > 0
		t.sets = append(t.sets, x)
	}
	if live {
		t = sp.intern(t)
	} else {
		t = nil
	}
	s.next[cl] = t
	return t
}

func (sp *Spec) intern(s *dstate) *dstate {
	var b strings.Builder
	for _, x := range s.sets {
		var ks []int
		for k := range x {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		fmt.Fprint(&b, ks)
	}
	if t, ok := sp.states[b.String()]; ok {
		return t
	}
	s.next = map[int]*dstate{}
	s.tok = sp.accept(s.sets)
	if sp.states == nil {
		sp.states = map[string]*dstate{}
	}
	sp.states[b.String()] = s
	return s
}

func (sp *Spec) accept(cur []map[int]bool) Tok {
	t := Tok{ID: "Error"}
	var ids []string
	for k, r := range sp.Rules {
		if cur[k][r.n.fin] {
			if r.Lit {
				return Tok{ID: r.ID, IDs: []string{r.ID}}
			}
			ids = append(ids, r.ID)
		}
	}
	if len(ids) == 0 {
		return t
	}
	sort.Strings(ids)
	t.IDs = ids
	t.ID = ids[0]
	for _, r := range sp.Rules {
		if !r.Lit && r.ID == t.ID {
			t.Suppress = r.Suppress
		}
	}
	return t
}

// Tokens is the token list of an input; it ends with the end of file token.
func (sp *Spec) Tokens(in []rune) (ts []Tok) {
	i := 0
	for i < len(in) {
		if unicode.IsSpace(in[i]) {
			i++
			continue
		}
		t := sp.Scan(in, i)
		if !t.Suppress {
			ts = append(ts, t)
		}
		i = t.Rext
	}
	return append(ts, Tok{ID: "$", Lext: len(in), Rext: len(in)})
}

// String describes a token.
func (t Tok) String() string { return fmt.Sprintf("%s(%d,%d)", t.ID, t.Lext, t.Rext) }

// Syms lists the symbols of all rules.
func (sp *Spec) Syms() (ns []*Node) {
	var walk func(n *Node)
	walk = func(n *Node) {
		if n.Kind == 's' {
			ns = append(ns, n)
		}
		for _, s := range n.Subs {
			walk(s)
		}
	}
	for _, r := range sp.Rules {
		walk(r.Re)
	}
	return
}

// Walk numbers the sets of states of the model as they are reached. 0 is the start.
type Walk struct {
	sp  *Spec
	all []*dstate
	ix  map[*dstate]int
}

func (sp *Spec) Walk() *Walk {
	w := &Walk{sp: sp, ix: map[*dstate]int{}}
	w.num(sp.start())
	return w
}

func (w *Walk) num(s *dstate) int {
	if s == nil {
		return -1
	}
	n, ok := w.ix[s]
	if !ok {
		n = len(w.all)
		w.ix[s] = n
		w.all = append(w.all, s)
	}
	return n
}

// Move is -1 if no token can continue with the rune.
func (w *Walk) Move(s int, c rune) int { return w.num(w.sp.move(w.all[s], c)) }

// Accept lists the IDs of all rules and literals that end in a state.
func (w *Walk) Accept(s int) (ids []string) {
	for k, r := range w.sp.Rules {
		if w.all[s].sets[k][r.n.fin] {
			ids = append(ids, r.ID)
		}
	}
	return
}
