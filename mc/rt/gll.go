package rt

import (
	"fmt"
	"sort"
	"strings"

	"verifmc/cf"
	"verifmc/gram"
)

// Flags select what an adapter extracts.
type Flags struct {
	Forest, Amb, SPPF, TKids, Errs, Report bool
	NoText                                 bool // leave out texts that have the whole input
	Again                                  int  // 1: after a parse of the same tokens; 2: before the results are read
}

// BNode is one BSR reachable from the roots through the documented API.
type BNode struct {
	Head         string
	Alt, L, P, R int
	Syms         []string
	NT           []bool
	Kids         [][]int // per symbol; nil for terminals
	KidPanic     []string
	TK           []TKid // per symbol, terminals only
	// single-child accessors
	One     []int // GetNTChildI(i), -1 when it panicked or is not an NT
	ByName  []int // GetNTChild(nt, occurrence)
	Label   string
	AllKids [][]int // GetAllNTChildren
}

type TKid struct {
	Type  string
	Lext  int
	Panic string
	Set   bool
}

type PErr struct {
	Tok        string
	TokLext    int
	Line, Col  int
	Head       string
	Alt        int
	Expected   []string
	ExpectedID []string
	Str        string
}

type Tok struct {
	ID         string
	Lext, Rext int
	Lit        string
}

type GLLResult struct {
	Panic      string
	Toks       []Tok
	OK         bool
	SetNil     bool
	Errs       []PErr
	ForestPan  string
	Roots      []int
	RootOne    int // GetRoot, -1 on panic
	Nodes      []BNode
	Amb        bool
	AmbPanic   string
	SPPFPanic  string
	SPPF       []SNode
	SPPFRoot   int
	SPPFShared bool
	RightExt   int
	Report     string
	Dump       string
	Dot        string
	All        []string
}

// SNode is a node of the SPPF.
type SNode struct {
	Kind         byte // s, i, p
	Sym          string
	NT           string
	Body         []string
	Pos          int
	L, P, R      int
	Kids         []int
	Left, Right  int // packed nodes; -1 = nil
	Label, Descr string
}

type GLLFunc func(in []rune, fl Flags) *GLLResult

// GLLMain is the body of a GLL shard.
func GLLMain(units map[string]GLLFunc) {
	e, done := Start()
	for _, c := range e.Cases {
		if e.Expired() {
			break
		}
		f, ok := units[c.Unit]
		if !ok {
			panic("no unit " + c.Unit)
		}
		e.Out.Cases++
		gllCase(e, c, f)
	}
	done()
}

func gllCase(e *Env, c *Case, run GLLFunc) {
	o := e.Out
	// input alphabet: every terminal but the selector
	var alpha []int
	for t := range c.G.Ts {
		if t != c.Sel {
			alpha = append(alpha, t)
		}
	}
	accepted := 0
	model := cf.New
	viable := map[string]bool{} // viability of visited strings (w without selector)
	visit := func(w []int) {
		if e.Expired() {
			return
		}
		full := w
		if c.Sel >= 0 {
			full = append([]int{c.Sel}, w...)
		}
		m := model(c.G, full)
		if m.Accepts() {
			accepted++
		}
		text := Text(c.G, full)
		Mark(c, text)
		o.Evals++
		o.States++
		if len(w) > 0 {
			o.Transitions++
		}
		before := o.NViol
		switch e.Check {
		case "recog":
			checkRecog(o, c, m, text, run)
		case "forest":
			checkForest(o, c, m, text, run)
		case "ambig":
			checkAmbig(o, c, m, text, run)
		case "sppf":
			checkSPPF(o, c, m, text, run)
		case "errors":
			checkErrors(o, c, m, text, run, viable)
		case "report":
			checkReport(o, c, m, strings.ReplaceAll(text, "\n", "\t"), run)
		case "orders":
			checkOrders(o, c, text, e.Thorough, run)
		default:
			panic("unknown check " + e.Check)
		}
		if o.NViol == before {
			o.Traces++
		}
		if len(o.Samples) < 3 && m.Accepts() && len(w) > 2 {
			o.Samples = append(o.Samples, fmt.Sprintf("grammar {%s} input %q: %s", c.Alone.Key(), Text(c.G, w), cf.Describe(c.G, m.Forest())))
		}
	}
	if c.Inputs != nil {
		for _, w := range c.Inputs {
			visit(w)
		}
	} else {
		cf.Strings(len(alpha), c.MaxLen, func(w []int) {
			v := make([]int, len(w))
			for i, x := range w {
				v[i] = alpha[x]
			}
			visit(v)
		})
	}
	if c.Long != nil {
		pumped(c, len(alpha), c.Long, visit)
	}
	if auto := hugeAuto(c); auto != nil {
		model = auto.model
		c.auto = auto
		nok, nbad := 8, 1 // the line of every error takes linear time
		if e.Check == "errors" {
			nok = 1
		}
		huge(c, len(alpha), nok, nbad, visit)
		c.auto = nil
	}
	if accepted > 0 {
		o.Outcome("cases-with-accepted-input")
	} else {
		o.Outcome("cases-without-accepted-input")
	}
}

func checkRecog(o *Out, c *Case, m *cf.M, text string, run GLLFunc) {
	r := run([]rune(text), Flags{})
	if r.Panic != "" {
		o.Fail(c, text, "crash", "%s", r.Panic)
		return
	}
	want := m.Accepts()
	if want {
		o.Outcome("accept")
	} else {
		o.Outcome("reject")
	}
	if r.OK != want {
		o.Fail(c, text, "recognition", "input in language: %v, parser accepts: %v", want, r.OK)
		return
	}
	if r.OK != (len(r.Errs) == 0) {
		o.Fail(c, text, "result", "accepted=%v but %d errors returned", r.OK, len(r.Errs))
	}
	if r.OK == r.SetNil {
		o.Fail(c, text, "result", "accepted=%v but returned set nil=%v", r.OK, r.SetNil)
	}
}

type altKey struct {
	head string
	alt  int
}

// derivKey canonicalises a derivation of a node.
func derivKey(alt int, cut []int) string { return fmt.Sprintf("alt%d%v", alt, cut) }

// realAlt maps a model alternate to the alternate number of the generated parser.
func realAlt(c *Case, nt, alt int) int {
	if c.Sel >= 0 && nt == 0 {
		return c.AltOff
	}
	return alt
}

func checkForest(o *Out, c *Case, m *cf.M, text string, run GLLFunc) {
	if !m.Accepts() {
		o.Outcome("reject")
		return
	}
	r := run([]rune(text), Flags{Forest: true, TKids: true, NoText: c.auto != nil})
	if r.Panic != "" {
		o.Fail(c, text, "crash", "%s", r.Panic)
		return
	}
	if !r.OK {
		o.Fail(c, text, "recognition", "input in language but rejected")
		return
	}
	if r.ForestPan != "" {
		o.Fail(c, text, "forest-crash", "walking the forest: %s", r.ForestPan)
		return
	}
	f := m.Forest()
	if cf.Ambiguous(f) {
		o.Outcome("ambiguous")
	} else {
		o.Outcome("unambiguous")
	}
	nt := map[string]int{}
	for i, n := range c.G.NTs {
		nt[n] = i
	}
	// group BSRs by (head,l,r) as reached
	got := map[cf.Node]map[string]int{}
	dupKids := ""
	kidSet := func(ids []int, where string) {
		seen := map[int]bool{}
		for _, k := range ids {
			if seen[k] {
				dupKids = fmt.Sprintf("%s lists the subtree %s twice", where, r.Nodes[k].Label)
			}
			seen[k] = true
		}
	}
	kidSet(r.Roots, "GetRoots")
	for _, b := range r.Nodes {
		n, ok := nt[b.Head]
		if !ok {
			o.Fail(c, text, "forest", "subtree of unknown nonterminal %s", b.Head)
			return
		}
		var alt int = -1
		for a := range c.G.Alts[n] {
			if realAlt(c, n, a) == b.Alt {
				alt = a
			}
		}
		if alt < 0 {
			o.Fail(c, text, "forest", "subtree %s has unknown alternate %d", b.Label, b.Alt)
			return
		}
		body := c.G.Alts[n][alt]
		if len(body) != len(b.Syms) {
			o.Fail(c, text, "forest", "subtree %s: %d symbols, want %d", b.Label, len(b.Syms), len(body))
			return
		}
		nd := cf.Node{NT: n, L: b.L, R: b.R}
		if got[nd] == nil {
			got[nd] = map[string]int{}
		}
		for i, s := range body {
			if (s < 0) != b.NT[i] {
				o.Fail(c, text, "forest", "subtree %s: symbol %d nonterminal=%v", b.Label, i, b.NT[i])
				return
			}
			if s < 0 {
				if b.KidPanic[i] != "" {
					o.Fail(c, text, "children", "subtree %s: GetNTChildrenI(%d): %s", b.Label, i, b.KidPanic[i])
					return
				}
				kidSet(b.Kids[i], fmt.Sprintf("child %d of %s", i, b.Label))
				for _, k := range b.Kids[i] {
					if r.Nodes[k].Head != c.G.NTs[-s-1] {
						o.Fail(c, text, "children", "subtree %s: child %d has head %s", b.Label, i, r.Nodes[k].Head)
						return
					}
				}
			}
		}
		// all contiguous chains of children from L to R
		cut := make([]int, len(body)+1)
		cut[0] = b.L
		var rec func(q int)
		rec = func(q int) {
			if q == len(body) {
				if cut[q] == b.R {
					got[nd][derivKey(alt, cut)]++
				}
				return
			}
			if body[q] >= 0 {
				if cut[q] < len(m.W) && m.W[cut[q]] == body[q] {
					cut[q+1] = cut[q] + 1
					rec(q + 1)
				}
				return
			}
			seen := map[int]bool{}
			for _, k := range b.Kids[q] {
				kn := r.Nodes[k]
				if kn.L == cut[q] && !seen[kn.R] {
					seen[kn.R] = true
					cut[q+1] = kn.R
					rec(q + 1)
				}
			}
		}
		rec(0)
	}
	for nd, ds := range f {
		for _, d := range ds {
			if got[nd][derivKey(d.Alt, d.Cut)] == 0 {
				o.Fail(c, text, "missing-derivation", "%s[%d,%d] %s missing from the forest; forest has %v", c.G.NTs[nd.NT], nd.L, nd.R, d, keys(got[nd]))
				return
			}
		}
	}
	for nd, ks := range got {
		want := map[string]bool{}
		for _, d := range f[nd] {
			want[derivKey(d.Alt, d.Cut)] = true
		}
		if f[nd] == nil {
			o.Fail(c, text, "spurious-node", "%s[%d,%d] in the forest, but in no derivation of the input", c.G.NTs[nd.NT], nd.L, nd.R)
			return
		}
		for k := range ks {
			if !want[k] {
				o.Fail(c, text, "spurious-derivation", "%s[%d,%d] %s is not a derivation; want %v", c.G.NTs[nd.NT], nd.L, nd.R, k, want)
				return
			}
		}
		if len(ks) == 0 {
			o.Fail(c, text, "spurious-node", "%s[%d,%d] has a subtree that encodes no derivation", c.G.NTs[nd.NT], nd.L, nd.R)
			return
		}
	}
	if dupKids != "" {
		o.Fail(c, text, "duplicate", "%s", dupKids)
		return
	}
	// every subtree handed out encodes at least one derivation of its own, no two the same
	for _, b := range r.Nodes {
		for i, tk := range b.TK {
			if !tk.Set {
				continue
			}
			n := nt[b.Head]
			var alt int
			for a := range c.G.Alts[n] {
				if realAlt(c, n, a) == b.Alt {
					alt = a
				}
			}
			// only defined when the position of symbol i is the same in every derivation of this subtree
			pos := map[int]bool{}
			for _, d := range f[cf.Node{NT: n, L: b.L, R: b.R}] {
				if d.Alt == alt && (len(d.Cut) < 2 || d.Cut[len(d.Cut)-2] == b.P) {
					pos[d.Cut[i]] = true
				}
			}
			if len(pos) != 1 {
				continue
			}
			for p := range pos {
				if tk.Panic != "" {
					o.Fail(c, text, "terminal-child", "subtree %s: GetTChildI(%d): %s", b.Label, i, tk.Panic)
					return
				}
				if tk.Lext != r.Toks[p].Lext || tk.Type != r.Toks[p].ID {
					o.Fail(c, text, "terminal-child", "subtree %s: GetTChildI(%d) is %s at %d, want %s at %d", b.Label, i, tk.Type, tk.Lext, r.Toks[p].ID, r.Toks[p].Lext)
					return
				}
			}
		}
	}
	if len(r.Roots) == 1 && r.RootOne != r.Roots[0] || len(r.Roots) != 1 && r.RootOne >= 0 {
		o.Fail(c, text, "getroot", "there are %d roots, but GetRoot returns number %d", len(r.Roots), r.RootOne)
		return
	}
	for _, b := range r.Nodes {
		for i := range b.Syms {
			if !b.NT[i] {
				continue
			}
			want := -1
			if len(b.Kids[i]) == 1 {
				want = b.Kids[i][0]
			}
			if b.One[i] != want || b.ByName[i] != want {
				o.Fail(c, text, "single-child", "subtree %s: GetNTChildI(%d)/GetNTChild do not return the only child, or do not fail if there are more", b.Label, i)
				return
			}
		}
	}
	for _, b := range r.Nodes {
		j := 0
		for i := range b.Syms {
			if b.NT[i] {
				if j >= len(b.AllKids) || fmt.Sprint(b.AllKids[j]) != fmt.Sprint(b.Kids[i]) {
					o.Fail(c, text, "all-children", "subtree %s: GetAllNTChildren differs from GetNTChildrenI(%d)", b.Label, i)
					return
				}
				j++
			}
		}
		if j != len(b.AllKids) {
			o.Fail(c, text, "all-children", "subtree %s: GetAllNTChildren has %d entries, want %d", b.Label, len(b.AllKids), j)
			return
		}
	}
}

func keys(m map[string]int) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func checkAmbig(o *Out, c *Case, m *cf.M, text string, run GLLFunc) {
	if !m.Accepts() {
		o.Outcome("reject")
		return
	}
	r := run([]rune(text), Flags{Amb: true})
	if r.Panic != "" {
		o.Fail(c, text, "crash", "%s", r.Panic)
		return
	}
	if !r.OK {
		o.Fail(c, text, "recognition", "input in language but rejected")
		return
	}
	f := m.Forest()
	want := cf.Ambiguous(f)
	if want {
		o.Outcome("ambiguous")
	} else {
		o.Outcome("unambiguous")
	}
	if r.AmbPanic != "" {
		o.Fail(c, text, "ambiguity-crash", "IsAmbiguous: %s", r.AmbPanic)
		return
	}
	if r.Amb != want {
		o.Fail(c, text, "ambiguity", "IsAmbiguous()=%v, but the derivations are %s", r.Amb, cf.Describe(c.G, f))
	}
}

// checkErrors: see property text. viable caches nothing across calls but keeps
// the signature ready for prefix sharing.
func checkErrors(o *Out, c *Case, m *cf.M, text string, run GLLFunc, viable map[string]bool) {
	if m.Accepts() {
		o.Outcome("accept")
		return
	}
	r := run([]rune(text), Flags{Errs: true})
	if r.Panic != "" {
		o.Fail(c, text, "crash", "%s", r.Panic)
		return
	}
	if r.OK {
		o.Fail(c, text, "recognition", "input not in language but accepted")
		return
	}
	if len(r.Errs) == 0 {
		o.Fail(c, text, "no-errors", "rejected without an error")
		return
	}
	// longest viable prefix length
	isViable := func(w []int) bool {
		if c.auto != nil {
			return c.auto.viable(w)
		}
		k := fmt.Sprint(w)
		v, ok := viable[k]
		if !ok {
			v = cf.New(c.G, w).Viable()
			viable[k] = v
		}
		return v
	}
	if !isViable(nil) {
		o.Outcome("empty-language")
		return
	}
	p := sort.Search(len(m.W), func(p int) bool { return !isViable(m.W[:p+1]) })
	// tokens that may follow the first q tokens
	cont := func(q int) map[string]bool {
		next := map[string]bool{}
		for t := range c.G.Ts {
			if isViable(append(append([]int{}, m.W[:q]...), t)) {
				next[c.G.Ts[t]] = true
			}
		}
		if c.auto != nil && c.auto.model(c.G, m.W[:q]).Accepts() || c.auto == nil && cf.New(c.G, m.W[:q]).Accepts() {
			next["$"] = true
		}
		return next
	}
	next := cont(p)
	if c.Sel >= 0 && p == 0 {
		return
	}
	if p == len(m.W) {
		o.Outcome("error-at-end")
	} else {
		o.Outcome("error-inside")
	}
	last := 1 << 30
	for _, e := range r.Errs {
		if e.TokLext > last {
			o.Fail(c, text, "order", "errors are not in descending order of input position")
			return
		}
		last = e.TokLext
	}
	first := r.Errs[0]
	wantLext := r.Toks[p].Lext
	if first.TokLext != wantLext {
		o.Fail(c, text, "position", "first error at input position %d (%s), but the first token that cannot continue the input is at %d (token %d)", first.TokLext, first.Tok, wantLext, p)
		return
	}
	if first.Tok != r.Toks[p].ID {
		o.Fail(c, text, "token", "first error names token %s, want %s", first.Tok, r.Toks[p].ID)
		return
	}
	exp := map[string]bool{}
	conts := map[int]map[string]bool{p: next}
	pos := map[int]int{}
	for i, t := range r.Toks {
		pos[t.Lext] = i
	}
	lineCol := map[int][2]int{}
	in := []rune(text)
	for _, e := range r.Errs {
		if _, ok := lineCol[e.TokLext]; !ok {
			ln, col := LineCol(in, e.TokLext)
			lineCol[e.TokLext] = [2]int{ln, col}
		}
		ln, col := lineCol[e.TokLext][0], lineCol[e.TokLext][1]
		if e.Line != ln || e.Col != col {
			o.Fail(c, text, "linecol", "error at input position %d reported as line %d column %d, want %d %d", e.TokLext, e.Line, e.Col, ln, col)
			return
		}
		q := pos[e.TokLext]
		if e.Tok != r.Toks[q].ID {
			o.Fail(c, text, "token", "error at token %d names token %s, want %s", q, e.Tok, r.Toks[q].ID)
			return
		}
		if conts[q] == nil {
			if len(m.W) > cf.MaxLen && len(conts) > 3 {
				continue
			}
			conts[q] = cont(q)
		}
		some := false
		for i := range e.Expected {
			if e.Expected[i] == `"`+e.ExpectedID[i]+`"` && tName(c.G, e.ExpectedID[i]) == e.Expected[i] {
				e.Expected[i] = e.ExpectedID[i]
			}
			if e.Expected[i] != e.ExpectedID[i] {
				o.Fail(c, text, "expected", "Expected maps a token type with ID %q to the name %q", e.ExpectedID[i], e.Expected[i])
				return
			}
			if e.Expected[i] == e.Tok {
				o.Fail(c, text, "expected-self", "error at token %s lists %s itself as expected", e.Tok, e.Tok)
				return
			}
			if conts[q][e.Expected[i]] {
				some = true
			}
			if q == p {
				exp[e.Expected[i]] = true
			}
		}
		if !some {
			o.Fail(c, text, "expected", "none of the tokens expected by the error at token %d (%s) can follow the %d tokens before it: expected %v, possible %v", q, e.Str, q, e.Expected, SortedSet(conts[q]))
			return
		}
	}
	if !anyNullable(c.Alone) {
		for t := range next {
			if !exp[t] {
				o.Fail(c, text, "expected", "token %q can follow the parsed prefix, but no error at that position expects it: %v", t, SortedSet(exp))
				return
			}
		}
	}
}

func anyNullable(g *gram.G) bool {
	for _, b := range g.Nullable() {
		if b {
			return true
		}
	}
	return false
}

// LineCol is the reference for positions: line and column of rune i.
func LineCol(in []rune, i int) (ln, col int) {
	ln, col = 1, 1
	for _, r := range in[:i] {
		switch r {
		case '\n':
			ln, col = ln+1, 1
		case '\t':
			col += 4
		default:
			col++
		}
	}
	return
}

func symName(g *gram.G, s int) string {
	if s < 0 {
		return g.NTs[-s-1]
	}
	return tName(g, g.Ts[s])
}

// tName is the name of a terminal among the symbols: in quotes if it is the
// name of a nonterminal.
func tName(g *gram.G, t string) string {
	for _, n := range g.NTs {
		if n == t {
			return `"` + t + `"`
		}
	}
	return t
}

// checkSPPF compares the SPPF with the derivations.
func checkSPPF(o *Out, c *Case, m *cf.M, text string, run GLLFunc) {
	if !m.Accepts() {
		o.Outcome("reject")
		return
	}
	r := run([]rune(text), Flags{SPPF: true})
	if r.Panic != "" {
		o.Fail(c, text, "crash", "%s", r.Panic)
		return
	}
	if !r.OK {
		o.Fail(c, text, "recognition", "input in language but rejected")
		return
	}
	if r.SPPFPanic != "" {
		o.Fail(c, text, "sppf-crash", "ToSPPF: %s", r.SPPFPanic)
		return
	}
	f := m.Forest()
	if cf.Ambiguous(f) {
		o.Outcome("ambiguous")
	} else {
		o.Outcome("unambiguous")
	}
	nt := map[string]int{}
	for i, n := range c.G.NTs {
		nt[n] = i
	}
	if r.SPPFRoot < 0 {
		o.Fail(c, text, "sppf", "nil root")
		return
	}
	rt := r.SPPF[r.SPPFRoot]
	if rt.Kind != 's' || rt.Sym != c.G.NTs[0] || rt.L != 0 || rt.R != len(m.W) {
		o.Fail(c, text, "sppf-root", "root is %s", rt.Descr)
		return
	}
	shared := map[string]bool{}
	for _, n := range r.SPPF {
		k := fmt.Sprint(n.Kind, n.Sym, n.Body, n.Pos, n.L, n.P, n.R, n.NT)
		if shared[k] {
			o.Fail(c, text, "sppf-shared", "there is more than one node %s", n.Descr)
		}
		shared[k] = true
	}
	symSeen := map[string]int{}
	// left(body,pos,L,R) enumerates the cut prefixes encoded by an intermediate/left part
	var expandPacked func(id int, depth int) ([][]int, string)
	var symCheck func(id int, sym string, l, rr int) string
	memo := map[int][][]int{}
	symCheck = func(id int, sym string, l, rr int) string {
		if id < 0 {
			return "missing child " + sym
		}
		n := r.SPPF[id]
		if n.Kind != 's' || n.Sym != sym || n.L != l || n.R != rr {
			return fmt.Sprintf("child is %s, want symbol node %s,%d,%d", n.Descr, sym, l, rr)
		}
		return ""
	}
	expandPacked = func(id int, depth int) (cuts [][]int, bad string) {
		if v, ok := memo[id]; ok {
			return v, ""
		}
		if depth > 200 {
			return nil, "packed node chain too deep"
		}
		n := r.SPPF[id]
		if n.Kind != 'p' {
			return nil, n.Descr + " is not a packed node"
		}
		switch {
		case len(n.Body) == 0:
			if n.L != n.R || n.Left >= 0 {
				return nil, "empty alternate spans tokens: " + n.Descr
			}
			if bad := symCheck(n.Right, "ϵ", n.L, n.L); bad != "" {
				return nil, n.Descr + ": " + bad
			}
			cuts = [][]int{{n.L}}
		case n.Pos == 1:
			if n.Left >= 0 {
				return nil, n.Descr + " has a left child"
			}
			if n.P != n.L {
				return nil, n.Descr + ": pivot differs from the left extent"
			}
			if bad := symCheck(n.Right, n.Body[0], n.L, n.R); bad != "" {
				return nil, n.Descr + ": " + bad
			}
			cuts = [][]int{{n.L, n.R}}
		case n.Pos == 2:
			if bad := symCheck(n.Left, n.Body[0], n.L, n.P); bad != "" {
				return nil, n.Descr + ": left " + bad
			}
			if bad := symCheck(n.Right, n.Body[1], n.P, n.R); bad != "" {
				return nil, n.Descr + ": right " + bad
			}
			cuts = [][]int{{n.L, n.P, n.R}}
		default:
			if bad := symCheck(n.Right, n.Body[n.Pos-1], n.P, n.R); bad != "" {
				return nil, n.Descr + ": right " + bad
			}
			if n.Left < 0 || r.SPPF[n.Left].Kind != 'i' {
				return nil, n.Descr + ": no intermediate left child"
			}
			in := r.SPPF[n.Left]
			if in.NT != n.NT || in.Pos != n.Pos-1 || in.L != n.L || in.R != n.P || strings.Join(in.Body, " ") != strings.Join(n.Body, " ") {
				return nil, fmt.Sprintf("%s: left child is %s", n.Descr, in.Descr)
			}
			if len(in.Kids) == 0 {
				return nil, in.Descr + " has no children"
			}
			seen := map[string]bool{}
			for _, k := range in.Kids {
				kn := r.SPPF[k]
				if kn.Kind != 'p' || kn.NT != n.NT || kn.Pos != in.Pos || kn.L != in.L || kn.R != in.R || strings.Join(kn.Body, " ") != strings.Join(n.Body, " ") {
					return nil, fmt.Sprintf("%s has child %s", in.Descr, kn.Descr)
				}
				cs, bad := expandPacked(k, depth+1)
				if bad != "" {
					return nil, bad
				}
				for _, ct := range cs {
					s := fmt.Sprint(ct)
					if seen[s] {
						return nil, in.Descr + " has duplicate children"
					}
					seen[s] = true
					cuts = append(cuts, append(append([]int{}, ct...), n.R))
				}
			}
		}
		memo[id] = cuts
		return cuts, ""
	}
	symNodes := map[cf.Node]bool{}
	for id, n := range r.SPPF {
		if n.Kind != 's' {
			continue
		}
		k := fmt.Sprintf("%s,%d,%d", n.Sym, n.L, n.R)
		if _, dup := symSeen[k]; dup {
			o.Fail(c, text, "sppf-shared", "symbol node %s occurs twice", k)
			return
		}
		symSeen[k] = id
		x, isNT := nt[n.Sym]
		if !isNT {
			if len(n.Kids) > 0 {
				o.Fail(c, text, "sppf", "terminal node %s has children", n.Descr)
				return
			}
			if n.Sym == "ϵ" {
				if n.L != n.R {
					o.Fail(c, text, "sppf", "ϵ node %s is not empty", n.Descr)
					return
				}
			} else if n.R != n.L+1 || n.L >= len(m.W) || symName(c.G, m.W[n.L]) != n.Sym {
				o.Fail(c, text, "sppf", "terminal node %s does not match the input", n.Descr)
				return
			}
			continue
		}
		nd := cf.Node{NT: x, L: n.L, R: n.R}
		ds, ok := f[nd]
		if !ok {
			o.Fail(c, text, "sppf-spurious", "symbol node %s is in no derivation", n.Descr)
			return
		}
		symNodes[nd] = true
		got := map[string]int{}
		for _, kid := range n.Kids {
			p := r.SPPF[kid]
			if p.Kind != 'p' || p.NT != n.Sym || p.Pos != len(p.Body) || p.L != n.L || p.R != n.R {
				o.Fail(c, text, "sppf", "symbol node %s has child %s", n.Descr, p.Descr)
				return
			}
			cuts, bad := expandPacked(kid, 0)
			if bad != "" {
				o.Fail(c, text, "sppf-structure", "%s", bad)
				return
			}
			for _, ct := range cuts {
				got[strings.Join(p.Body, " ")+fmt.Sprint(ct)]++
			}
		}
		for _, d := range ds {
			var b []string
			for _, s := range c.G.Alts[nd.NT][d.Alt] {
				b = append(b, symName(c.G, s))
			}
			k := strings.Join(b, " ") + fmt.Sprint(d.Cut)
			switch got[k] {
			case 0:
				o.Fail(c, text, "sppf-missing", "symbol node %s lacks the derivation %s of %s; it has %v", n.Descr, d, strings.Join(b, " "), keys(got))
				return
			case 1:
				delete(got, k)
			default:
				o.Fail(c, text, "sppf-duplicate", "symbol node %s has the derivation %s %d times", n.Descr, k, got[k])
				return
			}
		}
		for k := range got {
			o.Fail(c, text, "sppf-spurious", "symbol node %s has %s, which is not a derivation", n.Descr, k)
			return
		}
	}
	for nd := range f {
		if !symNodes[nd] {
			o.Fail(c, text, "sppf-missing", "no symbol node for %s,%d,%d", c.G.NTs[nd.NT], nd.L, nd.R)
			return
		}
	}
}
