package rt

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verifmc/cf"
)

// Scratch is the beginning of the names of files that adapters may write.
var Scratch string

var stdout *os.File

// Capture runs f and stores what it prints.
func Capture(to *string, f func()) {
	if stdout == nil {
		x, err := os.Create(Scratch + ".stdout")
		if err != nil {
			panic(err)
		}
		stdout = x
	}
	stdout.Truncate(0)
	stdout.Seek(0, 0)
	old := os.Stdout
	os.Stdout = stdout
	p := Try(f)
	os.Stdout = old
	b, err := os.ReadFile(stdout.Name())
	if err != nil {
		panic(err)
	}
	*to = string(b)
	if p != "" {
		*to += "\npanic " + p
	}
}

var (
	reAmb = regexp.MustCompile(`^  Ambigous: in (.*): NT (\S+) \((\d+)\) at line (\d+) col (\d+) *$`)
	reStr = regexp.MustCompile(`^(.*),(\d+),(\d+),(\d+) - (.*)$`)
)

// checkReport compares what is printed about a forest with the forest.
func checkReport(o *Out, c *Case, m *cf.M, text string, run GLLFunc) {
	if !m.Accepts() {
		o.Outcome("reject")
		return
	}
	r := run([]rune(text), Flags{Forest: true, SPPF: true, Report: true})
	if r.Panic != "" || r.ForestPan != "" || r.SPPFPanic != "" {
		o.Fail(c, text, "crash", "%s%s%s", r.Panic, r.ForestPan, r.SPPFPanic)
		return
	}
	if !r.OK {
		o.Fail(c, text, "recognition", "input in language but rejected")
		return
	}
	f := m.Forest()
	if cf.Ambiguous(f) {
		o.Outcome("ambiguous")
	} else {
		o.Outcome("unambiguous")
	}
	if bad := r.report(text); bad != "" {
		o.Fail(c, text, "report", "ReportAmbiguous: %s\n%s", bad, r.Report)
		return
	}
	if bad := r.dump(c, f, text); bad != "" {
		o.Fail(c, text, "dump", "Dump: %s\n%s", bad, r.Dump)
		return
	}
	if bad := r.dot(); bad != "" {
		o.Fail(c, text, "dot", "DotFile: %s\n%s", bad, r.Dot)
	}
}

func (r *GLLResult) report(text string) string {
	var want []string
	for _, root := range r.Roots {
		var amb []string
		seen := map[int]bool{root: true}
		todo := []int{root}
		for len(todo) > 0 {
			b := r.Nodes[todo[0]]
			todo = todo[1:]
			for i, ks := range b.Kids {
				if !b.NT[i] {
					continue
				}
				if len(ks) != 1 {
					var cs []string
					for _, k := range ks {
						cs = append(cs, r.Nodes[k].Label)
					}
					sort.Strings(cs)
					ln, col := LineCol([]rune(text), r.Toks[b.L].Lext)
					amb = append(amb, fmt.Sprintf("in %s: NT %s (%d) at line %d col %d children %q", b.Label, b.Syms[i], i, ln, col, cs))
				}
				for _, k := range ks {
					if !seen[k] {
						seen[k] = true
						todo = append(todo, k)
					}
				}
			}
		}
		sort.Strings(amb)
		want = append(want, strings.Join(amb, "\n"))
	}
	var got []string
	var amb, cs []string
	head, in, none := "", false, false
	flush := func() {
		if head != "" {
			sort.Strings(cs)
			amb = append(amb, fmt.Sprintf("%s children %q", head, cs))
		}
		head, cs = "", nil
	}
	root := func() string {
		flush()
		if in {
			if none != (len(amb) == 0) {
				return fmt.Sprintf("a root with %d ambiguous children, but \"No ambiguous BSRs\": %v", len(amb), none)
			}
			sort.Strings(amb)
			got = append(got, strings.Join(amb, "\n"))
		}
		amb, none = nil, false
		return ""
	}
	nroots := 1
	for _, l := range strings.Split(strings.TrimSuffix(r.Report, "\n"), "\n") {
		x := reAmb.FindStringSubmatch(l)
		switch {
		case x != nil:
			flush()
			head = fmt.Sprintf("in %s: NT %s (%s) at line %s col %s", x[1], x[2], x[3], x[4], x[5])
		case strings.HasPrefix(l, "In root "):
			if bad := root(); bad != "" {
				return bad
			}
			in = true
		case l == "No ambiguous BSRs":
			none = true
		case strings.HasPrefix(l, "BSR has "):
			fmt.Sscanf(l, "BSR has %d", &nroots)
		case strings.HasPrefix(l, "     ") && head != "":
			cs = append(cs, l[5:])
		case strings.TrimSpace(l) == "Children:" || l == "Ambiguous BSR Subtrees:":
		default:
			return fmt.Sprintf("unknown line %q", l)
		}
	}
	if bad := root(); bad != "" {
		return bad
	}
	if nroots != len(r.Roots) {
		return fmt.Sprintf("reports %d roots, not %d", nroots, len(r.Roots))
	}
	sort.Strings(got)
	sort.Strings(want)
	if g, w := strings.Join(got, "\n--\n"), strings.Join(want, "\n--\n"); g != w {
		return fmt.Sprintf("lists\n%s\nnot\n%s", g, w)
	}
	return ""
}

func (r *GLLResult) dump(c *Case, f map[cf.Node][]cf.Deriv, text string) string {
	part := map[string][]string{}
	cur := ""
	for _, l := range strings.Split(r.Dump, "\n") {
		switch l {
		case "":
		case "Roots:", "NT BSRs:", "string BSRs:":
			cur = l
		default:
			part[cur] = append(part[cur], l)
		}
	}
	var roots []string
	for _, k := range r.Roots {
		roots = append(roots, r.Nodes[k].Label)
	}
	same := func(a, b []string) bool {
		sort.Strings(a)
		sort.Strings(b)
		return strings.Join(a, "\n") == strings.Join(b, "\n")
	}
	if !same(part["Roots:"], roots) {
		return fmt.Sprintf("roots are not %q", roots)
	}
	if !same(part["NT BSRs:"], r.All) {
		return fmt.Sprintf("NT BSRs are not %q", r.All)
	}
	src := []rune(text)
	txt := func(l, rr int) string {
		if l == rr {
			return "ℇ"
		}
		return string(src[r.Toks[l].Lext:r.Toks[rr-1].Rext])
	}
	for _, b := range r.Nodes {
		if !strings.HasSuffix(b.Label, fmt.Sprintf(",%d,%d,%d - %s", b.L, b.P, b.R, txt(b.L, b.R))) {
			return fmt.Sprintf("%q is not the name of an element for %d to %d, %q", b.Label, b.L, b.R, txt(b.L, b.R))
		}
	}
	have := map[string]bool{}
	for _, l := range part["string BSRs:"] {
		x := reStr.FindStringSubmatch(l)
		if x == nil {
			return fmt.Sprintf("strange string %q", l)
		}
		if have[l] {
			return fmt.Sprintf("%q is listed twice", l)
		}
		have[l] = true
		a, _ := strconv.Atoi(x[2])
		b, _ := strconv.Atoi(x[4])
		if x[5] != txt(a, b) {
			return fmt.Sprintf("%q has the text %q", l, txt(a, b))
		}
	}
	for n, ds := range f {
		for _, d := range ds {
			body := c.G.Alts[n.NT][d.Alt]
			for q := 2; q < len(body); q++ {
				var ss []string
				for _, s := range body[:q] {
					ss = append(ss, symName(c.G, s))
				}
				l := fmt.Sprintf("%s,%d,%d,%d - %s", strings.Join(ss, " "), d.Cut[0], d.Cut[q-1], d.Cut[q], txt(d.Cut[0], d.Cut[q]))
				if !have[l] {
					return fmt.Sprintf("%q is missing", l)
				}
			}
		}
	}
	return ""
}

var dotTok = regexp.MustCompile(`^(?:\s+|"(?:[^"\\]|\\.)*"|->|[A-Za-z_][A-Za-z_0-9]*|[0-9]+|[\[\]{},;=])`)

// dot reads the file and compares its graph to the SPPF.
func (r *GLLResult) dot() string {
	var toks []string
	for s := r.Dot; s != ""; {
		t := dotTok.FindString(s)
		if t == "" {
			return fmt.Sprintf("not a dot file at %.60q", s)
		}
		if strings.TrimSpace(t) != "" {
			toks = append(toks, t)
		}
		s = s[len(t):]
	}
	if len(toks) < 4 || toks[0] != "digraph" || toks[2] != "{" || toks[len(toks)-1] != "}" {
		return "not a digraph"
	}
	toks = toks[3 : len(toks)-1]
	nodes, edges := map[string]bool{}, map[string]bool{}
	for i := 0; i < len(toks); {
		if toks[i] == ";" {
			i++
			continue
		}
		var last, cur []string
		for {
			if i >= len(toks) || toks[i][0] != '"' {
				return fmt.Sprintf("want a node at token %d", i)
			}
			nodes[toks[i]] = true
			cur = append(cur, toks[i])
			for _, x := range last {
				edges[x+" -> "+toks[i]] = true
			}
			i++
			if i < len(toks) && toks[i] == "," {
				i++
				continue
			}
			if i < len(toks) && toks[i] == "->" {
				i++
				last, cur = cur, nil
				continue
			}
			break
		}
		if i < len(toks) && toks[i] == "[" {
			for i < len(toks) && toks[i] != "]" {
				i++
			}
			if i == len(toks) {
				return "no end of attributes"
			}
			i++
		}
	}
	// Nodes are known by their labels. There can be copies of a node if they
	// agree about what is below.
	name := map[string]string{}
	want := map[string]bool{}
	for _, n := range r.SPPF {
		if !nodes[n.Label] {
			return fmt.Sprintf("node %s is missing", n.Label)
		}
		var to []string
		for _, k := range append(append([]int{}, n.Kids...), n.Left, n.Right) {
			if k >= 0 {
				to = append(to, r.SPPF[k].Label)
				want[n.Label+" -> "+r.SPPF[k].Label] = true
			}
		}
		sort.Strings(to)
		below := strings.Join(to, "\n")
		if x, dup := name[n.Label]; dup && x != below {
			return fmt.Sprintf("two nodes %s of the SPPF have different children:\n%s\n and\n%s", n.Label, x, below)
		}
		name[n.Label] = below
	}
	for n := range nodes {
		if _, ok := name[n]; !ok {
			return fmt.Sprintf("%s is not a node of the SPPF", n)
		}
	}
	for e := range want {
		if !edges[e] {
			return fmt.Sprintf("edge %s is missing", e)
		}
	}
	for e := range edges {
		if !want[e] {
			return fmt.Sprintf("%s is not an edge of the SPPF", e)
		}
	}
	return ""
}
