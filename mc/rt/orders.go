package rt

import (
	"fmt"
	"sort"
	"strings"
)

// Orders sets the rules (loop, iteration, order) for loops over maps;
// OrderLog returns how often each loop ran since and its largest map.
var (
	Orders   func(rules ...[3]int)
	OrderLog func() (count, max []int)
)

// checkOrders runs a parser under all orders of its loops over maps.
func checkOrders(o *Out, c *Case, text string, thorough bool, run GLLFunc) {
	fl := Flags{Forest: true, Amb: true, SPPF: true, TKids: true, Errs: true}
	in := []rune(text)
	want := exploreOrders(o, c, text, thorough, func() string { return run(in, fl).canon() })
	if strings.Contains(want, "amb true") {
		o.Outcome("ambiguous")
	} else if strings.Contains(want, "ok true") {
		o.Outcome("unambiguous")
	} else {
		o.Outcome("reject")
	}
}

// exploreOrders calls run under all orders of its loops over maps.
func exploreOrders(o *Out, c *Case, text string, thorough bool, run func() string) string {
	Orders()
	want := run()
	count, max := OrderLog()
	count, max = append([]int{}, count...), append([]int{}, max...)
	bad := false
	try := func(rules ...[3]int) {
		if bad {
			return
		}
		Orders(rules...)
		o.Evals++
		o.Transitions++
		if got := run(); got != want {
			bad = true
			d := "?"
			g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
			for i := 0; i < len(g) && i < len(w); i++ {
				if g[i] != w[i] {
					d = fmt.Sprintf("%.300s\nnot %.300s", g[i], w[i])
					break
				}
			}
			o.Fail(c, text, "order", "with orders %v of loops over maps: %s", rules, d)
		}
	}
	for k := 1; k < 48; k++ {
		try([3]int{-1, -1, k})
	}
	var used []int
	for s := range count {
		if max[s] < 2 {
			continue
		}
		used = append(used, s)
		for k := 1; k < 48; k++ {
			if max[s] == 2 && k%24 != 1 || max[s] == 3 && k%24 > 5 {
				continue
			}
			if max[s] > 3 && !thorough && k%6 != 5 {
				continue
			}
			try([3]int{s, -1, k})
		}
		for i := 0; i < count[s]; i++ {
			for _, k := range []int{23, 9, 47} {
				try([3]int{s, i, k})
			}
		}
	}
	for i, s := range used {
		for _, t := range used[i+1:] {
			try([3]int{s, -1, 23}, [3]int{t, -1, 23})
			try([3]int{s, -1, 47}, [3]int{t, -1, 23})
			try([3]int{s, -1, 17}, [3]int{t, -1, 9})
		}
	}
	return want
}

// canon writes a result such that equal forests have equal texts.
func (r *GLLResult) canon() string {
	var w strings.Builder
	fmt.Fprintf(&w, "ok %v set %v amb %v %d\npanic %s;%s;%s;%s\n", r.OK, !r.SetNil, r.Amb, r.RightExt, r.Panic, r.ForestPan, r.AmbPanic, r.SPPFPanic)
	for _, t := range r.Toks {
		fmt.Fprintf(&w, "%v\n", t)
	}
	for _, e := range r.Errs {
		fmt.Fprintf(&w, "error %v\n", e)
	}
	name := func(i int) string {
		if i < 0 {
			return "-"
		}
		b := r.Nodes[i]
		return fmt.Sprintf("%s/%d %d %d %d", b.Head, b.Alt, b.L, b.P, b.R)
	}
	names := func(is []int) string {
		var ns []string
		for _, i := range is {
			ns = append(ns, name(i))
		}
		sort.Strings(ns)
		return "[" + strings.Join(ns, ", ") + "]"
	}
	fmt.Fprintf(&w, "roots %s %s\n", names(r.Roots), name(r.RootOne))
	var ls []string
	for i, b := range r.Nodes {
		l := name(i) + " " + b.Label
		for j := range b.Syms {
			l += fmt.Sprintf(" (%s %v %s %s %v %s %s)", b.Syms[j], b.NT[j], names(b.Kids[j]), b.KidPanic[j], b.TK[j], name(b.One[j]), name(b.ByName[j]))
		}
		for _, k := range b.AllKids {
			l += names(k)
		}
		ls = append(ls, l)
	}
	sort.Strings(ls)
	w.WriteString(strings.Join(ls, "\n") + "\n")
	sname := func(i int) string {
		if i < 0 {
			return "-"
		}
		n := r.SPPF[i]
		return fmt.Sprintf("%c%s %s%v@%d %d %d %d", n.Kind, n.Sym, n.NT, n.Body, n.Pos, n.L, n.P, n.R)
	}
	ls = nil
	for i, n := range r.SPPF {
		var ks []string
		for _, k := range n.Kids {
			ks = append(ks, sname(k))
		}
		sort.Strings(ks)
		ls = append(ls, fmt.Sprintf("%s %v %s %s %s %s", sname(i), ks, sname(n.Left), sname(n.Right), n.Label, n.Descr))
	}
	sort.Strings(ls)
	w.WriteString("sppf " + sname(r.SPPFRoot) + "\n" + strings.Join(ls, "\n"))
	return w.String()
}
