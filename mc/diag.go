package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"verifmc/drv"
	"verifmc/gs"
	"verifmc/rt"
)

func init() {
	checks["C20"] = check{"model_checking", diagCheck}
}

// cliRun is one run of gogll in a directory of its own.
type cliRun struct {
	files map[string]string // relative to the directory
	args  []string
	check func(r drv.Res, before, after map[string]string) (kind, msg string)
	title string
	input string
}

// tree reads all files below a directory.
func tree(dir string) (map[string]string, error) {
	m := map[string]string{}
	err := filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case d.IsDir():
			return nil
		case d.Type().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			m[rel] = string(b)
		default:
			m[rel] = d.Type().String()
		}
		return nil
	})
	return m, err
}

func putTree(dir string, m map[string]string) error {
	for p, s := range m {
		f := filepath.Join(dir, p)
		if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
			return err
		}
	}
	return nil
}

// cliLimit is the time in which gogll must have dealt with a small source.
const cliLimit = 60 * time.Second

var panicRe = regexp.MustCompile(`(?m)^(panic:|fatal error:|goroutine \d+ \[)`)

func (c *Ctx) cliRuns(runs []*cliRun) error {
	var mu sync.Mutex
	base := filepath.Join(c.Dir, "cli")
	var n int
	return drv.Parallel(len(runs), func(i int) error {
		r := runs[i]
		mu.Lock()
		n++
		dir := filepath.Join(base, fmt.Sprint(n))
		mu.Unlock()
		if c.Left() < 30*time.Second {
			mu.Lock()
			c.Total.Complete = false
			mu.Unlock()
			return nil
		}
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return err
		}
		defer os.RemoveAll(dir)
		if err := putTree(dir, r.files); err != nil {
			return err
		}
		res := drv.Run(dir, nil, cliLimit, c.Gogll, r.args...)
		after, err := tree(dir)
		if err != nil {
			return err
		}
		kind, msg := "", ""
		switch {
		case res.TimedOut:
			kind, msg = "hang", "no result within the hang limit"
		case panicRe.MatchString(res.Out):
			kind, msg = "panic", fmt.Sprintf("exit %d: %.600s", res.RC, res.Out)
		default:
			kind, msg = r.check(res, r.files, after)
		}
		mu.Lock()
		defer mu.Unlock()
		c.Total.Evals++
		c.Total.Transitions++
		c.Total.Traces++
		if kind != "" {
			c.Report(rt.V{Case: r.title, Unit: strings.Join(r.args, " "), Grammar: r.title, Input: r.input, Kind: kind, Msg: fmt.Sprintf("gogll %s exit=%d: %s\noutput: %.600s", strings.Join(r.args, " "), res.RC, msg, res.Out)})
		}
		return nil
	})
}

// fault is a reason to refuse a source.
type fault struct {
	pos  int
	name string
	what string
}

// drule is a rule of a source: a head and the words of its body.
type drule struct {
	head string
	body []string
}

// word is a token of a source and where it is.
type word struct {
	s   string
	pos int
}

const (
	layoutPlain = iota
	layoutMd
	nLayouts
)

// render writes rules, returns the text and the words with their positions.
func render(rules []drule, layout int) (src string, heads []word, bodies [][]word) {
	var b strings.Builder
	n := 0
	put := func(s string) { b.WriteString(s); n += len([]rune(s)) }
	if layout == layoutMd {
		put("# Title é\n\nA : Nothing `B` ;\n\n```\n")
	}
	put("package \"d\"\n")
	for i, r := range rules {
		if layout == layoutMd {
			put("```\nText with S : Undefined ; and 'quotes\n```\n")
		}
		if strings.HasPrefix(r.head, "!") {
			put("!")
		}
		h := strings.TrimPrefix(r.head, "!")
		heads = append(heads, word{h, n})
		put(h)
		if layout == layoutMd {
			put("\t:\n\t")
		} else {
			put(" : ")
		}
		var ws []word
		for k, s := range r.body {
			if k > 0 {
				if layout == layoutMd && k%2 == 1 {
					put("\n\t  ")
				} else {
					put(" ")
				}
			}
			ws = append(ws, word{s, n})
			put(s)
		}
		bodies = append(bodies, ws)
		put(" ;\n")
		_ = i
	}
	if layout == layoutMd {
		put("```\nThe end: ``S : ;``\n")
	}
	return b.String(), heads, bodies
}

func isUpper(s string) bool { return s != "" && s[0] >= 'A' && s[0] <= 'Z' }

// faults finds every reason to refuse the rules; unreach are the nonterminals
// that no sentence form contains.
func faults(heads []word, bodies [][]word) (fs []fault, unreach []string) {
	nts, toks := map[string]bool{}, map[string]bool{}
	for _, h := range heads {
		m := toks
		if isUpper(h.s) {
			m = nts
		}
		if m[h.s] {
			fs = append(fs, fault{h.pos, h.s, "duplicate"})
		}
		m[h.s] = true
	}
	def := map[string]bool{}
	uses := map[string][]string{}
	start := ""
	for i, h := range heads {
		up := isUpper(h.s)
		if up && start == "" {
			start = h.s
		}
		for _, w := range bodies[i] {
			switch {
			case strings.ContainsAny(w.s[:1], `|(){}[]<>'`) || w.s == "empty":
				if strings.HasPrefix(w.s, "'[") {
					// ranges are the same if their signs are; the first one is not compared
					seen := map[string]bool{}
					off := 0
					for k, p := range strings.SplitAfter(w.s, "}") {
						at := w.pos + off + strings.Index(p, "\\")
						off += len(p)
						p = strings.TrimPrefix(p, "'[")
						if seen[p] {
							fs = append(fs, fault{at, strings.TrimSuffix(p[strings.Index(p, "{")+1:], "}"), "duplicate range"})
						}
						if k > 0 {
							seen[p] = true
						}
					}
				}
			case w.s[0] == '"':
				if up && strings.ContainsAny(w.s, " \t") {
					fs = append(fs, fault{w.pos, "whitespace", "white space"})
				}
			case isUpper(w.s):
				uses[h.s] = append(uses[h.s], w.s)
				if !nts[w.s] {
					fs = append(fs, fault{w.pos, w.s, "undefined"})
				}
			case up:
				if !toks[w.s] {
					fs = append(fs, fault{w.pos, w.s, "undefined"})
				}
			case !def[w.s]:
				fs = append(fs, fault{w.pos, w.s, "not defined yet"})
			}
		}
		if !up {
			def[h.s] = true
		}
	}
	reach := map[string]bool{start: true}
	todo := []string{start}
	for len(todo) > 0 {
		n := todo[0]
		todo = todo[1:]
		for _, m := range uses[n] {
			if !reach[m] {
				reach[m] = true
				todo = append(todo, m)
			}
		}
	}
	for n := range nts {
		if !reach[n] {
			unreach = append(unreach, n)
		}
	}
	return
}

func lineColOf(src string, pos int) (l, c int) {
	l, c = 1, 1
	for _, r := range []rune(src)[:pos] {
		switch r {
		case '\n':
			l, c = l+1, 1
		case '\t':
			c += 4
		default:
			c++
		}
	}
	return
}

var posRe = regexp.MustCompile(`line (\d+) col (\d+)|:(\d+):(\d+):`)

// positions are the lines and columns that a message mentions.
func positions(out string) (ps [][2]int) {
	for _, m := range posRe.FindAllStringSubmatch(out, -1) {
		var l, c int
		fmt.Sscan(m[1]+m[3], &l)
		fmt.Sscan(m[2]+m[4], &c)
		ps = append(ps, [2]int{l, c})
	}
	return
}

func sameTree(a, b map[string]string) string {
	for p, s := range a {
		if t, ok := b[p]; !ok {
			return p + " is gone"
		} else if s != t {
			return p + " was changed"
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			return p + " was written"
		}
	}
	return ""
}

func keys(m map[string]string) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

// semRun checks a source that is right as far as the grammar of gogll goes.
// With flags other than the usual ones only wrong sources are checked: a right
// one may have LR(1) conflicts.
func semRun(rules []drule, layout int, count func(string), flags ...string) *cliRun {
	src, heads, bodies := render(rules, layout)
	fs, unreach := faults(heads, bodies)
	var t []string
	syntax := false
	for _, r := range rules {
		t = append(t, r.head+" : "+strings.Join(r.body, " "))
		syntax = syntax || isUpper(r.head)
	}
	fn := []string{"g.bnf", "g.md"}[layout]
	return &cliRun{
		title: strings.Join(t, " ; "), input: fn,
		files: map[string]string{fn: src, "keep.txt": "kept"}, args: append(flags, fn),
		check: func(r drv.Res, before, after map[string]string) (string, string) {
			if len(fs) > 0 {
				count("wrong: " + fs[0].what)
				if r.RC == 0 {
					return "accepted", fmt.Sprintf("a wrong source is accepted: %s %s", fs[0].what, fs[0].name)
				}
				if d := sameTree(before, after); d != "" {
					return "wrote", "the source is refused, but " + d
				}
				ps := positions(r.Out)
				if len(ps) == 0 {
					return "position", "the message has no position"
				}
				for _, f := range fs {
					l, c := lineColOf(src, f.pos)
					if ps[0] == [2]int{l, c} && strings.Contains(r.Out, f.name) {
						return "", ""
					}
				}
				return "position", fmt.Sprintf("no fault at line %d column %d with the name in the message; faults: %v", ps[0][0], ps[0][1], fs)
			}
			if len(flags) > 0 {
				count("flags, not wrong")
				return "", ""
			}
			if len(unreach) > 0 {
				count("right, but for unreachable nonterminals")
				// gogll may refuse these
				if r.RC != 0 {
					for _, n := range unreach {
						if strings.Contains(r.Out, n) {
							return "", ""
						}
					}
					return "message", fmt.Sprintf("no unreachable nonterminal is named: %v", unreach)
				}
			}
			count("right")
			if r.RC != 0 {
				return "refused", "a right source is refused"
			}
			for p, s := range before {
				if after[p] != s {
					return "wrote", p + " was changed"
				}
			}
			for _, p := range []string{"lexer/lexer.go", "token/token.go", "parser/parser.go"} {
				if _, ok := after[p]; ok != (syntax || p != "parser/parser.go") {
					return "files", fmt.Sprintf("%s written: %v; files: %v", p, ok, keys(after))
				}
			}
			return "", ""
		},
	}
}

func diagCheck(c *Ctx) error {
	var mu sync.Mutex
	c.Total.Outcomes = map[string]int{}
	count := func(k string) { mu.Lock(); c.Total.Outcomes[k]++; mu.Unlock() }
	w := func(s string) []string { return strings.Split(s, "␣") }
	var full, few []drule
	for _, h := range []string{"A", "B"} {
		for _, b := range []string{"A", "B", "C", "ta", "tb", "tc", `"x"`, `"x y"`, "empty", `"x"␣B`, "ta␣C", `"x"␣|␣B`, "B␣|␣tc", "C␣tc", `"x"␣"y z"`, "A␣A␣|␣empty"} {
			full = append(full, drule{h, w(b)})
		}
		for _, b := range []string{"A", "B", "C␣B", "ta␣tb", `"x"`, `B␣"x y"`} {
			few = append(few, drule{h, w(b)})
		}
	}
	for _, h := range []string{"ta", "tb"} {
		for _, b := range []string{"'a'", "ta", "tb", "'a'␣ta", "(␣'b'␣tb␣)", "[␣'a'␣|␣tb␣]␣'c'", "{␣tc␣}", `'[\p{L}-\p{Nd}-\p{Nd}]'`, `'[\p{L}\p{Nd}-\p{Lu}\p{Nd}]'␣tc`,
			`'[\p{L}\p{Lu}-\p{Lu}\p{Nd}-\p{Nd}]'`, `'[\p{Lu}\p{L}-\p{Nd}\p{Zs}\p{Nd}]'`} {
			full = append(full, drule{h, w(b)}, drule{"!" + h, w(b)})
		}
		for _, b := range []string{"'a'", "ta", "'b'␣tb"} {
			few = append(few, drule{h, w(b)})
		}
	}
	var runs []*cliRun
	for l := 0; l < nLayouts; l++ {
		for _, a := range full {
			runs = append(runs, semRun([]drule{a}, l, count))
			for _, b := range full {
				runs = append(runs, semRun([]drule{a, b}, l, count))
			}
		}
	}
	for i, fl := range [][]string{{"-knuth"}, {"-pager", "-v"}, {"-gll", "-v", "-a"}, {"-knuth", "-resolve_conflicts", "-v"}, {"-pager", "-bs", "-resolve_conflicts"}} {
		for _, a := range full {
			runs = append(runs, semRun([]drule{a}, i%nLayouts, count, fl...))
		}
		for _, a := range few {
			for _, b := range few {
				runs = append(runs, semRun([]drule{a, b}, i%nLayouts, count, fl...))
			}
		}
	}
	k := 0
	for _, a := range few {
		for _, b := range few {
			for _, d := range few {
				k++
				runs = append(runs, semRun([]drule{a, b, d}, k%nLayouts, count))
				if c.Thorough() {
					runs = append(runs, semRun([]drule{a, b, d}, (k+1)%nLayouts, count))
				}
			}
		}
	}
	if c.Thorough() {
		for _, a := range full {
			for _, b := range full {
				for _, d := range full {
					k++
					if strings.HasPrefix(a.head, "!") || strings.HasPrefix(b.head, "!") || strings.HasPrefix(d.head, "!") {
						continue
					}
					runs = append(runs, semRun([]drule{a, b, d}, k%nLayouts, count))
				}
			}
		}
	}
	c.Logf("%d sources with semantic faults or none", len(runs))
	if err := c.cliRuns(runs); err != nil {
		return err
	}
	c.Total.States += len(runs)
	syn, err := c.syntaxRuns(count)
	if err != nil {
		return err
	}
	c.Logf("%d sources with syntax errors", len(syn))
	if err := c.cliRuns(syn); err != nil {
		return err
	}
	c.Total.States += len(syn)
	fl := flagRuns(count)
	c.Logf("%d combinations of flags", len(fl))
	if err := c.cliRuns(fl); err != nil {
		return err
	}
	c.Total.States += len(fl)
	for i := 0; i < len(runs) && len(c.Total.Samples) < 8; i += len(runs) / 8 {
		c.Total.Samples = append(c.Total.Samples, runs[i].title)
	}
	c.Assume = []string{"Go toolchain", "the operating system's files and processes"}
	return nil
}

// syntaxRuns are sources in which one token cannot stand where it does.
func (c *Ctx) syntaxRuns(count func(string)) (runs []*cliRun, err error) {
	b, err := os.ReadFile(filepath.Join(c.Repo, "gogll.md"))
	if err != nil {
		return nil, err
	}
	g := gs.Read(gs.Code(string(b))).G
	ix := map[string]int{}
	for i, t := range g.Ts {
		ix[t] = i
	}
	alpha := []string{"package", "string_lit", "tokid", "nt", ":", ";", "|", "(", ")", "char_lit", "empty"}
	wrong := append([]string{"]", "!", "any", "-", "]'", `\p{L}`, "#"}, alpha...)
	max := 8
	if c.Thorough() {
		max = 10
	}
	text := func(t string, k int) string {
		switch t {
		case "string_lit":
			return `"s"`
		case "tokid":
			return "tk"
		case "nt":
			return "Nt"
		case "char_lit":
			return "'c'"
		}
		return t
	}
	er := gs.NewEarley(g)
	var ws []string
	add := func(ts []string, bad int) {
		for layout := 0; layout < nLayouts; layout++ {
			if layout > 0 && len(ts)%3 != 0 {
				continue
			}
			var b strings.Builder
			n, at := 0, 0
			put := func(s string) { b.WriteString(s); n += len([]rune(s)) }
			if layout == layoutMd {
				put("Words : é ;\n```")
			}
			for k, t := range ts {
				if k == bad {
					at = n
				}
				put(text(t, k))
				put(" \n"[(k+1)%2 : (k+1)%2+1])
			}
			if bad == len(ts) {
				at = -1
			}
			if layout == layoutMd {
				put("```\nmore words\n")
			}
			src := b.String()
			if at < 0 {
				at = n // the end of file
			}
			l, cl := lineColOf(src, at)
			fn := []string{"g.bnf", "g.md"}[layout]
			runs = append(runs, &cliRun{
				title: strings.Join(ts, " "), input: fn,
				files: map[string]string{fn: src}, args: []string{fn},
				check: func(r drv.Res, before, after map[string]string) (string, string) {
					count("syntax error")
					if r.RC == 0 {
						return "accepted", "a source with a syntax error is accepted"
					}
					if d := sameTree(before, after); d != "" {
						return "wrote", "the source is refused, but " + d
					}
					ps := positions(r.Out)
					if len(ps) == 0 || ps[0] != [2]int{l, cl} {
						return "position", fmt.Sprintf("expected line %d column %d first", l, cl)
					}
					return "", ""
				},
			})
		}
	}
	var rec func()
	rec = func() {
		exp := er.Expected()
		if !er.Accept() {
			add(append([]string{}, ws...), len(ws))
		}
		for _, t := range wrong {
			if k, ok := ix[t]; !ok || !exp[k] {
				add(append(append([]string{}, ws...), t), len(ws))
			}
		}
		if len(ws) >= max-1 {
			return
		}
		for _, t := range alpha {
			if exp[ix[t]] {
				er.Shift(ix[t])
				ws = append(ws, t)
				rec()
				ws = ws[:len(ws)-1]
				er.Pop()
			}
		}
	}
	rec()
	return runs, nil
}

// flagRuns tries every combination of flags.
func flagRuns(count func(string)) (runs []*cliRun) {
	flags := []string{"-a", "-v", "-gll", "-knuth", "-pager", "-bs", "-resolve_conflicts", "-go", "-o=out"}
	src := "package \"d\"\nS : \"a\" S | ta ;\nta : 'b' ;\n"
	for m := 0; m < 1<<len(flags); m++ {
		var args []string
		on := map[string]bool{}
		for i, f := range flags {
			if m>>i&1 == 1 {
				args = append(args, f)
				on[f] = true
			}
		}
		bad := on["-knuth"] && on["-pager"]
		want := map[string]bool{"lexer/lexer.go": true, "token/token.go": true, "parser/parser.go": true}
		lr := on["-knuth"] || on["-pager"]
		if lr {
			for _, f := range []string{"ast/ast.go", "errors/errors.go", "parser/action.go", "parser/actiontable.go", "parser/gototable.go", "parser/productionstable.go"} {
				want[f] = true
			}
		} else {
			for _, f := range []string{"parser/bsr/bsr.go", "parser/slot/slot.go", "parser/symbols/symbols.go", "sppf/sppf.go"} {
				want[f] = true
			}
		}
		if on["-v"] {
			for _, f := range []string{"first_follow.txt", "grammar_slots.txt", "lexfsa.txt", "symbols.txt"} {
				want[f] = true
			}
			if lr {
				want["CFG_items.txt"], want["LR1_states.txt"] = true, true
			}
		}
		dir := ""
		if on["-o=out"] {
			dir = "out/"
		}
		runs = append(runs, &cliRun{
			title: "flags", input: strings.Join(args, " "), files: map[string]string{"in/g.bnf": src}, args: append(args, "in/g.bnf"),
			check: func(r drv.Res, before, after map[string]string) (string, string) {
				if bad {
					count("contradictory flags")
					if r.RC == 0 {
						return "accepted", "both -knuth and -pager"
					}
					if d := sameTree(before, after); d != "" {
						return "wrote", "refused, but " + d
					}
					return "", ""
				}
				count("flags")
				if r.RC != 0 {
					return "refused", "a right source is refused"
				}
				d := dir
				if d == "" {
					d = "in/"
				}
				for f := range want {
					if after[d+f] == "" {
						return "files", d + f + " was not written"
					}
				}
				for f := range after {
					if !want[strings.TrimPrefix(f, d)] && f != "in/g.bnf" {
						return "files", f + " was written"
					}
				}
				if after["in/g.bnf"] != src {
					return "files", "the source was changed"
				}
				return "", ""
			},
		})
	}
	refused := func(title string, files map[string]string, args ...string) {
		runs = append(runs, &cliRun{title: title, input: strings.Join(args, " "), files: files, args: args,
			check: func(r drv.Res, before, after map[string]string) (string, string) {
				count("wrong call")
				if r.RC == 0 {
					return "accepted", "exit 0"
				}
				if d := sameTree(before, after); d != "" {
					return "wrote", "refused, but " + d
				}
				if len(args) > 0 && !strings.HasPrefix(args[len(args)-1], "-") && !strings.Contains(r.Out, args[len(args)-1]) {
					return "message", "the message does not name the file"
				}
				return "", ""
			}})
	}
	f := map[string]string{"d/g.bnf": src}
	for _, m := range []string{"-gll", "-knuth", "-pager", "-v"} {
		refused("no source file", f, m)
		refused("missing source file", f, m, "d/h.bnf")
		refused("missing source file", f, m, "-o", "x", "d/h.md")
		refused("directory as source file", f, m, "d")
		refused("unknown flag", f, m, "-zzz")
	}
	refused("no source file", f)
	return
}
