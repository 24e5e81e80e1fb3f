package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verifmc/drv"
	"verifmc/gram"
	"verifmc/instr"
	"verifmc/rt"
)

func init() {
	checks["C14"] = check{"model_checking", determCheck}
}

// scenario is a call of gogll.
type scenario struct {
	title, file, src string
	flags            []string
	want             string // result
	count, max       []int  // iterations per site and their largest size
}

type determ struct {
	*Ctx
	mu    sync.Mutex
	bin   string
	sites []instr.Site
	n     int
}

// result runs a scenario with rules for the orders of iterations.
func (c *determ) result(s *scenario, rules string, log bool) (string, map[string]string, error) {
	c.mu.Lock()
	c.n++
	dir := filepath.Join(c.Dir, "det", fmt.Sprint(c.n))
	c.mu.Unlock()
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", nil, err
	}
	defer os.RemoveAll(dir)
	if err := os.WriteFile(filepath.Join(dir, s.file), []byte(s.src), 0o644); err != nil {
		return "", nil, err
	}
	env := append(os.Environ(), "MC_ORDER="+rules)
	if log {
		env = append(env, "MC_ORDER_LOG="+dir+".log")
	}
	res := drv.Run(dir, env, cliLimit, c.bin, append(append([]string{}, s.flags...), s.file)...)
	t, err := tree(dir)
	if err != nil {
		return "", nil, err
	}
	if log {
		b, err := os.ReadFile(dir + ".log")
		if err != nil && !os.IsNotExist(err) {
			return "", nil, err
		}
		os.Remove(dir + ".log")
		s.count, s.max = make([]int, len(c.sites)), make([]int, len(c.sites))
		for i := range c.sites {
			if len(b) >= 24*i+24 {
				fmt.Sscan(strings.Trim(string(b[24*i:24*i+11]), "\x00 "), &s.count[i])
				fmt.Sscan(strings.Trim(string(b[24*i+12:24*i+23]), "\x00 "), &s.max[i])
			}
		}
	}
	t["exit code"] = fmt.Sprint(res.RC, res.TimedOut)
	t["output"] = res.Out
	h := sha256.New()
	for _, k := range keys(t) {
		fmt.Fprintf(h, "%s\x00%s\x00", k, t[k])
	}
	return fmt.Sprintf("%x", h.Sum(nil)), t, nil
}

func determScenarios() (ss []*scenario) {
	add := func(title, src string, flags ...string) {
		f := "g.bnf"
		if strings.HasPrefix(src, "#") {
			f = "g.md"
		}
		ss = append(ss, &scenario{title: title, file: f, src: src, flags: flags})
	}
	modes := [][]string{{"-gll", "-v"}, {"-knuth", "-v", "-resolve_conflicts"}, {"-pager", "-v"}}
	for i, g := range []string{
		"S : A \"a\" B | ta tb | empty ;\nA : \"b\" A | tc | \"x\" ;\nB : A \"c\" | tb | S \"d\" ;\nta : 'a' 'b' ;\ntb : letter { number } ;\ntc : ('0' | '1') ;\n",
		"E : E \"+\" E | E \"*\" E | \"(\" E \")\" | id ;\nid : letter { letter | number | '_' } ;\n!ws : <' ' | '\\t'> ;\n",
		"S : \"a\" A \"d\" | \"b\" B \"d\" | \"a\" B \"e\" | \"b\" A \"e\" ;\nA : \"c\" C ;\nB : \"c\" C ;\nC : empty | \"f\" ;\n",
		"S : S S | A | empty ;\nA : B A | \"a\" ;\nB : A | empty ;\n",
		"a : ( 'a' | 'b' [ any \"xyz\" ] ) not \"ab\" ;\nb : <letter> { '0' | number } ;\nc : '[\\p{Lu}\\p{Nd}-\\p{Lt}]' upcase ;\nd : any \"+-*/\" ;\n",
	} {
		for _, m := range modes {
			add(fmt.Sprintf("grammar %d", i+1), "package \"d\"\n"+g, m...)
		}
	}
	for _, e := range []string{
		"S : \"a\" | A ;\nA : B ta | tb tc ;\n", // undefined
		"S : \"a\" ;\nS : \"b\" ;\nta : 'a' ;\nta : 'b' ;\nS : \"c\" ;\n",
		"S : \"a\" \"b c\" | \"d e\" ;\n",
		"ta : tb tc td ;\ntd : te ;\n",
		"ta : '[\\p{L}\\p{Lu}\\p{Lu}\\p{Nd}\\p{Nd}]' ;\n",
		"S : A B ;\nA : \"a\" ;\nB : \"b\" ;\nC : \"c\" D ;\nD : C ;\nF : \"f\" ;\n", // unreachable
		"S : \"a\" ( \"b\" ;\n", "S : ;\n", "S : \"a\" | ;\nB : \"b\" ;\n", "ta : 'a' ) ;\n", "ta : ( 'a' | 'b' ;\ntb : 'c' ;\n", "S : \"a\" S \"b\" | empty\nT : \"c\" ;\n", "! S : \"a\" ;", "ta 'a' ;", "ta : [ 'a' } ;\n", "S : A empty ;\n",
	} {
		add("wrong", "package \"d\"\n"+e, "-v")
		add("wrong", "# md\n```\npackage \"d\"\n"+e+"```\n", "-pager")
	}
	add("wrong", "")
	add("wrong", "package \"d\" ;")
	return
}

func determCheck(cc *Ctx) error {
	if err := determParsers(cc); err != nil {
		return err
	}
	if os.Getenv("MC_PART") == "parsers" {
		return nil
	}
	c := &determ{Ctx: cc, bin: filepath.Join(cc.Dir, "gogll_orders")}
	out := filepath.Join(c.Dir, "orders")
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	sites, args, err := instr.Maps(c.Repo, out, c.Env(), ".")
	if err != nil {
		return err
	}
	c.sites = sites
	if err := c.BuildGogll(c.bin, args...); err != nil {
		return err
	}
	c.Logf("%d loops over maps", len(sites))

	ss := determScenarios()
	err = drv.Parallel(len(ss), func(i int) (err error) {
		s := ss[i]
		t0 := time.Now()
		if s.want, _, err = c.result(s, "", true); err != nil {
			return err
		}
		_ = t0
		return nil
	})
	if err != nil {
		return err
	}
	type job struct {
		s     *scenario
		rules string
	}
	var jobs []job
	lim := 12
	if c.Thorough() {
		lim = 1 << 30
	}
	covered := map[int]bool{}
	for _, s := range ss {
		add := func(f string, a ...interface{}) { jobs = append(jobs, job{s, fmt.Sprintf(f, a...)}) }
		add("")
		for o := 1; o < 48; o++ {
			add("-1:-1:%d", o)
		}
		var used []int
		for i := range sites {
			if s.count[i] == 0 {
				continue
			}
			used = append(used, i)
			covered[i] = true
			for o := 1; o < 48; o++ {
				if s.max[i] < 2 && o%24 != 0 || s.max[i] == 2 && o%24 > 1 || s.max[i] == 3 && o%24 > 5 {
					continue
				}
				add("%d:-1:%d", i, o)
			}
			for k := 0; k < s.count[i]; k++ {
				if s.max[i] < 2 || k >= lim && k < s.count[i]-lim/2 {
					continue
				}
				for _, o := range []int{23, 9, 24 + 23} {
					if s.max[i] == 2 {
						o = o/24*24 + 1
					}
					add("%d:%d:%d", i, k, o)
				}
			}
		}
		for x, i := range used {
			for _, j := range used[x+1:] {
				add("%d:-1:23 %d:-1:23", i, j)
				add("%d:-1:23 %d:-1:47", i, j)
				add("%d:-1:47 %d:-1:23", i, j)
				add("%d:-1:17 %d:-1:9", i, j)
			}
		}
	}
	sort.SliceStable(jobs, func(i, j int) bool { return len(jobs[i].rules) < len(jobs[j].rules) })
	c.Logf("%d scenarios, %d orders", len(ss), len(jobs))
	bad := map[*scenario]int{}
	err = drv.Parallel(len(jobs), func(i int) error {
		j := jobs[i]
		c.mu.Lock()
		b := bad[j.s]
		c.mu.Unlock()
		if b > 3 {
			return nil
		}
		if c.Left() < 30*time.Second {
			c.mu.Lock()
			c.Total.Complete = false
			c.mu.Unlock()
			return nil
		}
		h, t, err := c.result(j.s, j.rules, false)
		if err != nil {
			return err
		}
		c.mu.Lock()
		c.Total.Evals++
		c.Total.Transitions++
		c.Total.Traces++
		c.mu.Unlock()
		if h == j.s.want {
			return nil
		}
		_, t0, err := c.result(j.s, "", false)
		if err != nil {
			return err
		}
		d := ""
		for _, k := range append([]string{"exit code", "output"}, keys(t0)...) {
			if t0[k] != t[k] {
				d = fmt.Sprintf("%s differs:\n%s", k, firstDiff(t0[k], t[k]))
				break
			}
		}
		var at []string
		for _, r := range strings.Fields(j.rules) {
			var x, y, z int
			fmt.Sscanf(r, "%d:%d:%d", &x, &y, &z)
			p := "all loops"
			if x >= 0 {
				p = sites[x].Pos
			}
			at = append(at, fmt.Sprintf("%s iteration %d order %d", p, y, z))
		}
		c.mu.Lock()
		defer c.mu.Unlock()
		bad[j.s]++
		c.Report(rt.V{Case: j.s.title, Unit: strings.Join(j.s.flags, " "), Grammar: j.s.src, Input: j.rules, Kind: "order", Msg: strings.Join(at, ", ") + ": " + d})
		return nil
	})
	if err != nil {
		return err
	}
	c.Total.States += len(jobs)
	var un []string
	for i, s := range sites {
		if !covered[i] {
			un = append(un, s.Pos)
		}
		if i%4 == 0 {
			c.Total.Samples = append(c.Total.Samples, s.Pos+" "+s.Type)
		}
	}
	c.Coverage["loops_over_maps"] = len(sites)
	c.Coverage["loops_not_executed"] = un
	c.Logf("loops not executed: %v", un)
	return nil
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "", ""
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("line %d\n  %.300s\n  %.300s", i+1, p, q)
		}
	}
	return ""
}

// determParsers explores the orders of the loops over maps in generated parsers.
func determParsers(c *Ctx) error {
	fams := []family{
		{name: "curated", gs: append(curated(), moreCurated()...), cap: 64, alone: true},
		{name: "2nt", gs: enum(gram.Bound{NTs: 2, Ts: 2, MaxAlts: 3, MaxBody: 2, Size: 3, NeedProd: true}), cap: 16, alone: true},
	}
	if c.Thorough() {
		fams[0].cap = 500
		fams[1] = family{name: "2nt", gs: enum(gram.Bound{NTs: 2, Ts: 2, MaxAlts: 3, MaxBody: 3, Size: 4, NeedProd: true}), cap: 30, alone: true}
	}
	us, cs := gllUnits(fams, 1)
	c.PreBuild = func(live []*drv.Unit, shards []*drv.Shard) error {
		var pats []string
		for _, u := range live {
			pats = append(pats, "./"+u.ID+"/...")
		}
		sites, err := instr.InPlace(c.Mod, "mc", c.Env(), pats...)
		if err != nil {
			return err
		}
		c.Logf("%d loops over maps in generated parsers", len(sites))
		c.Coverage["parser_loops_over_maps"] = len(sites)
		for _, s := range sites {
			c.Total.Samples = append(c.Total.Samples, "parser: "+s.Pos+" "+s.Type)
		}
		for _, s := range shards {
			d := filepath.Join(c.Mod, "sh", s.Name)
			if err := os.MkdirAll(d, 0o755); err != nil {
				return err
			}
			if err := os.WriteFile(filepath.Join(d, "orders.go"), []byte(ordersSrc), 0o644); err != nil {
				return err
			}
		}
		return nil
	}
	if err := c.runUnits("orders", us, cs, 16, "GLLMain", "GLLFunc"); err != nil {
		return err
	}
	us, cs = nil, nil
	for i, s := range isoSpecs() {
		for _, f := range []string{"-knuth", "-pager"} {
			if s.lr {
				id := fmt.Sprintf("%c%d", f[1], i)
				us = append(us, &drv.Unit{ID: id, Source: s.rules + "\n", Flags: []string{f}, Adapter: "isolr", Gs: []*gram.G{}, Post: pureActions})
				cs = append(cs, &rt.Case{ID: id, Unit: id, Sel: -1, Title: strings.Join(strings.Fields(s.rules), " ") + " " + f, Lex: &rt.LexCase{Inputs: s.in}})
			}
		}
	}
	return c.runUnits("orders of LR(1) parsers", us, cs, 8, "IsoMain", "IsoFunc")
}

const ordersSrc = `package main

import (
	"mc/mcrt"
	"verifmc/rt"
)

func init() {
	rt.Orders = mcrt.Reset
	rt.OrderLog = func() ([]int, []int) { return mcrt.Count, mcrt.Max }
}
`

func moreCurated() (gs []*gram.G) {
	for _, s := range []string{
		"S : A B A ; A : a | empty ; B : b | empty | A",
		"S : A | B ; A : a A | a ; B : a B | a",
		"S : A a | B b | c ; A : S ; B : S",
		"S : S a S | S b S | c | empty",
		"S : A A A ; A : S | a | empty",
		"S : A b | A A A ; A : a | a a | a a a",
		"S : A b | A A A b ; A : a | a a | a a a",
		"S : A B | B A | A A A ; A : a | a a ; B : A b | b",
		"S : S S b | S S S | a | a a",
	} {
		gs = append(gs, gram.Parse(s))
	}
	return
}
