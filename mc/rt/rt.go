// Package rt runs inside the shard programs that link generated parsers. It
// enumerates token strings and compares generated code with the reference
// model of package cf.
package rt

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"verifmc/gram"
)

// Case is one grammar to explore, served by the generated code of a unit.
type Case struct {
	ID     string
	Unit   string
	G      *gram.G // model grammar (for an amalgam: Start : sel S, plus the rules of S)
	Alone  *gram.G // the grammar without the amalgam wrapper
	Sel    int     // selector terminal, -1 for none
	AltOff int     // number of Start's alternate in the generated parser
	MaxLen int     // bound on the number of tokens (without selector)
	Inputs [][]int // when set: exactly these token strings instead of all
	Huge   int     // length of pumped token strings, for LR(1) grammars
	Long   []int   // lengths of pumped token strings
	Extra  map[string]string
	NAlts  int // number of alternates of Start in the amalgam
	Title  string
	Lex    *LexCase
	auto   *automaton
}

// Name identifies the case in reports.
func (c *Case) Name() string {
	if c.Title != "" || c.Alone == nil {
		return c.Title
	}
	return c.Alone.Key()
}

// V is one violation.
type V struct {
	Case    string
	Unit    string
	Grammar string
	Input   string
	Kind    string
	Msg     string
}

// Out is what a shard reports.
type Out struct {
	Evals       int
	States      int
	Transitions int
	Traces      int
	Outcomes    map[string]int
	Violations  []V
	NViol       int
	Samples     []string
	Complete    bool
	Cases       int
}

func (o *Out) Add(p *Out) {
	o.Evals += p.Evals
	o.States += p.States
	o.Transitions += p.Transitions
	o.Traces += p.Traces
	o.NViol += p.NViol
	o.Cases += p.Cases
	o.Violations = append(o.Violations, p.Violations...)
	if o.Outcomes == nil {
		o.Outcomes = map[string]int{}
	}
	for k, v := range p.Outcomes {
		o.Outcomes[k] += v
	}
	for _, s := range p.Samples {
		if len(o.Samples) < 12 {
			o.Samples = append(o.Samples, s)
		}
	}
	o.Complete = o.Complete && p.Complete
}

func (o *Out) Outcome(k string) { o.Outcomes[k]++ }

const maxViol = 60

func (o *Out) Fail(c *Case, input, kind, format string, a ...interface{}) {
	o.NViol++
	if len(o.Violations) < maxViol {
		msg := fmt.Sprintf(format, a...)
		if len(msg) > 3000 {
			msg = msg[:3000] + "..."
		}
		if len(input) > 6000 {
			input = fmt.Sprintf("%s ... %s (%d runes)", input[:100], input[len(input)-100:], len([]rune(input)))
		}
		o.Violations = append(o.Violations, V{Case: c.ID, Unit: c.Unit, Grammar: c.Name(), Input: input, Kind: kind, Msg: msg})
	}
}

var (
	progress   *os.File
	lastChange int64
	curDesc    atomic.Value
	deadline   time.Time
)

// Mark records the case about to be executed, so that a crash or a hang of the
// generated code can be attributed.
func Mark(c *Case, input string) {
	s := c.ID + "\x00" + input
	if progress != nil {
		b := make([]byte, 4+len(s))
		b[0], b[1], b[2], b[3] = byte(len(s)>>24), byte(len(s)>>16), byte(len(s)>>8), byte(len(s))
		copy(b[4:], s)
		progress.WriteAt(b, 0)
	}
	atomic.StoreInt64(&lastChange, time.Now().UnixNano())
	curDesc.Store(s)
}

// ReadMark decodes a progress file.
func ReadMark(fn string) (id, input string) {
	b, err := os.ReadFile(fn)
	if err != nil || len(b) < 4 {
		return
	}
	n := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
	if n+4 > len(b) {
		return
	}
	p := strings.SplitN(string(b[4:4+n]), "\x00", 2)
	if len(p) == 2 {
		return p[0], p[1]
	}
	return
}

var hangLimit = 120.0 // seconds

const (
	ExitHang = 7
	ExitMem  = 8
)

// Try runs f and returns the panic text, or "".
func Try(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("panic: %v", r)
			if len(p) > 600 {
				p = p[:600]
			}
		}
	}()
	f()
	return ""
}

// Env is what Start hands to a shard.
type Env struct {
	Cases    []*Case
	Check    string
	Thorough bool
	Out      *Out
}

func (e *Env) Expired() bool {
	if time.Now().After(deadline) {
		e.Out.Complete = false
		return true
	}
	return false
}

// Start parses the shard's flags, starts the watchdog and returns the cases.
func Start() (*Env, func()) {
	cases := flag.String("cases", "", "")
	out := flag.String("out", "", "")
	check := flag.String("check", "", "")
	prog := flag.String("progress", "", "")
	secs := flag.Float64("seconds", 1e6, "")
	thorough := flag.Bool("thorough", false, "")
	race := flag.Bool("race", false, "built with the race detector")
	flag.Float64Var(&hangLimit, "hang", hangLimit, "")
	flag.Parse()
	Scratch = *prog
	debug.SetMaxStack(128 << 20)
	debug.SetGCPercent(400)
	if !*race {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30})
	}
	deadline = time.Now().Add(time.Duration(*secs * float64(time.Second)))
	e := &Env{Check: *check, Thorough: *thorough, Out: &Out{Outcomes: map[string]int{}, Complete: true}}
	if *cases != "" {
		b, err := os.ReadFile(*cases)
		if err != nil {
			panic(err)
		}
		if err := json.Unmarshal(b, &e.Cases); err != nil {
			panic(err)
		}
	}
	if *prog != "" {
		f, err := os.Create(*prog)
		if err != nil {
			panic(err)
		}
		progress = f
	}
	atomic.StoreInt64(&lastChange, time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(300 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<30 {
				os.Exit(ExitMem)
			}
			if time.Since(time.Unix(0, atomic.LoadInt64(&lastChange))) > time.Duration(hangLimit*float64(time.Second)) {
				os.Exit(ExitHang)
			}
		}
	}()
	return e, func() {
		b, err := json.Marshal(e.Out)
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			panic(err)
		}
		os.Exit(0)
	}
}

// Text renders a token string as input text. Lines have two tokens, so that
// columns go down where positions go up.
func Text(g *gram.G, w []int) string {
	var b strings.Builder
	for i, t := range w {
		if i > 0 {
			b.WriteByte(" \n"[(i+1)%2])
		}
		b.WriteString(g.TText(t))
	}
	return b.String()
}

func SortedSet(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func EqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
