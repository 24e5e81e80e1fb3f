// Package instr rewrites Go packages so that the order in which they iterate
// over maps is chosen by the explorer.
package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// Site is a loop over a map.
type Site struct {
	ID   int
	Pos  string
	Type string
}

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles, CgoFiles       []string
	Standard                bool
	Module                  *struct {
		Path, Dir, GoVersion string
		Main                 bool
	}
}

// edit replaces src[at:to].
type edit struct {
	at, to int
	s      string
}

// rewriter gives numbers to loops.
type rewriter struct {
	mcrt  string // import path
	exp   map[string]string
	sites []Site
	same  bool // the loops of files of the same name in all packages have the same numbers
	byKey map[string]int
}

func list(dir string, env []string, pattern []string) (exp map[string]string, ps []pkg, err error) {
	cmd := exec.Command("go", append([]string{"list", "-mod=readonly", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,CgoFiles,Export,Standard,Module"}, pattern...)...)
	cmd.Dir = dir
	cmd.Env = env
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil {
		return nil, nil, fmt.Errorf("go list: %v\n%s", err, stderr.Bytes())
	}
	exp = map[string]string{}
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkg
		if err := d.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, nil, err
		}
		exp[p.ImportPath] = p.Export
		if !p.Standard {
			ps = append(ps, p)
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].ImportPath < ps[j].ImportPath })
	return
}

// pkg rewrites a package; the result has the files that change.
func (rw *rewriter) pkg(p pkg) (map[string][]byte, error) {
	res := map[string][]byte{}
	fs := token.NewFileSet()
	imp := importer.ForCompiler(fs, "gc", func(path string) (io.ReadCloser, error) { return os.Open(rw.exp[path]) })
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.GoFiles {
		n := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(n)
		if err != nil {
			return nil, err
		}
		a, err := parser.ParseFile(fs, n, src, 0)
		if err != nil {
			return nil, err
		}
		files, srcs = append(files, a), append(srcs, src)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	if _, err := (&types.Config{Importer: imp}).Check(p.ImportPath, fs, files, info); err != nil {
		return nil, fmt.Errorf("%s: %v", p.ImportPath, err)
	}
	for i, f := range files {
		src := srcs[i]
		tf := fs.File(f.Pos())
		off := func(p token.Pos) int { return tf.Offset(p) }
		var eds []edit
		ast.Inspect(f, func(n ast.Node) bool {
			r, ok := n.(*ast.RangeStmt)
			if !ok {
				return true
			}
			t := info.Types[r.X].Type
			if t == nil {
				return true
			}
			if _, ok := t.Underlying().(*types.Map); !ok {
				return true
			}
			pos := fs.Position(r.Pos())
			base := filepath.Base(pos.Filename)
			key := p.ImportPath + "/" + base
			if rw.same {
				key = base
			}
			key += fmt.Sprint(" ", len(eds))
			id, ok := rw.byKey[key]
			if !ok {
				id = len(rw.sites)
				rw.byKey[key] = id
				rw.sites = append(rw.sites, Site{id, fmt.Sprintf("%s/%s:%d", p.ImportPath, base, pos.Line), types.TypeString(t, nil)})
			}
			it := fmt.Sprintf("mcIt%d", id)
			// for k, v := range m {  ->  for it := mcrt.New(id, m); it.Next(); { k, v := it.K, it.V;
			eds = append(eds, edit{off(r.For), off(r.X.Pos()), fmt.Sprintf("for %s := mcrt.New(%d, ", it, id)})
			var l, v []string
			for j, x := range []ast.Expr{r.Key, r.Value} {
				if x == nil {
					continue
				}
				if id, ok := x.(*ast.Ident); ok && id.Name == "_" {
					continue
				}
				l = append(l, string(src[off(x.Pos()):off(x.End())]))
				v = append(v, it+"."+string("KV"[j]))
			}
			asg := ""
			if len(l) > 0 {
				asg = " " + strings.Join(l, ", ") + " " + r.Tok.String() + " " + strings.Join(v, ", ") + ";"
			}
			eds = append(eds, edit{off(r.X.End()), off(r.Body.Lbrace) + 1, fmt.Sprintf("); %s.Next(); {%s", it, asg)})
			return true
		})
		if len(eds) == 0 {
			continue
		}
		at := off(f.Name.End())
		eds = append(eds, edit{at, at, fmt.Sprintf("; import mcrt %q", rw.mcrt)})
		sort.SliceStable(eds, func(i, j int) bool { return eds[i].at < eds[j].at })
		var w bytes.Buffer
		last := 0
		for _, e := range eds {
			w.Write(src[last:e.at])
			w.WriteString(e.s)
			last = e.to
		}
		w.Write(src[last:])
		res[tf.Name()] = w.Bytes()
	}
	return res, nil
}

// Maps rewrites the loops over maps in the packages that pattern, taken in
// dir, depends on (the standard library excepted). It writes the new files
// to out and returns the loops and the arguments for go build.
func Maps(dir, out string, env []string, pattern ...string) (sites []Site, args []string, err error) {
	rep, reps := map[string]string{}, map[string]string{}
	exp, ps, err := list(dir, env, pattern)
	if err != nil {
		return nil, nil, err
	}
	rw := &rewriter{mcrt: "mcrt", exp: exp, byKey: map[string]int{}}
	for _, p := range ps {
		files, err := rw.pkg(p)
		if err != nil {
			return nil, nil, err
		}
		for f, src := range files {
			if p.Module != nil && !p.Module.Main {
				// the go command does not replace files of its cache
				m := filepath.Join(out, strings.ReplaceAll(p.Module.Path, "/", "_"))
				if reps[p.Module.Path] == "" {
					if err := copyTree(m, p.Module.Dir); err != nil {
						return nil, nil, err
					}
					reps[p.Module.Path] = m
				}
				rel, err := filepath.Rel(p.Module.Dir, f)
				if err != nil {
					return nil, nil, err
				}
				if err := os.WriteFile(filepath.Join(m, rel), src, 0o644); err != nil {
					return nil, nil, err
				}
				continue
			}
			o := filepath.Join(out, strings.ReplaceAll(p.ImportPath, "/", "_")+"_"+filepath.Base(f))
			if err := os.WriteFile(o, src, 0o644); err != nil {
				return nil, nil, err
			}
			rep[f] = o
		}
		if len(files) > 0 {
			args = append(args, "-gcflags="+p.ImportPath+"=-lang=go1.21")
		}
	}
	ov := filepath.Join(out, "overlay.json")
	if err := overlay(ov, rep); err != nil {
		return nil, nil, err
	}
	args = append(args, "-overlay", ov)
	if len(reps) > 0 {
		b, err := os.ReadFile(filepath.Join(dir, "go.mod"))
		if err != nil {
			return nil, nil, err
		}
		for m, d := range reps {
			b = append(b, fmt.Sprintf("\nreplace %s => %s\n", m, d)...)
		}
		mf := filepath.Join(out, "go.mod")
		if err := os.WriteFile(mf, b, 0o644); err != nil {
			return nil, nil, err
		}
		b, err = os.ReadFile(filepath.Join(dir, "go.sum"))
		if err != nil {
			return nil, nil, err
		}
		if err := os.WriteFile(filepath.Join(out, "go.sum"), b, 0o644); err != nil {
			return nil, nil, err
		}
		args = append(args, "-modfile", mf)
	}
	return rw.sites, args, nil
}

// InPlace rewrites the packages below dir, the root of module mod, that
// pattern depends on. Package mod/mcrt is written too.
func InPlace(dir, mod string, env []string, pattern ...string) ([]Site, error) {
	exp, ps, err := list(dir, env, pattern)
	if err != nil {
		return nil, err
	}
	rw := &rewriter{mcrt: mod + "/mcrt", exp: exp, byKey: map[string]int{}, same: true}
	for _, p := range ps {
		if !strings.HasPrefix(p.ImportPath, mod+"/") {
			continue
		}
		files, err := rw.pkg(p)
		if err != nil {
			return nil, err
		}
		for f, src := range files {
			if err := os.WriteFile(f, src, 0o644); err != nil {
				return nil, err
			}
		}
	}
	d := filepath.Join(dir, "mcrt")
	if err := os.MkdirAll(d, 0o755); err != nil {
		return nil, err
	}
	return rw.sites, os.WriteFile(filepath.Join(d, "mcrt.go"), []byte(mcrtSrc), 0o644)
}

func copyTree(to, from string) error {
	return filepath.Walk(from, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if i.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0o644)
	})
}

// overlay adds package mcrt to the standard library and writes the overlay.
func overlay(file string, rep map[string]string) error {
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	rt := file + ".mcrt.go"
	if err := os.WriteFile(rt, []byte(mcrtSrc), 0o644); err != nil {
		return err
	}
	m := map[string]string{filepath.Join(strings.TrimSpace(string(b)), "src", "mcrt", "mcrt.go"): rt}
	for k, v := range rep {
		m[k] = v
	}
	j, err := json.Marshal(map[string]interface{}{"Replace": m})
	if err != nil {
		return err
	}
	return os.WriteFile(file, j, 0o644)
}

const mcrtSrc = `// Package mcrt chooses the order of iterations over maps.
package mcrt

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"syscall"
)

// Rule: the iterations Inst (-1: all) of loop Site (-1: all) have order Ord.
type Rule struct{ Site, Inst, Ord int }

// Orders is the number of orders; those from Orders/2 also visit keys that
// are added by the loop.
const Orders = 48

var (
	Rules []Rule
	// For each site: the number of iterations over at least one key
	// and the largest number of keys.
	Count, Max []int
	logFd      = -1
)

// Reset starts counting afresh.
func Reset(r ...[3]int) {
	Rules = Rules[:0]
	for _, x := range r {
		Rules = append(Rules, Rule{x[0], x[1], x[2]})
	}
	for i := range Count {
		Count[i], Max[i] = 0, 0
	}
}

func init() {
	if s, ok := syscall.Getenv("MC_ORDER"); ok {
		for _, f := range strings.Fields(s) {
			var r Rule
			if n, _ := fmt.Sscanf(f, "%d:%d:%d", &r.Site, &r.Inst, &r.Ord); n != 3 {
				os.Exit(99)
			}
			Rules = append(Rules, r)
		}
	}
	if s, ok := syscall.Getenv("MC_ORDER_LOG"); ok {
		fd, err := syscall.Open(s, syscall.O_WRONLY|syscall.O_CREAT, 0o644)
		if err != nil {
			os.Exit(99)
		}
		logFd = fd
	}
}

type It[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	more bool
	done map[K]bool
	K    K
	V    V
}

// New starts an iteration.
func New[K comparable, V any, M ~map[K]V](site int, m M) *It[K, V] {
	it := &It[K, V]{m: m, keys: sorted(m)}
	for len(Count) <= site {
		Count, Max = append(Count, 0), append(Max, 0)
	}
	if len(it.keys) > Max[site] {
		Max[site] = len(it.keys)
	}
	ord := 0
	if len(m) > 0 {
		for _, r := range Rules {
			if (r.Site < 0 || r.Site == site) && (r.Inst < 0 || r.Inst == Count[site]) {
				ord = r.Ord
			}
		}
		Count[site]++
	}
	if logFd >= 0 {
		b := []byte(fmt.Sprintf("%11d %11d\n", Count[site], Max[site]))
		syscall.Pwrite(logFd, b, int64(site*24))
	}
	it.more = ord >= Orders/2
	if it.more {
		it.done = map[K]bool{}
	}
	permute(it.keys, ord%(Orders/2))
	return it
}

func (it *It[K, V]) Next() bool {
	for {
		for it.i < len(it.keys) {
			k := it.keys[it.i]
			it.i++
			if v, ok := it.m[k]; ok {
				if it.more {
					it.done[k] = true
				}
				it.K, it.V = k, v
				return true
			}
		}
		if !it.more {
			return false
		}
		n := 0
		for _, k := range sorted(it.m) {
			if !it.done[k] {
				it.keys = append(it.keys, k)
				n++
			}
		}
		if n == 0 {
			return false
		}
	}
}

// permute: up to four keys all orders, more keys in blocks, reversed in the
// odd orders.
func permute[K any](ks []K, ord int) {
	if ord == 0 || len(ks) < 2 {
		return
	}
	n := len(ks)
	nb := n
	if nb > 4 {
		nb = 4
	}
	// the blocks
	var bs [][]K
	for i := 0; i < nb; i++ {
		bs = append(bs, append([]K{}, ks[i*n/nb:(i+1)*n/nb]...))
	}
	f := 1
	for i := 2; i <= nb; i++ {
		f *= i
	}
	p := ord % f
	ks = ks[:0]
	for i := nb; i > 0; i-- {
		f /= i
		k := p / f
		p %= f
		b := bs[k]
		if ord%2 == 1 && n > 4 {
			for x, y := 0, len(b)-1; x < y; x, y = x+1, y-1 {
				b[x], b[y] = b[y], b[x]
			}
		}
		ks = append(ks, b...)
		bs = append(bs[:k:k], bs[k+1:]...)
	}
}

func sorted[K comparable, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	switch x := any(ks).(type) {
	case []string:
		sort.Strings(x)
	case []int:
		sort.Ints(x)
	case []rune:
		sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	default:
		s := make([]string, len(ks))
		for i, k := range ks {
			s[i] = string(enc(nil, reflect.ValueOf(k), 1))
		}
		sort.Sort(&by[K]{s, ks})
	}
	return ks
}

type by[K any] struct {
	s  []string
	ks []K
}

func (b *by[K]) Len() int           { return len(b.s) }
func (b *by[K]) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *by[K]) Swap(i, j int) {
	b.s[i], b.s[j] = b.s[j], b.s[i]
	b.ks[i], b.ks[j] = b.ks[j], b.ks[i]
}

// enc writes a value such that equal values have equal encodings.
func enc(w []byte, v reflect.Value, depth int) []byte {
	switch v.Kind() {
	case reflect.Bool:
		return append(w, fmt.Sprint(v.Bool())...)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := v.Int()
		for i := 56; i >= 0; i -= 8 {
			w = append(w, byte((x^-1<<63)>>uint(i)))
		}
		return w
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return append(w, fmt.Sprintf("%020d", v.Uint())...)
	case reflect.String:
		return append(append(w, v.String()...), 0)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			w = enc(w, v.Field(i), depth)
		}
	case reflect.Array, reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			w = enc(w, v.Index(i), depth)
		}
	case reflect.Ptr, reflect.Interface:
		if depth > 0 && !v.IsNil() {
			return enc(w, v.Elem(), depth-1)
		}
	}
	return w
}
`
