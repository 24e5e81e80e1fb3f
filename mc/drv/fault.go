package drv

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// BuildFaulty builds gogll with a package os in which the k-th operation that
// changes the file system can be made to fail or to end the process:
//
//	MC_FAULT=n    no fault; MC_MARK gets a letter for each operation
//	MC_FAULT=eK   operation K fails without an effect
//	MC_FAULT=pK   operation K, a write, writes half of its data and fails
//	MC_FAULT=cK   the process ends before operation K
//	MC_FAULT=qK   the process ends after half of the data of operation K, a write
func (w *W) BuildFaulty(out string) error {
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	root := strings.TrimSpace(string(b))
	rep := map[string]string{}
	patch := func(file string, subs ...string) error {
		p := filepath.Join(root, "src", "os", file)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		s := string(b)
		for i := 0; i < len(subs); i += 2 {
			if strings.Count(s, subs[i]) != 1 {
				return fmt.Errorf("package os: %q not found in %s", subs[i], file)
			}
			s = strings.Replace(s, subs[i], subs[i]+subs[i+1], 1)
		}
		n := filepath.Join(w.Dir, "os_"+file)
		rep[p] = n
		return os.WriteFile(n, []byte(s), 0o644)
	}
	if err := patch("file.go",
		"func (f *File) Write(b []byte) (n int, err error) {\n", "\tif f != Stdout && f != Stderr {\n\t\tif n, e, done := mcWrite(f, b); done {\n\t\t\treturn n, e\n\t\t}\n\t}\n",
		"func Mkdir(name string, perm FileMode) error {\n", "\tif e := mcOp('m', name); e != nil {\n\t\treturn e\n\t}\n",
		"func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n", "\tif flag&(O_WRONLY|O_RDWR|O_CREATE|O_TRUNC) != 0 {\n\t\tif e := mcOp('o', name); e != nil {\n\t\t\treturn nil, e\n\t\t}\n\t}\n",
		"func Rename(oldpath, newpath string) error {\n", "\tif e := mcOp('r', newpath); e != nil {\n\t\treturn e\n\t}\n",
	); err != nil {
		return err
	}
	if err := patch("file_unix.go",
		"func Remove(name string) error {\n", "\tif e := mcOp('d', name); e != nil {\n\t\treturn e\n\t}\n",
		"func Truncate(name string, size int64) error {\n", "\tif e := mcOp('t', name); e != nil {\n\t\treturn e\n\t}\n",
	); err != nil {
		return err
	}
	hook := filepath.Join(w.Dir, "os_mcfault.go")
	rep[filepath.Join(root, "src", "os", "zz_mcfault.go")] = hook
	if err := os.WriteFile(hook, []byte(faultSrc), 0o644); err != nil {
		return err
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	of := filepath.Join(w.Dir, "os_overlay.json")
	if err := os.WriteFile(of, j, 0o644); err != nil {
		return err
	}
	return w.BuildGogll(out, "-overlay", of)
}

const faultSrc = `package os

import "syscall"

var (
	mcKind byte
	mcK, mcN int
	mcFd = -1
)

func init() {
	s, ok := syscall.Getenv("MC_FAULT")
	if !ok || s == "" {
		return
	}
	k := 0
	for i := 1; i < len(s); i++ {
		k = k*10 + int(s[i]-'0')
	}
	m, _ := syscall.Getenv("MC_MARK")
	fd, err := syscall.Open(m, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_APPEND, 0o644)
	if err != nil {
		syscall.Exit(99)
	}
	mcFd, mcKind, mcK = fd, s[0], k
}

func mcHit(op byte) bool {
	if mcKind == 0 {
		return false
	}
	mcN++
	if mcKind == 'n' {
		syscall.Write(mcFd, []byte{op})
		return false
	}
	if mcN != mcK {
		return false
	}
	syscall.Write(mcFd, []byte{op})
	if mcKind == 'c' {
		syscall.Exit(137)
	}
	return true
}

func mcOp(op byte, name string) error {
	if mcHit(op) {
		return &PathError{Op: "mcfault", Path: name, Err: syscall.EIO}
	}
	return nil
}

func mcWrite(f *File, b []byte) (int, error, bool) {
	if !mcHit('w') {
		return 0, nil, false
	}
	n := 0
	if mcKind != 'e' {
		n, _ = f.write(b[:len(b)/2])
		if mcKind == 'q' {
			syscall.Exit(137)
		}
	}
	return n, &PathError{Op: "write", Path: f.name, Err: syscall.ENOSPC}, true
}
`
