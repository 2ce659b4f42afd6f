// Overlay writes, into a directory, copies of a few standard library files with
// the environment hooks that the smtpd stand-in installs (virtual clock,
// connection addresses, file operations), and an overlay.json for 'go build
// -overlay' that puts them in place of the originals.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
)

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "overlay:", err)
		os.Exit(2)
	}
}

type edit struct{ from, to string }

var patches = map[string][]edit{
	"time/time.go": {
		{"\treturn subMono(runtimeNano()-startNano, t.ext)\n", "\treturn subMono(verifNano()-startNano, t.ext)\n"},
		{"\treturn subMono(t.ext, runtimeNano()-startNano)\n", "\treturn subMono(t.ext, verifNano()-startNano)\n"},
		{"\tsec, nsec, mono := runtimeNow()\n\tif mono == 0 {\n\t\treturn Time{uint64(nsec), sec + unixToInternal, Local}\n\t}\n\tmono -= startNano\n",
			"\tsec, nsec, mono := verifNow()\n\tif mono == 0 {\n\t\treturn Time{uint64(nsec), sec + unixToInternal, Local}\n\t}\n\tmono -= startNano\n"},
	},
	"net/tcpsock.go": {
		{"\t\treturn nil, &OpError{Op: \"accept\", Net: l.fd.net, Source: nil, Addr: l.fd.laddr, Err: err}\n\t}\n\treturn c, nil\n}\n\n// Close stops",
			"\t\treturn nil, &OpError{Op: \"accept\", Net: l.fd.net, Source: nil, Addr: l.fd.laddr, Err: err}\n\t}\n\tif VerifAccept != nil {\n\t\tw, err := VerifAccept(c)\n\t\tif err != nil {\n\t\t\tc.Close()\n\t\t\treturn nil, &OpError{Op: \"accept\", Net: l.fd.net, Source: nil, Addr: l.fd.laddr, Err: err}\n\t\t}\n\t\tif w != nil {\n\t\t\treturn w, nil\n\t\t}\n\t\tc.Close()\n\t\treturn l.Accept()\n\t}\n\treturn c, nil\n}\n\n// VerifAccept is a verification hook.\nvar VerifAccept func(Conn) (Conn, error)\n\n// Close stops"},
	},
	"os/file.go": {
		{"\tif err := f.checkValid(\"write\"); err != nil {\n\t\treturn 0, err\n\t}\n\tn, e := f.write(b)\n",
			"\tif err := f.checkValid(\"write\"); err != nil {\n\t\treturn 0, err\n\t}\n\tif VerifFile != nil {\n\t\tif n, err, h := VerifFile(\"write\", f.name, string(b)); h {\n\t\t\tif n > len(b) {\n\t\t\t\tn = len(b)\n\t\t\t}\n\t\t\tif n > 0 {\n\t\t\t\tf.write(b[:n])\n\t\t\t}\n\t\t\tif err == VerifErrKill {\n\t\t\t\tVerifKill()\n\t\t\t}\n\t\t\treturn n, f.wrapErr(\"write\", err)\n\t\t}\n\t}\n\tn, e := f.write(b)\n"},
		{"\ttestlog.Open(name)\n\tf, err := openFileNolog(name, flag, perm)\n",
			"\ttestlog.Open(name)\n\tif VerifFile != nil && flag&(O_WRONLY|O_RDWR) != 0 {\n\t\tif _, err, h := VerifFile(\"open\", name, \"\"); h {\n\t\t\tif err == VerifErrKill {\n\t\t\t\tVerifKill()\n\t\t\t}\n\t\t\treturn nil, &PathError{Op: \"open\", Path: name, Err: err}\n\t\t}\n\t}\n\tf, err := openFileNolog(name, flag, perm)\n"},
		{"func Rename(oldpath, newpath string) error {\n", "func Rename(oldpath, newpath string) error {\n\tif VerifFile != nil {\n\t\tif _, err, h := VerifFile(\"rename\", newpath, oldpath); h {\n\t\t\tif err == VerifErrKill {\n\t\t\t\tVerifKill()\n\t\t\t}\n\t\t\treturn &LinkError{\"rename\", oldpath, newpath, err}\n\t\t}\n\t}\n"},
	},
	"os/file_posix.go": {
		{"\t\treturn ErrInvalid\n\t}\n\treturn f.file.close()\n",
			"\t\treturn ErrInvalid\n\t}\n\tif VerifFile != nil && f.file != nil {\n\t\tname := f.name\n\t\tif _, err, h := VerifFile(\"close\", name, \"\"); h {\n\t\t\tf.file.close()\n\t\t\tif err == VerifErrKill {\n\t\t\t\tVerifKill()\n\t\t\t}\n\t\t\treturn &PathError{Op: \"close\", Path: name, Err: err}\n\t\t}\n\t}\n\treturn f.file.close()\n"},
		{"\tif e := f.pfd.Fsync(); e != nil {\n",
			"\tif VerifFile != nil {\n\t\tif _, err, h := VerifFile(\"sync\", f.name, \"\"); h {\n\t\t\tif err == VerifErrKill {\n\t\t\t\tVerifKill()\n\t\t\t}\n\t\t\treturn f.wrapErr(\"sync\", err)\n\t\t}\n\t}\n\tif e := f.pfd.Fsync(); e != nil {\n"},
	},
	"os/file_unix.go": {
		{"func Remove(name string) error {\n", "func Remove(name string) error {\n\tif VerifFile != nil {\n\t\tif _, err, h := VerifFile(\"remove\", name, \"\"); h && err == VerifErrKill {\n\t\t\tVerifKill()\n\t\t}\n\t}\n"},
		{"func Link(oldname, newname string) error {\n", "func Link(oldname, newname string) error {\n\tif VerifFile != nil {\n\t\tif _, err, h := VerifFile(\"link\", newname, oldname); h {\n\t\t\tif err == VerifErrKill {\n\t\t\t\tVerifKill()\n\t\t\t}\n\t\t\treturn &LinkError{\"link\", oldname, newname, err}\n\t\t}\n\t}\n"},
	},
}

var extra = map[string]string{
	"time/zz_verif.go": `package time

import "sync/atomic"

var verifOn atomic.Bool
var verifNs atomic.Int64

// VerifYield is a verification hook, called whenever the clock is read.
var VerifYield func()

const verifBase = 1700000000

// VerifFreeze stops the clock at ns nanoseconds after a fixed instant.
func VerifFreeze(ns int64) {
	verifNs.Store(ns)
	verifOn.Store(true)
}

func verifNano() int64 {
	if VerifYield != nil {
		VerifYield()
	}
	if verifOn.Load() {
		return startNano + 1000000000 + verifNs.Load()
	}
	return runtimeNano()
}

func verifNow() (sec int64, nsec int32, mono int64) {
	if VerifYield != nil {
		VerifYield()
	}
	if verifOn.Load() {
		ns := verifNs.Load()
		return verifBase + ns/1000000000, int32(ns % 1000000000), startNano + 1000000000 + ns
	}
	return runtimeNow()
}
`,
	"os/zz_verif.go": `package os

// VerifFile is a verification hook around file operations.
var VerifFile func(op, name, arg string) (n int, err error, handled bool)

// VerifKill and VerifErrKill let a fault end the process.
var VerifKill func()
var VerifErrKill error
`,
}

func main() {
	goroot := runtime.GOROOT()
	if len(os.Args) > 2 {
		goroot = os.Args[2]
	}
	dir := os.Args[1]
	repl := map[string]string{}
	for name, edits := range patches {
		src := filepath.Join(goroot, "src", name)
		b, err := os.ReadFile(src)
		must(err)
		s := string(b)
		for _, e := range edits {
			if strings.Count(s, e.from) != 1 {
				must(fmt.Errorf("%s: expected exactly one occurrence of %q, found %d", src, e.from, strings.Count(s, e.from)))
			}
			s = strings.Replace(s, e.from, e.to, 1)
		}
		dst := filepath.Join(dir, strings.ReplaceAll(name, "/", "_"))
		must(os.WriteFile(dst, []byte(s), 0644))
		repl[src] = dst
	}
	for name, s := range extra {
		dst := filepath.Join(dir, strings.ReplaceAll(name, "/", "_"))
		must(os.WriteFile(dst, []byte(s), 0644))
		repl[filepath.Join(goroot, "src", name)] = dst
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	must(os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0644))
}
