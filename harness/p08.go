package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"pgregory.net/rapid"
)

type c08Case struct {
	Led   Led
	Cmd   string // format, trim, modify, test
	Tests []string
	Incl  []string // tests of an included file
	Set   string   // modify: tag to add
	Pad   int      // length of an extra note, for contents beyond one buffer
	Order []int    // order of the files given
	// faults
	Limit  int    // largest file size in permille of the largest content
	Call   string // system call that fails
	Err    string // its error, or KILL
	When   int
	NoRoom bool
}

func c08Gen(t *rapid.T) c08Case {
	in := c08Case{Led: genLed(t, ledOpt{MaxComs: 1, NoDefault: true, MaxTx: 8, Days: 5, Notes: true, Codes: true, Asserts: 5, Unb: true})}
	in.Cmd = pick(t, "cmd", "format", "trim", "modify", "test")
	cmds := []string{"balance", "balance -z", "register -r Root", "stats", "tags -v", "accounts", "register Unbalanced"}
	if in.Cmd == "test" {
		for k := num(t, "ntests", 1, 4); k > 0; k-- {
			in.Tests = append(in.Tests, pick(t, "test", cmds...))
		}
		for k := num(t, "nincl", 0, 2); k > 0; k-- {
			in.Incl = append(in.Incl, pick(t, "test", cmds...))
		}
	}
	in.Set = pick(t, "set", "#added", "#added: value", "#added:x, #more")
	in.Pad = pick(t, "pad", 0, 0, 3000, 5000, 20000)
	n := max(in.Led.Files, 1)
	for f := 0; f < n; f++ {
		in.Order = append(in.Order, f)
	}
	in.Order = rapid.Permutation(in.Order).Draw(t, "order")
	in.Limit = num(t, "limit", 0, 1200)
	in.Call = pick(t, "call", "write", "write", "renameat,rename,renameat2", "close", "openat", "fchmod,fchmodat,chmod", "unlinkat,unlink", "read", "write,close,renameat,rename,openat,fchmod,unlinkat,ftruncate,fsync")
	in.Err = pick(t, "err", "ENOSPC", "EIO", "EACCES", "EDQUOT", "KILL", "KILL")
	in.When = num(t, "when", 1, 30)
	return in
}

// setup writes the files to be rewritten into a new directory of the case, the ledger itself being in d.
func (in *c08Case) setup(d, name string) (dir string, files []string) {
	dir = filepath.Join(d, name)
	l := &in.Led
	n := max(l.Files, 1)
	texts := make([]string, n)
	for i := range l.Txs {
		s := l.Txs[i].render()
		if in.Pad > 0 && i < 2 {
			head, rest, _ := strings.Cut(s, "\n")
			s = head + "\n" + strings.Repeat("  ; "+strings.Repeat("pad ", 20)+"\n", in.Pad/80) + rest
		}
		texts[l.Txs[i].File%n] += "\n" + s
	}
	if in.Cmd != "test" {
		for _, f := range in.Order {
			fn := l.txFileName(f)
			writeFile(filepath.Join(dir, fn), texts[f])
			files = append(files, fn)
		}
		return dir, files
	}
	clauses := func(cmds []string) (s string) {
		for i, c := range cmds {
			s += "test " + c + "\n"
			if i%3 == 2 {
				s += "wrong\n"
			}
			s += "end test\n\n"
		}
		return s
	}
	main := l.comFile() + l.accFile() + strings.Join(texts, "")
	if len(in.Incl) > 0 {
		main += "\ninclude more.test\n"
		writeFile(filepath.Join(dir, "more.test"), "; more\n"+clauses(in.Incl))
	}
	writeFile(filepath.Join(dir, "main.test"), main+"\n"+clauses(in.Tests)+"; end\n")
	return dir, []string{"main.test"}
}

func (in *c08Case) args(files []string) []string {
	switch in.Cmd {
	case "format":
		return append([]string{"format", "-i"}, files...)
	case "trim":
		return append([]string{"format", "-i", "-t"}, files...)
	case "modify":
		return append([]string{"modify", "-p", "o", "-tt:", in.Set}, files...)
	}
	return append([]string{"test"}, files...)
}

func contents(dir string) map[string]string {
	m := map[string]string{}
	es, err := os.ReadDir(dir)
	infraIf(err)
	for _, e := range es {
		m[e.Name()] = readFile(filepath.Join(dir, e.Name()))
	}
	return m
}

// oldNew gives the contents before, and after an undisturbed run with one file at a time.
func (in *c08Case) oldNew(c *Ctx, d string) (old, new map[string]string, err error) {
	in.Led.write(d)
	dir, files := in.setup(d, "ref")
	old = contents(dir)
	for _, f := range files {
		o := c.Run(dir, d, "coin", in.args([]string{f})...)
		if err := mustOK(o, "rewriting", in.args([]string{f})); err != nil {
			return nil, nil, err
		}
	}
	new = contents(dir)
	if in.Cmd == "format" || in.Cmd == "trim" {
		for _, f := range files {
			writeFile(filepath.Join(dir, f), old[f])
			args := []string{"format"}
			if in.Cmd == "trim" {
				args = append(args, "-t")
			}
			o := c.Run(dir, d, "coin", append(args, f)...)
			if err := mustOK(o, "format", f); err != nil {
				return nil, nil, err
			}
			if o.Stdout != new[f] {
				return nil, nil, viol("rewrite: %s has not what format prints\n%s\n--- printed\n%s", f, new[f], o.Stdout)
			}
		}
	}
	return old, new, nil
}

func c08HistoryCheck(c *Ctx, in c08Case) error {
	d := c.Dir()
	old, new, err := in.oldNew(c, d)
	if err != nil {
		return err
	}
	dir, files := in.setup(d, "watched")
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	infraIf(err)
	defer syscall.Close(fd)
	_, err = syscall.InotifyAddWatch(fd, dir, syscall.IN_MODIFY|syscall.IN_CREATE|syscall.IN_DELETE|syscall.IN_MOVED_FROM|syscall.IN_MOVED_TO)
	infraIf(err)
	args := in.args(files)
	o := c.Run(dir, d, "coin", args...)
	if err := mustOK(o, "rewriting", args); err != nil {
		return err
	}
	buf := make([]byte, 1<<20)
	var history []string
	first := ""
	for {
		n, err := syscall.Read(fd, buf)
		if n <= 0 || err != nil {
			break
		}
		for b := buf[:n]; len(b) >= syscall.SizeofInotifyEvent; {
			mask := binary.LittleEndian.Uint32(b[4:])
			ln := binary.LittleEndian.Uint32(b[12:])
			name := string(bytes.TrimRight(b[syscall.SizeofInotifyEvent:syscall.SizeofInotifyEvent+ln], "\x00"))
			b = b[syscall.SizeofInotifyEvent+ln:]
			what := ""
			for _, k := range []struct {
				m uint32
				s string
			}{{syscall.IN_MODIFY, "written"}, {syscall.IN_CREATE, "created"}, {syscall.IN_DELETE, "removed"}, {syscall.IN_MOVED_FROM, "moved away"}, {syscall.IN_MOVED_TO, "replaced"}} {
				if mask&k.m != 0 {
					what = k.s
				}
			}
			target := old[name] != "" || new[name] != ""
			if !target {
				name = "another file"
			}
			history = append(history, name+" "+what)
			if target && what != "replaced" && first == "" {
				first = name + " is " + what
			}
		}
	}
	if first != "" {
		return viol("rewrite in place: %s in place, it does not have complete content at every moment\n%v\nhistory: %s", first, args, strings.Join(history, ", "))
	}
	if err := sameContents(contents(dir), new); err != nil {
		return viol("rewrite in place: %s\n%v", err, args)
	}
	changed := 0
	for f := range new {
		if new[f] != old[f] {
			changed++
		}
	}
	c.NonTrivial(changed > 0)
	c.Label("%s", in.Cmd)
	if changed > 1 {
		c.Label("several-files")
	}
	return nil
}

func sameContents(got, want map[string]string) error {
	var names []string
	for f := range got {
		names = append(names, f)
	}
	sort.Strings(names)
	for _, f := range names {
		if _, ok := want[f]; !ok {
			return viol("leaves file %s behind", strings.TrimRight(f, "0123456789"))
		}
		if got[f] != want[f] {
			return viol("%s is\n%s\n--- want\n%s", f, got[f], want[f])
		}
	}
	for f := range want {
		if _, ok := got[f]; !ok {
			return viol("%s is gone", f)
		}
	}
	return nil
}

// afterFault judges the directory after a run during which something failed.
func afterFault(got, old, new map[string]string, code int, killed bool) error {
	for f := range old {
		s, ok := got[f]
		if !ok {
			return viol("%s is gone", f)
		}
		if s != old[f] && s != new[f] {
			return viol("%s has neither the old nor the new content (%d bytes, old %d, new %d)\n%s", f, len(s), len(old[f]), len(new[f]), s)
		}
	}
	if killed {
		return nil
	}
	if code == 0 {
		if err := sameContents(got, new); err != nil {
			return viol("succeeds but %s", err)
		}
	}
	return nil
}

func c08LimitCheck(c *Ctx, in c08Case) error {
	d := c.Dir()
	old, new, err := in.oldNew(c, d)
	if err != nil {
		return err
	}
	largest := 0
	for _, s := range new {
		largest = max(largest, len(s))
	}
	limit := largest * in.Limit / 1000
	dir, files := in.setup(d, "limited")
	args := in.args(files)
	self, err := os.Executable()
	infraIf(err)
	o := c.runExe(dir, []string{"COINDB=" + d}, nil, self, append([]string{"helper", "fsize", fmt.Sprint(limit), filepath.Join(c.bin, "coin")}, args...)...)
	if o.TimedOut {
		return viol("rewrite with full disk: hangs")
	}
	got := contents(dir)
	if err := afterFault(got, old, new, o.Code, o.Signal); err != nil {
		return viol("rewrite with files limited to %d bytes: %s\n%v", limit, err, args)
	}
	if o.Code != 0 {
		c.Label("failed")
		c.NonTrivial(true)
		if strings.TrimSpace(o.Stderr) == "" {
			return viol("rewrite with files limited to %d bytes: fails without a message", limit)
		}
	}
	c.Label("%s", in.Cmd)
	return nil
}

var straceWorks = -1

func c08InjectCheck(c *Ctx, in c08Case) error {
	if straceWorks < 0 {
		straceWorks = 0
		if exec.Command("strace", "-f", "-o", "/dev/null", "-e", "trace=write", "-e", "inject=unlink:error=EIO", "true").Run() == nil {
			straceWorks = 1
		}
	}
	if straceWorks == 0 {
		c.Label("no-strace")
		return nil
	}
	d := c.Dir()
	old, new, err := in.oldNew(c, d)
	if err != nil {
		return err
	}
	dir, files := in.setup(d, "faulty")
	args := in.args(files)
	fault := "error=" + in.Err
	if in.Err == "KILL" {
		fault = "signal=KILL"
	}
	trace := filepath.Join(d, "trace")
	sargs := []string{"-f", "-o", trace, "-e", "trace=" + in.Call, "-e", fmt.Sprintf("inject=%s:%s:when=%d", in.Call, fault, in.When), filepath.Join(c.bin, "coin")}
	o := c.runExe(dir, []string{"COINDB=" + d, "GOMAXPROCS=1"}, nil, "/usr/bin/strace", append(sargs, args...)...)
	if o.TimedOut {
		c.Label("timeout")
		return nil // a fault in the runtime itself (a futile close loop, say)
	}
	got := contents(dir)
	killed := o.Signal || in.Err == "KILL" && o.Code != 0
	if err := afterFault(got, old, new, o.Code, killed); err != nil {
		return viol("rewrite with call %d of %s failing with %s: %s\n%v\n%s", in.When, in.Call, in.Err, err, args, readFile(trace))
	}
	if strings.Contains(readFile(trace), "INJECTED") || killed {
		c.Label("%s", in.Err)
		c.NonTrivial(true)
	}
	if o.Code != 0 {
		c.Label("failed")
	}
	return nil
}

// fsizeHelper limits the size of files and runs a command.
func fsizeHelper(args []string) {
	var n uint64
	fmt.Sscan(args[0], &n)
	lim := [2]uint64{n, n}
	_, _, e := syscall.RawSyscall(syscall.SYS_SETRLIMIT, 1, uintptr(unsafe.Pointer(&lim)), 0)
	if e != 0 {
		infraf("setrlimit: %v", e)
	}
	infraIf(syscall.Exec(args[1], args[1:], os.Environ()))
}

func init() {
	register(&Prop{
		ID: "C08",
		Rule: "a case is 1-3 files of up to 8 transactions (some padded to more than one write buffer) or a test file (possibly including another one) and a command rewriting them: format -i, format -i -t, modify, test. " +
			"history: the events inotify records for the directory during an undisturbed run; limit: the run under a file-size limit between 0 and 1.2 times the new content; " +
			"inject: the run under strace with the n-th write/rename/close/open/chmod/unlink/read failing or killing the process; links: the run on symbolic links (relative, absolute, chained, through a linked directory) to files of various permissions. Non-trivial when some content changes, the limit makes the run fail, or the fault happened",
		Assumptions: []string{"a rename within a directory is atomic (loss of power is not considered)"},
		Subs: []Sub{
			sub("history", 2500, 20000, c08Gen, c08HistoryCheck),
			sub("limit", 2500, 20000, c08Gen, c08LimitCheck),
			sub("inject", 1500, 20000, c08Gen, c08InjectCheck),
			sub("links", 1000, 10000, c08LinkGen, c08LinkCheck),
		},
	})
}
