package main

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

type Clause struct {
	Cmd  string
	Kind string // exact, empty, or how the recorded result is altered
	Pos  int
	File int // 0 main, 1 and 2 included files
}

type c22Case struct {
	Led     Led
	Clauses []Clause
	Verbose bool
	Path    string
	CRLF    bool
	NoEOL   bool
	InclAt  [2]int // clause of the main file after which the file is included
	EndTest string
}

var c22Cmds = []string{"balance", "balance -z", "balance -l 2", "balance -b 2020/01/03 -p o", "register -r Root", "register -r -l 5 Root", "register -r -m -g 2 Root", "register -r -bp Root", "register -c -m Root",
	"register -r -n -p !o Root", "stats", "stats -b 2020/01/04", "tags", "tags -v", "tags -a trip", "accounts", "accounts -c", "commodities", "commodities -p", "format", "format -t", "format -ledger",
	"modify -p o -tt: #seen:x", "modify -tt trip -tt: #y", "bal", "reg Unbalanced"}

func c22Gen(t *rapid.T) c22Case {
	in := c22Case{Led: genLed(t, ledOpt{MaxComs: pick(t, "maxcoms", 1, 2), MaxTx: 7, Days: 6, Notes: true, Codes: true, Attrs: true, TreeComs: true, Prices: true, Singles: true, Unb: true, Asserts: pick(t, "asserts", 0, 0, 3)})}
	in.Led.Files = 0
	for k := 1 + count(t, "nclauses", 6, 20, 20); k > 0; k-- {
		cl := Clause{Cmd: pick(t, "cmd", c22Cmds...), Kind: pick(t, "kind", "exact", "exact", "empty", "char", "drop", "add", "blank", "space", "dup"), Pos: num(t, "pos", 0, 30)}
		if n := len(in.Led.Txs); n > 0 && chance(t, "own", 4) {
			acc := pick(t, "tx", in.Led.Txs...).Posts[0].Acc
			cl.Cmd = pick(t, "owncmd", "register ", "register -r ", "balance ", "register -m -r ", "modify -tt: #z -a ", "modify -a: Unbalanced -a ", "modify -pt: #w:1 -a ") + acc
		}
		cl.File = pick(t, "file", 0, 0, 0, 1, 2)
		in.Clauses = append(in.Clauses, cl)
	}
	in.Verbose = chance(t, "verbose", 3)
	in.Path = pick(t, "path", "main.test", "main.test", "./main.test", "sub/main.test", "c:d/main.test")
	in.CRLF = chance(t, "crlf", 6)
	in.NoEOL = chance(t, "noeol", 4)
	in.InclAt = [2]int{num(t, "incl1", 0, 4), num(t, "incl2", 0, 4)}
	in.EndTest = pick(t, "end", "end test", "end test", "  end test")
	return in
}

func alter(s, kind string, pos int) string {
	ls := strings.SplitAfter(s, "\n")
	if s == "" {
		return "something\n"
	}
	ls = ls[:len(ls)-1]
	i := pos % len(ls)
	switch kind {
	case "char":
		ls[i] = "x" + ls[i][1:]
		if strings.Join(ls, "") == s {
			ls[i] = "y" + ls[i][1:]
		}
		if ls[i][len(ls[i])-1] != '\n' {
			ls[i] += "\n"
		}
	case "drop":
		if len(ls) == 1 {
			ls[0] = "z\n"
		} else {
			ls = append(ls[:i:i], ls[i+1:]...)
		}
	case "add":
		ls[i] += "more\n"
	case "blank":
		ls = append(ls, "\n")
	case "space":
		ls[i] = ls[i][:len(ls[i])-1] + " \n"
	case "dup":
		ls[i] += ls[i]
	}
	return strings.Join(ls, "")
}

var hunkHead = regexp.MustCompile(`^@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@$`)

// applyDiff applies a unified diff.
func applyDiff(old string, diff []string) (string, error) {
	ls := strings.SplitAfter(old, "\n")
	var out []string
	at := 0
	i := 0
	for i < len(diff) && !strings.HasPrefix(diff[i], "@@") {
		i++
	}
	for i < len(diff) {
		m := hunkHead.FindStringSubmatch(diff[i])
		if m == nil {
			return "", viol("unexpected line %q", diff[i])
		}
		i++
		start, _ := strconv.Atoi(m[1])
		n, _ := strconv.Atoi(m[2])
		if m[2] == "" {
			n = 1
		}
		if n > 0 {
			start--
		}
		if start < at || start > len(ls) {
			return "", viol("hunk at %d", start)
		}
		out = append(out, ls[at:start]...)
		at = start
		for i < len(diff) && !strings.HasPrefix(diff[i], "@@") {
			l := diff[i]
			i++
			if l == "" {
				return "", viol("empty line in the difference")
			}
			switch l[0] {
			case ' ', '-':
				if at >= len(ls) || strings.TrimSuffix(ls[at], "\n") != l[1:] {
					return "", viol("difference does not apply at %q", l)
				}
				if l[0] == ' ' {
					out = append(out, ls[at])
				}
				at++
			case '+':
				out = append(out, l[1:]+"\n")
			default:
				return "", viol("unexpected line %q", l)
			}
		}
	}
	out = append(out, ls[at:]...)
	return strings.Join(out, ""), nil
}

func c22Check(c *Ctx, in c22Case) error {
	d := c.Dir()
	l := &in.Led
	db := filepath.Join(d, "db")
	l.write(db)
	defs := l.comFile() + l.accFile() + l.priceFile() + "\n"
	for i := range l.Txs {
		defs += l.Txs[i].render() + "\n"
	}
	// the output of each command by itself
	truth := map[string]string{}
	for _, cl := range in.Clauses {
		if _, ok := truth[cl.Cmd]; ok {
			continue
		}
		fn := filepath.Join(d, "single.test")
		text := defs + "test " + cl.Cmd + "\nend test\n"
		writeFile(fn, text)
		o := c.Coin(d, "test", "single.test")
		if o.Code != 0 && !o.Fault() {
			c.Label("refused")
			return nil
		}
		if err := mustOK(o, "test", cl.Cmd); err != nil {
			return err
		}
		got := readFile(fn)
		head := defs + "test " + cl.Cmd + "\n"
		if !strings.HasPrefix(got, head) || !strings.HasSuffix(got, "end test\n") {
			return viol("test: filling in the result of %s changes the file\n%s\n--- was\n%s", cl.Cmd, got, text)
		}
		truth[cl.Cmd] = strings.TrimSuffix(got[len(head):], "end test\n")
		if f := strings.Fields(cl.Cmd)[0]; f != "format" && f != "modify" {
			oc := c.Coin(db, strings.Fields(cl.Cmd)...)
			if oc.Stdout != truth[cl.Cmd] {
				return viol("test: the result filled in for %s is not its output\n%s\n--- output\n%s", cl.Cmd, truth[cl.Cmd], oc.Stdout)
			}
		}
	}
	dir := filepath.Dir(in.Path)
	names := []string{in.Path, filepath.Join(dir, "one.test"), filepath.Join(dir, "two.test")}
	shown := []string{in.Path, names[1], names[2]}
	type want struct {
		loc, cmd         string
		recorded, actual string
		fails, filled    bool
	}
	var all []*want
	before, after := make([]string, 3), make([]string, 3)
	add := func(f int, s string, filled bool) {
		if in.CRLF && !filled {
			s = strings.ReplaceAll(s, "\n", "\r\n")
		}
		after[f] += s
		if !filled {
			before[f] += s
		}
	}
	add(0, "; tests\n"+defs, false)
	nMain := 0
	include := func() {
		for k, at := range in.InclAt {
			if at == nMain {
				has := false
				for _, cl := range in.Clauses {
					has = has || cl.File == k+1
				}
				if has {
					add(0, fmt.Sprintf("include %s\n\n", filepath.Base(names[k+1])), false)
				}
			}
		}
	}
	include()
	for _, cl := range in.Clauses {
		f := cl.File
		if f > 0 && before[f] == "" {
			add(f, "; included\n\n", false)
		}
		w := &want{cmd: cl.Cmd, actual: truth[cl.Cmd], loc: fmt.Sprintf("%s:%d", shown[f], strings.Count(before[f], "\n")+1)}
		switch cl.Kind {
		case "exact":
			w.recorded = w.actual
		case "empty":
		default:
			w.recorded = alter(w.actual, cl.Kind, cl.Pos)
		}
		add(f, "test "+cl.Cmd+"\n"+w.recorded, false)
		if w.recorded == "" {
			w.filled = true
			add(f, w.actual, true)
		}
		add(f, in.EndTest+"\n\n", false)
		w.fails = !w.filled && w.recorded != w.actual
		all = append(all, w)
		if f == 0 {
			nMain++
			include()
		}
	}
	for nMain++; nMain < 6; nMain++ {
		include()
	}
	nFiles := 0
	for f, fn := range names {
		if before[f] == "" {
			continue
		}
		nFiles++
		if in.NoEOL {
			before[f], after[f] = strings.TrimRight(before[f], "\r\n"), strings.TrimRight(after[f], "\r\n")
		}
		writeFile(filepath.Join(d, fn), before[f])
	}
	args := []string{"test"}
	if in.Verbose {
		args = append(args, "-v")
	}
	args = append(args, in.Path)
	for round := 1; round <= 2; round++ {
		o := c.Coin(d, args...)
		if err := mustOK(o, "test", args); err != nil {
			return err
		}
		bad := func(f string, a ...any) error {
			return viol("test: %s\nround %d %v\n%s\n--- files\n%s", fmt.Sprintf(f, a...), round, args, o.Stdout, strings.Join(before, "----\n"))
		}
		for f, fn := range names {
			if before[f] != "" && readFile(filepath.Join(d, fn)) != after[f] {
				return bad("%s is\n%s\n--- want\n%s", fn, readFile(filepath.Join(d, fn)), after[f])
			}
		}
		ls := lines(o.Stdout)
		var got []string
		for i := 0; i < len(ls); i++ {
			got = append(got, ls[i])
			if !strings.HasPrefix(ls[i], "FAIL ") {
				continue
			}
			j := i + 1
			for j < len(ls) && !strings.HasPrefix(ls[j], "FAIL ") && !strings.HasPrefix(ls[j], "OK ") {
				j++
			}
			for _, w := range all {
				if ls[i] == "FAIL "+w.loc+" "+w.cmd {
					res, err := applyDiff(w.recorded+"\n", ls[i+1:j])
					if err != nil {
						return bad("%s: %s", ls[i], err)
					}
					if strings.TrimRight(res, "\n") != strings.TrimRight(w.actual, "\n") || j == i+1 {
						return bad("%s: the difference shown leads to\n%s", ls[i], res)
					}
				}
			}
			i = j - 1
		}
		var exp []string
		for f := range names {
			if before[f] == "" {
				continue
			}
			ok, tests := true, false
			for k, w := range all {
				if in.Clauses[k].File != f {
					continue
				}
				tests = true
				switch {
				case w.fails:
					exp = append(exp, "FAIL "+w.loc+" "+w.cmd)
					ok = false
				case in.Verbose && !w.filled:
					exp = append(exp, "OK "+w.loc+" "+w.cmd)
				}
			}
			if tests && !in.Verbose {
				exp = append(exp, map[bool]string{true: "OK ", false: "FAIL "}[ok]+shown[f])
			}
		}
		left := map[string]int{}
		for _, l := range exp {
			left[l]++
		}
		for _, l := range got {
			if left[l] == 0 {
				return bad("unexpected %q, want\n%s", l, strings.Join(exp, "\n"))
			}
			left[l]--
		}
		for _, l := range exp {
			if left[l] > 0 {
				return bad("no %q", l)
			}
		}
		// the second time nothing is to be filled in, later clauses have moved
		if round == 1 {
			shift := make([]int, 3)
			for k, w := range all {
				f := in.Clauses[k].File
				i := strings.LastIndexByte(w.loc, ':')
				n, _ := strconv.Atoi(w.loc[i+1:])
				w.loc = fmt.Sprintf("%s:%d", w.loc[:i], n+shift[f])
				if w.filled {
					shift[f] += strings.Count(w.actual, "\n")
					w.filled = w.actual == ""
				}
			}
			before = after
		}
	}
	fails, passes := 0, 0
	for _, w := range all {
		if w.fails {
			fails++
		} else {
			passes++
		}
	}
	for _, cl := range in.Clauses {
		if cl.Kind == "empty" {
			c.Label("filled")
			break
		}
	}
	if nFiles > 1 {
		c.Label("included")
	}
	if in.Verbose {
		c.Label("verbose")
	}
	c.NonTrivial(fails > 0 && passes > 0)
	return nil
}

func init() {
	register(&Prop{
		ID: "C22",
		Rule: "a case is a test file (LF or CRLF, with or without final line end, possibly in another directory and including up to two more) with a ledger of up to 7 transactions and up to 7 clauses of all reporting commands, format and modify, " +
			"each with the right result, none, or a result altered by a character, line, blank; run twice; non-trivial when a clause fails and another does not",
		Subs: []Sub{sub("clauses", 2500, 25000, c22Gen, c22Check)},
	})
}
