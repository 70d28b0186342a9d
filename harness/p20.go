package main

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// tree is what is in a directory: file names and their contents.
func tree(dir string) map[string]string {
	files := map[string]string{}
	infraIf(filepath.WalkDir(dir, func(p string, e os.DirEntry, err error) error {
		if err == nil && e.Type().IsRegular() {
			files[p] = readFile(p)
		}
		return err
	}))
	return files
}

// restore makes a directory what it was.
func restore(dir string, files map[string]string) {
	for p, s := range tree(dir) {
		if was, ok := files[p]; !ok {
			infraIf(os.Remove(p))
		} else if was != s {
			infraIf(os.WriteFile(p, []byte(was), 0o644))
		}
	}
	for p, s := range files {
		if _, err := os.Stat(p); err != nil {
			writeFile(p, s)
		}
	}
}

func showTree(files map[string]string) []string {
	var ls []string
	for p, s := range files {
		ls = append(ls, fmt.Sprintf("%s: %q", p, s))
	}
	sort.Strings(ls)
	return ls
}

// runAgain runs a command several times and compares the output, and the files where it writes some.
func (c *Ctx) runAgain(cwd string, env []string, stdin []byte, exe string, args ...string) *Out {
	name := filepath.Base(exe)
	cmd := func(names ...string) bool { return name == "coin" && len(args) > 0 && slices.Contains(names, args[0]) }
	if !slices.Contains([]string{"coin", "csv2coin", "ofx2coin", "gc2coin", "coin2html"}, name) || c.differs != nil ||
		cmd("register", "reg", "r") && slices.Contains(args, "-v") { // debugging messages
		return c.runOnce(cwd, env, stdin, exe, args...)
	}
	changes := name == "gc2coin" || slices.Contains(args, "-i") || cmd("modify", "mod", "m", "test", "t")
	var before, after map[string]string
	if changes {
		before = tree(cwd)
	}
	today := time.Now().UTC().Format(dateFmt)
	first := c.runOnce(cwd, env, stdin, exe, args...)
	if first.TimedOut {
		return first
	}
	if changes {
		after = tree(cwd)
	}
	for i := 0; i < c.repeat; i++ {
		if changes {
			restore(cwd, before)
		}
		o := c.runOnce(cwd, env, stdin, exe, args...)
		var err error
		what := fmt.Sprintf("%s %q", name, args)
		switch {
		case o.Code != first.Code:
			err = viol("different: %s ends with %d, another time with %d\n%s\n%s", what, first.Code, o.Code, first.Stderr, o.Stderr)
		case first.Code != 0:
		case o.Stdout != first.Stdout:
			err = viol("different: %s prints at another time %s", what, firstDiff(lines(o.Stdout), lines(first.Stdout)))
		case o.Stderr != first.Stderr:
			err = viol("different: messages of %s are at another time %s", what, firstDiff(lines(o.Stderr), lines(first.Stderr)))
		case changes:
			if got, want := showTree(tree(cwd)), showTree(after); !slices.Equal(got, want) {
				err = viol("different: %s writes at another time %s", what, firstDiff(got, want))
			}
		}
		if err != nil && today == time.Now().UTC().Format(dateFmt) {
			c.differs = err
			seenDiffers = true
			break
		}
	}
	if first.Code == 0 && (changes || strings.Count(first.Stdout+first.Stderr, "\n") > 3) {
		c.repeated++
	}
	return first
}

// once a difference was seen more runs are spent on finding it again
var seenDiffers bool

// repeated turns a check into one of whether the commands it runs print the same every time; what it
// has to say otherwise is left to it.
func repeated[T any](check func(*Ctx, T) error) func(*Ctx, T) error {
	return func(c *Ctx, in T) (err error) {
		c.repeat, c.repeated, c.differs = 2, 0, nil
		if seenDiffers {
			c.repeat = 30
		}
		defer func() {
			c.repeat = 0
			r := recover()
			if _, ok := r.(infra); ok {
				panic(r)
			}
			c.labels, c.nontrivial = nil, c.repeated > 1
			err = c.differs
		}()
		return check(c, in)
	}
}

type c20Case struct {
	Led  Led
	Cmds [][]string
}

func c20Gen(t *rapid.T) (in c20Case) {
	o := ledOpt{MaxComs: 1, MaxTx: 14, Days: pick(t, "days", 1, 3, 60, 400), Notes: true, Codes: true, Singles: true, Attrs: true, Asserts: pick(t, "asserts", 0, 3), Wrong: true}
	switch num(t, "kind", 0, 3) {
	case 0:
		o.MaxComs, o.Prices, o.TreeComs, o.Unb = 3, true, true, true
	case 1:
		o.MaxComs, o.AnyPrices, o.Unb = 4, true, true
	}
	in.Led = genLed(t, o)
	l := &in.Led
	// the same amounts all over
	if !chance(t, "amounts", 4) {
		amt := pick(t, "amt", "5", "1", "100")
		for i := range l.Txs {
			x := &l.Txs[i]
			for j := range x.Posts {
				p := &x.Posts[j]
				if p.Lit == "" || p.Assert != "" {
					continue
				}
				if neg := strings.HasPrefix(p.Lit, "-"); neg || chance(t, "neg", 3) {
					p.Lit = "-" + amt
				} else {
					p.Lit = amt
				}
			}
			com := map[string]bool{}
			for j := range x.Posts {
				com[x.Posts[j].Com] = true
			}
			if len(x.Posts) == 2 && len(com) == 1 { // leave it balanced
				a, b := &x.Posts[0], &x.Posts[1]
				if a.Assert == "" && b.Assert == "" {
					a.Lit, b.Lit = amt, "-"+amt
				}
			} else if len(com) == 1 {
				for j := range x.Posts {
					x.Posts[j].Lit = "0"
				}
			}
		}
	}
	// the same prices, on the same days
	if len(l.Prices) > 0 && rapid.Bool().Draw(t, "sameprices") {
		for i := range l.Prices {
			l.Prices[i].Day = l.Prices[0].Day
		}
		for n := num(t, "dupprices", 0, 3); n > 0; n-- {
			p := pick(t, "price", l.Prices...)
			p.Val = pick(t, "val", "1", "2", "3")
			l.Prices = append(l.Prices, p)
		}
	}
	// accounts of the same name
	for n := num(t, "twins", 0, 3); n > 0; n-- {
		a := pick(t, "twin", l.Accs...)
		a.Full = pick(t, "top", "Root:", "Twin:", "T:U:") + a.Full[strings.LastIndexByte(a.Full, ':')+1:]
		if !slices.ContainsFunc(l.Accs, func(b Acc) bool { return b.Full == a.Full }) {
			l.Accs = append(l.Accs, a)
		}
	}
	accs := []string{"", "Root", "Assets", "Expenses"}
	for _, a := range l.Accs {
		accs = append(accs, a.Full, a.Full)
	}
	var files []string
	for i := 0; i < max(l.Files, 1); i++ {
		files = append(files, l.txFileName(i))
	}
	for n := num(t, "ncmds", 3, 8); n > 0; n-- {
		var cmd []string
		flags := func(fs ...string) {
			for _, f := range fs {
				if chance(t, f, 3) {
					cmd = append(cmd, strings.Fields(f)...)
				}
			}
		}
		acc := func() {
			if a := pick(t, "acc", accs...); a != "" {
				cmd = append(cmd, a)
			}
		}
		switch num(t, "cmd", 0, 11) {
		case 0, 1:
			cmd = []string{"balance"}
			flags("-z", "-l 1", "-l 2", "-p o", "-t .")
			acc()
		case 2:
			cmd = []string{"register"}
			flags("-r", "-f", "-n", "-p !o", "-l 30")
			acc()
		case 3, 4, 5:
			cmd = []string{"register", "-r"}
			if p := pick(t, "period", "-w", "-m", "-q", "-y", ""); p != "" {
				cmd = append(cmd, p)
			}
			flags("-c", "-g "+pick(t, "g", "0", "1", "2", "3"), "-bp", "-bt", "-o json", "-o csv", "-l 40", "-g 20")
			acc()
		case 6:
			cmd = []string{"accounts"}
			flags("-c")
			acc()
		case 7:
			cmd = []string{"commodities"}
			flags("-p", "-f")
		case 8:
			cmd = []string{"tags"}
			flags("-v", "-a")
		case 9:
			cmd = []string{"stats"}
			flags("-d", "-u", "-c")
		case 10:
			cmd = []string{"format"}
			flags("-ledger", "-t")
			cmd = append(cmd, files...)
		default:
			cmd = []string{"html"}
		}
		in.Cmds = append(in.Cmds, cmd)
	}
	return in
}

func c20Check(c *Ctx, in c20Case) error {
	d := c.Dir()
	in.Led.write(d)
	for _, cmd := range in.Cmds {
		if cmd[0] == "html" {
			c.Run(d, d, "coin2html")
			continue
		}
		c.Coin(d, cmd...)
	}
	return nil
}

func init() {
	mixed := ledOpt{MaxComs: 3, MaxTx: 10, Days: 20, Notes: true, TreeComs: true, Prices: true}
	agg := ledOpt{MaxComs: 1, MaxTx: 14, Notes: true, Codes: true, Singles: true}
	wrong := ledOpt{MaxComs: 3, MaxTx: 12, Days: 5, Asserts: 3, Wrong: true, Unb: true}
	register(&Prop{
		ID: "C20",
		Rule: "ties: a ledger with equal amounts, several transactions and prices a day and accounts of the same name, and 3-8 commands. The other sub-checks take the cases of other properties. " +
			"Every command of a case is run 3 times (31 times once a difference was seen); non-trivial when at least two of them succeed with over 3 lines of output",
		Subs: []Sub{
			sub("ties", 1800, 40000, c20Gen, repeated(c20Check)),
			sub("balance", 150, 6000, c03Gen(mixed), repeated(c03Check)),
			sub("register", 150, 6000, c04Gen(mixed), repeated(c04Check)),
			sub("aggregate", 300, 12000, c05Gen(agg), repeated(c05Check)),
			sub("convert", 300, 12000, c14AggGen, repeated(c14AggCheck)),
			sub("warnings", 300, 12000, c06Gen(wrong), repeated(c06Check)),
			sub("format", 120, 6000, c07Gen(wrong), repeated(c07Check)),
			sub("modify", 120, 6000, c09Gen, repeated(c09Check)),
			sub("tags", 150, 6000, c13Gen, repeated(c13Check)),
			sub("ofx", 300, 12000, c15Gen, repeated(c15Check)),
			sub("csv", 500, 16000, c16Gen, repeated(c16Check)),
			sub("gnucash", 300, 12000, c17Gen, repeated(c17Check)),
			sub("stats", 120, 6000, c23Gen, repeated(c23Check)),
			sub("tests", 80, 5000, c22Gen, repeated(c22Check)),
			sub("definitions", 150, 6000, c24Gen, repeated(c24Check)),
			sub("rules", 120, 6000, c25Gen, repeated(c25Check)),
		},
	})
}
