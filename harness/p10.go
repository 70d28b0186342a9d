package main

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// An Item of a layout is an entry or an include of files.
type Item struct {
	Entry int   `json:",omitempty"` // 1-based
	Incl  *Incl `json:",omitempty"`
}

type Incl struct {
	Line  string  // path as written
	Dir   string  // where it leads to, below the directory of the case
	Files []LFile // files it matches, by name
}

type LFile struct {
	Name  string
	Items []Item
}

type c10Case struct {
	Led    Led
	Split  bool    // *.coin rather than transactions.coin
	PSplit bool    // *.prices rather than prices.coin
	Tx     []LFile // files with transactions
	Prices []LFile
	Accs   []Item
	Coms   []Item
	Junk   []string
	Acc    string
	RelEnv bool // the environment variable is relative to the working directory
}

type layouter struct {
	t *rapid.T
	n int // distinct names
}

func (y *layouter) name() string { y.n++; return fmt.Sprintf("n%02d", y.n) }

// items distributes the entries lo..hi over a file in directory dir (below the directory of the case) and files it includes.
func (y *layouter) items(dir string, lo, hi, depth int) (items []Item) {
	t := y.t
	for i := lo; i <= hi; {
		if depth < 3 && chance(t, "include", 3) {
			j := num(t, "upto", i, hi)
			items = append(items, Item{Incl: y.include(dir, i, j, depth)})
			i = j + 1
			continue
		}
		items = append(items, Item{Entry: i})
		i++
	}
	return items
}

func (y *layouter) include(dir string, lo, hi, depth int) *Incl {
	t := y.t
	in := &Incl{}
	base := y.name()
	ext := pick(t, "ext", ".inc", ".txt", ".coin.part")
	sub := y.name()
	how := num(t, "how", 0, 6)
	path := ""
	switch how {
	case 0: // same directory
		in.Dir = dir
	case 1:
		in.Dir, path = filepath.Join(dir, sub), sub+"/"
	case 2:
		in.Dir, path = filepath.Join(dir, "..", sub), "../"+sub+"/"
	case 3: // relative to the working directory
		in.Dir, path = filepath.Join("cwd", sub), "/"+sub+"/"
	case 4:
		in.Dir, path = "env/dir", "$INCDIR/"
	case 5:
		in.Dir, path = filepath.Join("env/dir", sub), "${INCDIR}/"+sub+"/"
	case 6:
		in.Dir, path = filepath.Join(dir, sub+"xyz"), sub+"${INCNAME}/"
	}
	if strings.HasPrefix(filepath.Clean(in.Dir), "..") {
		in.Dir, path = dir, ""
	}
	trail := pick(t, "trail", "", "", "", "", " ", "\t")
	defer func() { in.Line += trail }()
	if lo < hi && chance(t, "glob", 2) {
		k := num(t, "parts", 2, 3)
		at := lo
		for p := 0; p < k; p++ {
			to := hi
			if p < k-1 {
				to = num(t, "part", at-1, hi)
			}
			in.Files = append(in.Files, LFile{Name: fmt.Sprintf("%s-%c%s", base, 'a'+p, ext), Items: y.items(in.Dir, at, to, depth+1)})
			at = to + 1
		}
		in.Line = path + base + pick(t, "wild", "-*"+ext, "-?"+ext, "-[a-c]"+ext, "*")
	} else {
		in.Files = []LFile{{Name: base + ext, Items: y.items(in.Dir, lo, hi, depth+1)}}
		in.Line = path + base + ext
	}
	return in
}

// files distributes n entries over files in dir.
func (y *layouter) files(dir, ext string, n int) (fs []LFile) {
	k := num(y.t, "nfiles", 1, 3)
	at := 1
	alike := chance(y.t, "alike", 4)
	for p := 0; p < k; p++ {
		to := n
		if p < k-1 {
			to = num(y.t, "part", at-1, n)
		}
		fs = append(fs, LFile{Name: fmt.Sprintf("%c-%s%s", 'd'+p, y.name(), ext), Items: y.items(dir, at, to, 0)})
		if alike { // names resembling those with a meaning
			fs[p].Name = []string{"accounts-2", "commodities.old", "prices2"}[p] + ext
		}
		at = to + 1
	}
	return fs
}

func c10Gen(t *rapid.T) c10Case {
	o := ledOpt{MaxComs: pick(t, "maxcoms", 1, 3), MaxTx: 10, Days: 30, Notes: true, Codes: true, Attrs: true, Asserts: 8, Prices: true, TreeComs: true, Singles: true}
	in := c10Case{Led: genLed(t, o)}
	in.Led.Files = 0
	for i := range in.Led.Txs {
		in.Led.Txs[i].File = 0
	}
	// assertions refer to the order of loading, which is kept; the split files changed it
	for i := range in.Led.Txs {
		for j := range in.Led.Txs[i].Posts {
			in.Led.Txs[i].Posts[j].Assert = ""
		}
	}
	genAsserts(t, &in.Led, o)
	y := &layouter{t: t}
	in.Split = rapid.Bool().Draw(t, "split")
	if in.Split {
		in.Tx = y.files("db", ".coin", len(in.Led.Txs))
	} else {
		in.Tx = []LFile{{Name: "transactions.coin", Items: y.items("db", 1, len(in.Led.Txs), 0)}}
	}
	in.PSplit = rapid.Bool().Draw(t, "psplit")
	if in.PSplit {
		in.Prices = y.files("db", ".prices", len(in.Led.Prices))
	} else if len(in.Led.Prices) > 0 {
		in.Prices = []LFile{{Name: "prices.coin", Items: y.items("db", 1, len(in.Led.Prices), 0)}}
	}
	in.Accs = y.items("db", 1, len(in.Led.Accs), 0)
	in.Coms = y.items("db", 1, len(in.Led.Coms), 0)
	for k := num(t, "njunk", 0, 3); k > 0; k-- {
		in.Junk = append(in.Junk, pick(t, "junk", "README.md", "x.coin~", "old.txt", "sub/t.coin", "x.prices.bak", "coin", "other.inc", ".git/x", "prices", "beside.coin", "beside.prices"))
	}
	in.Acc = genAccArg(t, &in.Led)
	in.RelEnv = rapid.Bool().Draw(t, "relenv")
	return in
}

func (in *c10Case) write(root string) {
	l := &in.Led
	var put func(dir string, fs []LFile, render func(i int) string)
	content := func(dir string, items []Item, render func(i int) string) string {
		s := ""
		for _, it := range items {
			if it.Incl != nil {
				s += "include " + it.Incl.Line + "\n"
				put(it.Incl.Dir, it.Incl.Files, render)
			} else {
				s += render(it.Entry-1) + "\n"
			}
		}
		return s
	}
	put = func(dir string, fs []LFile, render func(i int) string) {
		for _, f := range fs {
			writeFile(filepath.Join(root, dir, f.Name), content(dir, f.Items, render))
		}
	}
	put("db", in.Tx, func(i int) string { return l.Txs[i].render() })
	put("db", in.Prices, func(i int) string { return l.Prices[i].render() })
	put("db", []LFile{{"accounts.coin", in.Accs}}, func(i int) string { return l.Accs[i].render() })
	put("db", []LFile{{"commodities.coin", in.Coms}}, func(i int) string { return l.Coms[i].render() })
	for i, j := range in.Junk {
		s := "not a ledger\n"
		if i%2 == 0 && len(l.Txs) > 0 {
			s = l.Txs[0].render()
		}
		switch j {
		case "beside.coin": // ignored beside transactions.coin only
			if in.Split {
				continue
			}
		case "beside.prices":
			if in.PSplit || len(l.Prices) == 0 {
				continue
			}
		}
		writeFile(filepath.Join(root, "db", j), s)
	}
}

var countRow = regexp.MustCompile(`(?m)^(\w+): (\d+)$`)

func c10Check(c *Ctx, in c10Case) error {
	d := c.Dir()
	ref := filepath.Join(d, "ref")
	in.Led.write(ref)
	alt := filepath.Join(d, "alt")
	in.write(alt)
	cwd := filepath.Join(alt, "cwd")
	writeFile(filepath.Join(cwd, "x"), "")
	incdir := filepath.Join(alt, "env/dir")
	if in.RelEnv {
		incdir = "../env/dir"
	}
	env := []string{"COINDB=" + filepath.Join(alt, "db"), "INCDIR=" + incdir, "INCNAME=xyz"}
	cmds := [][]string{{"stats"}, {"balance", "-z"}, {"register", "-r", "-n", "-l", "1000", "Root"}, {"register", in.Acc}, {"tags", "-v"}, {"commodities", "-p"}, {"commodities"}, {"accounts"}, {"register", "-r", "-m", in.Acc}}
	for _, com := range in.Led.Coms {
		cmds = append(cmds, []string{"commodities", com.Id})
	}
	for _, args := range cmds {
		o := c.Coin(ref, args...)
		o2 := c.RunEnv(cwd, env, nil, "coin", args...)
		if o.Code != 0 && o2.Code != 0 && !o2.Fault() {
			c.Label("refused")
			continue // a missing price, say
		}
		if err := mustOK(o2, "divided ledger", args); err != nil {
			return err
		}
		if o.Stdout != o2.Stdout {
			return viol("divided ledger: %v differs\n%s\n--- undivided\n%s", args, o2.Stdout, o.Stdout)
		}
		if (o.Stderr == "") != (o2.Stderr == "") {
			return viol("divided ledger: %v: messages differ\n%s\n--- undivided\n%s", args, o2.Stderr, o.Stderr)
		}
		switch args[0] {
		case "stats": // everything is there once
			want := map[string]int{"Transactions": len(in.Led.Txs), "Prices": len(in.Led.Prices)}
			for _, m := range countRow.FindAllStringSubmatch(o2.Stdout, -1) {
				if n, ok := want[m[1]]; ok && m[2] != fmt.Sprint(n) {
					return viol("divided ledger: %s %s, want %d", m[1], m[2], n)
				}
				delete(want, m[1])
			}
			if len(want) > 0 {
				return viol("divided ledger: no counts: %s", o2.Stdout)
			}
		case "commodities":
			if len(args) == 2 && args[1] != "-p" {
				n := 0
				for _, p := range in.Led.Prices {
					if p.Com == args[1] {
						n++
					}
				}
				if len(lines(o2.Stdout)) != n {
					return viol("divided ledger: %d prices of %s, want %d\n%s", len(lines(o2.Stdout)), args[1], n, o2.Stdout)
				}
			}
		}
	}
	incl := 0
	var count func(items []Item, depth int)
	count = func(items []Item, depth int) {
		for _, it := range items {
			if it.Incl != nil {
				incl++
				if len(it.Incl.Files) > 1 {
					c.Label("pattern")
				}
				if depth > 0 {
					c.Label("nested")
				}
				switch {
				case strings.HasPrefix(it.Incl.Line, "/"):
					c.Label("cwd")
				case strings.Contains(it.Incl.Line, "$"):
					c.Label("env")
				}
				for _, f := range it.Incl.Files {
					count(f.Items, depth+1)
				}
			}
		}
	}
	for _, f := range append(append([]LFile{{"", in.Accs}, {"", in.Coms}}, in.Tx...), in.Prices...) {
		count(f.Items, 0)
	}
	c.NonTrivial(len(in.Led.Txs) > 1 && (incl > 0 || len(in.Tx) > 1))
	return nil
}

// A c10Repeat is a ledger some transactions of which are in a file included any number of times, maybe in a loop.
type c10Repeat struct {
	Led   Led
	From  int      // transactions from here on are in the included file
	Paths []string // how it is included
	Up    string   // how the included file includes again
	Mid   bool     // through another file
}

func c10GenRepeat(t *rapid.T) (in c10Repeat) {
	in.Led = genLed(t, ledOpt{MaxComs: 1, MaxTx: 6, Days: 10, Notes: true, Codes: true, Singles: true})
	in.Led.Files = 0
	for i := range in.Led.Txs {
		in.Led.Txs[i].File = 0
	}
	in.From = num(t, "from", 0, len(in.Led.Txs))
	for k := num(t, "times", 1, 3); k > 0; k-- {
		in.Paths = append(in.Paths, pick(t, "path", "inc/x.inc", "./inc/x.inc", "inc/../inc/x.inc", "inc/*.inc", "$INCDIR/x.inc", "inc/[x].inc"))
	}
	in.Mid = rapid.Bool().Draw(t, "mid")
	if chance(t, "loop", 3) {
		in.Up = pick(t, "up", "x.inc", "../transactions.coin", "./x.inc", "../inc/x.inc", "*.inc", "$INCDIR/x.inc")
	}
	return in
}

func c10CheckRepeat(c *Ctx, in c10Repeat) error {
	d := c.Dir()
	ref := in.Led
	moved := append([]Tx(nil), ref.Txs[in.From:]...)
	ref.Txs = append([]Tx(nil), ref.Txs[:in.From]...)
	for range in.Paths {
		ref.Txs = append(ref.Txs, moved...)
	}
	ref.write(filepath.Join(d, "ref"))
	alt := filepath.Join(d, "alt")
	in.Led.write(alt)
	text := ""
	for _, tx := range in.Led.Txs[:in.From] {
		text += tx.render() + "\n"
	}
	for i, p := range in.Paths {
		if in.Mid && i > 0 { // through a file of its own
			mid := fmt.Sprintf("mid%d.inc", i)
			writeFile(filepath.Join(alt, mid), "include "+p+"\n")
			p = mid
		}
		text += "include " + p + "\n"
	}
	writeFile(filepath.Join(alt, "transactions.coin"), text)
	text = ""
	for _, tx := range moved {
		text += tx.render() + "\n"
	}
	if in.Up != "" {
		text += "include " + in.Up + "\n"
	}
	writeFile(filepath.Join(alt, "inc", "x.inc"), text)
	env := []string{"COINDB=" + alt, "INCDIR=" + filepath.Join(alt, "inc")}
	for _, args := range [][]string{{"stats"}, {"balance", "-z"}, {"register", "-r", "-n", "-l", "1000", "Root"}} {
		o := c.RunEnv(alt, env, nil, "coin", args...)
		if in.Up != "" {
			if o.TimedOut || o.Fault() {
				return viol("internal fault on a file that includes itself\n%s", o.Stderr)
			}
			if o.OK() || o.Stderr == "" || o.Stdout != "" {
				return viol("a file that includes itself is not refused\n%s", o.Stdout)
			}
			continue
		}
		r := c.Coin(filepath.Join(d, "ref"), args...)
		infraIf(mustOK(r, "ledger without includes", args))
		if err := mustOK(o, "ledger with a file included", len(in.Paths), "times", args); err != nil {
			return err
		}
		if r.Stdout != o.Stdout {
			return viol("a file included %d times: %v differs\n%s\n--- without includes\n%s", len(in.Paths), args, o.Stdout, r.Stdout)
		}
	}
	if in.Up != "" {
		c.Label("loop")
	}
	c.NonTrivial(in.Up != "" || len(in.Paths) > 1 && len(moved) > 0)
	return nil
}

func init() {
	register(&Prop{
		ID: "C10",
		Rule: "a case is a ledger and a division of it: transactions in transactions.coin or several *.coin files, prices in prices.coin or several *.prices files, any run of entries moved into included files (nested up to 3 deep; " +
			"same, sub-, sibling directory, working directory, environment variables, patterns matching several files), with unrelated files beside them; all reports are compared with those of the undivided ledger; " +
			"or a file is included several times or includes itself; non-trivial with at least two transactions and an include or several transaction files, a loop or a file included twice",
		Subs: []Sub{
			sub("layout", 4000, 40000, c10Gen, c10Check),
			sub("repeat", 1500, 15000, c10GenRepeat, c10CheckRepeat),
		},
	})
}
