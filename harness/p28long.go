package main

import (
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

// lines longer than what is read at once: read whole or refused, with what follows them
type c28Long struct {
	Led  Led
	File int // commodities, accounts, prices, transactions
	How  string
	At   int
	Len  int
	Text string
}

var longKinds = []string{"comment", "comment", "test", "note", "blank"}

func genLongLen(t *rapid.T) int {
	switch num(t, "lenkind", 0, 3) {
	case 0:
		return num(t, "len", 1000, 65000)
	case 1:
		return num(t, "len", 65500, 65570)
	case 2:
		return num(t, "len", 65570, 140000)
	}
	return pick(t, "len", 4095, 4096, 4097, 65535, 65536, 65537, 131072, 200000)
}

func c28LongGen(t *rapid.T) c28Long {
	return c28Long{
		Led:  genLed(t, ledOpt{MaxComs: pick(t, "maxcoms", 1, 2), MaxTx: 5, Days: 10, Prices: true, Singles: true, Codes: true, Attrs: true}),
		File: pick(t, "file", 0, 1, 2, 3, 3, 3),
		How:  pick(t, "how", longKinds...),
		At:   num(t, "at", 0, 30),
		Len:  genLongLen(t),
		Text: pick(t, "text", "x", "word ", "2020/01/02 ", "é"),
	}
}

// bigText gives about n bytes of text.
func bigText(text string, n int) string {
	return strings.Repeat(text, n/len(text)+1)[:n/len(text)*len(text)]
}

// gaps gives the indexes of lines where a new entry may start.
func gaps(ls []string) []int {
	at := []int{0}
	for i, l := range ls {
		if strings.TrimSpace(l) == "" {
			at = append(at, i+1)
		}
	}
	return at
}

func c28LongCheck(c *Ctx, in c28Long) error {
	d := c.Dir()
	in.Led.write(d)
	var cmds [][]string
	var base []string
	for _, a := range [][]string{{"stats"}, {"balance", "-z"}, {"commodities", "-p"}, {"accounts", "-c"}} {
		o := c.Coin(d, a...)
		if a[0] == "balance" && o.Code == 1 && !o.Fault() {
			continue // commodities without prices
		}
		if err := mustOK(o, "coin", a); err != nil {
			return err
		}
		cmds = append(cmds, a)
		base = append(base, o.Stdout)
	}
	name := []string{"commodities.coin", "accounts.coin", "prices.coin", in.Led.txFileName(in.At % max(in.Led.Files, 1))}[in.File]
	fn := filepath.Join(d, name)
	text, err := os.ReadFile(fn)
	if err != nil { // no prices
		name, fn = "accounts.coin", filepath.Join(d, "accounts.coin")
		text, err = os.ReadFile(fn)
		infraIf(err)
	}
	ls := strings.Split(strings.TrimSuffix(string(text), "\n"), "\n")
	var long []string
	var heads []int // lines that may get a note
	for i, l := range ls {
		if in.File == 3 && l != "" && !strings.Contains(l, ";") {
			heads = append(heads, i)
		}
	}
	g := gaps(ls)
	if in.File == 2 || name == "prices.coin" {
		g = nil
		for i := range ls {
			g = append(g, i)
		}
	}
	g = append(g, len(ls))
	at := g[in.At%len(g)]
	how := in.How
	if how == "note" && len(heads) == 0 {
		how = "comment"
	}
	switch how {
	case "comment":
		long = []string{"; " + bigText(in.Text, in.Len)}
	case "blank":
		long = []string{strings.Repeat(" ", in.Len)}
	case "test":
		long = []string{"test balance", bigText(in.Text, in.Len), "end test", ""}
	case "note":
		at = heads[in.At%len(heads)]
		cmds = cmds[:1]
		if len(base) == 4 {
			cmds = [][]string{{"balance", "-z"}}
			base = base[1:]
		}
	}
	var out []string
	out = append(out, ls[:at]...)
	if how == "note" {
		out = append(out, ls[at]+" ; "+bigText(in.Text, in.Len))
		at++
	}
	out = append(append(out, long...), ls[at:]...)
	writeFile(fn, strings.Join(out, "\n")+"\n")
	refused := 0
	for i, a := range cmds {
		o := c.Coin(d, a...)
		if o.TimedOut || o.Fault() {
			return viol("crash: %s with a %s of %d bytes in line %d of %s: %s", a, how, in.Len, at+1, name, clip(o.Stderr))
		}
		if o.Code != 0 {
			if o.Stderr == "" {
				return viol("no message: %s with a %s of %d bytes in line %d of %s", a, how, in.Len, at+1, name)
			}
			refused++
			continue
		}
		if o.Stdout != base[i] {
			return viol("ignored: coin %s changes with a %s of %d bytes in line %d of %s: %s", strings.Join(a, " "), how, in.Len, at+1, name, firstDiff(lines(o.Stdout), lines(base[i])))
		}
	}
	c.Label("%s-%s", how, map[bool]string{true: "refused", false: "read"}[refused > 0])
	c.NonTrivial(in.Len > 4096)
	return nil
}

// the same for rules
type c25Long struct {
	Base c25Case
	At   int
	Len  int
	Text string
	Note bool
}

func c25LongGen(t *rapid.T) c25Long {
	return c25Long{Base: c25Gen(t), At: num(t, "at", 0, 30), Len: genLongLen(t), Text: pick(t, "text", "x", "word ", "é")}
}

func c25LongCheck(c *Ctx, in c25Long) error {
	d := c.Dir()
	writeAccs(d, in.Base.Accs)
	fn := filepath.Join(d, "ofx.rules")
	text := in.Base.Rules.render()
	progs := []string{"ofx2coin", "csv2coin"}
	var base []string
	put := func(text string) {
		writeFile(fn, text)
		writeFile(filepath.Join(d, "csv.rules"), "---\n"+text)
	}
	put(text)
	for _, prog := range progs {
		o := c.Run(d, d, prog, "-rules")
		if err := mustOK(o, prog, text); err != nil {
			return err
		}
		base = append(base, o.Stdout)
	}
	ls := lines(text)
	at := in.At % (len(ls) + 1)
	ls = append(ls[:at:at], append([]string{"; " + bigText(in.Text, in.Len)}, ls[at:]...)...)
	put(strings.Join(ls, "\n") + "\n")
	for i, prog := range progs {
		o := c.Run(d, d, prog, "-rules")
		if o.TimedOut || o.Fault() {
			return viol("%s: internal fault with a comment of %d bytes in line %d of the rules: %s", prog, in.Len, at+1, clip(o.Stderr))
		}
		if !o.OK() {
			if o.Stderr == "" {
				return viol("%s: no message about a comment of %d bytes in line %d of the rules", prog, in.Len, at+1)
			}
			c.Label("refused")
			continue
		}
		if o.Stdout != base[i] {
			return viol("%s: rules ignored with a comment of %d bytes in line %d of the rules: %s", prog, in.Len, at+1, firstDiff(lines(o.Stdout), lines(base[i])))
		}
		c.Label("read")
	}
	c.NonTrivial(in.Len > 4096 && at < len(ls)-1)
	return nil
}

func clip(s string) string {
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}
