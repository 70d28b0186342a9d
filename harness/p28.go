package main

import (
	"math/big"
	"path/filepath"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

type c28Case struct {
	Lines []string // the transaction, one line damaged
	At    int      // which one
	How   string
	Blank bool // blank line before the following entry
	Next  string
}

const c28Coms = "commodity CAD\n  format 1.00 CAD\n\ncommodity USD\n  format 1.000 USD\n\n"
const c28Accs = "account Assets:Bank\n\naccount Assets:Cash\n\naccount Expenses:Food\n\naccount Expenses:Fun\n\naccount Assets:Us\n  commodity USD\n\naccount Sentinel:A\n\naccount Sentinel:B\n"
const c28Sentinel = "2099/12/31 Zsentinel\n  Sentinel:A  77.77 CAD\n  Sentinel:B\n"

func c28Gen(t *rapid.T) c28Case {
	var in c28Case
	head := "2020/03/0" + pick(t, "d", "1", "2", "9")
	if chance(t, "code", 3) {
		head += " (c1)"
	}
	head += " " + pick(t, "payee", "Shop", "Big Shop 7", "a")
	if chance(t, "hnote", 3) {
		head += " ; hnote"
	}
	in.Lines = append(in.Lines, head)
	if chance(t, "tnote", 4) {
		in.Lines = append(in.Lines, "  ; transaction note")
	}
	var plines []int
	np := num(t, "np", 2, 4)
	accs := []string{"Assets:Bank", "Assets:Cash", "Expenses:Food", "Expenses:Fun"}
	omit := num(t, "omit", 0, np) // np: nothing left out
	sum := big.NewInt(0)
	for i := 0; i < np; i++ {
		u := big.NewInt(int64(num(t, "u", -500000, 500000)))
		if i == np-1 && omit == np {
			u = new(big.Int).Neg(sum)
		}
		line := pick(t, "indent", "  ", " ", "\t", "    ") + accs[i]
		if i != omit {
			sum.Add(sum, u)
			line += pick(t, "gap", "  ", " ", "\t", "     ") + show(u, 2) + pick(t, "gap2", " ", "  ") + "CAD"
			if chance(t, "assert", 3) {
				line += " = " + show(big.NewInt(int64(num(t, "bal", -9999, 9999))), 2) + " CAD"
			}
		}
		if chance(t, "pnote", 4) {
			line += " ; pnote"
		}
		plines = append(plines, len(in.Lines))
		in.Lines = append(in.Lines, line)
		if chance(t, "pnote2", 6) {
			in.Lines = append(in.Lines, "    ; posting note")
		}
	}
	in.At = pick(t, "at", plines...)
	l := in.Lines[in.At]
	f := strings.Fields(l)
	amt, com := "12.34", "CAD"
	if len(f) > 2 && f[2] == "CAD" {
		amt = f[1]
	}
	switch num(t, "damage", 0, 3) {
	case 0: // line of a known kind
		in.How = "template"
		in.Lines[in.At] = "  " + f[0] + pick(t, "tpl",
			"  1,"+amt+" CAD", "  "+amt+"CAD", "  "+amt, "  "+amt+" XYZ", "  CAD "+amt, "  $"+amt, "  $"+amt+" CAD", "  +"+amt+" CAD", "  --"+amt+" CAD",
			"  - "+amt+" CAD", "  "+amt+". CAD", "  .34 CAD", "  "+amt+".5 CAD", "  1'000.00 CAD", "  1 000.00 CAD", "  1e3 CAD", "  12O.00 CAD", "  "+amt+" CA", "  "+amt+" CAD zzq",
			"  "+amt+" CAD = ", "  "+amt+" CAD = 10.00", "  "+amt+" CAD = CAD", "  "+amt+" CAD = 10.00 XYZ", "  "+amt+" CAD == 10.00 CAD", "  = 10.00 CAD", "  "+amt+" CAD 5.55 CAD",
			"  "+amt+" CAD @ 1.25 USD", "  "+amt+" CAD {1.25 USD}", "  "+amt+" CAD = 10.00 CAD zzq", "  "+amt+" CAD = 10.00 CAD = 11.00 CAD", "  zzq", "  zzq "+amt+" CAD", "  ("+amt+" CAD)",
			"  "+amt+" \"CAD\"", "  "+amt+" CAD,", "  "+amt+" CAD.", "  "+amt+" CAD # zzq", "  "+amt+" CAD // zzq", " = ", "zzq  "+amt+" CAD", ":Zzq  "+amt+" CAD", " Zzq:Bank  "+amt+" CAD", "*  "+amt+" CAD",
			"  10,50 CAD", "  "+amt+" CAD=10.00 CAD", "  "+amt+"\u00a0CAD", "  ½ CAD", "  １２ CAD")
	case 1: // account
		in.How = "account"
		acc := pick(t, "badacc", "Assets::Bank::", "Assets Bank", "Assets:Bänk", "Nowhere", "Assets:Bank:Zzq", "(Assets:Bank)", "[Assets:Bank]", "* Assets:Bank", "! Assets:Bank", "assets", "a", "Bank.", "Assets:Bank;Zzq", "Assets:::Bank", "1Bank", "A*", ".*")
		in.Lines[in.At] = "  " + acc + "  " + amt + " " + com
	default: // random edits of any line
		in.How = "edit"
		if chance(t, "anyline", 3) {
			in.At = num(t, "line", 0, len(in.Lines)-1)
			l = in.Lines[in.At]
		}
		lo := 0
		if in.At == 0 {
			lo = 10 // dates are C12's
		}
		r := []rune(l)
		for k := num(t, "nedits", 1, 3); k > 0; k-- {
			ch := []rune(pick(t, "ch", " ", ",", ".", ";", "=", "-", "+", "0", "5", "A", "z", ":", "@", "#", "(", ")", "\"", "'", "$", "\t", "*", "_", "/", "é"))
			if len(r) <= lo {
				r = append(r, ch...)
				continue
			}
			i := num(t, "pos", lo, len(r)-1)
			switch num(t, "op", 0, 3) {
			case 0:
				r = append(r[:i:i], r[i+1:]...)
			case 1:
				r[i] = ch[0]
			case 2:
				r = append(r[:i:i], append([]rune{ch[0]}, r[i:]...)...)
			case 3:
				j := num(t, "pos2", lo, len(r)-1)
				r[i], r[j] = r[j], r[i]
			}
		}
		in.Lines[in.At] = string(r)
	}
	in.Blank = rapid.Bool().Draw(t, "blank")
	in.Next = pick(t, "next", "", "", "; comment\n", "# comment 5 CAD\n", "* comment\n", "| x\n", "% Assets:Bank 5.00 CAD\n")
	return in
}

var numTok = regexp.MustCompile(`^[-+]*[0-9.,]*[0-9][0-9.,]*$`)

// amounts gives the values of a number (cut at 2 and 3 decimals) without sign and separators.
func numValues(s string) []string {
	s = strings.TrimLeft(strings.ReplaceAll(s, ",", ""), "-+")
	s = strings.TrimSuffix(s, ".")
	if strings.HasPrefix(s, ".") {
		s = "0" + s
	}
	if strings.Count(s, ".") > 1 || s == "" {
		return []string{"?"}
	}
	var vs []string
	for _, d := range []int{2, 3} {
		vs = append(vs, strings.TrimRight(show(cutLiteral(s, d), 5), "0"))
		vs = append(vs, strings.TrimRight(show(rescale(cutLiteral(s, d), d, 5), 5), "0"))
	}
	return vs
}

func isComment(l string) bool { return l != "" && strings.ContainsRune(";#%|*", rune(l[0])) }

func c28Check(c *Ctx, in c28Case) error {
	d := c.Dir()
	writeFile(filepath.Join(d, "commodities.coin"), c28Coms)
	writeFile(filepath.Join(d, "accounts.coin"), c28Accs)
	text := strings.Join(in.Lines, "\n") + "\n"
	if in.Blank {
		text += "\n"
	}
	text += in.Next + c28Sentinel
	fn := filepath.Join(d, "t.coin")
	writeFile(fn, text)
	o := c.Coin(d, "format", fn)
	// the whole ledger has to agree on whether it is acceptable
	o2 := c.Coin(d, "stats")
	if o.Fault() || o.TimedOut || o2.Fault() || o2.TimedOut {
		return viol("crash: %s%s\n%s", o.Stderr, o2.Stderr, text)
	}
	if (o.Code == 0) != (o2.Code == 0) {
		return viol("refusal: format exits with %d, stats with %d\n%s", o.Code, o2.Code, text)
	}
	c.NonTrivial(true)
	if o.Code != 0 {
		c.Label("refused-" + in.How)
		return nil
	}
	c.Label("accepted-" + in.How)
	out := o.Stdout
	i := strings.Index(out, "2099/12/31 Zsentinel\n")
	if i < 0 || !strings.Contains(out[i:], "Sentinel:A   77.77 CAD\n") || strings.Count(out, "Zsentinel") != 1 {
		return viol("following entry lost: %q became\n%s", text, out)
	}
	out = out[:i]
	var body, notes []string
	numbers := map[string]bool{}
	for _, l := range lines(out) {
		b, n, _ := strings.Cut(l, ";")
		body = append(body, b)
		notes = append(notes, n)
		for _, w := range strings.Fields(b) {
			if numTok.MatchString(w) {
				for _, v := range numValues(w) {
					numbers[v] = true
				}
			}
		}
	}
	allBody := strings.ToLower(strings.Join(body, "\n"))
	allNotes := strings.Join(notes, "\n")
	for k, l := range in.Lines {
		if k > 0 && isComment(l) {
			continue
		}
		b, n, hasNote := strings.Cut(l, ";")
		if hasNote {
			if n := strings.TrimSpace(n); n != "" && !strings.Contains(allNotes, n) {
				return viol("ignored: note %q of %q in\n%s\nbecame\n%s", n, l, text, out)
			}
		}
		for _, w := range strings.Fields(b) {
			if numTok.MatchString(w) && k > 0 {
				ok := false
				for _, v := range numValues(w) {
					ok = ok || numbers[v]
				}
				if !ok {
					return viol("ignored: amount %q of %q in\n%s\nbecame\n%s", w, l, text, out)
				}
				continue
			}
			for _, part := range strings.Split(w, ":") {
				if !strings.Contains(allBody, strings.ToLower(part)) {
					return viol("ignored: %q of %q in\n%s\nbecame\n%s", w, l, text, out)
				}
			}
		}
	}
	// every posting line is a posting (or a note)
	nposts := 0
	for k, l := range in.Lines {
		if t := strings.TrimSpace(l); k > 0 && t != "" && t[0] != ';' && !isComment(l) {
			nposts++
		}
	}
	got := 0
	for k, b := range body {
		if k > 0 && strings.TrimSpace(b) != "" {
			got++
		}
	}
	if got != nposts {
		return viol("postings: %d lines became %d postings:\n%s\n%s", nposts, got, text, out)
	}
	return nil
}

type c28Date struct {
	Date string
	Tail string
}

var c28BadDates = []string{"2020/13/01", "2020/02/30", "2020/00/10", "2020/10/00", "2020-01-02", "20200102", "2020/01/02/03", "2020/01/02x", "2020/01/02+3", "2020/01/02+3q",
	"2020/01/02+", "2020//02", "2020/1/", "2020/01/021", "02020/01/02", "2020/Jan/02", "2020.01.02", "202/01/02", "2020/01/02+3d+1d", "2020/01/02 +3d(x", "1/2/3/4", "2021/02/29", "4/31", "13/1", "0/1", "1/32"}

func c28CheckDate(c *Ctx, in c28Date) error {
	d := c.Dir()
	writeFile(filepath.Join(d, "commodities.coin"), c28Coms)
	writeFile(filepath.Join(d, "accounts.coin"), c28Accs)
	fn := filepath.Join(d, "t.coin")
	text := in.Date + in.Tail + "\n  Assets:Bank  5.00 CAD\n  Assets:Cash\n\n" + c28Sentinel
	writeFile(fn, text)
	o := c.Coin(d, "format", fn)
	if o.Fault() || o.TimedOut {
		return viol("crash: %s\n%s", o.Stderr, text)
	}
	c.NonTrivial(true)
	c.Label("%s", in.Date)
	if o.Code == 0 && !strings.Contains(o.Stdout, in.Date) && !(strings.Contains(in.Date, " ") && strings.Contains(o.Stdout, in.Date[11:])) {
		return viol("date: %q was taken for\n%s", in.Date+in.Tail, o.Stdout)
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C28",
		Rule: "a case is a transaction of 2-4 postings (one amount possibly left out) with one line damaged: by one of 65 templates, or by 1-3 random character edits of any line, " +
			"followed by comment lines and another transaction with or without a blank line; every such case is non-trivial; or a random ledger gets a line of 1 to 200 KB (comment, blanks, test, note), non-trivial beyond 4 KB",
		Subs: []Sub{
			sub("line", 16000, 120000, c28Gen, c28Check),
			sub("date", 400, 2000, func(t *rapid.T) c28Date {
				return c28Date{pick(t, "date", c28BadDates...), pick(t, "tail", "", " Shop", " (c) Shop", " Shop ; note")}
			}, c28CheckDate),
			sub("long", 600, 8000, c28LongGen, c28LongCheck),
		},
	})
}
