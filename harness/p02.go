package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

type c02Case struct {
	Led Led
	Cmd string
}

// c02Gen makes a ledger with some transactions of any kind of balance.
func c02Gen(t *rapid.T) c02Case {
	o := ledOpt{MaxComs: 3, MaxTx: 4, Days: 10, Codes: true, Unb: true, TreeComs: true}
	l := genLed(t, o)
	m := newModel(&l)
	var accs []string
	for _, a := range m.sorted() {
		if a.Full != "Root" {
			accs = append(accs, a.Full)
		}
	}
	for k := num(t, "nodd", 1, 2); k > 0; k-- {
		tx := Tx{Day: genDay(t, day("2020/01/01"), 10), Desc: pick(t, "desc", descPool...)}
		if l.Files > 1 {
			tx.File = num(t, "file", 0, l.Files-1)
		}
		np := num(t, "np", 0, 5)
		if np == 0 && !chance(t, "empty", 3) {
			np = 2
		}
		var same []string
		first := ""
		if np > 0 {
			first = pick(t, "first", accs...)
			for _, a := range accs {
				if m.accs[a].Com == m.accs[first].Com {
					same = append(same, a)
				}
			}
		}
		mixed := chance(t, "mixed", 3)
		sum := new(big.Int)
		uniform := true
		for j := 0; j < np; j++ {
			a := first
			if j > 0 {
				if mixed {
					a = pick(t, "acc", accs...)
				} else {
					a = pick(t, "acc", same...)
				}
			}
			com := m.accs[a].Com
			uniform = uniform && com == m.accs[first].Com
			u := genUnits(t, true)
			if uniform && j == np-1 && np > 1 {
				u = new(big.Int).Neg(sum)
				switch num(t, "imbalance", 0, 5) {
				case 0:
					u.Add(u, big.NewInt(int64(pick(t, "unit", 1, -1))))
				case 1:
					u.Neg(u)
				case 2:
					u.Add(u, genUnits(t, false))
				}
			}
			p := Post{Acc: a, Com: com}
			if chance(t, "omit", 4) {
				p.Com = ""
			} else {
				sum.Add(sum, u)
				p.Lit = genLit(t, u, m.dec[com])
				if chance(t, "cutdigits", 6) { // digits beyond the precision do not count
					if !strings.Contains(p.Lit, ".") {
						p.Lit += "." + strings.Repeat("0", m.dec[com])
					}
					_, f, _ := strings.Cut(p.Lit, ".")
					for k := len(f); k < m.dec[com]; k++ {
						p.Lit += "0"
					}
					p.Lit += pick(t, "cut", "9", "5", "1", "001")
				}
			}
			tx.Posts = append(tx.Posts, p)
		}
		at := num(t, "at", 0, len(l.Txs))
		l.Txs = append(l.Txs[:at:at], append([]Tx{tx}, l.Txs[at:]...)...)
	}
	return c02Case{Led: l, Cmd: pick(t, "cmd", "balance", "stats", "tags", "register", "html")}
}

// acceptable says whether the transaction has to be accepted.
func (t *mTx) acceptable() bool {
	omitted, sum, mixed := 0, new(big.Int), false
	for _, p := range t.Posts {
		if p.Src.Lit == "" {
			omitted++
		} else {
			sum.Add(sum, p.Q)
		}
		mixed = mixed || p.Acc.Com != t.Posts[0].Acc.Com
	}
	if mixed {
		return omitted == 0
	}
	return omitted == 1 || omitted == 0 && sum.Sign() == 0
}

// names says whether the text names file and line.
func names(text, file string, line int) bool {
	return regexp.MustCompile(regexp.QuoteMeta(file) + fmt.Sprintf(`:%d(\D|$)`, line)).MatchString(text)
}

func c02Check(c *Ctx, in c02Case) error {
	d := c.Dir()
	in.Led.write(d)
	m := newModel(&in.Led)
	var bad []*mTx
	interesting := false
	for _, t := range m.txs {
		if !t.acceptable() {
			bad = append(bad, t)
		}
		for _, p := range t.Posts {
			interesting = interesting || p.Src.Lit == ""
		}
	}
	var o *Out
	switch in.Cmd {
	case "html":
		o = c.Run(d, d, "coin2html")
	case "register":
		o = c.Coin(d, "register", "Unbalanced")
	default:
		o = c.Coin(d, in.Cmd)
	}
	if o.Fault() || o.TimedOut {
		return viol("%s: crashed: %s", in.Cmd, o.Stderr)
	}
	if len(bad) > 0 {
		c.Label("refused")
		c.NonTrivial(true)
		if o.Code == 0 {
			return viol("accepted an unbalanced transaction: %s", bad[0].Src.render())
		}
		for _, t := range bad {
			if names(o.Stderr, "/"+t.File, t.Line) {
				return nil
			}
		}
		return viol("message does not name the offending transaction at %s:%d: %s", bad[0].File, bad[0].Line, o.Stderr)
	}
	c.Label("accepted")
	c.NonTrivial(interesting)
	if in.Cmd == "balance" {
		_, _, ad := balanceModel(m, m.root, &Sel{})
		if ad.fails || ad.zeroFails {
			return nil // accounts of different commodities without prices cannot be summed
		}
	}
	if in.Cmd == "html" && o.Code != 0 {
		return viol("refused a balanced ledger: %s", o.Stderr)
	}
	if err := mustOK(o, "refused a balanced ledger"); err != nil {
		return err
	}
	// the amounts, including the ones filled in
	seen := map[*mAcc]bool{}
	for _, t := range m.txs {
		for _, p := range t.Posts {
			if seen[p.Acc] || p.Src.Lit != "" {
				continue
			}
			seen[p.Acc] = true
			o := c.Coin(d, "register", "-l", "1000", p.Acc.Full)
			if err := mustOK(o, "register "+p.Acc.Full); err != nil {
				return err
			}
			ls := lines(o.Stdout)
			if len(ls) != len(p.Acc.Posts)+1 {
				return viol("postings: %d lines for %d postings of %s:\n%s", len(ls)-1, len(p.Acc.Posts), p.Acc.Full, o.Stdout)
			}
			for i, q := range p.Acc.Posts {
				if f := bars(ls[i+1]); len(f) != 5 || f[3] != m.show(q.Q, q.Com) {
					return viol("amount: %q, want %s in\n%s", ls[i+1], m.show(q.Q, q.Com), q.Tx.Src.render())
				}
			}
		}
	}
	return nil
}

// c02Foreign has accounts of one commodity X and postings in it or in others with prices in X.
type c02Foreign struct {
	Dec    map[string]int
	Prices []c02Price
	Posts  []c02Post
	Cmd    string
}

type c02Price struct {
	Day, Com, Lit string // value in X
}

type c02Post struct{ Acc, Com, Lit string }

func c02ForeignGen(t *rapid.T) c02Foreign {
	in := c02Foreign{Dec: map[string]int{"X": num(t, "decX", 0, 3), "Y": num(t, "decY", 0, 3), "Z": num(t, "decZ", 0, 3)}, Cmd: pick(t, "cmd", "balance", "stats", "tags")}
	for i := num(t, "nprices", 1, 3); i > 0; i-- {
		d := fmt.Sprintf("2020/01/%02d", 2*i+num(t, "gap", 0, 1)) // one price a day
		in.Prices = append(in.Prices, c02Price{d, pick(t, "of", "Y", "Y", "Z"), genLit(t, big.NewInt(int64(num(t, "price", 1, 5000))), in.Dec["X"])})
	}
	if chance(t, "turn", 2) {
		for i, j := 0, len(in.Prices)-1; i < j; i, j = i+1, j-1 {
			in.Prices[i], in.Prices[j] = in.Prices[j], in.Prices[i]
		}
	}
	np := num(t, "np", 2, 4)
	for i := 0; i < np; i++ {
		p := c02Post{Acc: pick(t, "acc", "A", "B", "C:D"), Com: pick(t, "com", "X", "Y", "Y", "Z")}
		if p.Com == "Z" && !chance(t, "z", 3) {
			p.Com = "Y"
		}
		u := big.NewInt(int64(num(t, "units", -3000, 3000)))
		if i == np-1 { // near what makes it balance
			p.Com = "X"
			if _, sum, ok := in.sum(); ok {
				u = new(big.Int).Neg(sum)
			}
			u.Add(u, big.NewInt(int64(pick(t, "off", 0, 0, 0, 1, -1))))
		}
		p.Lit = genLit(t, u, in.Dec[p.Com])
		if chance(t, "omit", 8) {
			p.Com, p.Lit = "", ""
		}
		in.Posts = append(in.Posts, p)
	}
	for i := len(in.Posts) - 1; i > 0; i-- {
		j := num(t, "swap", 0, i)
		in.Posts[i], in.Posts[j] = in.Posts[j], in.Posts[i]
	}
	return in
}

// sum counts the omitted amounts and adds up the others in X at the latest prices, not ok if there is no price.
func (in *c02Foreign) sum() (omitted int, sum *big.Int, ok bool) {
	sum, ok = new(big.Int), true
	for _, p := range in.Posts {
		if p.Lit == "" {
			omitted++
			continue
		}
		u := cutLiteral(p.Lit, in.Dec[p.Com])
		if p.Com != "X" {
			var latest *c02Price
			for i := range in.Prices {
				if q := &in.Prices[i]; q.Com == p.Com && (latest == nil || q.Day > latest.Day) {
					latest = q
				}
			}
			if latest == nil {
				ok = false
				continue
			}
			u = new(big.Int).Mul(u, cutLiteral(latest.Lit, in.Dec["X"]))
			u.Quo(u, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(in.Dec[p.Com])), nil))
		}
		sum.Add(sum, u)
	}
	return omitted, sum, ok
}

func c02ForeignCheck(c *Ctx, in c02Foreign) error {
	d := c.Dir()
	var b strings.Builder
	for _, n := range []string{"X", "Y", "Z"} {
		f := "1"
		if in.Dec[n] > 0 {
			f += "." + strings.Repeat("0", in.Dec[n])
		}
		fmt.Fprintf(&b, "commodity %s\n  format %s %s\n", n, f, n)
		if n == "X" {
			b.WriteString("  default\n")
		}
		b.WriteString("\n")
	}
	writeFile(d+"/commodities.coin", b.String())
	b.Reset()
	for _, p := range in.Prices {
		fmt.Fprintf(&b, "P %s %s %s X\n", p.Day, p.Com, p.Lit)
	}
	writeFile(d+"/prices.coin", b.String())
	writeFile(d+"/accounts.coin", "account A\n\naccount B\n\naccount C:D\n\n")
	b.Reset()
	b.WriteString("; x\n2020/02/01 foreign\n")
	foreign := false
	for _, p := range in.Posts {
		foreign = foreign || p.Lit != "" && p.Com != "X"
		if p.Lit == "" {
			fmt.Fprintf(&b, "  %s\n", p.Acc)
		} else {
			fmt.Fprintf(&b, "  %s  %s %s\n", p.Acc, p.Lit, p.Com)
		}
	}
	writeFile(d+"/transactions.coin", b.String())
	c.NonTrivial(foreign)
	omitted, sum, ok := in.sum()
	o := c.Coin(d, in.Cmd)
	if o.Fault() || o.TimedOut {
		return viol("%s: crashed: %s", in.Cmd, o.Stderr)
	}
	if !ok || omitted > 1 || omitted == 0 && sum.Sign() != 0 {
		c.Label("refused")
		if o.Code == 0 {
			return viol("accepted an unbalanced transaction:\n%s", b.String())
		}
		if !names(o.Stderr, "/transactions.coin", 2) {
			return viol("message does not name the offending transaction: %s", o.Stderr)
		}
		return nil
	}
	c.Label("accepted")
	if err := mustOK(o, "refused a balanced ledger"); err != nil {
		return err
	}
	for _, p := range in.Posts {
		if p.Lit != "" {
			continue
		}
		o := c.Coin(d, "register", "-l", "1000", p.Acc)
		if err := mustOK(o, "register "+p.Acc); err != nil {
			return err
		}
		found := false
		want := show(new(big.Int).Neg(sum), in.Dec["X"])
		for _, l := range lines(o.Stdout)[1:] {
			f := bars(l)
			found = found || len(f) == 5 && f[3] == want
		}
		if !found {
			return viol("no posting of %s to %s in\n%s", want, p.Acc, o.Stdout)
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C02",
		Rule: "a case is a ledger of a few valid transactions (single or several commodities, 0-3 files) with one or two transactions of 0-5 postings with any number of " +
			"omitted amounts, imbalances from one unit up, digits beyond the precision, accounts of one or several commodities, put anywhere in it, loaded by one of five commands; or a transaction over accounts of one commodity with amounts in others, converted at the latest price; " +
			"non-trivial when a transaction has to be refused or an amount has to be filled in, or some amount has to be converted",
		Subs: []Sub{sub("accept", 10000, 80000, c02Gen, c02Check), sub("foreign", 3000, 40000, c02ForeignGen, c02ForeignCheck)},
	})
}
