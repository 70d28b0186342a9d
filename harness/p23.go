package main

import (
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

type c23Case struct {
	Led        Led
	Begin, End string
}

func c23Gen(t *rapid.T) c23Case {
	in := c23Case{Led: genLed(t, ledOpt{MaxComs: pick(t, "maxcoms", 1, 3), Attrs: true, MaxTx: 8, Days: 4, Notes: true, Codes: true, Unb: true, Singles: true, Prices: true, ForeignMixed: true})}
	l := &in.Led
	// copies, some with a difference
	for k := num(t, "copies", 0, 5); k > 0 && len(l.Txs) > 0; k-- {
		tx := l.Txs[num(t, "of", 0, len(l.Txs)-1)]
		tx.Posts = append([]Post(nil), tx.Posts...)
		p := &tx.Posts[num(t, "post", 0, len(tx.Posts)-1)]
		switch num(t, "diff", 0, 7) {
		case 0, 1, 2:
			tx.Desc = pick(t, "desc", descPool...) // still a duplicate
		case 3:
			tx.Code = pick(t, "code", "1", "9z", "")
		case 4:
			tx.Day = day(tx.Day).AddDate(0, 0, 1).Format(dateFmt)
		case 5: // the amounts move between two postings
			q := &tx.Posts[0]
			if q.Com == p.Com && p.Lit != "" && q.Lit != "" {
				p.Lit, q.Lit = q.Lit, p.Lit
			}
		case 6: // one unit moves
			q := &tx.Posts[0]
			dec := map[string]int{}
			for _, c := range l.Coms {
				dec[c.Id] = c.Dec
			}
			if q != p && q.Com == p.Com && p.Lit != "" && q.Lit != "" {
				u := cutLiteral(p.Lit, dec[p.Com])
				v := cutLiteral(q.Lit, dec[q.Com])
				p.Lit = show(u.Add(u, big.NewInt(1)), dec[p.Com])
				q.Lit = show(v.Sub(v, big.NewInt(1)), dec[q.Com])
			}
		case 7:
			p.Notes = []string{"copy"}
		}
		if l.Files > 1 {
			tx.File = num(t, "file", 0, l.Files-1)
		}
		l.Txs = append(l.Txs, tx)
	}
	// conversions of equal magnitude
	for k := num(t, "convs", 0, 3); k > 0 && len(l.Coms) > 1 && len(l.Accs) > 1; k-- {
		com := map[string]string{}
		def := "CAD"
		for _, c := range l.Coms {
			if c.Default {
				def = c.Id
			}
		}
		for _, a := range l.Accs {
			com[a.Full] = a.Com
			if a.Com == "" {
				com[a.Full] = def
			}
		}
		a, b := pick(t, "a", l.Accs...).Full, pick(t, "b", l.Accs...).Full
		if com[a] == com[b] {
			continue
		}
		v := pick(t, "v", "1", "12.5", "0", "-3", "1000", "0.125")
		w := strings.TrimPrefix("-"+v, "--")
		switch num(t, "twist", 0, 4) {
		case 0:
			w = v + "1"
		case 1:
			w = v
		}
		tx := Tx{Day: genDay(t, day("2020/01/01"), 5), Desc: "conv", Notes: genNotes(t, map[string]bool{}), Posts: []Post{{Acc: a, Lit: v, Com: com[a]}, {Acc: b, Lit: w, Com: com[b]}}}
		l.Txs = append(l.Txs, tx)
	}
	days := []string{"2020/01/03"}
	for _, tx := range l.Txs {
		days = append(days, tx.Day)
	}
	if chance(t, "begin", 3) {
		in.Begin = day(pick(t, "b", days...)).AddDate(0, 0, num(t, "boff", -1, 1)).Format(dateFmt)
	}
	if chance(t, "end", 3) {
		in.End = day(pick(t, "e", days...)).AddDate(0, 0, num(t, "eoff", -1, 1)).Format(dateFmt)
	}
	return in
}

var locLine = regexp.MustCompile(`^(\./\S+\.coin:\d+)$`)
var badConv = regexp.MustCompile(`^BAD CONVERSION: (\S+) (\S+) (\S+) => (\S+) (\S+) : (\S+)$`)

func c23Check(c *Ctx, in c23Case) error {
	d := c.Dir()
	in.Led.write(d)
	m := newModel(&in.Led)
	if done, err := c.loadDecides(d, m); done {
		return err
	}
	var ts []*mTx
	for _, t := range m.byDate() {
		if in.Begin != "" && t.Date.Before(day(in.Begin)) || in.End != "" && !t.Date.Before(day(in.End)) {
			continue
		}
		ts = append(ts, t)
	}
	loc := func(t *mTx) string { return fmt.Sprintf("./%s:%d", t.File, t.Line) }
	run := func(flag string) ([]string, error) {
		args := []string{"stats"}
		if flag != "" {
			args = append(args, flag)
		}
		if in.Begin != "" {
			args = append(args, "-b", in.Begin)
		}
		if in.End != "" {
			args = append(args, "-e", in.End)
		}
		o := c.Coin(d, args...)
		return lines(strings.ReplaceAll(o.Stdout, d+"/", "./")), mustOK(o, "stats", args)
	}
	counts := []string{fmt.Sprint("Commodities: ", len(in.Led.Coms)), fmt.Sprint("Prices: ", len(in.Led.Prices)), fmt.Sprint("Accounts: ", len(m.accs)), fmt.Sprint("Transactions: ", len(ts))}
	tail := func(ls []string, what string) ([]string, error) {
		n := len(ls) - len(counts)
		if n < 0 {
			return nil, viol("%s: no counts: %q", what, ls)
		}
		if d := firstDiff(ls[n:], counts); d != "" {
			return nil, viol("%s: counts: %s", what, d)
		}
		return ls[:n], nil
	}
	ls, err := run("")
	if err != nil {
		return err
	}
	if ls, err = tail(ls, "stats"); err != nil {
		return err
	}
	if len(ls) > 0 {
		return viol("stats: unexpected %q", ls[0])
	}
	// duplicates
	ls, err = run("-d")
	if err != nil {
		return err
	}
	equal := func(a, b *mTx) bool {
		if !a.Date.Equal(b.Date) || a.Src.Code != b.Src.Code || len(a.Posts) != len(b.Posts) {
			return false
		}
		for i, p := range a.Posts {
			q := b.Posts[i]
			if p.Acc != q.Acc || p.Com != q.Com || p.Q.Cmp(q.Q) != 0 {
				return false
			}
		}
		return true
	}
	// equal in another order of postings: open
	similar := func(a, b *mTx) bool {
		if !a.Date.Equal(b.Date) || a.Src.Code != b.Src.Code {
			return false
		}
		key := func(t *mTx) string {
			var ks []string
			for _, p := range t.Posts {
				ks = append(ks, p.Acc.Full+" "+p.Q.String()+p.Com)
			}
			sort.Strings(ks)
			return strings.Join(ks, ";")
		}
		return key(a) == key(b)
	}
	pair := func(a, b string) string {
		if a > b {
			a, b = b, a
		}
		return a + " " + b
	}
	want, open := map[string]int{}, map[string]bool{}
	dups := 0
	for i, a := range ts {
		for _, b := range ts[:i] {
			switch {
			case equal(a, b):
				want[pair(loc(a), loc(b))]++
				dups++
			case similar(a, b):
				open[pair(loc(a), loc(b))] = true
			}
		}
	}
	first := ""
	for _, l := range ls {
		if l == "DUPLICATE TRANSACTION?" {
			if first != "" {
				return viol("duplicates: one of a pair at %s", first)
			}
			continue
		}
		mm := locLine.FindStringSubmatch(l)
		if mm == nil {
			continue
		}
		if first == "" {
			first = mm[1]
			continue
		}
		p := pair(first, mm[1])
		first = ""
		if want[p] == 0 && !open[p] {
			return viol("duplicates: %s reported\n%s", p, strings.Join(ls, "\n"))
		}
		want[p]--
	}
	for p, n := range want {
		if n > 0 {
			return viol("duplicates: %s not reported\n%s", p, strings.Join(ls, "\n"))
		}
	}
	// unbalanced
	ls, err = run("-u")
	if err != nil {
		return err
	}
	if ls, err = tail(ls, "stats -u"); err != nil {
		return err
	}
	left := map[string]int{}
	unb := 0
	for _, t := range ts {
		for _, p := range t.Posts {
			if p.Acc.Full == "Unbalanced" {
				left[loc(t)] = 1
				unb++
			}
		}
	}
	heads := 0
	for _, l := range ls {
		if l == "UNBALANCED TRANSACTION!" {
			heads++
		}
		if mm := locLine.FindStringSubmatch(l); mm != nil {
			if left[mm[1]] == 0 {
				return viol("unbalanced: %s reported\n%s", mm[1], strings.Join(ls, "\n"))
			}
			left[mm[1]]--
			heads--
		}
	}
	for l, n := range left {
		if n > 0 {
			return viol("unbalanced: %s not reported\n%s", l, strings.Join(ls, "\n"))
		}
	}
	if heads != 0 {
		return viol("unbalanced: %d more headings than locations", heads)
	}
	// conversions
	ls, err = run("-c")
	if err != nil {
		return err
	}
	if ls, err = tail(ls, "stats -c"); err != nil {
		return err
	}
	var exp, got []string
	maxDec := 0
	for _, n := range m.dec {
		maxDec = max(maxDec, n)
	}
	for _, t := range ts {
		if len(t.Posts) != 2 {
			continue
		}
		p, q := t.Posts[0], t.Posts[1]
		u := rescale(p.Q, m.dec[p.Com], maxDec)
		v := rescale(q.Q, m.dec[q.Com], maxDec)
		if p.Com != q.Com && new(big.Int).Add(u, v).Sign() == 0 {
			exp = append(exp, fmt.Sprintf("BAD CONVERSION: %s %s %s => %s %s : %s", t.Src.Day, m.show(p.Q, p.Com), p.Com, m.show(q.Q, q.Com), q.Com, loc(t)))
		}
	}
	for _, l := range ls {
		if !badConv.MatchString(l) {
			return viol("conversions: unexpected %q", l)
		}
		got = append(got, l)
	}
	sort.Strings(exp)
	sort.Strings(got)
	if d := firstDiff(got, exp); d != "" {
		return viol("conversions: %s", d)
	}
	if dups > 0 {
		c.Label("duplicates")
	}
	if unb > 0 {
		c.Label("unbalanced")
	}
	if len(exp) > 0 {
		c.Label("conversions")
	}
	if len(ts) < len(m.txs) {
		c.Label("range")
	}
	c.NonTrivial(dups+unb+len(exp) > 0)
	return nil
}

func init() {
	register(&Prop{
		ID: "C23",
		Rule: "a case is a ledger of up to 16 transactions within 5 days, some of them copies of others with or without a difference (payee, code, day, amounts, notes), some posting to Unbalanced, some conversions with equal, " +
			"almost equal or equally signed amounts; prices; a date range; non-trivial when a duplicate, an unbalanced transaction or a conversion is to be reported",
		Subs: []Sub{sub("stats", 6000, 50000, c23Gen, c23Check)},
	})
}
