package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
)

const isoFmt = "2006-01-02"

var zones = []string{"UTC", "America/Toronto", "Asia/Tokyo", "Africa/Cairo", "America/Sao_Paulo", "Pacific/Apia", "America/St_Johns", "Europe/Prague", "Pacific/Honolulu", "Pacific/Kiritimati"}

func genZone(t *rapid.T) string { return pick(t, "tz", zones...) }

// ---- data ----

type c26Data struct {
	Led Led
	TZ  string
}

// genViewLed makes a ledger for the viewer, over a longer time and with larger amounts.
func genViewLed(t *rapid.T, o ledOpt) Led {
	o.Days = pick(t, "span", 20, 60, 200, 800, 2500)
	asserts := o.Asserts
	o.Asserts = 0
	l := genLed(t, o)
	if chance(t, "large", 3) {
		for i := range l.Txs {
			tx := &l.Txs[i]
			if len(tx.Posts) == 2 && tx.Posts[0].Lit != "" && tx.Posts[0].Com == tx.Posts[1].Com {
				dec := 0
				for _, c := range l.Coms {
					if c.Id == tx.Posts[0].Com {
						dec = c.Dec
					}
				}
				u := big.NewInt(rapid.Int64Range(-1<<47, 1<<47).Draw(t, "large"))
				tx.Posts[0].Lit = genLit(t, u, dec)
				tx.Posts[1].Lit = genLit(t, u.Neg(u), dec)
			}
		}
	}
	if o.Asserts = asserts; asserts > 0 {
		genAsserts(t, &l, o)
	}
	return l
}

func c26DataGen(t *rapid.T) (in c26Data) {
	in.Led = genViewLed(t, ledOpt{MaxComs: pick(t, "maxcoms", 1, 2, 4), AnyPrices: true, MaxTx: 14, Notes: true, Codes: true, Attrs: true, Singles: true, Unb: true, Asserts: pick(t, "asserts", 0, 4)})
	if chance(t, "rootish", 4) {
		in.Led.Accs = append(in.Led.Accs, Acc{Full: pick(t, "rootname", "Assets:Root", "Root:Foo", "Expenses:Root:Car")})
		if n := len(in.Led.Txs); n > 0 && rapid.Bool().Draw(t, "rootuse") {
			in.Led.Txs[num(t, "rootof", 0, n-1)].Posts = []Post{{Acc: in.Led.Accs[len(in.Led.Accs)-1].Full, Com: defCom(&in.Led), Lit: "5"}, {Acc: "Unbalanced", Com: defCom(&in.Led), Lit: "-5"}}
		}
		for i := range in.Led.Txs {
			for j := range in.Led.Txs[i].Posts {
				in.Led.Txs[i].Posts[j].Assert = ""
			}
		}
	}
	in.TZ = genZone(t)
	return in
}

func defCom(l *Led) string {
	for _, c := range l.Coms {
		if c.Default {
			return c.Id
		}
	}
	return "CAD"
}

type vPosting struct {
	Account, Date, Description, Code, Quantity, Balance string
	Asserted                                            bool
	Notes, TxNotes                                      []string
	Tags                                                map[string]string
	Mates                                               [][2]any
}

type vAccount struct {
	Name, Commodity, Parent, Closed, Root string
	Children, Path                        []string
	Postings                              []vPosting
}

type vCommodity struct {
	Name     string
	Decimals int
	Prices   [][3]string
}

type vLoad struct {
	Commodities map[string]vCommodity
	Accounts    map[string]vAccount
	Roots       []string
	Min, Max    string
}

// exact tells whether the viewer's numbers can hold the amounts of the ledger.
func (m *model) fits() bool {
	lim := new(big.Int).Lsh(big.NewInt(1), 53)
	for _, a := range m.accs {
		for _, p := range a.Posts {
			if p.Run.CmpAbs(lim) >= 0 || p.Q.CmpAbs(lim) >= 0 {
				return false
			}
		}
	}
	return true
}

// withCom prints an amount as the viewer does.
func (m *model) withCom(u *big.Int, com string) string { return m.show(u, com) + " " + com }

func unitsOf(s string, dec int) (*big.Int, bool) {
	s = strings.Replace(s, ".", "", 1)
	v, ok := new(big.Int).SetString(s, 10)
	return v, ok
}

// amountOf reads an amount the viewer printed.
func (m *model) amountOf(s string) (*big.Int, string, error) {
	n, com, _ := strings.Cut(s, " ")
	dec, ok := m.dec[com]
	if !ok {
		return nil, "", viol("amount %q of the viewer", s)
	}
	u, ok := unitsOf(n, dec)
	if !ok || m.show(u, com) != n {
		return nil, "", viol("amount %q of the viewer", s)
	}
	return u, com, nil
}

// viewable loads the ledger and exports it; no document if the case cannot be decided.
func (c *Ctx) viewable(l *Led) (m *model, html string, err error) {
	m = newModel(l)
	if m.load.fails || m.load.ambiguous || m.load.zeroFails || !m.fits() {
		c.Label("not-decided")
		return m, "", nil
	}
	d := c.Dir()
	l.write(d)
	html, err = c.export(d)
	return m, html, err
}

func c26DataCheck(c *Ctx, in c26Data) error {
	m, html, err := c.viewable(&in.Led)
	if err != nil || html == "" {
		return err
	}
	var v vLoad
	if err := c.viewOK(in.TZ, html, []vStep{{"op": "load"}}, &v); err != nil {
		return err
	}
	if err := m.sameLoad(&v); err != nil {
		return viol("time zone %s: %v", in.TZ, err)
	}
	for _, a := range m.accs {
		if len(a.Posts) > 2 {
			c.NonTrivial(true)
		}
	}
	c.Label("tz-%s", in.TZ)
	c.Label("coms-%d", len(in.Led.Coms))
	return nil
}

func js(v any) string {
	b, err := json.Marshal(v)
	infraIf(err)
	return string(b)
}

func (m *model) index(p *mPost) int {
	for i, q := range p.Acc.Posts {
		if q == p {
			return i
		}
	}
	return -1
}

func (m *model) sameLoad(v *vLoad) error {
	if len(v.Commodities) != len(m.led.Coms) {
		return viol("%d commodities, %d defined", len(v.Commodities), len(m.led.Coms))
	}
	type entry struct {
		com, cur, day string
		v             *big.Int
	}
	var got []entry
	for id, vc := range v.Commodities {
		for _, p := range vc.Prices {
			u, cur, err := m.amountOf(p[2])
			if err != nil {
				if strings.HasPrefix(p[2], "Infinity") {
					continue
				}
				return viol("price %v of %s: %v", p, id, err)
			}
			if p[0] != id {
				return viol("price %v among those of %s", p, id)
			}
			got = append(got, entry{id, cur, p[1], u})
		}
	}
	for _, co := range m.led.Coms {
		vc, ok := v.Commodities[co.Id]
		if !ok {
			return viol("no commodity %s", co.Id)
		}
		if vc.Name != co.Name || vc.Decimals != co.Dec {
			return viol("commodity %s is %q with %d decimals, defined %q with %d", co.Id, vc.Name, vc.Decimals, co.Name, co.Dec)
		}
	}
	if len(got) != 2*len(m.led.Prices) {
		return viol("%d prices from %d recorded ones", len(got), len(m.led.Prices))
	}
	take := func(com, cur, day string, v *big.Int, tol *big.Int) bool {
		best := -1
		var dist *big.Int
		for i, e := range got {
			if e.com == com && e.cur == cur && e.day == day {
				d := new(big.Int).Sub(e.v, v)
				d.Abs(d)
				if d.Cmp(tol) <= 0 && (best < 0 || d.Cmp(dist) < 0) {
					best, dist = i, d
				}
			}
		}
		if best < 0 {
			return false
		}
		got = append(got[:best], got[best+1:]...)
		return true
	}
	for _, p := range m.led.Prices {
		if !take(p.Com, p.Cur, iso(p.Day), cutLiteral(p.Val, m.dec[p.Cur]), new(big.Int)) {
			return viol("price %+v is not there: %v", p, v.Commodities[p.Com].Prices)
		}
	}
	for _, p := range m.led.Prices {
		u := cutLiteral(p.Val, m.dec[p.Cur])
		if u.Sign() == 0 {
			continue
		}
		n := pow10big(m.dec[p.Cur] + m.dec[p.Com])
		r := new(big.Int).Quo(n, u)
		tol := new(big.Int).Quo(r, big.NewInt(1e15))
		tol.Add(tol, big.NewInt(1))
		if !take(p.Cur, p.Com, iso(p.Day), r, tol) {
			return viol("price %+v cannot be used the other way: %v", p, v.Commodities[p.Cur].Prices)
		}
	}
	// accounts
	if len(v.Accounts) != len(m.accs)-1 {
		return viol("%d accounts, should be %d", len(v.Accounts), len(m.accs)-1)
	}
	var roots []string
	for _, a := range m.sorted() {
		if a == m.root {
			continue
		}
		va, ok := v.Accounts[a.Full]
		if !ok {
			return viol("no account %s", a.Full)
		}
		want := vAccount{Name: a.Name, Commodity: a.Com, Children: []string{}}
		if a.Src != nil && a.Src.Closed != "" {
			want.Closed = iso(a.Src.Closed)
		}
		for _, k := range a.Kids {
			want.Children = append(want.Children, k.Full)
		}
		top := a
		for p := a; p != m.root; p = p.Parent {
			want.Path = append([]string{p.Full}, want.Path...)
			top = p
		}
		want.Root = top.Full
		if a.Parent == m.root {
			roots = append(roots, a.Full)
		} else {
			want.Parent = a.Parent.Full
		}
		sort.Strings(va.Children)
		sort.Strings(want.Children)
		posts := va.Postings
		va.Postings = nil
		if js(va) != js(want) {
			return viol("account %s is %s\nshould be %s", a.Full, js(va), js(want))
		}
		if len(posts) != len(a.Posts) {
			return viol("account %s has %d postings, should have %d", a.Full, len(posts), len(a.Posts))
		}
		for i, p := range a.Posts {
			w := vPosting{
				Account: a.Full, Date: iso(p.Tx.Src.Day), Description: p.Tx.Src.Desc, Code: p.Tx.Src.Code,
				Quantity: m.withCom(p.Q, p.Com), Balance: m.withCom(p.Run, a.Com), Asserted: p.Src.Assert != "",
				Notes: append([]string{}, p.Src.Notes...), TxNotes: append([]string{}, p.Tx.Src.Notes...), Tags: p.Tags,
			}
			for _, q := range p.Tx.Posts {
				w.Mates = append(w.Mates, [2]any{q.Acc.Full, m.index(q)})
			}
			if js(posts[i]) != js(w) {
				return viol("posting %d of %s is %s\nshould be %s", i, a.Full, js(posts[i]), js(w))
			}
		}
	}
	sort.Strings(roots)
	sort.Strings(v.Roots)
	if js(roots) != js(v.Roots) {
		return viol("top accounts %v, should be %v", v.Roots, roots)
	}
	if ts := m.byDate(); len(ts) > 0 {
		lo, hi := fmt.Sprintf("%04d-01-01", ts[0].Date.Year()), fmt.Sprintf("%04d-12-31", ts[len(ts)-1].Date.Year())
		if v.Min != lo || v.Max != hi {
			return viol("dates from %s to %s, should be from %s to %s", v.Min, v.Max, lo, hi)
		}
	}
	return nil
}

// ---- amounts ----

type c26Amounts struct {
	Decs   []int
	Of     int // which commodity
	Units  []int64
	Lits   []string
	Cuts   []bool
	Commas []bool
}

var maxSafe = int64(1)<<53 - 1

func c26AmountsGen(t *rapid.T) (in c26Amounts) {
	for k := num(t, "ncoms", 1, 3); k > 0; k-- {
		in.Decs = append(in.Decs, num(t, "dec", 0, 8))
	}
	in.Of = num(t, "of", 0, len(in.Decs)-1)
	dec := in.Decs[in.Of]
	for k := num(t, "n", 2, 6); k > 0; k-- {
		var u int64
		switch num(t, "kind", 0, 5) {
		case 0:
			u = int64(num(t, "u", -3, 3))
		case 1:
			u = int64(num(t, "u", -100000, 100000))
		case 2: // around powers of ten
			u = 1
			for p := num(t, "pow", 0, 14); p > 0; p-- {
				u *= 10
			}
			u += int64(num(t, "off", -1, 1))
			if rapid.Bool().Draw(t, "neg") {
				u = -u
			}
		case 3:
			u = rapid.Int64Range(-maxSafe/8, maxSafe/8).Draw(t, "u")
		default:
			u = rapid.Int64Range(-10_000_000_000, 10_000_000_000).Draw(t, "u")
		}
		lit := show(big.NewInt(u), dec)
		neg := strings.HasPrefix(lit, "-")
		ip, fp, _ := strings.Cut(strings.TrimPrefix(lit, "-"), ".")
		commas := rapid.Bool().Draw(t, "commas")
		if commas {
			for i := len(ip) - 3; i > 0; i -= 3 {
				ip = ip[:i] + "," + ip[i:]
			}
		}
		switch num(t, "tail", 0, 3) {
		case 0:
			fp = strings.TrimRight(fp, "0")
		case 1:
			fp += digits(t, "more", 1, 4) // dropped
		}
		lit = ip
		if fp != "" || chance(t, "point", 6) {
			lit += "." + fp
		}
		if neg {
			lit = "-" + lit
		}
		in.Units = append(in.Units, u)
		in.Lits = append(in.Lits, lit)
		in.Commas = append(in.Commas, commas)
	}
	return in
}

func commas(s string) string {
	neg := strings.HasPrefix(s, "-")
	ip, fp, has := strings.Cut(strings.TrimPrefix(s, "-"), ".")
	for i := len(ip) - 3; i > 0; i -= 3 {
		ip = ip[:i] + "," + ip[i:]
	}
	if has {
		ip += "." + fp
	}
	if neg {
		ip = "-" + ip
	}
	return ip
}

func c26AmountsCheck(c *Ctx, in c26Amounts) error {
	l := Led{}
	for i, d := range in.Decs {
		l.Coms = append(l.Coms, Com{Id: comPool[i], Dec: d})
	}
	com, dec := l.Coms[in.Of].Id, in.Decs[in.Of]
	d := c.Dir()
	l.write(d)
	html, err := c.export(d)
	if err != nil {
		return err
	}
	steps := []vStep{{"op": "load"}}
	var all []string
	for _, s := range in.Lits {
		steps = append(steps, vStep{"op": "parse", "amount": s + " " + com})
		all = append(all, s+" "+com)
	}
	steps = append(steps, vStep{"op": "sum", "amounts": all, "date": "2020-01-01"})
	for i := 1; i < len(all); i++ {
		steps = append(steps, vStep{"op": "cmp", "amounts": []string{all[i-1], all[i]}})
	}
	rs, ok := c.view("UTC", html, false, steps...)
	if !ok {
		return viol("the viewer hangs")
	}
	for i := range rs {
		if rs[i].Error != "" {
			return viol("the viewer fails on %v: %s\n%s", steps[i], rs[i].Error, rs[i].Stack)
		}
	}
	var got []string
	sum := new(big.Int)
	var want []string
	for i, u := range in.Units {
		infraIf(json.Unmarshal(rs[i+1].OK, &got))
		b := big.NewInt(u)
		plain := show(b, dec) + " " + com
		want = append(want, plain)
		sep := show(b, dec)
		if dec > 0 {
			sep = commas(sep) // amounts without decimals are printed without separators
		}
		sign := "0"
		if u != 0 {
			sign = strconv.Itoa(b.Sign())
		}
		if got[0] != plain || got[2] != plain || (got[1] != sep+" "+com && got[1] != commas(show(b, dec))+" "+com) {
			return viol("%q is read as %q, printed as %q which is read as %q; the amount is %q", in.Lits[i]+" "+com, got[0], got[1], got[2], plain)
		}
		if got[3] != sign || got[4] != strconv.FormatBool(u == 0) {
			return viol("%q has sign %s, is zero: %s", plain, got[3], got[4])
		}
		f, err := strconv.ParseFloat(got[5], 64)
		w := float64(u) / math.Pow10(dec)
		if err != nil || math.Abs(f-w) > 1e-14*math.Abs(w) {
			return viol("%q as a number is %s", plain, got[5])
		}
		sum.Add(sum, b)
		if u > 999999 || u < -999999 {
			c.NonTrivial(in.Commas[i])
		}
	}
	infraIf(json.Unmarshal(rs[len(in.Units)+1].OK, &got))
	if want = append([]string{show(sum, dec) + " " + com}, want...); js(got) != js(want) {
		return viol("sum and amounts after summing are %q, should be %q", got, want)
	}
	for i := 1; i < len(all); i++ {
		infraIf(json.Unmarshal(rs[len(in.Units)+1+i].OK, &got))
		a, b := big.NewInt(in.Units[i-1]), big.NewInt(in.Units[i])
		w := []string{strconv.Itoa(a.Cmp(b)), strconv.Itoa(a.CmpAbs(b))}
		if js(got) != js(w) {
			return viol("comparing %s with %s gives %v, should be %v", all[i-1], all[i], got, w)
		}
	}
	return nil
}

// ---- conversions ----

type c26Convert struct {
	Led   Led
	TZ    string
	Conv  [][4]string // units, from, to, date
	Adds  bool
	After bool // once more in the other order
}

func c26ConvertGen(t *rapid.T) (in c26Convert) {
	n := num(t, "ncoms", 2, 5)
	for i := 0; i < n; i++ {
		in.Led.Coms = append(in.Led.Coms, Com{Id: comPool[i], Dec: pick(t, "dec", 2, 2, 0, 3, 1, 4)})
	}
	base := day("2019/06/01")
	span := pick(t, "span", 1, 15, 100, 600, 2000)
	chain := rapid.Bool().Draw(t, "chain")
	for k := num(t, "pairs", 1, 5); k > 0; k-- {
		i, j := num(t, "pcom", 0, n-1), num(t, "pcur", 0, n-2)
		if chain {
			i = num(t, "pcom", 1, n-1)
			j = i - 1
		} else if j >= i {
			j++
		}
		a, b := in.Led.Coms[i], in.Led.Coms[j]
		if rapid.Bool().Draw(t, "swap") {
			a, b = b, a
		}
		level := num(t, "level", 1, 10000)
		for q := num(t, "nprices", 1, 12); q > 0; q-- {
			v := level + num(t, "move", 0, 20*level)
			p := Pri{Day: genDay(t, base, span), Com: a.Id, Cur: b.Id, Val: show(big.NewInt(int64(v)), b.Dec)}
			dup := false
			for _, o := range in.Led.Prices {
				dup = dup || o.Com == p.Com && o.Cur == p.Cur && o.Day == p.Day
			}
			if !dup {
				in.Led.Prices = append(in.Led.Prices, p)
			}
		}
	}
	for k := num(t, "nconv", 1, 8); k > 0; k-- {
		i, j := num(t, "from", 0, n-1), num(t, "to", 0, n-1)
		u := int64(num(t, "u", -1000000, 1000000))
		if chance(t, "few", 4) {
			u = int64(num(t, "u", -2, 2))
		}
		date := base.AddDate(0, 0, num(t, "at", -40, span+40)).Format(isoFmt)
		in.Conv = append(in.Conv, [4]string{show(big.NewInt(u), in.Led.Coms[i].Dec), in.Led.Coms[i].Id, in.Led.Coms[j].Id, date})
	}
	in.Adds = rapid.Bool().Draw(t, "adds")
	in.After = rapid.Bool().Draw(t, "after")
	in.TZ = genZone(t)
	return in
}

type datedPrice struct {
	day time.Time
	v   *big.Int
}

// around gives the prices that were or came in force about the date.
func around(ps []datedPrice, at time.Time) (out []*big.Int) {
	const slack = 25 * 24 * time.Hour
	if at.Before(ps[0].day) {
		at = ps[0].day
	}
	if last := ps[len(ps)-1].day; at.After(last) {
		at = last
	}
	lo, hi := at.Add(-slack), at.Add(slack)
	for i, p := range ps {
		before := p.day.Before(lo) && i+1 < len(ps) && !ps[i+1].day.After(lo) // already replaced
		after := p.day.After(hi) && i > 0 && !ps[i-1].day.Before(hi)          // not yet in sight
		if !before && !after {
			out = append(out, p.v)
		}
	}
	return out
}

// rounded gives n/d rounded to the nearest integer, both of them where it is hard to tell.
func rounded(n, d *big.Int, out map[string]*big.Int) {
	if d.Sign() == 0 {
		return
	}
	q, r := new(big.Int).DivMod(n, d, new(big.Int))
	f := new(big.Rat).SetFrac(r, d)
	x, _ := f.Float64()
	abs := new(big.Int).Abs(n)
	eps := 1e-6
	if abs.BitLen() > 53 {
		g, _ := new(big.Rat).SetFrac(n, d).Float64()
		if e := math.Abs(g) * 1e-14; e > eps {
			eps = e
		}
	}
	put := func(v *big.Int) { out[v.String()] = v }
	up := new(big.Int).Add(q, big.NewInt(1))
	if eps > 0.4 {
		for k := int64(-2 - int64(eps)); k <= 3+int64(eps) && k < 1000; k++ {
			put(new(big.Int).Add(q, big.NewInt(k)))
		}
		return
	}
	if x <= 0.5+eps {
		put(q)
	}
	if x >= 0.5-eps {
		put(up)
	}
}

func c26ConvertCheck(c *Ctx, in c26Convert) error {
	m, html, err := c.viewable(&in.Led)
	if err != nil || html == "" {
		return err
	}
	steps := []vStep{{"op": "load"}}
	add := func(cv [4]string) {
		if in.Adds {
			to := show(new(big.Int), m.dec[cv[2]])
			steps = append(steps, vStep{"op": "add", "amounts": []string{to + " " + cv[2], cv[0] + " " + cv[1]}, "date": cv[3]})
		} else {
			steps = append(steps, vStep{"op": "convert", "amount": cv[0] + " " + cv[1], "to": cv[2], "date": cv[3]})
		}
	}
	all := in.Conv
	for i := len(in.Conv) - 1; in.After && i >= 0; i-- {
		all = append(all, in.Conv[i])
	}
	for _, cv := range all {
		add(cv)
	}
	rs, ok := c.view(in.TZ, html, false, steps...)
	if !ok {
		return viol("the viewer hangs")
	}
	var v vLoad
	if err := rs[0].get(&v); err != nil {
		return err
	}
	if err := m.sameLoad(&v); err != nil {
		return err
	}
	prices := map[string]map[string][]datedPrice{}
	for id, vc := range v.Commodities {
		prices[id] = map[string][]datedPrice{}
		for _, p := range vc.Prices {
			u, cur, err := m.amountOf(p[2])
			if err != nil {
				return nil
			}
			prices[id][cur] = append(prices[id][cur], datedPrice{day(strings.ReplaceAll(p[1], "-", "/")), u})
		}
		for _, ps := range prices[id] {
			sort.SliceStable(ps, func(i, j int) bool { return ps[i].day.Before(ps[j].day) })
		}
	}
	for k, cv := range all {
		r := &rs[k+1]
		if r.Error != "" {
			return viol("converting %v fails: %s\n%s", cv, r.Error, r.Stack)
		}
		var got string
		infraIf(json.Unmarshal(r.OK, &got))
		u := cutLiteral(cv[0], m.dec[cv[1]])
		paths := shortest(prices, cv[1], cv[2])
		switch {
		case cv[1] == cv[2] || u.Sign() == 0:
			if cv[1] != cv[2] {
				u = new(big.Int)
			}
			if got != m.withCom(u, cv[2]) {
				return viol("%s %s in %s is %q", cv[0], cv[1], cv[2], got)
			}
			continue
		case paths == nil:
			if !strings.HasPrefix(got, "refused: Cannot convert ") {
				return viol("%s %s in %s is %q without any price", cv[0], cv[1], cv[2], got)
			}
			c.Label("no-price")
			continue
		}
		g, com, err := m.amountOf(got)
		if err != nil || com != cv[2] {
			return viol("%s %s on %s in %s is %q", cv[0], cv[1], cv[3], cv[2], got)
		}
		date, err := time.Parse(isoFmt, cv[3])
		infraIf(err)
		allowed := map[string]*big.Int{}
		total := 0
		for _, path := range paths {
			// prices of the steps
			var alts [][]*big.Int
			for i := 1; i < len(path); i++ {
				alts = append(alts, around(prices[path[i-1]][path[i]], date))
				total += len(prices[path[i-1]][path[i]])
			}
			// step by step
			set := map[string]*big.Int{u.String(): u}
			for i, ps := range alts {
				next := map[string]*big.Int{}
				for _, a := range set {
					for _, p := range ps {
						rounded(new(big.Int).Mul(a, p), pow10big(m.dec[path[i]]), next)
					}
				}
				set = next
			}
			for s, a := range set {
				allowed[s] = a
			}
			// by the composed price, composed from either end
			comp := map[string]*big.Int{}
			for _, p := range alts[0] {
				comp[p.String()] = p
			}
			for i := 1; i < len(alts); i++ {
				next := map[string]*big.Int{}
				for _, a := range comp {
					for _, p := range alts[i] {
						rounded(new(big.Int).Mul(a, p), pow10big(m.dec[path[i]]), next)
					}
				}
				comp = next
			}
			back := map[string]*big.Int{}
			for _, p := range alts[len(alts)-1] {
				back[p.String()] = p
			}
			for i := len(alts) - 2; i >= 0; i-- {
				next := map[string]*big.Int{}
				for _, a := range back {
					for _, p := range alts[i] {
						rounded(new(big.Int).Mul(a, p), pow10big(m.dec[path[i+1]]), next)
					}
				}
				back = next
			}
			for _, set := range []map[string]*big.Int{comp, back} {
				for _, p := range set {
					rounded(new(big.Int).Mul(u, p), pow10big(m.dec[cv[1]]), allowed)
				}
			}
		}
		if allowed[g.String()] == nil {
			var ok []string
			for _, a := range allowed {
				ok = append(ok, m.withCom(a, cv[2]))
			}
			sort.Strings(ok)
			return viol("time zone %s: %s %s on %s in %s is %s; the prices of that time give %s", in.TZ, cv[0], cv[1], cv[3], cv[2], got, head(strings.Join(ok, ", "), 600))
		}
		c.Label("steps-%d", len(paths[0])-1)
		c.NonTrivial(len(allowed) < total || total == 1)
	}
	return nil
}

// shortest gives all shortest chains of prices.
func shortest(prices map[string]map[string][]datedPrice, from, to string) (found [][]string) {
	paths := [][]string{{from}}
	for len(paths) > 0 && found == nil && len(paths[0]) < 8 {
		var next [][]string
		for _, p := range paths {
			for cur := range prices[p[len(p)-1]] {
				seen := false
				for _, x := range p {
					seen = seen || x == cur
				}
				if seen {
					continue
				}
				q := append(append([]string(nil), p...), cur)
				if cur == to {
					found = append(found, q)
				}
				next = append(next, q)
			}
		}
		paths = next
	}
	return found
}

// ---- grouping ----

type c26Groups struct {
	Led      Led
	TZ       string
	Acc      string
	From, To string
	By       string
	Exclude  []string
	Closed   bool // closed accounts are shown
	Max      int
	Negated  bool
	N        int // how many top postings
}

func genRange(t *rapid.T, l *Led) (from, to string) {
	days := []time.Time{}
	for i := range l.Txs {
		days = append(days, day(l.Txs[i].Day))
	}
	one := func(label string) time.Time {
		d := day("2020/01/01").AddDate(0, 0, num(t, label, -400, 1200))
		if len(days) > 0 && !chance(t, label+"far", 4) {
			d = pick(t, label+"near", days...).AddDate(0, 0, pick(t, label+"off", 0, 0, 1, -1, 7, -30, 90))
		}
		switch num(t, label+"snap", 0, 7) {
		case 0:
			d = time.Date(d.Year(), d.Month(), 1, 0, 0, 0, 0, time.UTC)
		case 1:
			d = time.Date(d.Year(), 1, 1, 0, 0, 0, 0, time.UTC)
		case 2:
			d = time.Date(d.Year(), 12, 31, 0, 0, 0, 0, time.UTC)
		case 3:
			d = d.AddDate(0, 0, -int(d.Weekday()))
		}
		return d
	}
	a, b := one("from"), one("to")
	if a.After(b) && !chance(t, "reversed", 10) {
		a, b = b, a
	}
	return a.Format(isoFmt), b.Format(isoFmt)
}

// genTreeLed makes a ledger whose accounts can be totalled: one price between any two commodities.
func genTreeLed(t *rapid.T, o ledOpt) Led {
	o.TreeComs = chance(t, "treecoms", 2)
	o.Prices, o.AnyPrices = false, false
	l := genViewLed(t, o)
	for i := 1; i < len(l.Coms); i++ {
		hub := l.Coms[num(t, "hub", 0, i-1)]
		com := l.Coms[i]
		if rapid.Bool().Draw(t, "swap") {
			com, hub = hub, com
		}
		l.Prices = append(l.Prices, Pri{Day: genDay(t, day("2020/01/01"), 300), Com: com.Id, Cur: hub.Id, Val: show(big.NewInt(int64(num(t, "price", 1, 5000))), hub.Dec)})
	}
	return l
}

func c26GroupsGen(t *rapid.T) (in c26Groups) {
	in.Led = genTreeLed(t, ledOpt{MaxComs: pick(t, "maxcoms", 1, 1, 3), MaxTx: 25, Singles: true, Attrs: true})
	for i := range in.Led.Accs { // closing dates about the range
		if a := &in.Led.Accs[i]; a.Closed != "" && len(in.Led.Txs) > 0 {
			a.Closed = day(pick(t, "closeat", in.Led.Txs...).Day).AddDate(0, 0, num(t, "closeoff", -1, 1)).Format(dateFmt)
		}
	}
	m := newModel(&in.Led)
	var names []string
	for _, a := range m.sorted() {
		if a != m.root && a.Full != "Unbalanced" {
			names = append(names, a.Full)
			if len(a.Kids) > 0 { // more of those with accounts below
				names = append(names, a.Full, a.Full, a.Full)
			}
		}
	}
	in.Acc = pick(t, "acc", names...)
	in.From, in.To = genRange(t, &in.Led)
	in.By = pick(t, "by", "Weekly", "Monthly", "Quarterly", "Yearly")
	var below []string
	for _, n := range uniq(names) {
		if strings.HasPrefix(n, in.Acc+":") {
			below = append(below, n)
		}
	}
	if len(below) > 0 && chance(t, "excludes", 2) {
		for k := num(t, "nexcl", 1, 2); k > 0; k-- {
			in.Exclude = append(in.Exclude, pick(t, "excl", below...))
		}
		in.Exclude = uniq(in.Exclude)
	}
	in.Closed = rapid.Bool().Draw(t, "showclosed")
	in.Max = num(t, "max", 1, 6)
	in.Negated = chance(t, "negated", 3)
	in.N = num(t, "n", 1, 8)
	in.TZ = genZone(t)
	return in
}

// period gives the start of the period the day is in, and that of the next.
func period(by string, d time.Time) (time.Time, time.Time) {
	y, mo, _ := d.Date()
	first := func(y int, m time.Month) time.Time { return time.Date(y, m, 1, 0, 0, 0, 0, time.UTC) }
	switch by {
	case "Weekly":
		s := d.AddDate(0, 0, -int(d.Weekday()))
		return s, s.AddDate(0, 0, 7)
	case "Monthly":
		return first(y, mo), first(y, mo+1)
	case "Quarterly":
		q := mo - (mo-1)%3
		return first(y, q), first(y, q+3)
	}
	return first(y, 1), first(y+1, 1)
}

type vGroup struct {
	Date                string
	Postings            [][2]any
	Sum, Total, Balance string
}

type vGroups struct {
	Account string
	Groups  []vGroup
}

// mGroup is a group as it should be.
type mGroup struct {
	start               time.Time
	posts               []*mPost
	sum, total, balance *big.Int
}

func isoDay(s string) time.Time {
	t, err := time.Parse(isoFmt, s)
	infraIf(err)
	return t
}

func inRange(ps []*mPost, from, to time.Time) (out []*mPost) {
	for _, p := range ps {
		if !p.Tx.Date.Before(from) && !p.Tx.Date.After(to) {
			out = append(out, p)
		}
	}
	return out
}

func (a *mAcc) balanceAt(d time.Time) *big.Int {
	b := new(big.Int)
	for _, p := range a.Posts {
		if !p.Tx.Date.After(d) {
			b = p.Run
		}
	}
	return b
}

func (a *mAcc) groups(by string, from, to time.Time) (gs []mGroup) {
	total := new(big.Int)
	if to.Before(from) {
		return nil
	}
	start, _ := period(by, from)
	for !start.After(to) {
		_, next := period(by, start)
		g := mGroup{start: start, sum: new(big.Int)}
		for _, p := range inRange(a.Posts, from, to) {
			if !p.Tx.Date.Before(start) && p.Tx.Date.Before(next) {
				g.posts = append(g.posts, p)
				g.sum.Add(g.sum, p.Q)
			}
		}
		total = new(big.Int).Add(total, g.sum)
		end := next.AddDate(0, 0, -1)
		if end.After(to) {
			end = to
		}
		g.total, g.balance = total, a.balanceAt(end)
		gs = append(gs, g)
		start = next
	}
	return gs
}

// visible gives a and the accounts below it that are shown.
func (a *mAcc) visible(exclude []string, closed bool, to time.Time) []*mAcc {
	out := []*mAcc{a}
	for _, k := range a.Kids {
		if !contains(exclude, k.Full) && (closed || !k.closedAt(to)) {
			out = append(out, k.visible(exclude, closed, to)...)
		}
	}
	return out
}

func (a *mAcc) closedAt(d time.Time) bool {
	return a.Src != nil && a.Src.Closed != "" && !day(a.Src.Closed).After(d)
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// viewConv is how the viewer converts amounts; asked for at the end.
type viewConv struct {
	c    *Ctx
	m    *model
	html string
	tz   string
	date string
	know map[string]*big.Int
	want []string
	big  bool // amounts beyond the exact ones of the viewer came up
}

// in gives u of com in to, nil if that has to be asked first.
func (v *viewConv) in(u *big.Int, com, to string) *big.Int {
	if com == to {
		return u
	}
	if u.Sign() == 0 {
		return new(big.Int)
	}
	k := v.m.withCom(u, com) + ">" + to
	if r, ok := v.know[k]; ok {
		v.saw(r)
		return r
	}
	v.want = append(v.want, k)
	return new(big.Int)
}

func (v *viewConv) saw(u *big.Int) {
	if u.CmpAbs(big.NewInt(maxSafe)) > 0 {
		v.big = true
	}
}

// ask has the viewer do the conversions that came up; false if there were none.
func (v *viewConv) ask() (bool, error) {
	if len(v.want) == 0 {
		return false, nil
	}
	steps := []vStep{{"op": "load"}}
	for _, k := range v.want {
		amt, to, _ := strings.Cut(k, ">")
		steps = append(steps, vStep{"op": "convert", "amount": amt, "to": to, "date": v.date})
	}
	rs, ok := v.c.view(v.tz, v.html, false, steps...)
	if !ok {
		return false, viol("the viewer hangs")
	}
	for i, k := range v.want {
		var s string
		if err := rs[i+1].get(&s); err != nil {
			return false, err
		}
		u, _, err := v.m.amountOf(s)
		if err != nil {
			return false, viol("%s is %q", k, s)
		}
		v.know[k] = u
	}
	v.want = nil
	return true, nil
}

func (m *model) postRefs(ps []*mPost) (out [][2]any) {
	out = [][2]any{}
	for _, p := range ps {
		out = append(out, [2]any{p.Acc.Full, m.index(p)})
	}
	return out
}

func (m *model) sameGroups(a *mAcc, got []vGroup, want []mGroup) error {
	if want == nil { // the range ends before it begins
		for _, g := range got {
			if u, _, err := m.amountOf(g.Sum); err != nil || u.Sign() != 0 || len(g.Postings) > 0 {
				return viol("group of no range: %s", js(g))
			}
		}
		return nil
	}
	if len(got) != len(want) {
		return viol("%d groups, should be %d: %s", len(got), len(want), head(js(got), 600))
	}
	for i, g := range want {
		w := vGroup{g.start.Format(isoFmt), m.postRefs(g.posts), m.withCom(g.sum, a.Com), m.withCom(g.total, a.Com), m.withCom(g.balance, a.Com)}
		if js(got[i]) != js(w) {
			return viol("group %d of %s is %s\nshould be %s", i, a.Full, js(got[i]), js(w))
		}
	}
	return nil
}

func refKey(r [2]any) string { return fmt.Sprint(r[0], "#", r[1]) }

func c26GroupsCheck(c *Ctx, in c26Groups) error {
	m, html, err := c.viewable(&in.Led)
	if err != nil || html == "" {
		return err
	}
	base := func(op string) vStep {
		return vStep{"op": op, "account": in.Acc, "from": in.From, "to": in.To, "by": in.By, "exclude": in.Exclude, "closed": in.Closed, "max": in.Max, "negated": in.Negated}
	}
	top := base("top")
	top["max"] = in.N
	steps := []vStep{{"op": "load"}, base("trim"), base("postings"), base("groups"), base("topgroups"), base("balances"), top}
	var load vLoad
	var trim, posts, tops [][2]any
	var groups, topg []vGroups
	var bals [][3]string
	if err := c.viewOK(in.TZ, html, steps, &load, &trim, &posts, &groups, &topg, &bals, &tops); err != nil {
		return err
	}
	if err := m.sameLoad(&load); err != nil {
		return viol("time zone %s: %v", in.TZ, err)
	}
	a := m.accs[in.Acc]
	from, to := isoDay(in.From), isoDay(in.To)
	where := fmt.Sprintf("%s of %s from %s to %s without %v (closed %v), time zone %s", in.By, in.Acc, in.From, in.To, in.Exclude, in.Closed, in.TZ)
	if w := m.postRefs(inRange(a.Posts, from, to)); js(trim) != js(w) {
		return viol("%s: postings in range are %s\nshould be %s", where, js(trim), js(w))
	}
	vis := a.visible(in.Exclude, in.Closed, to)
	// postings with sub-accounts: by date, those of an account in its order
	want := map[string]time.Time{}
	n := 0
	for _, v := range vis {
		for _, p := range inRange(v.Posts, from, to) {
			want[refKey([2]any{v.Full, m.index(p)})] = p.Tx.Date
			n++
		}
	}
	if len(posts) != n {
		return viol("%s: %d postings with sub-accounts, should be %d: %s", where, len(posts), n, js(posts))
	}
	var prev time.Time
	lastOf := map[any]float64{}
	for _, r := range posts {
		d, ok := want[refKey(r)]
		if !ok || d.Before(prev) {
			return viol("%s: posting %v out of place in %s", where, r, js(posts))
		}
		prev = d
		delete(want, refKey(r))
		if l, ok := lastOf[r[0]]; ok && r[1].(float64) <= l {
			return viol("%s: posting %v out of order in %s", where, r, js(posts))
		}
		lastOf[r[0]] = r[1].(float64)
	}
	// groups
	wantGroups := map[string][]mGroup{}
	var order []string
	busy := 0
	for _, v := range vis {
		if len(v.Posts) > 0 {
			wantGroups[v.Full] = v.groups(in.By, from, to)
			order = append(order, v.Full)
			for _, g := range wantGroups[v.Full] {
				if len(g.posts) > 0 {
					busy++
				}
			}
		}
	}
	if len(groups) != len(order) {
		return viol("%s: groups of %d accounts, should be %d", where, len(groups), len(order))
	}
	for _, g := range groups {
		w, ok := wantGroups[g.Account]
		if !ok {
			return viol("%s: groups of %q", where, g.Account)
		}
		if err := m.sameGroups(m.accs[g.Account], g.Groups, w); err != nil {
			return viol("%s: %v", where, err)
		}
	}
	conv := &viewConv{c: c, m: m, html: html, tz: in.TZ, date: in.To, know: map[string]*big.Int{}}
	for {
		err := m.sameTop(conv, a, in, topg, order, wantGroups)
		if err == nil {
			err = m.sameBalances(conv, a, in, bals, to)
		}
		if err == nil {
			err = m.sameTopN(conv, a, in.N, tops)
		}
		if again, err := conv.ask(); err != nil {
			return viol("%s: %v", where, err)
		} else if again {
			continue
		}
		if err != nil {
			return viol("%s: %v", where, err)
		}
		break
	}
	c.NonTrivial(busy > 2)
	c.Label("by-%s", in.By)
	if len(order) > in.Max {
		c.Label("other")
	}
	if len(conv.know) > 0 {
		c.Label("converted")
	}
	if len(in.Exclude) > 0 {
		c.Label("excluded")
	}
	if len(vis) != len(a.visible(in.Exclude, true, to)) {
		c.Label("closed")
	}
	return nil
}

// sameTop checks the groups of the top accounts.
func (m *model) sameTop(conv *viewConv, a *mAcc, in c26Groups, got []vGroups, order []string, all map[string][]mGroup) error {
	want := len(order)
	if want > in.Max {
		want = in.Max
	}
	if len(got) != want {
		return viol("%d top accounts, should be %d", len(got), want)
	}
	if len(order) == 0 || len(all[order[0]]) == 0 {
		return nil
	}
	rank := func(full string) *big.Int {
		gs := all[full]
		r := conv.in(gs[len(gs)-1].total, m.accs[full].Com, a.Com)
		if in.Negated {
			r = new(big.Int).Neg(r)
		}
		return r
	}
	shown := map[string]bool{}
	var lowest *big.Int
	for i, g := range got {
		if g.Account == "" {
			if i != len(got)-1 || len(order) <= in.Max {
				return viol("others at %d of %d top accounts among %d", i, len(got), len(order))
			}
			break
		}
		if all[g.Account] == nil || shown[g.Account] {
			return viol("top account %s", g.Account)
		}
		shown[g.Account] = true
		if err := m.sameGroups(m.accs[g.Account], g.Groups, all[g.Account]); err != nil {
			return viol("top account: %v", err)
		}
		r := rank(g.Account)
		if lowest != nil && r.Cmp(lowest) > 0 {
			return viol("top account %s after one with less", g.Account)
		}
		lowest = r
	}
	if len(order) <= in.Max {
		return nil
	}
	other := got[len(got)-1]
	if other.Account != "" {
		return viol("no others among %d top accounts of %d", len(got), len(order))
	}
	if len(other.Groups) != len(all[order[0]]) {
		return viol("%d groups of others", len(other.Groups))
	}
	for i, g := range other.Groups {
		sum, total, balance := new(big.Int), new(big.Int), new(big.Int)
		posts := map[string]bool{}
		for _, full := range order {
			if shown[full] {
				continue
			}
			if lowest != nil && rank(full).Cmp(lowest) > 0 {
				return viol("%s is among the others", full)
			}
			w := all[full][i]
			com := m.accs[full].Com
			sum.Add(sum, conv.in(w.sum, com, a.Com))
			total.Add(total, conv.in(w.total, com, a.Com))
			balance.Add(balance, conv.in(w.balance, com, a.Com))
			for _, r := range m.postRefs(w.posts) {
				posts[refKey(r)] = true
			}
		}
		w := vGroup{all[order[0]][i].start.Format(isoFmt), nil, m.withCom(sum, a.Com), m.withCom(total, a.Com), m.withCom(balance, a.Com)}
		have := g.Postings
		g.Postings = nil
		if js(g) != js(w) {
			return viol("group %d of others is %s\nshould be %s", i, js(g), js(w))
		}
		for _, r := range have {
			if !posts[refKey(r)] {
				return viol("group %d of others has %v", i, r)
			}
			delete(posts, refKey(r))
		}
		if len(posts) > 0 {
			return viol("group %d of others lacks %v", i, posts)
		}
	}
	return nil
}

// sameBalances checks the balances of a and the accounts below it.
func (m *model) sameBalances(conv *viewConv, a *mAcc, in c26Groups, got [][3]string, to time.Time) error {
	for p := a; p != nil; p = p.Parent {
		if p.closedAt(to) && !in.Closed {
			return nil // what is listed then is not said
		}
	}
	var want [][3]string
	var list func(a *mAcc) *big.Int
	list = func(a *mAcc) *big.Int {
		at := len(want)
		b := a.balanceAt(to)
		want = append(want, [3]string{a.Full, m.withCom(b, a.Com)})
		total := new(big.Int).Set(b)
		for _, k := range a.Kids {
			if !contains(in.Exclude, k.Full) && (in.Closed || !k.closedAt(to)) {
				total.Add(total, conv.in(list(k), k.Com, a.Com))
			}
		}
		want[at][2] = m.withCom(total, a.Com)
		return total
	}
	list(a)
	if js(got) != js(want) {
		return viol("balances are %s\nshould be %s", js(got), js(want))
	}
	return nil
}

// sameTopN checks the n largest postings.
func (m *model) sameTopN(conv *viewConv, a *mAcc, n int, got [][2]any) error {
	var all []*big.Int
	for _, p := range a.Posts {
		all = append(all, new(big.Int).Abs(p.Q))
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Cmp(all[j]) > 0 })
	if n > len(all) {
		n = len(all)
	}
	if len(got) != n {
		return viol("%d top postings, should be %d", len(got), n)
	}
	seen := map[string]bool{}
	for i, r := range got {
		k, _ := r[1].(float64)
		if r[0] != a.Full || seen[refKey(r)] || int(k) < 0 || int(k) >= len(a.Posts) {
			return viol("top postings %v", got)
		}
		seen[refKey(r)] = true
		if a.Posts[int(k)].Q.CmpAbs(all[i]) != 0 {
			return viol("top posting %d is %v, of %s", i, r, m.withCom(a.Posts[int(k)].Q, a.Com))
		}
	}
	return nil
}

// ---- names ----

type c26Names struct {
	Accs []string
	Size int
}

func c26NamesGen(t *rapid.T) (in c26Names) {
	in.Accs = genAccNames(t, 1, 8)
	in.Size = num(t, "size", 1, 40)
	return in
}

func c26NamesCheck(c *Ctx, in c26Names) error {
	d := c.Dir()
	l := Led{Coms: []Com{{Id: "CAD", Dec: 2}}}
	for _, a := range in.Accs {
		l.Accs = append(l.Accs, Acc{Full: a})
		l.Txs = append(l.Txs, Tx{Day: "2020/01/01", Desc: "x", Posts: []Post{{Acc: a, Lit: "1", Com: "CAD"}, {Acc: "Unbalanced", Lit: "-1", Com: "CAD"}}})
	}
	l.write(d)
	html, err := c.export(d)
	if err != nil {
		return err
	}
	o := c.Coin(d, "register", "-l", strconv.Itoa(in.Size), "Unbalanced")
	if err := mustOK(o, "register"); err != nil {
		return err
	}
	var short []string
	names := [][2]any{}
	for i, line := range lines(o.Stdout)[1:] {
		fs := bars(line)
		if len(fs) < 3 || i >= len(in.Accs) {
			return viol("register line %q", line)
		}
		short = append(short, fs[2])
		names = append(names, [2]any{in.Accs[i], in.Size})
		c.NonTrivial(len(in.Accs[i]) > in.Size)
	}
	if len(short) != len(in.Accs) {
		return viol("register of %d transactions lists %d", len(in.Accs), len(short))
	}
	var got []string
	var load vLoad
	if err := c.viewOK("UTC", html, []vStep{{"op": "load"}, {"op": "shorten", "names": names}}, &load, &got); err != nil {
		return err
	}
	if js(got) != js(short) {
		return viol("account names in %d characters: the viewer has %q, the register %q", in.Size, got, short)
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C26",
		Rule: "random ledgers exported with coin2html and read by the viewer's modules in several time zones; non-trivial if an account has more than two postings (data), an amount above a million is written with separators (amounts), a price in force at another time would give another amount (conversion), more than two groups have postings (groups), a name has to be shortened (names)",
		Subs: []Sub{
			sub("data", 800, 8000, c26DataGen, c26DataCheck),
			sub("amounts", 800, 8000, c26AmountsGen, c26AmountsCheck),
			sub("conversion", 1200, 12000, c26ConvertGen, c26ConvertCheck),
			sub("groups", 2400, 24000, c26GroupsGen, c26GroupsCheck),
			sub("names", 400, 4000, c26NamesGen, c26NamesCheck),
			sub("page", 2400, 24000, c26PageGen, c26PageCheck),
		},
	})
}
