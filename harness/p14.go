package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// ---- aggregation over accounts of several commodities ----

type c14Agg struct {
	Led    Led
	Sel    Sel
	Acc    string
	Period string
}

func c14AggGen(t *rapid.T) c14Agg {
	in := c14Agg{Led: genLed(t, ledOpt{MaxComs: 4, Attrs: true, MaxTx: 10, Days: 90, AnyPrices: true, TreeComs: rapid.Bool().Draw(t, "treecoms")})}
	if chance(t, "select", 3) {
		in.Sel = genSel(t, &in.Led, false)
	}
	in.Acc = pick(t, "acc", "Root", genAccArg(t, &in.Led))
	in.Period = pick(t, "period", "m", "q", "y", "w")
	return in
}

func c14AggCheck(c *Ctx, in c14Agg) error {
	d := c.Dir()
	in.Led.write(d)
	m := newModel(&in.Led)
	if done, err := c.loadDecides(d, m); done {
		return err
	}
	top := m.accs[in.Acc]
	args := append([]string{"register", "-r", "-" + in.Period, "-l", "1000", "-g", "100", "-o", "csv"}, in.Sel.args()...)
	args = append(args, in.Acc)
	ad := &adder{m: m}
	periods := map[string]bool{}
	has := map[*mAcc]bool{}
	cells := map[*mAcc]map[string]*big.Int{}
	n := 0
	var eval func(a *mAcc)
	eval = func(a *mAcc) {
		col := map[string]*big.Int{}
		get := func(k string) *big.Int {
			if col[k] == nil {
				col[k] = new(big.Int)
			}
			return col[k]
		}
		for _, p := range in.Sel.filter(a.Posts) {
			n++
			has[a] = true
			k := periodOf(in.Period, p.Tx.Date)
			periods[k] = true
			col[k] = ad.add(get(k), a.Com, p.Q, p.Com)
		}
		for _, kid := range a.Kids {
			eval(kid)
			if has[kid] {
				has[a] = true
			}
			for k, v := range cells[kid] {
				col[k] = ad.add(get(k), a.Com, v, kid.Com)
			}
		}
		cells[a] = col
	}
	eval(top)
	o := c.Coin(d, args...)
	if o.Fault() || o.TimedOut {
		return viol("aggregate: crashed: %v %s", args, o.Stderr)
	}
	switch {
	case ad.ambiguous:
		c.Label("ambiguous-chain")
		return nil
	case ad.fails:
		c.Label("no-price")
		if o.Code == 0 {
			return viol("aggregate without price: adds unlike amounts: %v\n%s", args, o.Stdout)
		}
		return nil
	case ad.zeroFails && o.Code != 0:
		return nil
	}
	if err := mustOK(o, "aggregate", args); err != nil {
		return err
	}
	if n == 0 {
		return nil
	}
	t, err := table("csv", o.Stdout)
	if err != nil {
		return err
	}
	bad := func(f string, a ...any) error {
		return viol("aggregate: %s\n%v\n%s", fmt.Sprintf(f, a...), args, o.Stdout)
	}
	var order []string
	for k := range periods {
		order = append(order, k)
	}
	sort.Strings(order)
	if len(t) != len(order)+1 {
		return bad("%d rows, want %v", len(t)-1, order)
	}
	label := map[string][]*mAcc{}
	top.walk(func(a *mAcc) {
		l := strings.TrimPrefix(a.Full, top.Full)
		if a == top {
			l = a.Name
		}
		label[l] = append(label[l], a)
	})
	seen := map[*mAcc]bool{}
	for j, h := range t[0][1:] {
		as := label[h]
		if len(as) != 1 {
			return bad("column %q", h)
		}
		a := as[0]
		if seen[a] {
			return bad("second column %q", h)
		}
		seen[a] = true
		for i, k := range order {
			if t[i+1][0] != k {
				return bad("row %d is for %q, want %s", i, t[i+1][0], k)
			}
			v := cells[a][k]
			if v == nil {
				v = new(big.Int)
			}
			want := m.show(v, a.Com)
			if t[i+1][j+1] != want {
				return bad("%s of %s is %s, want %s %s", k, h, t[i+1][j+1], want, a.Com)
			}
		}
	}
	for a := range has {
		if !seen[a] {
			return bad("no column for %s", a.Full)
		}
	}
	c.NonTrivial(ad.converted > 0)
	return nil
}

// ---- price lists ----

type c14Prices struct {
	Coms  []Com
	Pris  []Pri
	Files []int // file of each price
	Split bool  // *.prices rather than prices.coin
	Loc   bool
}

func c14PricesGen(t *rapid.T) c14Prices {
	var in c14Prices
	in.Coms = genComs(t, ledOpt{MaxComs: 5, NoDefault: true, Attrs: rapid.Bool().Draw(t, "attrs")})
	in.Loc = rapid.Bool().Draw(t, "loc")
	if len(in.Coms) < 2 {
		return in
	}
	base := day("2020/02/20")
	days := pick(t, "days", 3, 20, 1000)
	n := pick(t, "many", 3, 10, 25)
	nfiles := pick(t, "nfiles", 1, 2, 3)
	in.Split = nfiles > 1
	for k := num(t, "nprices", 0, n); k > 0; k-- {
		i, j := num(t, "com", 0, len(in.Coms)-1), num(t, "cur", 0, len(in.Coms)-2)
		if j >= i {
			j++
		}
		u := new(big.Int).Abs(genUnits(t, true))
		in.Pris = append(in.Pris, Pri{Day: genDay(t, base, days), Com: in.Coms[i].Id, Cur: in.Coms[j].Id, Val: genLit(t, u, in.Coms[j].Dec)})
		in.Files = append(in.Files, num(t, "file", 0, nfiles-1))
	}
	return in
}

func c14PricesCheck(c *Ctx, in c14Prices) error {
	d := c.Dir()
	l := Led{Coms: in.Coms}
	l.write(d)
	m := newModel(&l)
	// price entries with text between them so that line numbers vary
	body := map[string]string{}
	names := []string{"prices.coin", "w.prices", "x.prices"}
	if in.Split {
		names[0] = "v.prices"
	}
	type rec struct {
		p   *Pri
		u   *big.Int
		loc string
	}
	recs := map[[2]string][]rec{}
	for i := range in.Pris {
		p := &in.Pris[i]
		f := names[in.Files[i]]
		if i%3 == 1 {
			body[f] += "\n"
		}
		r := rec{p, cutLiteral(p.Val, m.dec[p.Cur]), fmt.Sprintf("./%s:%d", f, strings.Count(body[f], "\n")+1)}
		body[f] += p.render()
		recs[[2]string{p.Com, p.Cur}] = append(recs[[2]string{p.Com, p.Cur}], r)
	}
	for f, b := range body {
		writeFile(d+"/"+f, b)
	}
	same := false
	for _, com := range in.Coms {
		args := []string{"commodities"}
		if in.Loc {
			args = append(args, "-f")
		}
		args = append(args, com.Id)
		o := c.Coin(d, args...)
		if err := mustOK(o, "price list", args); err != nil {
			return err
		}
		bad := func(f string, a ...any) error {
			return viol("price list: %s\n%v\n%s", fmt.Sprintf(f, a...), args, o.Stdout)
		}
		left := map[string]int{}
		total := 0
		for k, rs := range recs {
			if k[0] != com.Id {
				continue
			}
			for _, r := range rs {
				s := r.p.Day + " " + m.show(r.u, k[1]) + " " + k[1]
				if in.Loc {
					s += " " + r.loc
				}
				left[s]++
				total++
			}
		}
		ls := lines(strings.ReplaceAll(o.Stdout, " "+d+"/", " ./"))
		if len(ls) != total {
			return bad("%d lines for %d prices", len(ls), total)
		}
		last := map[string]string{}
		order := []string{}
		for _, line := range ls {
			if left[line] == 0 {
				return bad("unexpected %q", line)
			}
			left[line]--
			f := strings.Fields(line)
			if last[f[2]] == "" {
				order = append(order, f[2])
			} else if order[len(order)-1] != f[2] {
				return bad("prices in %s are scattered", f[2])
			} else if last[f[2]] < f[0] {
				return bad("%s after %s", f[0], last[f[2]])
			} else if last[f[2]] == f[0] {
				same = true
			}
			last[f[2]] = f[0]
		}
	}
	o := c.Coin(d, "commodities", "-p")
	if err := mustOK(o, "price summary"); err != nil {
		return err
	}
	bad := func(f string, a ...any) error {
		return viol("price summary: %s\n%s", fmt.Sprintf(f, a...), o.Stdout)
	}
	var ids []string
	for _, com := range in.Coms {
		ids = append(ids, com.Id)
	}
	ids = append(ids, "CAD")
	ids = uniq(ids)
	sort.Strings(ids)
	ls := lines(o.Stdout)
	k := 0
	for _, id := range ids {
		if k >= len(ls) || strings.SplitN(ls[k], ":", 2)[0] != id {
			if id == "CAD" && !hasCom(in.Coms, id) {
				continue // the built-in default commodity
			}
			return bad("no line for %s", id)
		}
		_, list, _ := strings.Cut(ls[k], ": ")
		k++
		var got []string
		if list != "" {
			got = strings.Split(list, ", ")
		}
		want := 0
		for key, rs := range recs {
			if key[0] != id {
				continue
			}
			want++
			latest := ""
			for _, r := range rs {
				latest = max(latest, r.p.Day)
			}
			ok := false
			for _, r := range rs {
				s := fmt.Sprintf("%s %s %s [%d]", latest, m.show(r.u, key[1]), key[1], len(rs))
				for _, g := range got {
					ok = ok || r.p.Day == latest && g == s
				}
			}
			if !ok {
				return bad("%s in %s: want the price of %s and [%d]", id, key[1], latest, len(rs))
			}
		}
		if len(got) != want {
			return bad("%s: %d currencies, want %d", id, len(got), want)
		}
	}
	if k != len(ls) {
		return bad("unexpected line %q", ls[k])
	}
	if same {
		c.Label("same-day")
	}
	c.NonTrivial(len(in.Pris) > 3)
	return nil
}

func hasCom(cs []Com, id string) bool {
	for _, c := range cs {
		if c.Id == id {
			return true
		}
	}
	return false
}

func init() {
	o := ledOpt{MaxComs: 4, MaxTx: 8, Days: 12, AnyPrices: true, Foreign: true, Asserts: 6}
	tree := o
	tree.TreeComs = true
	long := tree
	long.MaxComs = 7
	register(&Prop{
		ID: "C14",
		Rule: "a case is a ledger with up to 4 commodities (up to 7 in one part) of 0 to 8 decimals and prices in both directions between arbitrary pairs of them (dense, sparse or missing), accounts of unlike commodities " +
			"below each other, and amounts stated in commodities other than the account's; balance, register and aggregated register are compared with a model that converts at the latest direct price " +
			"or along the only chain (several chains: skipped, none: must fail); or a set of prices over up to 3 files; non-trivial as in C03/C04, when an amount was converted, or with more than 3 prices",
		Subs: []Sub{
			sub("balance", 5000, 40000, c03Gen(o), c03Check),
			sub("tree", 3000, 30000, c03Gen(tree), c03Check),
			sub("register", 4000, 30000, c04Gen(tree), c04Check),
			sub("long", 3000, 30000, c03Gen(long), c03Check),
			sub("aggregate", 5000, 40000, c14AggGen, c14AggCheck),
			sub("prices", 1500, 15000, c14PricesGen, c14PricesCheck),
		},
	})
}
