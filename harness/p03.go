package main

import (
	"fmt"
	"math/big"
	"strings"

	"pgregory.net/rapid"
)

type c03Case struct {
	Led   Led
	Sel   Sel
	Acc   string `json:",omitempty"`
	Zero  bool
	Level int
}

func c03Gen(o ledOpt) func(t *rapid.T) c03Case {
	return func(t *rapid.T) c03Case {
		in := c03Case{Led: genLed(t, o)}
		in.Sel = genSel(t, &in.Led, false)
		if rapid.Bool().Draw(t, "hasacc") {
			in.Acc = genAccArg(t, &in.Led)
		}
		in.Zero = rapid.Bool().Draw(t, "zero")
		if chance(t, "haslevel", 3) {
			in.Level = num(t, "level", 1, 4)
		}
		return in
	}
}

// genAccArg picks an account, implied parents included.
func genAccArg(t *rapid.T, l *Led) string {
	var names []string
	for _, a := range newModel(l).sorted() {
		names = append(names, a.Full)
	}
	return pick(t, "accarg", names...)
}

type balRow struct{ tot, cum, com, full string }

func (r balRow) String() string { return r.tot + " | " + r.cum + " " + r.com + " | " + r.full }

// balanceModel is the reference report: one row per account of the subtree.
func balanceModel(m *model, top *mAcc, sel *Sel) (rows []balRow, cums []*big.Int, ad *adder) {
	ad = &adder{m: m}
	tot, cum := map[*mAcc]*big.Int{}, map[*mAcc]*big.Int{}
	var eval func(a *mAcc) *big.Int
	eval = func(a *mAcc) *big.Int {
		t := new(big.Int)
		for _, p := range sel.filter(a.Posts) {
			t = ad.add(t, a.Com, p.Q, p.Com)
		}
		tot[a] = t
		c := t
		for _, k := range a.Kids {
			c = ad.add(c, a.Com, eval(k), k.Com)
		}
		cum[a] = c
		return c
	}
	eval(top)
	top.walk(func(a *mAcc) {
		rows = append(rows, balRow{m.show(tot[a], a.Com), m.show(cum[a], a.Com), a.Com, a.Full})
		cums = append(cums, cum[a])
	})
	return rows, cums, ad
}

func parseBalance(out string) (rows []balRow, err error) {
	for _, l := range lines(out) {
		f := bars(l)
		if len(f) != 3 {
			return nil, viol("balance row: unexpected %q", l)
		}
		cc := strings.Fields(f[1])
		if len(cc) != 2 {
			return nil, viol("balance row: unexpected %q", l)
		}
		rows = append(rows, balRow{f[0], cc[0], cc[1], f[2]})
	}
	return rows, nil
}

func c03Check(c *Ctx, in c03Case) error {
	d := c.Dir()
	in.Led.write(d)
	m := newModel(&in.Led)
	if done, err := c.loadDecides(d, m); done {
		return err
	}
	args := append([]string{"balance"}, in.Sel.args()...)
	if in.Zero {
		args = append(args, "-z")
	}
	if in.Level > 0 {
		args = append(args, "-l", fmt.Sprint(in.Level))
	}
	top := m.root
	if in.Acc != "" {
		args = append(args, in.Acc)
		top = m.accs[in.Acc]
	}
	all, cums, ad := balanceModel(m, top, &in.Sel)
	// the account balances needed by the load itself are always in one commodity
	o := c.Coin(d, args...)
	if o.Fault() || o.TimedOut {
		return viol("balance: crashed: %s", o.Stderr)
	}
	switch {
	case ad.ambiguous:
		c.Label("ambiguous-chain")
		return nil
	case ad.fails:
		c.Label("no-price")
		if o.Code == 0 {
			return viol("balance without price: adds unlike amounts: %v\n%s", args, o.Stdout)
		}
		return nil
	case ad.zeroFails && o.Code != 0:
		c.Label("no-price-zero")
		return nil
	}
	if err := mustOK(o, "balance", args); err != nil {
		return err
	}
	var want []string
	sub := map[string]bool{}
	for i, r := range all {
		if !in.Zero && cums[i].Sign() == 0 {
			continue
		}
		if in.Level > 0 && m.depth(m.accs[r.full]) > in.Level {
			continue
		}
		want = append(want, r.String())
		sub[r.tot] = true
	}
	rows, err := parseBalance(o.Stdout)
	if err != nil {
		return err
	}
	var got []string
	for _, r := range rows {
		got = append(got, r.String())
	}
	if d := firstDiff(got, want); d != "" {
		return viol("balance report: %v\n%s\n--- full output\n%s", args, d, o.Stdout)
	}
	selected, deep := 0, false
	top.walk(func(a *mAcc) {
		selected += len(in.Sel.filter(a.Posts))
		deep = deep || a != top && len(a.Posts) > 0
	})
	c.NonTrivial(selected > 0 && deep && len(want) > 1)
	if len(in.Sel.args()) > 0 && selected > 0 {
		c.Label("selection")
		total := 0
		top.walk(func(a *mAcc) { total += len(a.Posts) })
		if selected < total {
			c.Label("partial-selection")
		}
	}
	if ad.converted > 0 {
		c.Label("converted")
	}
	if in.Zero {
		c.Label("zero")
	}
	if len(want) < len(all) {
		c.Label("hidden-rows")
	}
	if o.Stderr != "" {
		return viol("balance: unexpected message %s", o.Stderr)
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C03",
		Rule: "a case is a ledger of up to 12 transactions over a random account tree (1-3 commodities, optional prices, split over 0-3 files), " +
			"a selection (dates around those of the postings, payee and tag patterns), an optional account, -z and -l; non-trivial when some posting is " +
			"selected, a sub-account has postings and at least two rows are expected",
		Subs: []Sub{
			sub("single", 8000, 60000, c03Gen(ledOpt{MaxComs: 1, Attrs: true, MaxTx: 12, Days: 20, Notes: true, Big: true, Singles: true}), c03Check),
			sub("mixed", 4000, 30000, c03Gen(ledOpt{MaxComs: 3, Attrs: true, MaxTx: 10, Days: 20, Notes: true, TreeComs: true, Prices: true}), c03Check),
		},
	})
}
