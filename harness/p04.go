package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

type c04Case struct {
	Led     Led
	Sel     Sel
	Acc     string
	Recurse bool
	Notes   bool
	Loc     bool
	Label   int // -l, 0 for not given
}

func c04Gen(o ledOpt) func(t *rapid.T) c04Case {
	return func(t *rapid.T) c04Case {
		in := c04Case{Led: genLed(t, o)}
		in.Sel = genSel(t, &in.Led, true)
		in.Acc = genAccArg(t, &in.Led)
		if chance(t, "used", 2) && len(in.Led.Txs) > 0 {
			in.Acc = pick(t, "tx", in.Led.Txs...).Posts[0].Acc
		}
		in.Recurse = rapid.Bool().Draw(t, "recurse")
		in.Notes = rapid.Bool().Draw(t, "notes")
		in.Loc = rapid.Bool().Draw(t, "loc")
		in.Label = pick(t, "label", 1000, 1000, 0, 5, 20)
		return in
	}
}

// shortOf says whether s is an acceptable display of account name full below top, at most size wide
// if it can be: each path element is kept at least in part.
func shortOf(s, full, top string, size int) bool {
	for _, n := range []string{full, strings.TrimPrefix(full, top)} {
		if s == n {
			return true
		}
		if size >= len(n) {
			continue
		}
		ps, ns := strings.Split(s, ":"), strings.Split(n, ":")
		if len(ps) != len(ns) {
			continue
		}
		ok := true
		for i := range ps {
			ok = ok && strings.HasPrefix(ns[i], ps[i]) && (ps[i] != "" || ns[i] == "")
		}
		if ok {
			return true
		}
	}
	return false
}

func c04Check(c *Ctx, in c04Case) error {
	d := c.Dir()
	in.Led.write(d)
	m := newModel(&in.Led)
	if done, err := c.loadDecides(d, m); done {
		return err
	}
	top := m.accs[in.Acc]
	args := append([]string{"register"}, in.Sel.args()...)
	if in.Recurse {
		args = append(args, "-r")
	}
	if in.Notes {
		args = append(args, "-n")
	}
	if in.Loc {
		args = append(args, "-f")
	}
	label := 12
	if in.Label > 0 {
		label = in.Label
		args = append(args, "-l", fmt.Sprint(label))
	}
	args = append(args, in.Acc)

	// expected postings
	var want []*mPost
	if in.Recurse {
		top.walk(func(a *mAcc) { want = append(want, in.Sel.filter(a.Posts)...) })
	} else {
		want = in.Sel.filter(top.Posts)
	}
	sort.SliceStable(want, func(i, j int) bool { return want[i].Tx.Date.Before(want[j].Tx.Date) })
	ad := &adder{m: m}
	{
		t := new(big.Int)
		for _, p := range want {
			t = ad.add(t, top.Com, p.Q, p.Com)
		}
	}
	o := c.Coin(d, args...)
	if o.Fault() || o.TimedOut {
		return viol("register: crashed: %v %s", args, o.Stderr)
	}
	switch {
	case ad.ambiguous:
		return nil
	case ad.fails:
		c.Label("no-price")
		if o.Code == 0 {
			return viol("register without price: adds unlike amounts: %v\n%s", args, o.Stdout)
		}
		return nil
	case ad.zeroFails && o.Code != 0:
		return nil
	}
	if err := mustOK(o, "register", args); err != nil {
		return err
	}
	ls := lines(o.Stdout)
	if len(ls) == 0 || ls[0] != top.Full+" "+top.Com {
		return viol("register header: %v: %q", args, o.Stdout)
	}
	ls = ls[1:]
	bad := func(f string, a ...any) error {
		return viol("register: %s\n%v\n%s", fmt.Sprintf(f, a...), args, o.Stdout)
	}
	total := new(big.Int)
	// The order among different accounts on one day is not specified: take the expected posting
	// of the same day that the line shows, keeping the order within each account.
	pending := append([]*mPost(nil), want...)
	sameDay := false
	for i := range want {
		sameDay = sameDay || i > 0 && want[i].Acc == want[i-1].Acc && want[i].Tx.Date.Equal(want[i-1].Tx.Date)
	}
	n := 0
	for len(ls) > 0 {
		line := ls[0]
		ls = ls[1:]
		f := bars(line)
		cols := 5
		if in.Recurse {
			cols++
		}
		if in.Loc {
			cols++
		}
		if len(f) != cols {
			return bad("line %q has %d columns", line, len(f))
		}
		n++
		if len(pending) == 0 {
			return bad("unexpected line %q: only %d postings are selected", line, len(want))
		}
		try := func(p *mPost) error {
			if f[0] != p.Tx.Src.Day {
				return bad("date in %q, want %s", line, p.Tx.Src.Day)
			}
			if f[1] != p.Tx.Src.Desc {
				return bad("payee in %q, want %s", line, p.Tx.Src.Desc)
			}
			k := 2
			if in.Recurse {
				if !shortOf(f[k], p.Acc.Full, top.Full, label) {
					return bad("account in %q, want %s", line, p.Acc.Full)
				}
				k++
			}
			other := ""
			if q := p.other(); q != nil {
				other = q.Acc.Full
			}
			if !shortOf(f[k], other, top.Full, label) {
				return bad("counter account in %q, want %s", line, other)
			}
			k++
			if f[k] != m.show(p.Q, p.Com) {
				return bad("amount in %q, want %s", line, m.show(p.Q, p.Com))
			}
			k++
			t := ad.add(total, top.Com, p.Q, p.Com)
			rest := strings.TrimSpace(strings.TrimPrefix(f[k], m.show(t, top.Com)+" "))
			if rest == f[k] {
				return bad("running total in %q, want %s", line, m.show(t, top.Com))
			}
			mark := ""
			if p.Src.Assert != "" {
				mark = "*"
			}
			if rest != p.Acc.Com+mark {
				return bad("commodity and mark in %q, want %s%s", line, p.Acc.Com, mark)
			}
			k++
			if in.Loc {
				loc := fmt.Sprintf("./%s:%d", p.Tx.File, p.Tx.Line)
				if f[k] != loc {
					return bad("location in %q, want %s", line, loc)
				}
			}
			total = t
			return nil
		}
		found := -1
		var first error
		tried := map[*mAcc]bool{}
		for i, p := range pending {
			if !p.Tx.Date.Equal(pending[0].Tx.Date) {
				break
			}
			if tried[p.Acc] {
				continue
			}
			tried[p.Acc] = true
			err := try(p)
			if err == nil {
				found = i
				break
			}
			if first == nil {
				first = err
			}
		}
		if found < 0 {
			return first
		}
		p := pending[found]
		pending = append(pending[:found:found], pending[found+1:]...)
		if in.Notes {
			want := map[string]int{}
			for _, n := range append(append([]string{}, p.Src.Notes...), p.Tx.Src.Notes...) {
				want[n]++
			}
			for len(ls) > 0 && strings.HasPrefix(ls[0], " ") {
				note, ok := strings.CutPrefix(strings.TrimLeft(ls[0], " "), "; ")
				if !ok || want[note] == 0 {
					return bad("unexpected note line %q", ls[0])
				}
				want[note]--
				ls = ls[1:]
			}
			for note, k := range want {
				if k > 0 {
					return bad("note %q missing after %q", note, line)
				}
			}
		}
	}
	if len(pending) > 0 {
		return bad("%d of %d postings missing, first of %s %s", len(pending), len(want), pending[0].Tx.Src.Day, pending[0].Tx.Src.Desc)
	}
	all := 0
	if in.Recurse {
		top.walk(func(a *mAcc) { all += len(a.Posts) })
	} else {
		all = len(top.Posts)
	}
	c.NonTrivial(len(want) > 1)
	if len(want) > 0 && len(want) < all {
		c.Label("partial-selection")
	}
	if sameDay {
		c.Label("same-day")
	}
	if in.Recurse && len(want) > len(in.Sel.filter(top.Posts)) {
		c.Label("recursive")
	}
	if strings.HasPrefix(in.Sel.Payee, "!") {
		c.Label("inverted-payee")
	}
	if ad.converted > 0 {
		c.Label("converted")
	}
	if o.Stderr != "" {
		return viol("register: unexpected message %s", o.Stderr)
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C04",
		Rule: "a case is a ledger of up to 12 transactions within 6 days (so that days repeat) over a random account tree, split over 0-3 files, with assertions, notes and tags, " +
			"a selection (dates, payee pattern possibly inverted, tag pattern), an account and the flags -r -n -f -l; non-trivial when at least two postings are selected",
		Subs: []Sub{
			sub("single", 8000, 60000, c04Gen(ledOpt{MaxComs: 1, Attrs: true, MaxTx: 12, Days: 6, Notes: true, Big: true, Singles: true, Codes: true, Asserts: 4}), c04Check),
			sub("mixed", 3000, 30000, c04Gen(ledOpt{MaxComs: 3, Attrs: true, MaxTx: 12, Days: 8, Notes: true, TreeComs: true, Prices: true, Asserts: 4}), c04Check),
		},
	})
}
