package main

import (
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

var htmlCount = regexp.MustCompile(`^[A-Z][a-z]+: \d+$`)

type c06Case struct {
	Led Led
	Cmd string
}

func c06Gen(o ledOpt) func(t *rapid.T) c06Case {
	return func(t *rapid.T) c06Case {
		return c06Case{Led: genLed(t, o), Cmd: pick(t, "cmd", "balance", "stats", "tags", "register", "html")}
	}
}

func (c *Ctx) loadCmd(d, cmd string) *Out {
	switch cmd {
	case "html":
		return c.Run(d, d, "coin2html")
	case "register":
		return c.Coin(d, "register", "-r", "-l", "1000", "Unbalanced")
	default:
		return c.Coin(d, cmd)
	}
}

func c06Check(c *Ctx, in c06Case) error {
	d := c.Dir()
	in.Led.write(d)
	m := newModel(&in.Led)
	var wrong []*mPost
	right := 0
	for _, t := range m.txs {
		for _, p := range t.Posts {
			if p.Src.Assert == "" {
				continue
			}
			if cutLiteral(p.Src.Assert, m.dec[p.Com]).Cmp(p.Run) != 0 {
				wrong = append(wrong, p)
			} else {
				right++
			}
		}
	}
	o := c.loadCmd(d, in.Cmd)
	if in.Cmd == "balance" && o.Code != 0 {
		if _, _, ad := balanceModel(m, m.root, &Sel{}); ad.fails || ad.zeroFails {
			return nil // accounts of different commodities without prices cannot be summed
		}
	}
	if err := mustOK(o, in.Cmd); err != nil {
		return err
	}
	var ls []string
	for _, l := range lines(strings.TrimRight(o.Stderr, "\n")) {
		if in.Cmd == "html" && htmlCount.MatchString(l) {
			continue // coin2html reports how much it exported
		}
		ls = append(ls, l)
	}
	if len(ls) != len(wrong) {
		return viol("warnings: %d for %d wrong assertions (%d right ones)\n%s", len(ls), len(wrong), right, o.Stderr)
	}
	used := make([]bool, len(ls))
	for _, p := range wrong {
		found := false
		actual, should := m.show(p.Run, p.Com), m.show(cutLiteral(p.Src.Assert, m.dec[p.Com]), p.Com)
		for i, l := range ls {
			if used[i] || !names(l, "/"+p.Tx.File, p.Tx.Line) {
				continue
			}
			// actual before asserted, both as words of their own
			words := strings.FieldsFunc(l, func(r rune) bool { return r == ' ' || r == ',' || r == ';' })
			ai, si, acc, dt := -1, -1, false, false
			for k, w := range words {
				w = strings.TrimRight(w, ":.")
				switch {
				case w == actual && ai < 0:
					ai = k
				case w == should && ai >= 0:
					si = k
				}
				acc = acc || w == p.Acc.Full
				dt = dt || w == p.Tx.Src.Day
			}
			if ai >= 0 && si > ai && acc && dt {
				used[i], found = true, true
				break
			}
		}
		if !found {
			return viol("warning: none for %s %s, balance %s, asserted %s, at %s:%d\n%s", p.Acc.Full, p.Tx.Src.Day, actual, should, p.Tx.File, p.Tx.Line, o.Stderr)
		}
	}
	c.NonTrivial(len(wrong) > 0 && right > 0)
	if right > 0 && len(wrong) == 0 {
		c.Label("only-right")
	}
	if len(wrong) > 0 {
		c.Label("wrong")
	}
	late := false
	for i := 1; i < len(m.txs); i++ {
		late = late || m.txs[i].Date.Before(m.txs[i-1].Date)
	}
	if late {
		c.Label("loaded-out-of-order")
	}
	// the reports of the ledger without the assertions are the same
	if in.Cmd != "html" && in.Cmd != "register" {
		bare := in.Led
		bare.Txs = nil
		for _, t := range in.Led.Txs {
			t.Posts = append([]Post(nil), t.Posts...)
			for j := range t.Posts {
				t.Posts[j].Assert = ""
			}
			bare.Txs = append(bare.Txs, t)
		}
		d2 := d + "/bare"
		bare.write(d2)
		o2 := c.loadCmd(d2, in.Cmd)
		if err := mustOK(o2, in.Cmd); err != nil {
			return err
		}
		if o.Stdout != o2.Stdout {
			return viol("assertions change the %s report:\n%s\nwithout them\n%s", in.Cmd, o.Stdout, o2.Stdout)
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C06",
		Rule: "a case is a ledger of up to 12 transactions within 5 days, loaded out of order and split over 0-3 files, with true and false (off by one unit and more) " +
			"assertions, some several per account and day; non-trivial when it has both a true and a false assertion",
		Subs: []Sub{
			sub("single", 8000, 60000, c06Gen(ledOpt{MaxComs: 1, Attrs: true, MaxTx: 12, Days: 5, Asserts: 2, Wrong: true, Big: true, Singles: true}), c06Check),
			sub("several", 4000, 30000, c06Gen(ledOpt{MaxComs: 3, Attrs: true, MaxTx: 12, Days: 5, Asserts: 3, Wrong: true, Unb: true}), c06Check),
		},
	})
}
