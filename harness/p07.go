package main

import (
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

type c07Case struct {
	Led    Led
	Wild   []Wild // per transaction
	Trim   bool
	Ledger bool
}

// spread puts runs of blanks into a text.
func spread(t *rapid.T, s string) string {
	if s == "" || !chance(t, "spread", 3) {
		return s
	}
	return strings.ReplaceAll(s, " ", pick(t, "run", "  ", "    ", "\t", " \t "))
}

var longText = "a rather long text which takes the line it is on well beyond the usual eighty characters"

func c07Gen(o ledOpt) func(t *rapid.T) c07Case {
	return func(t *rapid.T) c07Case {
		in := c07Case{Led: genLed(t, o)}
		for i := range in.Led.Txs {
			tx := &in.Led.Txs[i]
			tx.Desc = spread(t, tx.Desc)
			if chance(t, "longdesc", 12) {
				tx.Desc += longText[:num(t, "len", 20, len(longText))]
				tx.Desc = strings.TrimSpace(tx.Desc)
			}
			touch := func(notes []string) {
				for k := range notes {
					notes[k] = spread(t, notes[k])
					if chance(t, "longnote", 10) {
						notes[k] += " " + longText[:num(t, "len", 20, len(longText))]
					}
					if chance(t, "oddnote", 8) {
						notes[k] = pick(t, "odd", " indented", "; more", "trailing  ", "a ; b", "5.00 CAD = 3", "2020/01/01 x", "(x) y", "\tq")
					}
				}
			}
			touch(tx.Notes)
			for j := range tx.Posts {
				touch(tx.Posts[j].Notes)
			}
			in.Wild = append(in.Wild, genWild(t))
		}
		in.Trim = rapid.Bool().Draw(t, "trim")
		in.Ledger = rapid.Bool().Draw(t, "ledger")
		return in
	}
}

func c07Check(c *Ctx, in c07Case) error {
	d := c.Dir()
	l := &in.Led
	m := newModel(l)
	writeFile(filepath.Join(d, "commodities.coin"), l.comFile())
	writeFile(filepath.Join(d, "accounts.coin"), l.accFile())
	n := max(l.Files, 1)
	texts := make([]string, n)
	for i := range l.Txs {
		f := l.Txs[i].File % n
		for _, s := range in.Wild[i].Noise {
			texts[f] += s + "\n"
		}
		texts[f] += in.Wild[i].render(&l.Txs[i])
	}
	w := filepath.Join(d, "work")
	var files []string
	for f, s := range texts {
		writeFile(filepath.Join(w, l.txFileName(f)), s)
		files = append(files, l.txFileName(f))
	}
	run := func(dir string, args ...string) (*Out, error) {
		o := c.Run(dir, d, "coin", append([]string{"format"}, args...)...)
		return o, mustOK(o, "format", args)
	}
	var flags []string
	if in.Trim {
		flags = append(flags, "-t")
	}
	o, err := run(w, append(flags, files...)...)
	if err != nil {
		return err
	}
	// one transaction of the output per transaction of the input
	check := func(out string, ledger bool) error {
		ts, err := readFormatted(out)
		if err != nil {
			return err
		}
		var want []*mTx
		for f := range texts {
			for _, t := range m.formatted() {
				if t.File == l.txFileName(f) {
					want = append(want, t)
				}
			}
		}
		for i, t := range want {
			if i >= len(ts) {
				return viol("format: transaction of %s %q missing\n%s", t.Src.Day, t.Src.Desc, out)
			}
			if err := m.sameTx(ts[i], t, ledger, in.Trim); err != nil {
				return viol("format: transaction %d of %s %q: %s\n--- input\n%s\n--- output\n%s", i+1, t.Src.Day, t.Src.Desc, err, strings.Join(texts, "---\n"), out)
			}
		}
		if len(ts) > len(want) {
			return viol("format: %d transactions, want %d\n%s", len(ts), len(want), out)
		}
		return nil
	}
	if err := check(o.Stdout, false); err != nil {
		return err
	}
	// each file by itself
	all := ""
	w2 := filepath.Join(d, "again")
	for _, f := range files {
		o1, err := run(w, append(flags, f)...)
		if err != nil {
			return err
		}
		all += o1.Stdout
		writeFile(filepath.Join(w2, f), o1.Stdout)
		// formatting the result again
		o2, err := run(w2, append(flags, f)...)
		if err != nil {
			return err
		}
		if o2.Stdout != o1.Stdout {
			return viol("format: formatting again changes it\n--- first\n%s\n--- second\n%s", o1.Stdout, o2.Stdout)
		}
	}
	if all != o.Stdout {
		return viol("format: several files at once differ from each by itself\n%s\n---\n%s", o.Stdout, all)
	}
	if in.Ledger {
		ol, err := run(w, append(append([]string{"-ledger"}, flags...), files...)...)
		if err != nil {
			return err
		}
		if err := check(ol.Stdout, true); err != nil {
			return viol("-ledger: %s", err)
		}
	}
	// in place
	oi, err := run(w, append(append([]string{"-i"}, flags...), files...)...)
	if err != nil {
		return err
	}
	if oi.Stdout != "" {
		return viol("format -i: prints %q", oi.Stdout)
	}
	for _, f := range files {
		if got, want := readFile(filepath.Join(w, f)), readFile(filepath.Join(w2, f)); got != want {
			return viol("format -i: %s is\n%s\n--- want\n%s", f, got, want)
		}
	}
	asserted, sameday := false, false
	for i, t := range m.txs {
		asserted = asserted || t.asserts()
		sameday = sameday || i > 0 && m.txs[i-1].Date.Equal(t.Date)
	}
	c.NonTrivial(len(m.txs) > 2 && asserted)
	if sameday {
		c.Label("same-day")
	}
	if asserted {
		c.Label("asserted")
	}
	if in.Trim {
		c.Label("trim")
	}
	if in.Ledger {
		c.Label("ledger")
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C07",
		Rule: "a case is a ledger of up to 10 transactions within 4 days in 1-3 files, in varied spelling (dates, blanks, tabs, literals, inline and separate notes, empty notes, comments, blank lines or none), " +
			"with codes, notes, tags, assertions, long texts and lines, huge amounts, commodities that ledger requires quoted; -t and -ledger; non-trivial with at least three transactions, one of them with an assertion",
		Subs: []Sub{
			sub("single", 3000, 30000, c07Gen(ledOpt{MaxComs: 1, Attrs: true, MaxTx: 10, Days: 4, Notes: true, Codes: true, Big: true, Singles: true, Asserts: 5, Wrong: true, Unb: true}), c07Check),
			sub("mixed", 3000, 30000, c07Gen(ledOpt{MaxComs: 4, ForeignMixed: true, Attrs: true, MaxTx: 10, Days: 4, Notes: true, Codes: true, Asserts: 5, Wrong: true, Unb: true}), c07Check),
		},
	})
}
