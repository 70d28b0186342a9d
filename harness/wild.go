package main

import (
	"fmt"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// ---- the transactions of a ledger in varied spelling ----

// A Wild says how a transaction is spelled.
type Wild struct {
	Date    int // 0 2020/03/01, 1 2020/3/1
	Gaps    [4]string
	Indent  string
	Inline  bool     // first notes on the line of the transaction or posting
	Tight   bool     // ";note"
	Noise   []string // lines before the transaction
	Empty   bool     // empty notes
	PostGap string
}

func genWild(t *rapid.T) Wild {
	gap := func() string { return pick(t, "gap", " ", " ", "  ", "\t", "     ", " \t ") }
	w := Wild{Date: num(t, "datestyle", 0, 1), Inline: rapid.Bool().Draw(t, "inline"), Tight: chance(t, "tight", 3), Empty: chance(t, "empty", 6)}
	for i := range w.Gaps {
		w.Gaps[i] = gap()
	}
	w.Indent = pick(t, "indent", " ", "  ", "\t", "    ", " \t")
	w.PostGap = pick(t, "postgap", " ", "  ", "\t", "          ")
	for k := num(t, "noise", 0, 2); k > 0; k-- {
		w.Noise = append(w.Noise, pick(t, "noiseline", "", "", "; a comment", "# 5.00 CAD", "   "))
	}
	return w
}

func (w *Wild) note(n string) string {
	if w.Tight && !strings.HasPrefix(n, " ") {
		return ";" + n
	}
	return "; " + n
}

func (w *Wild) render(t *Tx) string {
	d := t.Day
	if w.Date == 1 {
		dd := day(d)
		d = fmt.Sprintf("%04d/%d/%d", dd.Year(), int(dd.Month()), dd.Day())
	}
	s := d
	if t.Code != "" {
		s += w.Gaps[0] + "(" + t.Code + ")"
	}
	if t.Desc != "" {
		s += w.Gaps[1] + t.Desc
	}
	notes := t.Notes
	if w.Inline && len(notes) > 0 {
		s += w.Gaps[2] + w.note(notes[0])
		notes = notes[1:]
	}
	s += "\n"
	put := func(notes []string) {
		if w.Empty {
			s += w.Indent + ";\n"
		}
		for _, n := range notes {
			s += w.Indent + w.note(n) + "\n"
		}
	}
	put(notes)
	for i := range t.Posts {
		p := &t.Posts[i]
		s += w.Indent + p.Acc
		if p.Lit != "" {
			s += w.PostGap + p.Lit + w.Gaps[3] + p.Com
			if p.Assert != "" {
				com := p.Com
				if p.ACom != "" {
					com = p.ACom
				}
				s += w.Gaps[0] + "=" + w.Gaps[1] + p.Assert + w.Gaps[2] + com
			}
		}
		notes := p.Notes
		if w.Inline && len(notes) > 0 {
			s += w.Gaps[2] + w.note(notes[0])
			notes = notes[1:]
		}
		s += "\n"
		put(notes)
	}
	return s
}

// ---- reading formatted transactions ----

type fPost struct {
	Acc, Amt, Com  string
	Bal, BCom      string
	Notes          []string
	amtEnd, comCol int
}

type fTx struct {
	Day, Code, Desc string
	Notes           []string
	Posts           []*fPost
}

var fHead = regexp.MustCompile(`^(\d{4}/\d\d/\d\d)(?: \((\w+)\)(?: |$)| )([^;]*)(?:; (.*))?$`)
var fLine = regexp.MustCompile(`^  ([^\s;]\S*) +(-?\d+(?:\.\d+)?) (\S+)(?: = (-?\d+(?:\.\d+)?) (\S+))?(?: ; (.*))?$`)

// readFormatted reads transactions in the standard format and checks the columns.
func readFormatted(out string) (ts []*fTx, err error) {
	var t *fTx
	var p *fPost
	bad := func(l string) error { return viol("formatted: not understood: %q", l) }
	for _, l := range lines(out) {
		switch {
		case l == "":
			t, p = nil, nil
		case l[0] != ' ':
			if t != nil {
				return nil, viol("formatted: no blank line before %q", l)
			}
			m := fHead.FindStringSubmatch(l)
			if m == nil {
				return nil, bad(l)
			}
			t = &fTx{Day: m[1], Code: m[2], Desc: strings.TrimSuffix(m[3], " ")}
			if i := strings.IndexByte(l, ';'); i >= 0 {
				t.Notes = append(t.Notes, m[4])
			}
			ts = append(ts, t)
		case t == nil:
			return nil, bad(l)
		default:
			if n, ok := strings.CutPrefix(strings.TrimLeft(l, " "), ";"); ok {
				n, ok = strings.CutPrefix(n, " ")
				if !ok {
					return nil, bad(l)
				}
				if p != nil {
					p.Notes = append(p.Notes, n)
				} else {
					t.Notes = append(t.Notes, n)
				}
				continue
			}
			ix := fLine.FindStringSubmatchIndex(l)
			if ix == nil {
				return nil, bad(l)
			}
			m := fLine.FindStringSubmatch(l)
			p = &fPost{Acc: m[1], Amt: m[2], Com: m[3], Bal: m[4], BCom: m[5], amtEnd: ix[5], comCol: ix[6]}
			if ix[12] >= 0 {
				p.Notes = append(p.Notes, m[6])
			}
			t.Posts = append(t.Posts, p)
			if q := t.Posts[0]; q.amtEnd != p.amtEnd || q.comCol != p.comCol {
				return nil, viol("formatted: columns do not line up: %q\n%s", l, out)
			}
		}
	}
	return ts, nil
}

const ledgerQuotes = " \t0123456789.,;:?!-+*^/&|=<>[](){}@"

func quoted(com string, ledger bool) string {
	if ledger && strings.ContainsAny(com, ledgerQuotes) {
		return `"` + com + `"`
	}
	return com
}

// sameTx compares a formatted transaction with the model.
func (m *model) sameTx(f *fTx, t *mTx, ledger, trim bool) error {
	ws := func(s string) string {
		if trim {
			return strings.Join(strings.Fields(s), " ")
		}
		return s
	}
	if f.Day != t.Src.Day {
		return viol("date %s, want %s", f.Day, t.Src.Day)
	}
	if f.Code != t.Src.Code {
		return viol("code %q, want %q", f.Code, t.Src.Code)
	}
	if f.Desc != ws(t.Src.Desc) {
		return viol("description %q, want %q", f.Desc, ws(t.Src.Desc))
	}
	same := func(got, want []string, trim bool) error {
		for i, n := range want {
			if trim {
				n = ws(n)
			}
			if i >= len(got) || got[i] != n {
				return viol("notes %q, want %q", got, want)
			}
		}
		if len(got) != len(want) {
			return viol("notes %q, want %q", got, want)
		}
		return nil
	}
	if err := same(f.Notes, t.Src.Notes, trim); err != nil {
		return err
	}
	if len(f.Posts) != len(t.Posts) {
		return viol("%d postings, want %d", len(f.Posts), len(t.Posts))
	}
	for i, p := range t.Posts {
		g := f.Posts[i]
		if g.Acc != p.Acc.Full {
			return viol("account %s, want %s", g.Acc, p.Acc.Full)
		}
		if g.Amt != m.show(p.Q, p.Com) || g.Com != quoted(p.Com, ledger) {
			return viol("amount %s %s, want %s %s", g.Amt, g.Com, m.show(p.Q, p.Com), quoted(p.Com, ledger))
		}
		bal, bcom := "", ""
		if p.Src.Assert != "" {
			com := p.Com
			if p.Src.ACom != "" {
				com = p.Src.ACom
			}
			bal, bcom = m.show(cutLiteral(p.Src.Assert, m.dec[com]), com), quoted(com, ledger)
		}
		if g.Bal != bal || g.BCom != bcom {
			return viol("asserted balance %q %s, want %q %s", g.Bal, g.BCom, bal, bcom)
		}
		if err := same(g.Notes, p.Src.Notes, false); err != nil {
			return err
		}
	}
	return nil
}
