package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/mkobetic/coin"
	"pgregory.net/rapid"
)

// genTagText makes note text full of things that are nearly tags.
func genTagText(t *rapid.T) string {
	var b strings.Builder
	for k := num(t, "npieces", 1, 7); k > 0; k-- {
		switch num(t, "piece", 0, 5) {
		case 0, 1:
			b.WriteString("#")
			b.WriteString(pick(t, "key", "a", "b", "key", "Key", "k-1", "x/y", "_z", "trip2", "k", "1"))
			if chance(t, "hasvalue", 2) {
				b.WriteString(pick(t, "colon", ":", ": ", ":  ", " :", ":\t"))
				b.WriteString(pick(t, "value", "v", "x", "two words", "v:w", "#v", "10%", "a;b", "Ünï", "\"q\"", "", "a  b", "|", "k=v"))
			}
			b.WriteString(pick(t, "after", "", ",", ", ", " ,", " , ", " ", "  "))
		case 2:
			b.WriteString(pick(t, "text", "text", "a, b", "x", "100 CAD", "a:b", ";"))
		case 3:
			b.WriteString(pick(t, "punct", "#", "##", ":", ",", " ", "# ", "#:", "#,", "-", "é", "#é", "\t"))
		default:
			b.WriteString(rapid.StringOfN(rapid.RuneFrom([]rune("ab#: ,-/_1é.")), 1, 4, -1).Draw(t, "noise"))
		}
	}
	return b.String()
}

type c13Scan struct{ Notes []string }

func c13CheckScan(c *Ctx, in c13Scan) error {
	got := coin.ParseTags(in.Notes...)
	values := map[string][]string{}
	n := 0
	for _, note := range in.Notes {
		for _, kv := range scanTagList(note) {
			values[kv[0]] = append(values[kv[0]], kv[1])
			n++
			if kv[1] != "" {
				c.Label("value")
			}
		}
	}
	c.NonTrivial(n > 0)
	for k, v := range got {
		ok := false
		for _, w := range values[k] {
			ok = ok || v == w
		}
		if !ok {
			return viol("tags: %q gives %q: %q, want %q", in.Notes, k, v, values[k])
		}
	}
	for k := range values {
		if !got.Includes(k) {
			return viol("tags: %q: key %q is missing in %q", in.Notes, k, got)
		}
	}
	return nil
}

type c13Case struct {
	Led    Led
	Inline bool // first note of a transaction on its first line
	Name   string
	Values bool
	Accs   bool
	Tag    string
}

func c13Gen(t *rapid.T) c13Case {
	in := c13Case{Led: genLed(t, ledOpt{MaxComs: 1, MaxTx: 6, Days: 10})}
	var keys [][2]string
	for i := range in.Led.Txs {
		tx := &in.Led.Txs[i]
		used := map[string]bool{}
		notes := func(n int) (out []string) {
			for ; n > 0; n-- {
				s := strings.TrimSpace(genTagText(t))
				dup := s == ""
				var ks []string
				for _, kv := range scanTagList(s) {
					dup = dup || used[kv[0]]
					for _, k := range ks {
						dup = dup || k == kv[0]
					}
					ks = append(ks, kv[0])
				}
				if dup {
					continue // which of two values of a tag counts is not specified
				}
				for _, kv := range scanTagList(s) {
					used[kv[0]] = true
					keys = append(keys, kv)
				}
				out = append(out, s)
			}
			return out
		}
		tx.Notes = notes(num(t, "nnotes", 0, 3))
		for j := range tx.Posts {
			used = map[string]bool{}
			tx.Posts[j].Notes = notes(num(t, "npnotes", 0, 2))
		}
	}
	in.Inline = rapid.Bool().Draw(t, "inline")
	in.Values = rapid.Bool().Draw(t, "values")
	in.Accs = rapid.Bool().Draw(t, "accs")
	if chance(t, "hasname", 3) {
		in.Name = pick(t, "name", "k", "KEY", "^a$", "[0-9]", "/", "none", "x|z")
	}
	in.Tag = pick(t, "tagpat", "k", "^KEY$", "a:", "key:v", "^k$:w", ".", "x/y:.", "b:^x$")
	if len(keys) > 0 && rapid.Bool().Draw(t, "known") {
		kv := pick(t, "kv", keys...)
		in.Tag = "^" + regexp.QuoteMeta(kv[0]) + "$"
		if kv[1] != "" && rapid.Bool().Draw(t, "withvalue") {
			in.Tag += ":" + regexp.QuoteMeta(kv[1])
		}
		switch num(t, "case", 0, 2) {
		case 0:
			in.Tag = strings.ToUpper(in.Tag)
		case 1:
			in.Tag = strings.ToLower(in.Tag)
		}
	}
	if chance(t, "invert", 4) {
		in.Tag = "!" + in.Tag
	}
	return in
}

// inlineNotes moves the first note of each transaction to its first line in the rendered text.
func inlineNotes(t *Tx) string {
	s := t.render()
	if len(t.Notes) == 0 {
		return s
	}
	head, rest, _ := strings.Cut(s, "\n")
	first, rest, _ := strings.Cut(rest, "\n")
	return head + " " + strings.TrimLeft(first, " ") + "\n" + rest
}

func c13Check(c *Ctx, in c13Case) error {
	d := c.Dir()
	in.Led.Files = 0
	in.Led.write(d)
	if in.Inline {
		var b strings.Builder
		for i := range in.Led.Txs {
			b.WriteString(inlineNotes(&in.Led.Txs[i]) + "\n")
		}
		writeFile(d+"/transactions.coin", b.String())
	}
	m := newModel(&in.Led)
	values, accs := map[string]map[string]bool{}, map[string]map[string]bool{}
	use := func(tags map[string]string, as ...*mAcc) {
		for k, v := range tags {
			if in.Name != "" && !imatch(in.Name, k) {
				continue
			}
			if values[k] == nil {
				values[k], accs[k] = map[string]bool{}, map[string]bool{}
			}
			if v != "" {
				values[k][v] = true
			}
			for _, a := range as {
				accs[k][a.Full] = true
			}
		}
	}
	for _, t := range m.txs {
		var as []*mAcc
		for _, p := range t.Posts {
			use(p.Tags, p.Acc)
			as = append(as, p.Acc)
		}
		use(t.Tags, as...)
	}
	args := []string{"tags"}
	if in.Values {
		args = append(args, "-v")
	}
	if in.Accs {
		args = append(args, "-a")
	}
	if in.Name != "" {
		args = append(args, in.Name)
	}
	o := c.Coin(d, args...)
	if err := mustOK(o, "tags", args); err != nil {
		return err
	}
	var got, want []string
	var group []string
	flush := func() {
		sort.Strings(group) // the accounts of a key
		got = append(got, group...)
		group = nil
	}
	for _, l := range lines(o.Stdout) {
		if strings.HasPrefix(l, "\t") {
			group = append(group, l)
			continue
		}
		flush()
		got = append(got, l)
	}
	flush()
	for _, k := range sortedKeys(values) {
		l := k
		vs := sortedKeys(values[k])
		if len(vs) > 0 {
			l += ":"
			if in.Values {
				l += ` "` + strings.Join(vs, `", "`) + `"`
			}
		}
		want = append(want, l)
		if in.Accs {
			for _, a := range sortedKeys(accs[k]) {
				want = append(want, "\t"+a)
			}
		}
	}
	if d := firstDiff(got, want); d != "" {
		return viol("tags report: %v\n%s\n--- output\n%s", args, d, o.Stdout)
	}
	// selection by tag
	sel := Sel{Tag: in.Tag}
	var top *mAcc
	for _, a := range m.sorted() {
		if len(a.Posts) > 0 && (top == nil || len(a.Posts) > len(top.Posts)) {
			top = a
		}
	}
	picked := 0
	if top != nil {
		ps := sel.filter(top.Posts)
		picked = len(ps)
		o := c.Coin(d, "register", "-l", "1000", "-t", in.Tag, top.Full)
		if err := mustOK(o, "register -t", in.Tag); err != nil {
			return err
		}
		var got, want []string
		for i, l := range lines(o.Stdout) {
			if i > 0 {
				f := bars(l)
				got = append(got, f[0]+" "+f[len(f)-2])
			}
		}
		for _, p := range ps {
			want = append(want, p.Tx.Src.Day+" "+m.show(p.Q, p.Com))
		}
		if d := firstDiff(got, want); d != "" {
			return viol("selection: -t %q takes\n%s\n%s", in.Tag, o.Stdout, d)
		}
		o = c.Coin(d, "balance", "-z", "-t", in.Tag, top.Full)
		if err := mustOK(o, "balance -t", in.Tag); err != nil {
			return err
		}
		rows, err := parseBalance(o.Stdout)
		if err != nil {
			return err
		}
		if len(rows) == 0 || rows[0].tot != m.show(bsum(ps), top.Com) {
			return viol("selection: balance -t %q\n%s\nwant %s", in.Tag, o.Stdout, m.show(bsum(ps), top.Com))
		}
		if picked > 0 && picked < len(top.Posts) {
			c.Label("partial-selection")
		}
	}
	c.NonTrivial(len(values) > 1)
	c.Label("keys-%d", min(len(values), 5))
	return nil
}

func sortedKeys[V any](m map[string]V) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func init() {
	register(&Prop{
		ID: "C13",
		Rule: "a case is note text built from tags, near-tags (lone #, blanks before the colon, empty values, commas, non-ASCII) and noise: scanned in-process, and put into the notes of the " +
			"transactions and postings of a ledger for the tags report and for selection by patterns derived from the tags in it; non-trivial when the notes have a tag (scan), two keys (report)",
		Subs: []Sub{
			sub("scan", 60000, 3000000, func(t *rapid.T) c13Scan {
				return c13Scan{rapid.SliceOfN(rapid.Custom(genTagText), 1, 3).Draw(t, "notes")}
			}, c13CheckScan),
			sub("report", 5000, 50000, c13Gen, c13Check),
		},
	})
	_ = fmt.Sprint
}
