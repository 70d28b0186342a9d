package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

type c09Case struct {
	Led   Led
	Payee string
	TTag  string
	PTag  string
	From  string
	To    string
	SetT  [][2]string // key, value
	SetP  [][2]string
	Style int
}

var newKeys = []string{"newA", "new-b", "n3", "Zz/q"}

func c09Gen(t *rapid.T) c09Case {
	in := c09Case{Led: genLed(t, ledOpt{MaxComs: pick(t, "maxcoms", 1, 1, 3), Attrs: true, MaxTx: 8, Days: 5, Notes: true, Codes: true, Singles: true, Asserts: 6, Unb: true})}
	// tags on postings are what is selected by
	for i := range in.Led.Txs {
		tx := &in.Led.Txs[i]
		for j := range tx.Posts {
			if chance(t, "moretags", 3) {
				tx.Posts[j].Notes = append(tx.Posts[j].Notes, genNotes(t, map[string]bool{"trip": len(scanTags(tx.Posts[j].Notes)) > 0, "Trip2": true, "proj/x": true, "who": true, "a-b": true, "k": true, "tax_y": len(scanTags(tx.Posts[j].Notes)) > 0})...)
			}
			if chance(t, "longnote", 10) {
				tx.Posts[j].Notes = append([]string{longText}, tx.Posts[j].Notes...)
			}
		}
		if chance(t, "longnote", 8) {
			tx.Notes = append([]string{longText[:num(t, "len", 40, len(longText))]}, tx.Notes...)
		}
	}
	if chance(t, "haspayee", 3) {
		in.Payee = pick(t, "payee", "coffee", "GAS", "rent", "o", "shop|pay", "nomatch", "^$")
	}
	tag := func(l string) string {
		s := pick(t, l, "trip", "TRIP", "^trip$", "who:bob", "k:", "proj/x", "a", "k|who:b", "tax")
		if chance(t, l+"invert", 6) {
			s = "!" + s
		}
		return s
	}
	if chance(t, "hasttag", 4) {
		in.TTag = tag("ttag")
	}
	acc := func(l string) string {
		if chance(t, l+"any", 3) || len(in.Led.Txs) == 0 {
			return genAccArg(t, &in.Led)
		}
		return pick(t, l+"post", pick(t, l+"tx", in.Led.Txs...).Posts...).Acc
	}
	switch num(t, "how", 0, 5) {
	case 0:
	case 1, 2:
		in.PTag = tag("ptag")
	case 3:
		in.PTag = tag("ptag")
		in.From = acc("from")
	default:
		in.From = acc("from")
	}
	if rapid.Bool().Draw(t, "move") {
		in.To = acc("to")
	}
	keys := rapid.Permutation(newKeys).Draw(t, "keys")
	set := func(l string) (kvs [][2]string) {
		n := pick(t, l+"n", 0, 1, 1, 2)
		for k := 0; k < n; k++ {
			v := ""
			if rapid.Bool().Draw(t, l+"hasval") {
				v = pick(t, l+"val", append(valPool[:len(valPool):len(valPool)], "10:30", "a: b", "v:", "x #y")...)
			}
			kvs = append(kvs, [2]string{keys[0], v})
			keys = keys[1:]
		}
		return kvs
	}
	in.SetT = set("tt")
	in.SetP = set("pt")
	in.Style = num(t, "style", 0, 2)
	return in
}

func tagSpec(kvs [][2]string, style int) string {
	var parts []string
	for _, kv := range kvs {
		s := "#" + kv[0]
		if kv[1] != "" {
			s += []string{":", ": ", ":  "}[style] + kv[1]
		}
		parts = append(parts, s)
	}
	return strings.Join(parts, []string{", ", ",", " , "}[style])
}

// allTags gives all the tags of notes with repetitions.
func allTags(notes []string) (kvs []string) {
	for _, n := range notes {
		for _, kv := range scanTagList(n) {
			kvs = append(kvs, kv[0]+"="+kv[1])
		}
	}
	sort.Strings(kvs)
	return kvs
}

// addedTags says whether notes now are those before with the tags added and nothing lost.
func addedTags(before, now []string, added [][2]string) error {
	if len(added) == 0 {
		if strings.Join(before, "\n") != strings.Join(now, "\n") || len(before) != len(now) {
			return viol("notes are %q, were %q", now, before)
		}
		return nil
	}
	want := allTags(before)
	for _, kv := range added {
		want = append(want, kv[0]+"="+kv[1])
	}
	sort.Strings(want)
	if got := allTags(now); strings.Join(got, "\n") != strings.Join(want, "\n") {
		return viol("tags are %q, want %q: notes %q, were %q", got, want, now, before)
	}
	k := 0
	for _, b := range before {
		b = strings.TrimRight(b, " ,")
		for k < len(now) && !strings.Contains(now[k], b) {
			k++
		}
		if k == len(now) {
			return viol("note %q is lost: notes are %q, were %q", b, now, before)
		}
		k++
	}
	return nil
}

func c09Check(c *Ctx, in c09Case) error {
	d := c.Dir()
	l := &in.Led
	m := newModel(l)
	l.write(d)
	w := filepath.Join(d, "work")
	var files, plain []string
	for f := 0; f < max(l.Files, 1); f++ {
		fn := l.txFileName(f)
		files = append(files, fn)
		writeFile(filepath.Join(w, fn), readFile(filepath.Join(d, fn)))
		o := c.Run(w, d, "coin", "format", fn)
		if err := mustOK(o, "format", fn); err != nil {
			return err
		}
		plain = append(plain, o.Stdout)
	}
	args := []string{"modify"}
	opt := func(name, val string) {
		if val != "" {
			args = append(args, name, val)
		}
	}
	opt("-p", in.Payee)
	opt("-tt", in.TTag)
	opt("-pt", in.PTag)
	opt("-a", in.From)
	opt("-a:", in.To)
	opt("-tt:", tagSpec(in.SetT, in.Style))
	opt("-pt:", tagSpec(in.SetP, in.Style))
	args = append(args, files...)
	o := c.Run(w, d, "coin", args...)
	if err := mustOK(o, "modify", args); err != nil {
		return err
	}
	bad := func(f string, a ...any) error { return viol("modify: %s\n%v", fmt.Sprintf(f, a...), args) }
	taggedT, taggedP, moved, untouched := 0, 0, 0, 0
	for f, fn := range files {
		out := readFile(filepath.Join(w, fn))
		before := strings.SplitAfter(plain[f], "\n\n")
		after := strings.SplitAfter(out, "\n\n")
		if len(before) != len(after) {
			return bad("%s has %d transactions, had %d\n%s\n--- was\n%s", fn, len(after)-1, len(before)-1, out, plain[f])
		}
		k := 0
		for _, t := range m.formatted() {
			if t.File != fn {
				continue
			}
			b, a := before[k], after[k]
			k++
			selT := (in.Payee == "" || imatch(in.Payee, t.Src.Desc)) && (in.TTag == "" || tagMatch(in.TTag, t.Tags))
			selP := map[int]bool{}
			onAcc := false
			for i, p := range t.Posts {
				if !selT {
					break
				}
				if in.PTag != "" && tagMatch(in.PTag, p.Tags) {
					selP[i] = true
				}
				if p.Acc.Full == in.From {
					selP[i], onAcc = true, true
				}
			}
			addT := selT && len(in.SetT) > 0 && (in.From == "" || onAcc)
			// with both -a and -pt it is open whether the latter alone makes the transaction tagged
			open := selT && len(in.SetT) > 0 && in.From != "" && !onAcc && len(selP) > 0
			if open && !strings.Contains(a, "#"+in.SetT[0][0]) {
				open = false
			}
			addT = addT || open
			if !addT && (len(selP) == 0 || in.To == "" && len(in.SetP) == 0) {
				untouched++
				if a != b {
					return bad("%s changed although it is not selected\n%s--- was\n%s", t.Src.Desc, a, b)
				}
				continue
			}
			bs, err := readFormatted(b)
			if err != nil {
				return err
			}
			as, err := readFormatted(a)
			if err != nil {
				return err
			}
			if len(as) != 1 || len(bs) != 1 {
				return bad("transaction became\n%s--- was\n%s", a, b)
			}
			fail := func(err error) error { return bad("%s\n%s--- was\n%s", err, a, b) }
			x, y := bs[0], as[0]
			if x.Day != y.Day || x.Code != y.Code || x.Desc != y.Desc || len(x.Posts) != len(y.Posts) {
				return fail(viol("more than asked for changed"))
			}
			var add [][2]string
			if addT {
				add = in.SetT
				taggedT++
			}
			if err := addedTags(x.Notes, y.Notes, add); err != nil {
				return fail(err)
			}
			for i, p := range x.Posts {
				q := y.Posts[i]
				acc := p.Acc
				var add [][2]string
				if selP[i] {
					if in.To != "" {
						acc = in.To
						moved++
					}
					if len(in.SetP) > 0 {
						add = in.SetP
						taggedP++
					}
				}
				if q.Acc != acc {
					return fail(viol("posting %d is of %s, want %s", i+1, q.Acc, acc))
				}
				if q.Amt != p.Amt || q.Com != p.Com || q.Bal != p.Bal || q.BCom != p.BCom {
					return fail(viol("posting %d changed", i+1))
				}
				if err := addedTags(p.Notes, q.Notes, add); err != nil {
					return fail(viol("posting %d: %s", i+1, err))
				}
			}
		}
	}
	// the tags are found by the reports
	for _, set := range []struct {
		kvs []([2]string)
		n   int
	}{{in.SetP, taggedP}} {
		for _, kv := range set.kvs {
			if len(l.Coms) > 1 {
				break // a moved posting may need a conversion now
			}
			for f, fn := range files {
				writeFile(filepath.Join(d, l.txFileName(f)), readFile(filepath.Join(w, fn)))
			}
			pat := "^" + kv[0] + "$:^" + strings.ReplaceAll(kv[1], "+", "\\+") + "$"
			o := c.Coin(d, "register", "-r", "-t", pat, "Root")
			if err := mustOK(o, "register", pat); err != nil {
				return err
			}
			if got := len(lines(o.Stdout)) - 1; got != set.n {
				return bad("register -t %s finds %d postings, want %d\n%s", pat, got, set.n, o.Stdout)
			}
			c.Label("found")
			break
		}
	}
	c.NonTrivial(taggedT+taggedP+moved > 0 && untouched > 0)
	if moved > 0 {
		c.Label("moved")
	}
	if moved > 1 && moved > len(m.txs)-untouched {
		c.Label("several-postings")
	}
	if taggedT > 0 {
		c.Label("tagged-tx")
	}
	if taggedP > 0 {
		c.Label("tagged-posting")
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C09",
		Rule: "a case is a ledger of up to 8 transactions in 1-3 files with notes, tags, assertions and long notes, selection options (-p, -tt, one of -pt or -a) and actions (-a:, -tt:, -pt: with one or two new tags); " +
			"non-trivial when at least one transaction is changed and one is not",
		Subs: []Sub{sub("modify", 8000, 60000, c09Gen, c09Check)},
	})
}
