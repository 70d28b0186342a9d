package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

type c19Case struct {
	Led Led
	Dir string // of the ledger
}

// texts that mean something to HTML, JSON or JavaScript
var markup = []string{
	"</script>", "</SCRIPT >", "</script", "<script>", "<!--", "-->", "<![CDATA[", "]]>", "<body>", "</body></html>", "<img src=x onerror=alert(1)>", "&lt;/script&gt", "&amp", "&",
	`"`, `\`, `\u003c`, `\"`, `\n`, `'`, "`${1}`", "{", "}", "[1,2", "//", "/*", "null", "\u2028", "\u2029", "\x01", "\x7f", "\u00a0", "é", "日本", "😀", "\U0010ffff", "\u202e", "a\tb", "a\x0bb", "%s%d", "%!", "\u0000",
}

func genMarkup(t *rapid.T) string {
	var parts []string
	for n := num(t, "nparts", 1, 4); n > 0; n-- {
		if chance(t, "plain", 3) {
			parts = append(parts, pick(t, "word", wordPool...))
		} else {
			parts = append(parts, pick(t, "markup", markup...))
		}
	}
	return strings.TrimSpace(strings.Join(parts, pick(t, "sep", "", " ")))
}

func c19Gen(t *rapid.T) (in c19Case) {
	in.Led = genLed(t, ledOpt{MaxComs: 3, MaxTx: 10, Days: 10, Asserts: 4, Notes: true, Codes: true, Attrs: true, Prices: true, Singles: true, Big: true, Unb: true})
	if in.Led.Prices == nil && rapid.Bool().Draw(t, "other") { // any tree of commodities
		in.Led = genLed(t, ledOpt{MaxComs: 3, MaxTx: 6, Days: 10, Asserts: 4, Notes: true, Attrs: true, AnyPrices: true})
	}
	l := &in.Led
	clean := func(s string) string {
		if s == "" {
			return "x"
		}
		return s
	}
	for i := range l.Coms {
		if rapid.Bool().Draw(t, "mname") {
			l.Coms[i].Name = clean(genMarkup(t))
		}
	}
	for i := range l.Accs {
		if chance(t, "mnote", 3) {
			l.Accs[i].Note = clean(genMarkup(t))
		}
	}
	notes := func(notes []string) []string {
		if chance(t, "mnotes", 2) {
			s := clean(genMarkup(t))
			if chance(t, "tagged", 3) {
				s += " #k: " + clean(strings.TrimSpace(strings.ReplaceAll(genMarkup(t), ",", "")))
			}
			notes = append(notes, strings.TrimPrefix(s, " "))
		}
		return notes
	}
	for i := range l.Txs {
		x := &l.Txs[i]
		if rapid.Bool().Draw(t, "mdesc") {
			x.Desc = clean(strings.TrimSpace(strings.ReplaceAll(genMarkup(t), ";", "")))
			if strings.HasPrefix(x.Desc, "(") {
				x.Desc = "a" + x.Desc
			}
		}
		x.Notes = notes(x.Notes)
		for j := range x.Posts {
			x.Posts[j].Notes = notes(x.Posts[j].Notes)
		}
	}
	in.Dir = pick(t, "dir", "db", "db", "<", "a & b", "<!--<script>", "\"", "ü", "</script>/</script>")
	return in
}

// scriptEnd gives where the text of a script element ends, as HTML says.
func scriptEnd(s string) int {
	low := strings.ToLower(s)
	tag := func(i int, name string) bool {
		if !strings.HasPrefix(low[i:], name) {
			return false
		}
		i += len(name)
		return i < len(low) && strings.IndexByte(" \t\n\f/>", low[i]) >= 0
	}
	escaped, double := false, false
	for i := 0; i < len(low); i++ {
		switch {
		case !escaped && strings.HasPrefix(low[i:], "<!--"):
			escaped = true
			i += 1 // the dashes can be those of the end
		case escaped && strings.HasPrefix(low[i:], "-->"):
			escaped, double = false, false
		case escaped && !double && tag(i, "<script"):
			double = true
		case double && tag(i, "</script"):
			double = false
		case !double && tag(i, "</script"):
			return i
		}
	}
	return -1
}

var blockIds = []string{"importedCommodities", "importedPrices", "importedAccounts", "importedTransactions"}

// cutBlocks takes the data blocks out of the document.
func cutBlocks(doc string) (map[string]string, string, error) {
	blocks := map[string]string{}
	rest := ""
	for {
		low := strings.ToLower(doc)
		i := strings.Index(low, "<script")
		if i < 0 {
			break
		}
		j := strings.IndexByte(doc[i:], '>')
		if j < 0 {
			return nil, "", viol("structure: script tag without end")
		}
		head := doc[i : i+j+1]
		rest += doc[:i] + head
		doc = doc[i+j+1:]
		k := scriptEnd(doc)
		if k < 0 {
			return nil, "", viol("structure: script %s without end", head)
		}
		for _, id := range blockIds {
			if strings.Contains(head, `"`+id+`"`) {
				if !strings.Contains(head, `"application/json"`) {
					return nil, "", viol("structure: block %s", head)
				}
				if _, dup := blocks[id]; dup {
					return nil, "", viol("structure: block %s twice", id)
				}
				blocks[id] = doc[:k]
				doc = doc[k:]
				k = 0
			}
		}
		rest += doc[:k]
		doc = doc[k:]
	}
	for _, id := range blockIds {
		if _, ok := blocks[id]; !ok {
			return nil, "", viol("structure: no block %s", id)
		}
	}
	return blocks, rest + doc, nil
}

func unmarshal(s string, v any) error {
	d := json.NewDecoder(bytes.NewReader([]byte(s)))
	if err := d.Decode(v); err != nil {
		return err
	}
	if d.More() {
		return fmt.Errorf("more after it: %q", s[d.InputOffset():])
	}
	return nil
}

type jPost struct {
	Account, Quantity string
	Balance           *string
	Asserted          bool `json:"balance_asserted"`
	Notes             []string
	Tags              map[string]string
}

type jTx struct {
	Posted, Description, Code, Location string
	Notes                               []string
	Tags                                map[string]string
	Postings                            []jPost
}

func showTags(tags map[string]string) string {
	var ks []string
	for k, v := range tags {
		ks = append(ks, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func c19Check(c *Ctx, in c19Case) error {
	root := c.Dir()
	// the document around the blocks
	e := filepath.Join(root, "empty")
	empty := Led{Coms: []Com{{Id: "CAD", Dec: 2, Default: true}}}
	empty.write(e)
	o := c.Run(e, e, "coin2html")
	if err := mustOK(o, "coin2html"); err != nil {
		return err
	}
	_, frame, err := cutBlocks(o.Stdout)
	if err != nil {
		return err
	}
	for _, s := range []string{"<title>viewer</title>", `<div id="main">body</div>`, `document.title = "x"`} {
		if strings.Count(frame, s) != 1 {
			return viol("structure: document without %s\n%s", s, frame)
		}
	}
	d := filepath.Join(root, in.Dir)
	in.Led.write(d)
	m := newModel(&in.Led)
	o = c.Run(d, d, "coin2html")
	if err := mustOK(o, "coin2html"); err != nil {
		return err
	}
	for _, l := range lines(strings.TrimRight(o.Stderr, "\n")) {
		if !htmlCount.MatchString(l) {
			return viol("message: %s", l)
		}
	}
	blocks, rest, err := cutBlocks(o.Stdout)
	if err != nil {
		return err
	}
	if rest != frame {
		return viol("structure: the document around the data is\n%s\nwant\n%s", rest, frame)
	}
	where := func(file string, line int) string { return fmt.Sprintf("%s:%d", filepath.Join(d, file), line) }
	// commodities
	var coms map[string]struct {
		Id, Name, Location, Code string
		Decimals                 int
	}
	if err := unmarshal(blocks[blockIds[0]], &coms); err != nil {
		return viol("commodities: %v", err)
	}
	line := 1
	var got, want []string
	for _, cm := range in.Led.Coms {
		want = append(want, fmt.Sprintf("%s: %s %q %d %q", cm.Id, cm.Id, cm.Name, cm.Dec, where("commodities.coin", line)))
		line += strings.Count(cm.render(), "\n") + 1
	}
	for k, cm := range coms {
		got = append(got, fmt.Sprintf("%s: %s %q %d %q", k, cm.Id, cm.Name, cm.Decimals, cm.Location))
	}
	if err := sameSet("commodities", got, want); err != nil {
		return err
	}
	// prices
	var prices []struct{ Commodity, Currency, Location, Time, Value string }
	if err := unmarshal(blocks[blockIds[1]], &prices); err != nil {
		return viol("prices: %v", err)
	}
	got, want = nil, nil
	for i, p := range in.Led.Prices {
		want = append(want, fmt.Sprintf("%s %s %s %s %q", p.Day, p.Com, m.show(cutLiteral(p.Val, m.dec[p.Cur]), p.Cur)+" "+p.Cur, p.Cur, where("prices.coin", i+1)))
	}
	for _, p := range prices {
		got = append(got, fmt.Sprintf("%s %s %s %s %q", p.Time, p.Commodity, p.Value, p.Currency, p.Location))
	}
	if err := sameSet("prices", got, want); err != nil {
		return err
	}
	// accounts
	var accs map[string]struct{ Name, FullName, Commodity, Location, Closed, Code, Parent string }
	if err := unmarshal(blocks[blockIds[2]], &accs); err != nil {
		return viol("accounts: %v", err)
	}
	got, want = nil, nil
	line = 1
	loc := map[string]string{}
	for _, a := range in.Led.Accs {
		loc[a.Full] = where("accounts.coin", line)
		line += strings.Count(a.render(), "\n") + 1
	}
	for _, a := range m.sorted() {
		parent, closed := "", ""
		if a.Parent != nil {
			parent = a.Parent.Full
		}
		if a.Src != nil {
			closed = a.Src.Closed
		}
		want = append(want, fmt.Sprintf("%s: %s %s %s parent %q closed %q %q", a.Full, a.Name, a.Full, a.Com, parent, closed, loc[a.Full]))
	}
	for k, a := range accs {
		l := a.Location
		if _, ok := loc[k]; !ok {
			l = "" // not defined
		}
		got = append(got, fmt.Sprintf("%s: %s %s %s parent %q closed %q %q", k, a.Name, a.FullName, a.Commodity, a.Parent, a.Closed, l))
	}
	if err := sameSet("accounts", got, want); err != nil {
		return err
	}
	// transactions
	var txs []jTx
	if err := unmarshal(blocks[blockIds[3]], &txs); err != nil {
		return viol("transactions: %v", err)
	}
	got, want = nil, nil
	for _, x := range m.txs {
		s := fmt.Sprintf("%s (%s) %q %q notes %q tags %s", x.Src.Day, x.Src.Code, x.Src.Desc, where(x.File, x.Line), x.Src.Notes, showTags(x.Tags))
		for _, p := range x.Posts {
			s += fmt.Sprintf("\n  %s %s %s = %s %s %v notes %q tags %s", p.Acc.Full, m.show(p.Q, p.Com), p.Com, m.show(p.Run, p.Acc.Com), p.Acc.Com, p.Src.Assert != "", p.Src.Notes, showTags(p.Tags))
		}
		want = append(want, s)
	}
	for i, x := range txs {
		if i > 0 && x.Posted < txs[i-1].Posted {
			return viol("transactions: %s after %s", x.Posted, txs[i-1].Posted)
		}
		s := fmt.Sprintf("%s (%s) %q %q notes %q tags %s", x.Posted, x.Code, x.Description, x.Location, x.Notes, showTags(x.Tags))
		for _, p := range x.Postings {
			b := "<none>"
			if p.Balance != nil {
				b = *p.Balance
			}
			s += fmt.Sprintf("\n  %s %s = %s %v notes %q tags %s", p.Account, p.Quantity, b, p.Asserted, p.Notes, showTags(p.Tags))
		}
		got = append(got, s)
	}
	if err := sameSet("transactions", got, want); err != nil {
		return err
	}
	c.NonTrivial(len(m.txs) > 2)
	if strings.Contains(in.Led.comFile()+fmt.Sprint(in.Led.Txs)+d, "<") {
		c.Label("markup")
	}
	return nil
}

func sameSet(what string, got, want []string) error {
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		return viol("%s: %s", what, firstDiff(got, want))
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C19",
		Rule: "a case is a ledger of up to 3 commodities, 9 accounts and 10 transactions with assertions, prices and texts made of markup, JSON and JavaScript syntax and odd characters, in a directory which may be named like markup; " +
			"non-trivial with over 2 transactions",
		Subs: []Sub{sub("export", 5000, 60000, c19Gen, c19Check)},
	})
}
