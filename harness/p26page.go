package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// The page of the viewer: whatever was chosen and clicked, what is shown agrees with the controls.

type pAct struct {
	Op   string
	Text string `json:",omitempty"`
	Num  int    `json:",omitempty"`
	On   bool   `json:",omitempty"`
}

type c26Page struct {
	Led  Led
	TZ   string
	Acts []pAct
}

var pageTops = map[string]string{"Liab": "Liabilities", "Eq": "Equity"}

// known puts all accounts below the ones the viewer knows.
func known(full string) string {
	top, rest, sub := strings.Cut(full, ":")
	if n := pageTops[top]; n != "" {
		top = n
	} else if !contains([]string{"Assets", "Expenses", "Income", "Unbalanced"}, top) {
		top, rest, sub = "Assets", full, true
	}
	if sub {
		return top + ":" + rest
	}
	return top
}

func c26PageGen(t *rapid.T) (in c26Page) {
	in.Led = genTreeLed(t, ledOpt{MaxComs: pick(t, "maxcoms", 1, 1, 3), MaxTx: 20, Notes: true, Codes: true, Singles: true, Attrs: true, Unb: true, Asserts: pick(t, "asserts", 0, 4)})
	l := &in.Led
	names, taken := map[string]string{}, map[string]bool{}
	declared := map[string]bool{}
	for i := range l.Accs {
		declared[l.Accs[i].Full] = true
	}
	name := func(full string) string {
		if names[full] == "" {
			n := known(full)
			for taken[n] {
				n += "2"
			}
			names[full], taken[n] = n, true
			if !declared[full] && full != "Unbalanced" {
				l.Accs = append(l.Accs, Acc{Full: n})
			}
		}
		return names[full]
	}
	for i := range l.Accs {
		a := &l.Accs[i]
		a.Full = name(a.Full)
		if a.Closed != "" && len(l.Txs) > 0 {
			a.Closed = day(pick(t, "closeat", l.Txs...).Day).AddDate(0, 0, num(t, "closeoff", -1, 1)).Format(dateFmt)
		}
	}
	for i := range l.Txs {
		for j := range l.Txs[i].Posts {
			l.Txs[i].Posts[j].Acc = name(l.Txs[i].Posts[j].Acc)
		}
	}
	if !contains(accNames(l), "Assets") {
		l.Accs = append(l.Accs, Acc{Full: "Assets"})
	}
	in.TZ = genZone(t)
	// often the page is first brought to where there is much to see
	first := func(op, text string) {
		in.Acts = append(in.Acts, pAct{Op: op, Text: text, On: true})
	}
	switch num(t, "scene", 0, 5) {
	case 0, 1, 2:
		top, _, _ := strings.Cut(pick(t, "top", accNames(l)...), ":")
		if contains([]string{"Liabilities", "Income", "Expenses", "Equity"}, top) {
			first("root", top)
		}
		if chart := chance(t, "chart", 3); chart {
			first("view", "Aggregated Register - Chart")
		} else {
			first("view", "Register")
			if !chance(t, "alone", 3) {
				first("subs", "")
			}
			first("aggregate", pick(t, "by", "Weekly", "Monthly", "Quarterly", "Yearly"))
		}
		if chance(t, "balances", 2) {
			first("style", "Balances")
		}
		if chance(t, "some", 2) {
			in.Acts = append(in.Acts, pAct{Op: "max", Num: num(t, "howmany", 1, 6)})
		}
		if chance(t, "look", 2) {
			in.Acts = append(in.Acts, pAct{Op: "details", Num: num(t, "num", 0, 1000)})
		}
	}
	if len(in.Acts) == 0 && chance(t, "list", 3) {
		first("view", "Register")
		first("aggregate", "None")
		first(pick(t, "shown", "subs", "notes", "location", "notes"), "")
		first(pick(t, "also", "subs", "notes", "location"), "")
	}
	for k := num(t, "nacts", 1, 9); k > 0; k-- {
		a := pAct{Op: pick(t, "act", "view", "view", "view", "root", "account", "account", "account", "into", "heading", "start", "end", "aggregate", "aggregate", "aggregate", "style", "subs", "subs", "subs", "notes", "location", "max", "depth", "closed", "exclude", "include", "details", "details", "bar", "bar", "box", "legend"), Num: num(t, "num", 0, 1000)}
		switch a.Op {
		case "view":
			a.Text = pick(t, "view", "Register", "Register", "Register", "Balances", "Balances - Chart", "Aggregated Register - Chart")
		case "root":
			a.Text = pick(t, "root", "Assets", "Liabilities", "Income", "Expenses", "Equity", "Unbalanced")
		case "start":
			a.Text, _ = genRange(t, l)
		case "end":
			_, a.Text = genRange(t, l)
		case "aggregate":
			a.Text = pick(t, "by", "None", "Weekly", "Monthly", "Quarterly", "Yearly")
		case "style":
			a.Text = pick(t, "style", "Flows", "Balances")
		case "subs", "notes", "location", "closed":
			a.On = chance(t, "off", 4) == false
		case "max", "depth":
			a.Num = num(t, "howmany", 1, 6)
		}
		in.Acts = append(in.Acts, a)
	}
	return in
}

func accNames(l *Led) (ns []string) {
	for i := range l.Accs {
		ns = append(ns, l.Accs[i].Full)
	}
	return ns
}

func (a *pAct) step() vStep {
	const view = "#main section#view "
	input := func(sel string, k string, v any) vStep { return vStep{"op": "input", "sel": sel, k: v} }
	click := func(sel, event string) vStep {
		return vStep{"op": "click", "sel": sel, "event": event, "pick": a.Num}
	}
	switch a.Op {
	case "view":
		return vStep{"op": "choose", "sel": "#main #controls select#view", "text": a.Text}
	case "root":
		return vStep{"op": "choose", "sel": "#sidebar select#root", "text": a.Text}
	case "aggregate":
		return vStep{"op": "choose", "sel": view + "select#aggregate", "text": a.Text}
	case "style":
		return vStep{"op": "choose", "sel": view + "select#aggregationStyle", "text": a.Text}
	case "start", "end":
		return input("#main #controls input#"+a.Op, "value", a.Text)
	case "closed":
		return input("#main #controls input#closedAccounts", "checked", a.On)
	case "subs":
		return input(view+"input#includeSubAccounts", "checked", a.On)
	case "notes":
		return input(view+"input#includeNotes", "checked", a.On)
	case "location":
		return input(view+"input#showLocation", "checked", a.On)
	case "max":
		return input(view+"input#subAccountMax", "value", fmt.Sprint(a.Num))
	case "depth":
		return input(view+"input#balanceDepth", "value", fmt.Sprint(a.Num))
	case "account":
		return click("#sidebar ul#accounts li", "click")
	case "into":
		return click("#sidebar ul#accounts li", "dblclick")
	case "heading":
		return click("#main output#account span.account a", "click")
	case "exclude":
		return click(view+"table th", "click")
	case "include":
		return click(view+"span#excludedSubAccounts span", "click")
	case "details":
		return click(view+"table td", "click")
	case "bar":
		return click(view+"svg rect", "click")
	case "box":
		return click(view+"svg text", "click")
	case "legend":
		return click(view+"svg .legend text", "click")
	}
	infraf("no action %s", a.Op)
	return nil
}

type vTable struct {
	Head []string
	Rows [][]string
}

type vOption [2]any

type vPage struct {
	Accounts, Roots, Heading, Titles, Excluded   []string
	Bars                                         [][2]*float64
	Commodity, From, To, Min, Limit              string
	Table, Details                               *vTable
	View, Aggregate, Style, Root                 []vOption
	Subs, Notes, Location, Closed, Chart, Hidden *bool
	Max, Depth                                   int
}

func chosen(os []vOption) string {
	s := ""
	for _, o := range os {
		if o[1] == true {
			s = o[0].(string)
		}
	}
	return s
}

func on(b *bool) bool { return b != nil && *b }

type pageCheck struct {
	c    *Ctx
	m    *model
	conv *viewConv
	dir  string
	p    *vPage
	acc  *mAcc
	from time.Time
	to   time.Time
}

func c26PageCheck(c *Ctx, in c26Page) error {
	m, html, err := c.viewable(&in.Led)
	if err != nil || html == "" {
		return err
	}
	// sums and conversions have to fit as well
	most := new(big.Int)
	for _, a := range m.accs {
		for _, p := range a.Posts {
			most.Add(most, new(big.Int).Abs(p.Q))
		}
	}
	if len(in.Led.Coms) > 1 {
		most.Lsh(most, 13)
	}
	if most.BitLen() > 52 {
		c.Label("not-decided")
		return nil
	}
	steps := []vStep{{"op": "start"}, {"op": "read"}}
	for i := range in.Acts {
		steps = append(steps, in.Acts[i].step(), vStep{"op": "read"})
	}
	rs, ok := c.view(in.TZ, html, true, steps...)
	if !ok {
		return viol("the page hangs")
	}
	story := func(n int) string {
		var s []string
		for i := 0; i < n; i++ {
			s = append(s, strings.TrimSpace(strings.ReplaceAll(js(in.Acts[i]), `"`, "")))
		}
		return "in time zone " + in.TZ + " after " + strings.Join(s, " ")
	}
	conv := &viewConv{c: c, m: m, html: html, tz: in.TZ, date: "2020-01-01", know: map[string]*big.Int{}}
	var prev *vPage
	for i := 0; i < len(rs); i++ {
		n := i / 2
		if rs[i].Error != "" {
			return viol("page %s: fails: %s\n%s", story(n), rs[i].Error, rs[i].Stack)
		}
		if i%2 == 0 {
			continue
		}
		p := &vPage{}
		infraIf(json.Unmarshal(rs[i].OK, p))
		if n > 0 {
			if err := m.acted(&in.Acts[n-1], &rs[i-1], prev, p); err != nil {
				return viol("page %s: %v", story(n), err)
			}
			if s := rs[i-1].OK; len(s) > 0 && s[0] == '{' || string(s) == "null" {
				c.Label("act-%s", in.Acts[n-1].Op)
			}
		} else {
			if h := strings.Join(p.Heading, ":"); h != "Assets" {
				return viol("page starts with %q", h)
			}
			if ts := m.byDate(); len(ts) > 0 {
				lo, hi := fmt.Sprintf("%04d-01-01", ts[0].Date.Year()), fmt.Sprintf("%04d-12-31", ts[len(ts)-1].Date.Year())
				if p.From != lo || p.To != hi {
					return viol("page starts with %s to %s, should be %s to %s", p.From, p.To, lo, hi)
				}
				if p.Min > lo || p.Limit < hi {
					return viol("page allows dates from %s to %s only, the ledger is from %s to %s", p.Min, p.Limit, lo, hi)
				}
			}
		}
		k := &pageCheck{c: c, m: m, conv: conv, dir: c.dir, p: p}
		for {
			err := k.check()
			if again, e := conv.ask(); e != nil {
				return viol("page %s: %v", story(n), e)
			} else if again {
				continue
			}
			if err != nil && conv.big {
				c.Label("too-big")
				return nil
			}
			if err != nil {
				return viol("page %s\n%v", story(n), err)
			}
			break
		}
		if op := in.Acts[max(n-1, 0)].Op; n > 0 && (op == "details" && p.Table != nil || op == "bar") && p.Details != nil {
			if err := k.details(&rs[i-1], prev); err != nil && !conv.big {
				return viol("page %s\n%v", story(n), err)
			}
		}
		prev = p
	}
	return nil
}

// A pHit is what was clicked on.
type pHit struct {
	Of, At, Column, Bar int
	Text, Title         string
}

// acted checks that the controls show what was done.
func (m *model) acted(a *pAct, r *vResult, old, p *vPage) error {
	if string(r.OK) != "null" && (len(r.OK) == 0 || r.OK[0] == '"') {
		return nil // there is no such thing at the moment
	}
	var hit pHit
	if a.Op != "view" && string(r.OK) != "null" {
		infraIf(json.Unmarshal(r.OK, &hit))
	}
	head := strings.Join(p.Heading, ":")
	bad := func(what string, got any) error { return viol("%s shows %v", what, got) }
	switch a.Op {
	case "view":
		if s := chosen(p.View); s != a.Text {
			return bad("view", s)
		}
	case "root":
		if head != a.Text {
			return bad("heading", head)
		}
	case "aggregate":
		if s := chosen(p.Aggregate); s != a.Text {
			return bad("aggregation", s)
		}
	case "style":
		if s := chosen(p.Style); s != a.Text {
			return bad("aggregation style", s)
		}
	case "start":
		if p.From != a.Text || p.To != old.To {
			return bad("range", p.From+" "+p.To)
		}
	case "end":
		if p.To != a.Text || p.From != old.From {
			return bad("range", p.From+" "+p.To)
		}
	case "closed":
		if on(p.Closed) != a.On {
			return bad("closed accounts", on(p.Closed))
		}
	case "subs":
		if on(p.Subs) != a.On {
			return bad("sub-accounts", on(p.Subs))
		}
	case "notes":
		if on(p.Notes) != a.On {
			return bad("notes", on(p.Notes))
		}
	case "location":
		if on(p.Location) != a.On {
			return bad("location", on(p.Location))
		}
	case "max":
		if p.Max != a.Num {
			return bad("number of sub-accounts", p.Max)
		}
	case "depth":
		if p.Depth != a.Num {
			return bad("depth", p.Depth)
		}
	case "account", "into":
		if hit.Of > 0 && len(hit.Text) < 40 && !strings.HasSuffix(head, hit.Text) {
			return viol("clicking on %s goes to %s", hit.Text, head)
		}
	case "heading":
		if hit.Of > 0 && head != strings.Join(old.Heading[:hit.At+1], ":") {
			return viol("clicking on %s in %v goes to %s", hit.Text, old.Heading, head)
		}
	}
	switch a.Op {
	case "account", "into", "heading", "root", "exclude", "include", "bar", "box", "legend":
	default:
		if head != strings.Join(old.Heading, ":") || js(p.Excluded) != js(old.Excluded) && len(p.Excluded) > 0 && len(old.Excluded) > 0 {
			return viol("%s goes from %v to %v, excluded %v and %v", a.Op, old.Heading, p.Heading, old.Excluded, p.Excluded)
		}
	}
	if a.Op == "exclude" && hit.Of > 0 && old.Table != nil && len(p.Excluded) != len(old.Excluded) {
		if hit.At == 0 || hit.Text == "Other" || strings.HasSuffix(hit.Text, "Total") || len(p.Excluded) != len(old.Excluded)+1 {
			return viol("excluding %q goes from %v to %v", hit.Text, old.Excluded, p.Excluded)
		}
	}
	if (a.Op == "bar" || a.Op == "box") && hit.Title != "" && chosen(old.View) == "Balances - Chart" {
		if name, _, _ := strings.Cut(hit.Title, " "); name != head {
			return viol("clicking on the box of %q goes to %s", hit.Title, head)
		}
	}
	if a.Op == "legend" && hit.Of > 0 {
		grown := 1
		if hit.Text == "Other" {
			grown = 0
		}
		if head != strings.Join(old.Heading, ":") || len(p.Excluded) != len(old.Excluded)+grown {
			return viol("clicking on %q in the legend of %v goes from %v to %v in %s", hit.Text, old.Heading, old.Excluded, p.Excluded, head)
		}
	}
	if a.Op == "include" && hit.Of > 0 {
		want := append(append([]string{}, old.Excluded[:hit.At]...), old.Excluded[hit.At+1:]...)
		if js(p.Excluded) != js(want) {
			return viol("including %q goes from %v to %v", hit.Text, old.Excluded, p.Excluded)
		}
	}
	// the list of accounts, which is made when moving about
	if a.Op == "root" || a.Op == "into" && hit.Of > 0 || a.Op == "closed" {
		acc := m.accs[head]
		if acc == nil {
			return viol("no account %q", head)
		}
		want := []string{}
		for _, v := range acc.visible(nil, on(p.Closed), isoDay(p.To))[1:] {
			want = append(want, shorten(v.Full[len(acc.Full):], 40))
		}
		if js(p.Accounts) != js(want) {
			return viol("accounts below %s are %q, should be %q", head, p.Accounts, want)
		}
	}
	return nil
}

// shorten cuts the parts of an account name, from the first on, to fit.
func shorten(name string, size int) string {
	parts := strings.Split(name, ":")
	for i := range parts {
		for len(strings.Join(parts, ":")) > size && len(parts[i]) > 1 {
			parts[i] = parts[i][:len(parts[i])-1]
		}
	}
	return strings.Join(parts, ":")
}

func (k *pageCheck) amount(u *big.Int, com string) string {
	k.conv.saw(u)
	s := k.m.show(u, com)
	if k.m.dec[com] > 0 {
		s = commas(s)
	}
	return s + " " + com
}

// sameAmount compares amounts as shown; those without decimals may be written either way.
func (k *pageCheck) sameAmount(got string, u *big.Int, com string) bool {
	return got == k.amount(u, com) || got == commas(k.m.show(u, com))+" "+com
}

func (k *pageCheck) check() error {
	p, m := k.p, k.m
	full := strings.Join(p.Heading, ":")
	k.acc = m.accs[full]
	if k.acc == nil {
		return viol("no account %q", full)
	}
	if strings.TrimSpace(p.Commodity) != "("+k.acc.Com+")" {
		return viol("%s is in %s, shown %q", full, k.acc.Com, p.Commodity)
	}
	k.from, k.to = isoDay(p.From), isoDay(p.To)
	if k.to.Before(k.from) {
		return nil
	}
	where := fmt.Sprintf("%s of %s from %s to %s (closed %v, sub-accounts %v, aggregate %s %s, max %d, depth %d, without %q)", chosen(p.View), full, p.From, p.To, on(p.Closed), on(p.Subs), chosen(p.Aggregate), chosen(p.Style), p.Max, p.Depth, p.Excluded)
	var err error
	switch chosen(p.View) {
	case "Balances":
		err = k.balances()
	case "Register":
		switch {
		case chosen(p.Aggregate) == "None" || chosen(p.Aggregate) == "":
			err = k.register()
		case on(p.Subs):
			err = k.aggregatedSubs()
		default:
			err = k.aggregated()
		}
	case "Balances - Chart":
		err = k.balancesChart()
	case "Aggregated Register - Chart":
		err = k.aggregatedChart()
	default:
		return viol("view %q", chosen(p.View))
	}
	if err != nil {
		return viol("%s: %v", where, err)
	}
	k.c.Label("view-%s-%v", chosen(p.View), on(p.Subs))
	return nil
}

func (k *pageCheck) table() (*vTable, error) {
	if k.p.Table == nil {
		return nil, viol("no table")
	}
	return k.p.Table, nil
}

func (k *pageCheck) closedAbove() bool {
	for a := k.acc; a != nil; a = a.Parent {
		if a.closedAt(k.to) && !on(k.p.Closed) {
			return true
		}
	}
	return false
}

type accTotal struct {
	a              *mAcc
	balance, total *big.Int
	depth          int
}

func (k *pageCheck) totals() (out []accTotal) {
	var list func(a *mAcc, depth int) *big.Int
	list = func(a *mAcc, depth int) *big.Int {
		at := len(out)
		b := a.balanceAt(k.to)
		out = append(out, accTotal{a: a, balance: b, depth: depth})
		total := new(big.Int).Set(b)
		for _, s := range a.Kids {
			if on(k.p.Closed) || !s.closedAt(k.to) {
				total.Add(total, k.conv.in(list(s, depth+1), s.Com, a.Com))
			}
		}
		out[at].total = total
		return total
	}
	list(k.acc, 0)
	return out
}

func (k *pageCheck) balances() error {
	t, err := k.table()
	if err != nil || k.closedAbove() {
		return err
	}
	var want [][]string
	for _, b := range k.totals() {
		if b.depth <= k.p.Depth {
			want = append(want, []string{k.amount(b.balance, b.a.Com), k.amount(b.total, b.a.Com), b.a.Full[len(k.acc.Full):]})
		}
	}
	k.c.NonTrivial(len(want) > 2)
	return k.sameRows(t, want)
}

func (k *pageCheck) sameRows(t *vTable, want [][]string) error {
	if len(t.Rows) != len(want) {
		return viol("%d rows, should be %d\n%s\nshould be\n%s", len(t.Rows), len(want), head(js(t.Rows), 1000), head(js(want), 1000))
	}
	for i, r := range t.Rows {
		for j := range want[i] {
			if len(r) <= j || !sameCell(r[j], want[i][j]) {
				return viol("row %d is %q, should be %q", i, r, want[i])
			}
		}
	}
	return nil
}

// sameCell compares cells; amounts without decimals may have thousands separated.
func sameCell(got, want string) bool {
	if got == want {
		return true
	}
	if n, com, ok := strings.Cut(want, " "); ok && !strings.Contains(n, ".") && strings.Trim(n, "-0123456789") == "" {
		return got == commas(n)+" "+com
	}
	return false
}

// counter says whether the account may be shown as the other side of the posting.
func counter(p *mPost, name string) bool {
	any := false
	opposite := false
	for _, q := range p.Tx.Posts {
		if q != p && q.Acc.Full == name {
			any = true
		}
		if q != p && p.Q.Sign() != 0 && q.Q.Sign() != p.Q.Sign() {
			opposite = true
		}
	}
	if !opposite {
		return any || name == "" && len(p.Tx.Posts) == 1
	}
	for _, q := range p.Tx.Posts {
		if q != p && q.Acc.Full == name && q.Q.Sign() != p.Q.Sign() {
			return true
		}
	}
	return false
}

// shown gives the postings of the register in some order.
func (k *pageCheck) shown() (ps []*mPost) {
	if !on(k.p.Subs) {
		return inRange(k.acc.Posts, k.from, k.to)
	}
	for _, v := range k.acc.visible(nil, on(k.p.Closed), k.to) {
		ps = append(ps, inRange(v.Posts, k.from, k.to)...)
	}
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].Tx.Date.Before(ps[j].Tx.Date) })
	return ps
}

func (k *pageCheck) register() error {
	t, err := k.table()
	if err != nil {
		return err
	}
	left := k.shown()
	rows := t.Rows
	if on(k.p.Notes) {
		if len(rows) != 2*len(left) {
			return viol("%d rows with notes for %d postings", len(rows), len(left))
		}
	} else if len(rows) != len(left) {
		return viol("%d rows for %d postings", len(rows), len(left))
	}
	k.c.NonTrivial(len(left) > 2)
	total := new(big.Int)
	for i := 0; len(left) > 0; i++ {
		r := rows[i]
		note := []string(nil)
		if on(k.p.Notes) {
			r, note = rows[2*i], rows[2*i+1]
		}
		found := -1
		for j, p := range left {
			if !p.Tx.Date.Equal(left[0].Tx.Date) {
				break
			}
			first := true // postings of an account keep their order
			for _, q := range left[:j] {
				first = first && q.Acc != p.Acc
			}
			if first && k.isRow(r, note, p, total) {
				found = j
				break
			}
		}
		if found < 0 {
			return viol("row %d %q %q is not of the next posting, %s %s %s, after a total of %s", i, r, note, left[0].Tx.Src.Day, left[0].Acc.Full, k.m.withCom(left[0].Q, left[0].Com), k.amount(total, k.acc.Com))
		}
		p := left[found]
		total.Add(total, k.conv.in(p.Q, p.Com, k.acc.Com))
		left = append(left[:found:found], left[found+1:]...)
	}
	return nil
}

func (k *pageCheck) isRow(r, note []string, p *mPost, before *big.Int) bool {
	total := new(big.Int).Add(before, k.conv.in(p.Q, p.Com, k.acc.Com))
	n := 6
	if on(k.p.Location) {
		n = 7
	}
	if len(r) != n || r[0] != iso(p.Tx.Src.Day) || r[1] != p.Tx.Src.Desc || !k.sameAmount(r[5], total, k.acc.Com) {
		return false
	}
	if on(k.p.Subs) {
		if r[2] != shorten(p.Acc.Full[len(k.acc.Full):], 30) || !counter(p, r[3]) || !k.sameAmount(r[4], p.Q, p.Com) {
			return false
		}
	} else if !counter(p, r[2]) || !k.sameAmount(r[3], p.Q, p.Com) || !k.sameAmount(r[4], p.Run, p.Acc.Com) {
		return false
	}
	if n == 7 && r[6] != fmt.Sprintf("%s:%d", filepath.Join(k.dir, p.Tx.File), p.Tx.Line) {
		return false
	}
	return note == nil || len(note) == 1 && note[0] == strings.Join(p.Tx.Src.Notes, "; ")
}

func (k *pageCheck) flows() bool { return chosen(k.p.Style) == "Flows" }

func (k *pageCheck) value(g *mGroup) *big.Int {
	if k.flows() {
		return g.sum
	}
	return g.balance
}

func (k *pageCheck) aggregated() error {
	t, err := k.table()
	if err != nil {
		return err
	}
	gs := k.acc.groups(chosen(k.p.Aggregate), k.from, k.to)
	cum := len(t.Head) > 2
	for _, r := range t.Rows {
		if len(r) != len(t.Head) {
			return viol("row %q has columns %q", r, t.Head)
		}
	}
	var want [][]string
	for i := range gs {
		g := &gs[i]
		r := []string{g.start.Format(isoFmt), k.amount(k.value(g), k.acc.Com)}
		if cum {
			r = append(r, k.amount(g.total, k.acc.Com))
		}
		want = append(want, r)
		k.c.NonTrivial(len(g.posts) > 1)
	}
	return k.sameRows(t, want)
}

// excluded gives the excluded accounts.
func (k *pageCheck) excluded() (out []string) {
	for _, s := range k.p.Excluded {
		out = append(out, k.acc.Full+strings.TrimSpace(s))
	}
	return out
}

// tops are the accounts to show when aggregating with sub-accounts, all with their groups.
func (k *pageCheck) tops() (order []string, all map[string][]mGroup) {
	all = map[string][]mGroup{}
	for _, v := range k.acc.visible(k.excluded(), on(k.p.Closed), k.to) {
		if len(v.Posts) > 0 {
			all[v.Full] = v.groups(chosen(k.p.Aggregate), k.from, k.to)
			order = append(order, v.Full)
		}
	}
	return order, all
}

func (k *pageCheck) rank(full string, all map[string][]mGroup) *big.Int {
	gs := all[full]
	r := k.conv.in(gs[len(gs)-1].total, k.m.accs[full].Com, k.acc.Com)
	if contains([]string{"Income", "Liabilities"}, k.p.Heading[0]) {
		r = new(big.Int).Neg(r)
	}
	return r
}

// columns checks that the accounts shown are the top ones, given whether each candidate may be column i; columns that
// are not of an account are of the others.
func (k *pageCheck) columns(n int, order []string, all map[string][]mGroup, is func(i int, full string) bool) (cols []string, others []string, err error) {
	shown := map[string]bool{}
	want := len(order)
	if want > k.p.Max {
		want = k.p.Max
	}
	if n != want {
		return nil, nil, viol("%d columns for %d accounts, at most %d", n, len(order), k.p.Max)
	}
	var lowest *big.Int
	for i := 0; i < n; i++ {
		if i == n-1 && len(order) > k.p.Max {
			break
		}
		at := ""
		for _, full := range order {
			if !shown[full] && is(i, full) && (lowest == nil || k.rank(full, all).Cmp(lowest) <= 0) && (at == "" || k.rank(full, all).Cmp(k.rank(at, all)) > 0) {
				at = full
			}
		}
		if at == "" {
			return nil, nil, viol("column %d is of none of %q", i, order)
		}
		shown[at] = true
		lowest = k.rank(at, all)
		cols = append(cols, at)
	}
	for _, full := range order {
		if !shown[full] {
			if lowest != nil && k.rank(full, all).Cmp(lowest) > 0 {
				return nil, nil, viol("%s is not among %q", full, cols)
			}
			others = append(others, full)
		}
	}
	return cols, others, nil
}

func (k *pageCheck) totalOf(names []string, all map[string][]mGroup, i int) *big.Int {
	sum := new(big.Int)
	for _, full := range names {
		sum.Add(sum, k.conv.in(k.value(&all[full][i]), k.m.accs[full].Com, k.acc.Com))
	}
	return sum
}

// isColumn tells whether column i of the register may be that of an account.
func (k *pageCheck) isColumn(i int, full string, all map[string][]mGroup) bool {
	t := k.p.Table
	size := int(150/float64(k.p.Max) + 0.5)
	if t.Head[i+1] != shorten(full[len(k.acc.Full):], size) {
		return false
	}
	for j, r := range t.Rows {
		if !k.sameAmount(r[i+1], k.value(&all[full][j]), k.m.accs[full].Com) {
			return false
		}
	}
	return true
}

func (k *pageCheck) aggregatedSubs() error {
	t, err := k.table()
	if err != nil {
		return err
	}
	order, all := k.tops()
	dates := k.acc.groups(chosen(k.p.Aggregate), k.from, k.to)
	if len(t.Rows) != len(dates) {
		return viol("%d rows for %d periods", len(t.Rows), len(dates))
	}
	cum := 0
	if t.Head[len(t.Head)-1] == "Cum.Total" {
		cum = 1
	}
	n := len(t.Head) - 2 - cum
	if n < 0 || t.Head[0] != "Date" || t.Head[n+1] != "Total" {
		return viol("columns %q", t.Head)
	}
	for i, r := range t.Rows {
		if len(r) != len(t.Head) || r[0] != dates[i].start.Format(isoFmt) {
			return viol("row %d is %q, should be of %s", i, r, dates[i].start.Format(isoFmt))
		}
	}
	cols, others, err := k.columns(n, order, all, func(i int, full string) bool { return k.isColumn(i, full, all) })
	if err != nil {
		return viol("%v\n%s", err, head(js(t), 1500))
	}
	k.c.NonTrivial(len(cols) > 1)
	if len(others) > 0 {
		k.c.Label("page-others")
	}
	running := new(big.Int)
	for i, r := range t.Rows {
		sum := new(big.Int)
		for _, full := range cols {
			sum.Add(sum, k.conv.in(k.value(&all[full][i]), k.m.accs[full].Com, k.acc.Com))
		}
		if len(others) > 0 {
			o := k.totalOf(others, all, i)
			if t.Head[n] != "Other" || !k.sameAmount(r[n], o, k.acc.Com) {
				return viol("row %d %q: %s of %q is %s", i, r, t.Head[n], others, k.amount(o, k.acc.Com))
			}
			sum.Add(sum, o)
		}
		if !k.sameAmount(r[n+1], sum, k.acc.Com) {
			return viol("row %d %q: total is %s", i, r, k.amount(sum, k.acc.Com))
		}
		running.Add(running, sum)
		if cum == 1 && k.flows() && !k.sameAmount(r[n+2], running, k.acc.Com) {
			return viol("row %d %q: running total is %s", i, r, k.amount(running, k.acc.Com))
		}
	}
	return nil
}

func (k *pageCheck) aggregatedChart() error {
	if !on(k.p.Chart) {
		return viol("no chart")
	}
	order, all := k.tops()
	dates := len(k.acc.groups(chosen(k.p.Aggregate), k.from, k.to))
	if dates == 0 || len(k.p.Titles)%dates != 0 {
		return viol("%d bars for %d periods", len(k.p.Titles), dates)
	}
	n := len(k.p.Titles) / dates
	cols, others, err := k.columns(n, order, all, func(i int, full string) bool {
		for j := 0; j < dates; j++ {
			name, amt, _ := strings.Cut(k.p.Titles[i*dates+j], " ")
			if name != full || !k.sameAmount(amt, k.value(&all[full][j]), k.m.accs[full].Com) {
				return false
			}
		}
		return true
	})
	if err != nil {
		return viol("%v\n%q", err, k.p.Titles)
	}
	k.c.NonTrivial(len(cols) > 1)
	if len(others) > 0 {
		for j := 0; j < dates; j++ {
			o := k.totalOf(others, all, j)
			name, amt, _ := strings.Cut(k.p.Titles[(n-1)*dates+j], " ")
			if name != "Other" || !k.sameAmount(amt, o, k.acc.Com) {
				return viol("bar %q: %q come to %s", k.p.Titles[(n-1)*dates+j], others, k.amount(o, k.acc.Com))
			}
		}
	}
	return k.bars(cols, others, all, dates)
}

// bars checks that the bars of a period follow each other and that their lengths are those of the amounts, as far as
// they go in the direction of the account; cut to whole units.
func (k *pageCheck) bars(cols, others []string, all map[string][]mGroup, dates int) error {
	if len(k.p.Bars) != len(k.p.Titles) {
		return nil
	}
	for _, full := range append(slices.Clone(cols), others...) {
		if k.m.accs[full].Com != k.acc.Com {
			return nil
		}
	}
	one := new(big.Float).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k.m.dec[k.acc.Com])), nil))
	want := make([]float64, len(k.p.Bars))
	longest := 0
	for i := range k.p.Bars {
		if k.p.Bars[i][0] == nil || k.p.Bars[i][1] == nil {
			return nil
		}
		var v *big.Int
		if n := i / dates; n < len(cols) {
			v = k.value(&all[cols[n]][i%dates])
		} else {
			v = k.totalOf(others, all, i%dates)
		}
		want[i], _ = new(big.Float).Quo(new(big.Float).SetInt(v), one).Float64()
		if contains([]string{"Income", "Liabilities"}, k.p.Heading[0]) {
			want[i] = -want[i]
		}
		want[i] = max(want[i], 0)
		if want[i] > want[longest] {
			longest = i
		}
	}
	if len(want) == 0 || want[longest] < 1 {
		return nil
	}
	k.c.Label("bars")
	unit := *k.p.Bars[longest][1] / math.Trunc(want[longest])
	if !(unit > 0) {
		return viol("the bar of %q has length %g", k.p.Titles[longest], *k.p.Bars[longest][1])
	}
	for i := range k.p.Bars {
		x, w := *k.p.Bars[i][0], *k.p.Bars[i][1]
		if math.Abs(w/unit-want[i]) > 2+want[i]*1e-6 {
			return viol("the bar of %q has length %g, that of %q %g", k.p.Titles[i], w, k.p.Titles[longest], unit*math.Trunc(want[longest]))
		}
		if j := i - dates; j >= 0 && math.Abs(x-*k.p.Bars[j][0]-*k.p.Bars[j][1]) > 1+x*1e-6 {
			return viol("the bar of %q begins at %g, the one before it goes from %g to %g", k.p.Titles[i], x, *k.p.Bars[j][0], *k.p.Bars[j][0]+*k.p.Bars[j][1])
		}
	}
	return nil
}

func (k *pageCheck) balancesChart() error {
	if !on(k.p.Chart) {
		return viol("no chart")
	}
	if k.closedAbove() {
		return nil
	}
	must, may := map[string]int{}, map[string]bool{}
	for _, b := range k.totals() {
		s := b.a.Full + " " + k.amount(b.total, b.a.Com)
		if len(b.a.Kids) > 0 && b.balance.Sign() != 0 {
			s += " [ " + k.amount(b.balance, b.a.Com) + " ]"
		}
		s = plainCommas(s)
		if b.depth < k.p.Depth {
			must[s]++
		}
		if b.depth <= k.p.Depth {
			may[s] = true
		}
	}
	k.c.NonTrivial(len(must) > 2)
	for _, s := range k.p.Titles {
		s = plainCommas(s)
		if must[s] > 0 {
			must[s]--
		} else if !may[s] {
			return viol("box %q in %q; should be %v", s, k.p.Titles, js(must))
		}
	}
	for s, n := range must {
		if n > 0 {
			return viol("no box %q in %q", s, k.p.Titles)
		}
	}
	return nil
}

func plainCommas(s string) string { return strings.ReplaceAll(s, ",", "") }

// details checks the list of the largest postings of the cell that was clicked on.
func (k *pageCheck) details(r *vResult, old *vPage) error {
	var hit pHit
	if string(r.OK) == "null" || json.Unmarshal(r.OK, &hit) != nil || hit.Of == 0 || k.acc == nil || k.to.Before(k.from) {
		return nil
	}
	by := chosen(k.p.Aggregate)
	if chosen(k.p.View) == "Aggregated Register - Chart" && hit.Title != "" && hit.Bar >= 0 {
		return k.barDetails(r, old, hit)
	}
	if k.p.Table == nil || chosen(k.p.View) != "Register" || by == "None" || by == "" {
		return nil
	}
	width := len(k.p.Table.Head)
	row, col := hit.At/width, hit.Column
	if hit.Of != width*len(k.p.Table.Rows) || row >= len(k.p.Table.Rows) {
		return nil
	}
	if !on(k.p.Subs) {
		return k.detailed(old, r, fmt.Sprint(k.p.Table.Rows[row]), on(k.p.Subs), k.acc.groups(by, k.from, k.to)[row].posts)
	}
	order, all := k.tops()
	label := k.p.Table.Head[col]
	n := len(k.p.Table.Head) - 2
	if k.p.Table.Head[n+1] == "Cum.Total" {
		n--
	}
	if col == 0 || n < 1 {
		return nil // whichever
	}
	if col > n {
		var posts []*mPost
		for _, full := range order {
			posts = append(posts, all[full][row].posts...)
		}
		return k.detailed(old, r, fmt.Sprint(k.p.Table.Rows[row]), on(k.p.Subs), posts)
	}
	cols, others, err := k.columns(n, order, all, func(i int, full string) bool { return k.isColumn(i, full, all) })
	if err != nil {
		return err
	}
	if col == n && len(others) > 0 {
		var posts []*mPost
		for _, full := range others {
			posts = append(posts, all[full][row].posts...)
		}
		for _, full := range others {
			if len(cols) > 0 && k.rank(full, all).Cmp(k.rank(cols[len(cols)-1], all)) == 0 {
				return nil
			}
		}
		return k.detailed(old, r, fmt.Sprint(k.p.Table.Rows[row]), on(k.p.Subs), posts)
	}
	// accounts of the same name and amounts cannot be told apart
	for _, full := range order {
		if k.isColumn(col-1, full, all) {
			e := k.detailed(old, r, fmt.Sprint(k.p.Table.Rows[row]), on(k.p.Subs), all[full][row].posts)
			if e == nil {
				return nil
			}
			if err == nil || full == cols[col-1] {
				err = e
			}
		}
	}
	if err == nil {
		err = viol("details of column %q", label)
	}
	return err
}

// barDetails checks the list of postings of the bar that was clicked on.
func (k *pageCheck) barDetails(r *vResult, old *vPage, hit pHit) error {
	order, all := k.tops()
	dates := len(k.acc.groups(chosen(k.p.Aggregate), k.from, k.to))
	if dates == 0 || hit.Bar >= len(k.p.Titles) {
		return nil
	}
	name, _, _ := strings.Cut(hit.Title, " ")
	if name != "Other" {
		if all[name] == nil {
			return viol("bar of %q", hit.Title)
		}
		return k.detailed(old, r, hit.Title, false, all[name][hit.Bar%dates].posts)
	}
	// the largest are those with bars
	shown := map[string]bool{}
	for i := 0; i < len(k.p.Titles); i += dates {
		n, _, _ := strings.Cut(k.p.Titles[i], " ")
		shown[n] = true
	}
	var posts []*mPost
	for _, full := range order {
		if !shown[full] {
			posts = append(posts, all[full][hit.Bar%dates].posts...)
		}
	}
	return k.detailed(old, r, hit.Title, true, posts)
}

// detailed checks that the details shown are of the postings.
func (k *pageCheck) detailed(old *vPage, r *vResult, what string, subs bool, posts []*mPost) error {
	if on(k.p.Hidden) {
		return viol("details of %q are hidden", what)
	}
	t := k.p.Details
	want := []*big.Int{}
	for _, p := range posts {
		u := k.conv.in(p.Q, p.Com, k.acc.Com)
		want = append(want, new(big.Int).Abs(u))
	}
	if again, err := k.conv.ask(); err != nil {
		return err
	} else if again {
		return k.details(r, old)
	}
	sort.Slice(want, func(i, j int) bool { return want[i].Cmp(want[j]) > 0 })
	if len(want) > 20 {
		want = want[:20]
	}
	if len(t.Rows) != len(want) {
		return viol("details of %q: %d of %d postings", what, len(t.Rows), len(posts))
	}
	k.c.Label("details")
	used := map[*mPost]bool{}
	for i, d := range t.Rows {
		var found *mPost
		for _, p := range posts {
			at := 3
			if subs {
				at = 4
			}
			u := k.conv.in(p.Q, p.Com, k.acc.Com)
			if !used[p] && len(d) > at && d[0] == iso(p.Tx.Src.Day) && d[1] == p.Tx.Src.Desc && k.sameAmount(d[at], p.Q, p.Com) && u.CmpAbs(want[i]) == 0 {
				found = p
				break
			}
		}
		if found == nil {
			return viol("details of %q: row %d %q is not of a posting of %s", what, i, d, k.amount(want[i], k.acc.Com))
		}
		used[found] = true
	}
	return nil
}
