package main

import (
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

type c05Case struct {
	Led     Led
	Sel     Sel
	Acc     string
	Period  string // w m q y or none
	Cat     string // bp bt or none
	Recurse bool
	Cum     bool
	Top     int // -1: not given
	Label   int
}

func c05Gen(o ledOpt) func(t *rapid.T) c05Case {
	return func(t *rapid.T) c05Case {
		oo := o
		oo.Days = pick(t, "days", 20, 100, 500, 1200)
		in := c05Case{Led: genLed(t, oo)}
		// only sometimes select, aggregation is the point
		if chance(t, "select", 3) {
			in.Sel = genSel(t, &in.Led, true)
		}
		in.Acc = pick(t, "acc", "Root", genAccArg(t, &in.Led))
		in.Period = pick(t, "period", "w", "m", "q", "y", "", "m")
		in.Cat = pick(t, "cat", "", "", "bp", "bt")
		if in.Period == "" && in.Cat == "" {
			in.Cat = "bp"
		}
		in.Recurse = rapid.Bool().Draw(t, "recurse")
		in.Cum = in.Cat == "" && rapid.Bool().Draw(t, "cum")
		in.Top = pick(t, "top", -1, 0, 1, 2, 3, 20)
		in.Label = pick(t, "label", 1000, 1000, 4, 12)
		if o.MaxComs > 1 { // which ones are largest is not clear then
			in.Top = 100
		}
		return in
	}
}

func periodOf(kind string, d time.Time) string {
	switch kind {
	case "w":
		return d.AddDate(0, 0, -int(d.Weekday())).Format(dateFmt)
	case "m":
		return d.Format("2006/01")
	case "q":
		return fmt.Sprintf("%04d/%02d", d.Year(), (int(d.Month())-1)/3*3+1)
	case "y":
		return d.Format("2006")
	}
	return ""
}

func categoryOf(kind string, p *mPost) string {
	switch kind {
	case "bp":
		return p.Tx.Src.Desc
	case "bt":
		var kvs []string
		for k, v := range p.Tx.Tags {
			if _, ok := p.Tags[k]; !ok {
				kvs = append(kvs, kvString(k, v))
			}
		}
		for k, v := range p.Tags {
			kvs = append(kvs, kvString(k, v))
		}
		if len(kvs) == 0 {
			return "<no-tags>"
		}
		sort.Strings(kvs)
		return strings.Join(kvs, ",")
	}
	return ""
}

func kvString(k, v string) string {
	if v == "" {
		return k
	}
	return k + ":" + v
}

// table reads the output in one of the formats: rows of cells, header included.
func table(format, out string) ([][]string, error) {
	var rows [][]string
	switch format {
	case "csv":
		r := csv.NewReader(strings.NewReader(out))
		rs, err := r.ReadAll()
		if err != nil {
			return nil, viol("csv output: %v\n%s", err, out)
		}
		return rs, nil
	case "json":
		dec := json.NewDecoder(strings.NewReader(out))
		for dec.More() {
			var r []string
			if err := dec.Decode(&r); err != nil {
				return nil, viol("json output: %v\n%s", err, out)
			}
			rows = append(rows, r)
		}
		return rows, nil
	}
	for _, l := range lines(out) {
		rows = append(rows, bars(l))
	}
	return rows, nil
}

func c05Check(c *Ctx, in c05Case) error {
	d := c.Dir()
	in.Led.write(d)
	m := newModel(&in.Led)
	if done, err := c.loadDecides(d, m); done {
		return err
	}
	top := m.accs[in.Acc]
	args := append([]string{"register", "-l", fmt.Sprint(in.Label)}, in.Sel.args()...)
	for _, f := range []string{in.Period, in.Cat} {
		if f != "" {
			args = append(args, "-"+f)
		}
	}
	if in.Recurse {
		args = append(args, "-r")
	}
	if in.Cum {
		args = append(args, "-c")
	}
	n := 5
	if in.Top >= 0 {
		n = in.Top
		args = append(args, "-g", fmt.Sprint(n))
	}
	type key struct{ period, cat string }
	cells := map[*mAcc]map[key]*big.Int{} // own postings, or the subtree's
	sums := map[*mAcc]*big.Int{}
	keys := map[key]bool{}
	var has []*mAcc // accounts with something to show
	selected := 0
	ad := &adder{m: m}
	var collect func(a *mAcc) []*mPost
	collect = func(a *mAcc) (all []*mPost) {
		own := in.Sel.filter(a.Posts)
		selected += len(own)
		all = append(all, own...)
		cells[a] = map[key]*big.Int{}
		sums[a] = new(big.Int)
		addIn := func(k key, v *big.Int, com string) {
			if cells[a][k] == nil {
				cells[a][k] = new(big.Int)
			}
			cells[a][k] = ad.add(cells[a][k], a.Com, v, com)
		}
		for _, p := range own {
			k := key{periodOf(in.Period, p.Tx.Date), categoryOf(in.Cat, p)}
			keys[k] = true
			addIn(k, p.Q, p.Com)
		}
		for _, k := range a.Kids {
			all = append(all, collect(k)...)
			if in.Recurse { // the cells of the subtree
				for x, v := range cells[k] {
					addIn(x, v, k.Com)
				}
			}
		}
		for _, v := range cells[a] {
			sums[a].Add(sums[a], v)
		}
		if len(cells[a]) > 0 {
			has = append(has, a)
		}
		return all
	}
	collect(top)
	var order []key
	for k := range keys {
		order = append(order, k)
	}
	sort.Slice(order, func(i, j int) bool {
		if order[i].period != order[j].period {
			return order[i].period < order[j].period
		}
		return order[i].cat < order[j].cat
	})
	bad := func(f string, a ...any) error { return viol("aggregate: %s\n%v", fmt.Sprintf(f, a...), args) }

	var tables [][][]string
	for _, format := range []string{"text", "csv", "json"} {
		a := append(append([]string{}, args...), "-o", format, in.Acc)
		o := c.Coin(d, a...)
		if o.Fault() || o.TimedOut {
			return viol("aggregate: crashed: %v %s", a, o.Stderr)
		}
		switch {
		case ad.ambiguous:
			c.Label("ambiguous-chain")
			return nil
		case ad.fails:
			c.Label("no-price")
			if o.Code == 0 {
				return bad("adds unlike amounts without a price\n%s", o.Stdout)
			}
			return nil
		case ad.zeroFails && o.Code != 0:
			c.Label("no-price-zero")
			return nil
		}
		if err := mustOK(o, "aggregate", a); err != nil {
			return err
		}
		out := o.Stdout
		if format == "text" {
			h, rest, _ := strings.Cut(out, "\n")
			if h != top.Full+" "+top.Com {
				return bad("header %q", h)
			}
			out = rest
		}
		t, err := table(format, out)
		if err != nil {
			return err
		}
		tables = append(tables, t)
	}
	lead := 0
	for _, f := range []string{in.Period, in.Cat} {
		if f != "" {
			lead++
		}
	}
	if len(order) == 0 {
		for _, t := range tables {
			for _, r := range t[min(len(t), 1):] {
				for _, cell := range r[min(lead, len(r)):] {
					if strings.Trim(cell, "0.-") != "" {
						return bad("nothing is selected but there is %v", t)
					}
				}
			}
		}
		return nil
	}
	for i, t := range tables {
		if len(t) == 0 {
			return bad("no output in format %d", i)
		}
		for r := range t {
			if len(t[r]) != len(tables[1][0]) {
				return bad("row %d of format %d has %d columns: %v", r, i, len(t[r]), t[r])
			}
			lo := 0
			if r == 0 {
				lo = lead // the text header has no names for these columns
			}
			if len(t) != len(tables[1]) {
				return bad("format %d has %d rows, csv %d", i, len(t), len(tables[1]))
			}
			for k := lo; k < len(t[r]); k++ {
				if t[r][k] != strings.TrimSpace(tables[1][r][k]) && t[r][k] != tables[1][r][k] {
					return bad("formats differ: %q and %q in csv", t[r][k], tables[1][r][k])
				}
			}
		}
	}
	t := tables[1]
	head := t[0][lead:]
	rows := t[1:]
	if len(rows) != len(order) {
		return bad("%d rows, want %d: %v", len(rows), len(order), t)
	}
	for i, k := range order {
		want := []string{}
		if in.Period != "" {
			want = append(want, k.period)
		}
		if in.Cat != "" {
			want = append(want, k.cat)
		}
		for j, w := range want {
			if rows[i][j] != w {
				return bad("row %d is for %v, want %v", i, rows[i][:lead], want)
			}
		}
	}
	expect := func(accs ...*mAcc) (col []string) {
		run := new(big.Int)
		com := top.Com
		if len(accs) == 1 {
			com = accs[0].Com
		}
		for _, k := range order {
			v := new(big.Int)
			for _, a := range accs {
				if u := cells[a][k]; u != nil {
					v.Add(v, u)
				}
			}
			if in.Cum {
				v.Add(v, run)
				run = v
			}
			col = append(col, m.show(v, com))
		}
		return col
	}
	column := func(j int) (col []string) {
		for i := range rows {
			col = append(col, rows[i][lead+j])
		}
		return col
	}
	// columns: by label when they are unambiguous
	left := map[*mAcc]bool{}
	top.walk(func(a *mAcc) { left[a] = true })
	other := -1
	for j, h := range head {
		if h == "Other" && j == len(head)-1 && len(head) > n {
			other = j
			continue
		}
		found := false
		var first []string
		for _, a := range m.sorted() {
			if !left[a] {
				continue
			}
			label := strings.TrimPrefix(a.Full, top.Full)
			if a == top {
				label = a.Name
			}
			if h != label && (in.Label == 1000 || a == top || !shortOf(h, a.Full, top.Full, in.Label)) {
				continue
			}
			w := expect(a)
			if first == nil {
				first = w
			}
			if strings.Join(w, " ") == strings.Join(column(j), " ") {
				found = true
				delete(left, a)
				break
			}
		}
		if !found {
			return bad("column %q is %v, want %v", h, column(j), first)
		}
	}
	shown := len(head)
	var rest []*mAcc
	for _, a := range has {
		if left[a] {
			rest = append(rest, a)
		}
	}
	if other >= 0 {
		shown--
		if shown != n {
			return bad("%d columns besides Other, want %d", shown, n)
		}
		if w := expect(rest...); strings.Join(w, " ") != strings.Join(column(other), " ") {
			return bad("Other is %v, want %v", column(other), w)
		}
		// the largest ones have columns of their own
		for _, r := range rest {
			top.walk(func(a *mAcc) {
				if !left[a] && sums[a].CmpAbs(sums[r]) < 0 && in.Label == 1000 {
					rest = nil
				}
			})
			if rest == nil {
				return bad("%s with %s is in Other but a smaller one has a column: %v", r.Full, m.show(sums[r], top.Com), head)
			}
		}
	} else {
		if len(rest) > 0 {
			return bad("no column for %s: %v", rest[0].Full, head)
		}
		if shown > n {
			return bad("%d columns, asked for %d", shown, n)
		}
	}
	c.NonTrivial(selected > 2 && len(order) > 1 && len(has) > 1)
	if other >= 0 && len(rest) > 1 {
		c.Label("other")
	}
	if ad.converted > 0 {
		c.Label("converted")
	}
	if in.Cum {
		c.Label("cumulative")
	}
	if in.Recurse {
		c.Label("recursive")
	}
	c.Label("by-%s-%s", in.Period, in.Cat)
	return nil
}

func init() {
	register(&Prop{
		ID: "C05",
		Rule: "a case is a ledger of up to 14 transactions over 20 to 1200 days, of a single commodity or of several with prices, an account, an optional selection, a period (week, month, quarter, year or none), " +
			"a category (payee, tags or none), recursion, cumulation, the number of largest accounts and the label width, in all three output formats; non-trivial when " +
			"at least three postings, two rows and two accounts are involved",
		Subs: []Sub{
			sub("table", 8000, 60000, c05Gen(ledOpt{MaxComs: 1, Attrs: true, MaxTx: 14, Notes: true, Codes: true, Big: true, Singles: true}), c05Check),
			sub("mixed", 3000, 30000, c05Gen(ledOpt{MaxComs: 3, Attrs: true, MaxTx: 14, Notes: true, Prices: true, Asserts: 6, ForeignMixed: true}), c05Check),
			sub("trees", 2000, 20000, c05Gen(ledOpt{MaxComs: 4, Attrs: true, MaxTx: 14, Notes: true, TreeComs: true}), c05Check),
		},
	})
}
