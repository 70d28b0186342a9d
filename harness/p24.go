package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/mkobetic/coin"
	"pgregory.net/rapid"
)

type c24Case struct {
	Led     Led
	Style   []uint8 // spelling choices, used cyclically
	Pattern string
	Closed  bool
}

func genNoteText(t *rapid.T, label string) string {
	return pick(t, label, "x", "My account", "a: b; c", "100 CAD", "note commodity USD", "closed 2020/01/01", "Ünïcode — ☂", "default", "\"q\" 'r' <b>&amp;", "two  blanks", "= #tag: v", "nomarket", "%d %s", "symbol X | y")
}

func c24Gen(t *rapid.T) c24Case {
	var in c24Case
	l := &in.Led
	ids := []string{"CAD", "USD", "VTI", "B52", "X_1", "a", "NBC814", "z9_", "Usd"}
	l.Coms = append(l.Coms, Com{Id: "CAD"})
	for _, id := range rapid.Permutation(ids[1:]).Draw(t, "ids")[:num(t, "ncoms", 0, 5)] {
		l.Coms = append(l.Coms, Com{Id: id})
	}
	def := num(t, "default", -2, len(l.Coms)-1)
	for i := range l.Coms {
		c := &l.Coms[i]
		c.Dec = num(t, "dec", 0, 12)
		if rapid.Bool().Draw(t, "hasname") {
			c.Name = genNoteText(t, "name")
		}
		if rapid.Bool().Draw(t, "hassym") {
			c.Symbol = pick(t, "sym", "VTI", "X.TO", "A_1", "q", "BRK-B", "^GSPC", "CAD=X", "BF/B") + pick(t, "symno", "", fmt.Sprint(i))
		}
		c.NoMarket = rapid.Bool().Draw(t, "nomarket")
		c.Default = i == def
	}
	l.Coms = rapid.Permutation(l.Coms).Draw(t, "order")
	dec := map[string]int{}
	names := []string{}
	for _, c := range l.Coms {
		dec[c.Id] = c.Dec
		names = append(names, c.Id)
	}
	for _, n := range append(genAccNames(t, 1, 8), pick(t, "special", "", "", "Root", "Unbalanced", "Root:Foo")) {
		if n == "" {
			continue
		}
		a := Acc{Full: n}
		if rapid.Bool().Draw(t, "hascom") {
			a.Com = pick(t, "com", names...)
		}
		if rapid.Bool().Draw(t, "hasnote") {
			a.Note = genNoteText(t, "note")
		}
		if chance(t, "closed", 4) && n != "Root" {
			a.Closed = genDay(t, day("2019/12/15"), 100)
		}
		if chance(t, "hasbank", 4) {
			a.BankId = digits(t, "bank", 1, 12)
		}
		if chance(t, "hasofx", 3) {
			a.OfxId = digits(t, "ofx", 1, 20)
		}
		if chance(t, "hascsv", 3) {
			a.CsvId = pick(t, "csv", "1", "0012", "ab_9", "X", "RRSP12")
		}
		l.Accs = append(l.Accs, a)
	}
	l.Accs = rapid.Permutation(l.Accs).Draw(t, "accorder")
	for k := num(t, "nprices", 0, 8); k > 0 && len(names) > 1; k-- {
		i, j := num(t, "pcom", 0, len(names)-1), num(t, "pcur", 0, len(names)-2)
		if j >= i {
			j++
		}
		l.Prices = append(l.Prices, Pri{Day: genDay(t, day("2019/12/15"), 100), Com: names[i], Cur: names[j], Val: strings.TrimPrefix(genLiteral(t), "-")})
	}
	in.Style = rapid.SliceOfN(rapid.Byte(), 8, 60).Draw(t, "style")
	if rapid.Bool().Draw(t, "haspattern") {
		elems := strings.Split(pick(t, "of", l.Accs...).Full, ":")
		lo := num(t, "lo", 0, len(elems)-1)
		hi := num(t, "hi", lo, len(elems)-1)
		in.Pattern = strings.Join(elems[lo:hi+1], pick(t, "sep", ":", ":", "::"))
		switch num(t, "pcase", 0, 3) {
		case 0:
			in.Pattern = strings.ToLower(in.Pattern)
		case 1:
			in.Pattern = in.Pattern[:num(t, "cut", 1, len(in.Pattern))]
			in.Pattern = strings.TrimRight(in.Pattern, ":")
		}
	}
	in.Closed = rapid.Bool().Draw(t, "showclosed")
	return in
}

// style spells definitions: order of the directives, blanks, comments.
type style struct {
	b []uint8
	i int
}

func (s *style) next(n int) int {
	s.i++
	return int(s.b[s.i%len(s.b)]) % n
}

func (s *style) gap() string    { return []string{" ", " ", "  ", "\t", " \t "}[s.next(5)] }
func (s *style) indent() string { return []string{"  ", "  ", " ", "\t", "      "}[s.next(5)] }
func (s *style) tail() string   { return []string{"", "", "", " ", "\t"}[s.next(5)] }

// block writes a definition, its directives in some order.
func (s *style) block(b *strings.Builder, head string, lines [][]string) {
	switch s.next(6) {
	case 0:
		b.WriteString("; comment\n")
	case 1:
		b.WriteString("# 5.00 CAD\n\n")
	}
	b.WriteString(head + s.tail() + "\n")
	for i := len(lines); i > 0; i-- {
		k := s.next(i)
		l := lines[k]
		lines = append(lines[:k:k], lines[k+1:]...)
		b.WriteString(s.indent() + l[0])
		if len(l) > 1 {
			b.WriteString(s.gap() + strings.Join(l[1:], " "))
		}
		if l[0] != "note" {
			b.WriteString(s.tail())
		}
		b.WriteString("\n")
	}
	switch s.next(4) {
	case 0, 1:
		b.WriteString("\n")
	case 2:
		b.WriteString("  \n\n")
	}
}

func (in *c24Case) write(d string) {
	s := &style{b: in.Style}
	var b strings.Builder
	for _, c := range in.Led.Coms {
		var ls [][]string
		if c.Name != "" {
			ls = append(ls, []string{"note", c.Name})
		}
		if c.Dec != 2 || s.next(2) == 0 {
			f := []string{"1", "0", "1000", "-1"}[s.next(4)]
			if c.Dec > 0 {
				f += "." + []string{"000000000000", "000000000000", "999999999999", "251000700001"}[s.next(4)][:c.Dec]
			}
			ls = append(ls, []string{"format", f, c.Id})
		}
		if c.NoMarket {
			ls = append(ls, []string{"nomarket"})
		}
		if c.Symbol != "" {
			ls = append(ls, []string{"symbol", c.Symbol})
		}
		if c.Default {
			ls = append(ls, []string{"default"})
		}
		s.block(&b, "commodity"+" "+c.Id, ls)
	}
	writeFile(filepath.Join(d, "commodities.coin"), b.String())
	b.Reset()
	for _, a := range in.Led.Accs {
		var ls [][]string
		for _, kv := range [][2]string{{"note", a.Note}, {"commodity", a.Com}, {"closed", a.Closed}, {"ofx_bankid", a.BankId}, {"ofx_acctid", a.OfxId}, {"csv_acctid", a.CsvId}} {
			if kv[1] != "" {
				ls = append(ls, kv[:])
			}
		}
		s.block(&b, "account"+s.gap()+a.Full, ls)
	}
	writeFile(filepath.Join(d, "accounts.coin"), b.String())
	b.Reset()
	for _, p := range in.Led.Prices {
		b.WriteString("P " + p.Day + s.gap() + p.Com + s.gap() + p.Val + s.gap() + p.Cur + "\n")
	}
	writeFile(filepath.Join(d, "prices.coin"), b.String())
}

// a defs is what was understood of definitions.
type defs struct {
	Default string
	Coms    []string
	Accs    []string
	Prices  []string
	Symbols []string
}

func (d *defs) com(id, name, sym string, dec int, nomarket bool) {
	d.Coms = append(d.Coms, fmt.Sprintf("%s dec=%d name=%q symbol=%q nomarket=%v", id, dec, name, sym, nomarket))
}

func (d *defs) acc(full, com, note, closed, bank, ofx, csv, parent string) {
	d.Accs = append(d.Accs, fmt.Sprintf("%s commodity=%s note=%q closed=%s bank=%s ofx=%s csv=%s parent=%s", full, com, note, closed, bank, ofx, csv, parent))
}

// defsHelper loads the definitions in COINDB, prints them as JSON and writes them to directory args[0].
func defsHelper(args []string) {
	coin.LoadPrices()
	coin.LoadFile(coin.AccountsFile)
	coin.ResolvePrices()
	coin.ResolveAccounts()
	var d defs
	var coms, accs, prices bytes.Buffer
	no := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
	d.Default = coin.DefaultCommodity().Id
	coin.CommoditiesDo(func(c *coin.Commodity) {
		d.com(c.Id, c.Name, c.Symbol, c.Decimals, c.NoMarket)
		no(c.Write(&coms, false))
		coms.WriteString("\n")
	})
	for s, c := range coin.CommoditiesBySymbol {
		if c.Symbol == s {
			d.Symbols = append(d.Symbols, s)
		}
	}
	sort.Strings(d.Symbols)
	coin.AccountsDo(func(a *coin.Account) {
		closed, parent := "", ""
		if !a.Closed.IsZero() {
			closed = a.Closed.Format("2006/01/02")
		}
		if a.Parent != nil {
			parent = a.Parent.FullName
		}
		d.acc(a.FullName, a.Commodity.Id, a.Description, closed, a.OFXBankId, a.OFXAcctId, a.CSVAcctId, parent)
		no(a.Write(&accs, false))
		accs.WriteString("\n")
	})
	for _, p := range coin.Prices {
		d.Prices = append(d.Prices, fmt.Sprintf("%s %s %s %s", p.Time.Format("2006/01/02"), p.Commodity.Id, p.Value.Int, p.Currency.Id))
		no(p.Write(&prices, false))
	}
	sort.Strings(d.Prices)
	b, err := json.Marshal(&d)
	no(err)
	no(os.MkdirAll(args[0], 0o755))
	no(os.WriteFile(filepath.Join(args[0], "commodities.coin"), coms.Bytes(), 0o644))
	no(os.WriteFile(filepath.Join(args[0], "accounts.coin"), accs.Bytes(), 0o644))
	no(os.WriteFile(filepath.Join(args[0], "prices.coin"), prices.Bytes(), 0o644))
	os.Stdout.Write(b)
}

func (c *Ctx) helper(db string, args ...string) *Out {
	self, err := os.Executable()
	infraIf(err)
	return c.runExe(db, []string{"COINDB=" + db}, nil, self, append([]string{"helper"}, args...)...)
}

func c24Check(c *Ctx, in c24Case) error {
	d := c.Dir()
	in.write(d)
	m := newModel(&in.Led)
	want := defs{Default: m.def}
	coms := append([]Com(nil), in.Led.Coms...)
	sort.Slice(coms, func(i, j int) bool { return coms[i].Id < coms[j].Id })
	for _, k := range coms {
		want.com(k.Id, k.Name, k.Symbol, k.Dec, k.NoMarket)
		if k.Symbol != "" {
			want.Symbols = append(want.Symbols, k.Symbol)
		}
	}
	sort.Strings(want.Symbols)
	want.Symbols = uniq(want.Symbols)
	for _, a := range m.sorted() {
		s := a.Src
		if s == nil {
			s = &Acc{}
		}
		parent := ""
		if a.Parent != nil {
			parent = a.Parent.Full
		}
		want.acc(a.Full, a.Com, s.Note, s.Closed, s.BankId, s.OfxId, s.CsvId, parent)
	}
	for _, p := range in.Led.Prices {
		want.Prices = append(want.Prices, fmt.Sprintf("%s %s %s %s", p.Day, p.Com, cutLiteral(p.Val, m.dec[p.Cur]), p.Cur))
	}
	sort.Strings(want.Prices)
	read := func(what, dir, out string) error {
		o := c.helper(dir, "defs", out)
		if err := mustOK(o, what, dir); err != nil {
			return err
		}
		var got defs
		infraIf(json.Unmarshal([]byte(o.Stdout), &got))
		if got.Default != want.Default {
			return viol("%s: default commodity %s, want %s", what, got.Default, want.Default)
		}
		for _, s := range []struct {
			name      string
			got, want []string
		}{{"commodities", got.Coms, want.Coms}, {"accounts", got.Accs, want.Accs}, {"prices", got.Prices, want.Prices}, {"symbols", got.Symbols, want.Symbols}} {
			if d := firstDiff(s.got, s.want); d != "" {
				return viol("%s: %s:\n%s", what, s.name, d)
			}
		}
		return nil
	}
	d2, d3 := filepath.Join(d, "w1"), filepath.Join(d, "w2")
	if err := read("definitions read", d, d2); err != nil {
		return err
	}
	if err := read("definitions written and read", d2, d3); err != nil {
		return err
	}
	for _, f := range []string{"commodities.coin", "accounts.coin"} {
		if readFile(filepath.Join(d2, f)) != readFile(filepath.Join(d3, f)) {
			return viol("%s: written differently the second time", f)
		}
	}
	// listings
	o := c.Coin(d, "commodities")
	if err := mustOK(o, "commodities"); err != nil {
		return err
	}
	var exp, got []string
	for _, k := range coms {
		q := ""
		if k.Symbol != "" && !k.NoMarket {
			q = "Q"
		}
		exp = append(exp, strings.Join([]string{k.Id, k.Symbol, q, k.Name}, "|"))
	}
	for _, l := range lines(o.Stdout) {
		fs := strings.SplitN(l, " | ", 4)
		for i := range fs {
			fs[i] = strings.TrimSpace(fs[i])
		}
		got = append(got, strings.Join(fs, "|"))
	}
	if d := firstDiff(got, exp); d != "" {
		return viol("commodities: %s", d)
	}
	args := []string{"accounts"}
	if in.Closed {
		args = append(args, "-c")
	}
	if in.Pattern != "" {
		args = append(args, "--", in.Pattern)
	}
	o = c.Coin(d, args...)
	if err := mustOK(o, "accounts", args); err != nil {
		return err
	}
	open := map[string]bool{}
	exp, got = nil, nil
	hidden := 0
	for _, a := range m.sorted() {
		closed := false
		for p := a; p != nil; p = p.Parent {
			closed = closed || p.Src != nil && p.Src.Closed != ""
		}
		if closed && !in.Closed {
			hidden++
			continue
		}
		if in.Pattern != "" {
			x, y := pathMatch(in.Pattern, a.Full, false), pathMatch(in.Pattern, a.Full, true)
			if x != y {
				open[a.Full] = true
				continue
			}
			if !x {
				continue
			}
		}
		note := ""
		if a.Src != nil {
			note = a.Src.Note
		}
		exp = append(exp, strings.Join([]string{a.Full, a.Com, note}, "|"))
	}
	bar := -1
	for _, l := range lines(o.Stdout) {
		fs := strings.SplitN(l, "|", 3)
		if len(fs) != 3 {
			return viol("accounts: line %q", l)
		}
		if bar >= 0 && len(fs[0]) != bar {
			return viol("accounts: columns do not line up: %q", l)
		}
		bar = len(fs[0])
		for i := range fs {
			fs[i] = strings.TrimSpace(fs[i])
		}
		if !open[fs[0]] {
			got = append(got, strings.Join(fs, "|"))
		}
	}
	if d := firstDiff(got, exp); d != "" {
		return viol("accounts: %v\n%s", args, d)
	}
	// import ids
	o = c.Run(d, d, "ofx2coin", "-ids")
	if err := mustOK(o, "ofx2coin -ids"); err != nil {
		return err
	}
	exp = nil
	for _, a := range m.sorted() {
		if a.Src == nil || a.Src.OfxId == "" {
			continue
		}
		id := a.Src.OfxId
		if a.Src.BankId != "" {
			id = a.Src.BankId + "/" + id
		}
		exp = append(exp, id+" "+a.Full)
	}
	got = lines(o.Stdout)
	sort.Strings(got)
	sort.Strings(exp)
	if d := firstDiff(got, exp); d != "" {
		return viol("import ids: %s", d)
	}
	if len(exp) > 0 {
		c.Label("import-ids")
	}
	attrs := 0
	for _, k := range in.Led.Coms {
		if k.Symbol != "" || k.Name != "" || k.NoMarket || k.Default {
			attrs++
		}
	}
	for _, a := range in.Led.Accs {
		if a.Note != "" || a.Closed != "" || a.OfxId != "" || a.CsvId != "" || a.BankId != "" {
			attrs++
		}
	}
	if hidden > 0 {
		c.Label("hidden-closed")
	}
	if in.Pattern != "" {
		c.Label("pattern")
	}
	if len(in.Led.Prices) > 0 {
		c.Label("prices")
	}
	c.NonTrivial(attrs >= 2)
	return nil
}

// ---- definitions that are not understood ----

type c24BadCase struct {
	Case c24Case
	Kind string // file
	Line int    // line of it (cyclic)
	How  int
}

func c24BadGen(t *rapid.T) c24BadCase {
	return c24BadCase{Case: c24Gen(t), Kind: pick(t, "kind", "commodities", "accounts", "accounts", "prices"), Line: num(t, "line", 0, 60), How: num(t, "how", 0, 7)}
}

func c24BadCheck(c *Ctx, in c24BadCase) error {
	d := c.Dir()
	in.Case.write(d)
	fn := filepath.Join(d, in.Kind+".coin")
	ls := lines(readFile(fn))
	var cand []int
	for i, l := range ls {
		f := strings.Fields(l)
		if len(f) == 0 || f[0] == ";" || f[0] == "#" || f[0] == "note" {
			continue
		}
		cand = append(cand, i)
	}
	if len(cand) == 0 {
		c.Label("nothing")
		return nil
	}
	i := cand[in.Line%len(cand)]
	f := strings.Fields(ls[i])
	old := ls[i]
	switch in.How {
	case 0, 1: // another word
		ls[i] += " extra"
		if in.How == 1 {
			ls[i] = strings.TrimRight(old, " \t") + " ; comment?"
		}
	case 2: // a character that does not belong there
		ls[i] = strings.TrimRight(old, " \t") + []string{"$", "é", "!", ","}[in.Line%4]
		if f[0] == "symbol" {
			c.Label("free")
			return nil
		}
	case 3: // argument missing
		if len(f) == 1 {
			c.Label("free")
			return nil
		}
		ls[i] = strings.Replace(strings.TrimRight(old, " \t"), f[len(f)-1], "", 1)
		if f[0] == "closed" || f[0] == "P" {
			ls[i] = old[:strings.Index(old, f[len(f)-1])]
		}
	case 4: // keyword
		ls[i] = strings.Replace(old, f[0], "x"+f[0], 1)
	case 5:
		ls[i] = strings.Replace(old, f[0], f[0]+"x", 1)
	case 6: // dates
		for _, x := range f {
			if strings.Count(x, "/") == 2 && len(x) == 10 {
				ls[i] = strings.Replace(old, x, []string{"2020/13/01", "2020/02/30", "today", "2020-01-01"}[in.Line%4], 1)
			}
		}
	case 7: // amounts
		if f[0] == "format" || f[0] == "P" {
			x := f[len(f)-2]
			ls[i] = strings.Replace(old, " "+x, " "+[]string{"1,000.00", "1.0.0", "x1", "1.", ".5"}[in.Line%5], 1)
		}
	}
	if ls[i] == old {
		c.Label("free")
		return nil
	}
	writeFile(fn, strings.Join(ls, "\n")+"\n")
	c.Label("%s", in.Kind)
	c.NonTrivial(true)
	o := c.helper(d, "defs", filepath.Join(d, "w"))
	if o.TimedOut || o.Fault() {
		return viol("damaged definition %q: crashed: %s", ls[i], o.Stderr)
	}
	if o.Code == 0 {
		return viol("damaged definition accepted: %q (was %q)", ls[i], old)
	}
	if strings.TrimSpace(o.Stderr) == "" {
		return viol("damaged definition %q: refused without a message", ls[i])
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C24",
		Rule: "a case is a set of commodities, accounts and prices with any subset of their directives in any order, spacing and surrounding comments, and a pattern; what is understood of them, and of them written out, is compared " +
			"with the case, as are the listings; in 'damaged' one line of them is damaged and has to be refused; non-trivial when at least two definitions have optional attributes, or a line was damaged",
		Subs: []Sub{
			sub("roundtrip", 6000, 60000, c24Gen, c24Check),
			sub("damaged", 4000, 40000, c24BadGen, c24BadCheck),
		},
	})
}
