package main

import (
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// A csvDef is one line of a source: how to get a value.
type csvDef struct {
	Name string
	Idx  int // -1: derived
	Tmpl string
	Cond string
	Re   string
}

type csvSource struct {
	Name   string
	Skip   int
	NoSkip bool // leave the number out
	Defs   []csvDef
}

type csvFile struct {
	Head  [][]string
	Rows  [][]string
	Style []uint8
}

type c16Case struct {
	Coms    []Com
	Accs    []Acc
	Rules   *RuleFile
	Sources []csvSource
	Use     int
	Fields  []int // instead of a source
	Files   []csvFile
}

func (d *csvDef) render(s *style) string {
	b := s.indent() + d.Name + s.gap()
	if d.Idx >= 0 {
		b += strconv.Itoa(d.Idx)
		if d.Re != "" {
			b += s.gap() + `"` + d.Tmpl + `"` + s.gap() + d.Re
		}
	} else {
		b += `"` + d.Tmpl + `"`
		if d.Cond != "" {
			b += s.gap() + d.Cond + s.gap() + d.Re
		}
	}
	return b + "\n"
}

func (x *csvSource) render(s *style) string {
	b := x.Name
	if !x.NoSkip {
		b += s.gap() + strconv.Itoa(x.Skip)
	}
	b += s.tail() + "\n"
	for i := range x.Defs {
		b += x.Defs[i].render(s)
	}
	return b
}

// value interprets the definitions of a value.
func (x *csvSource) value(name string, row []string) string {
	for _, d := range x.Defs {
		if d.Name != name {
			continue
		}
		if v := d.value(x, row); v != "" {
			return v
		}
	}
	return ""
}

func (d *csvDef) value(x *csvSource, row []string) string {
	var groups []string
	if d.Idx >= 0 {
		if d.Re == "" {
			return row[d.Idx]
		}
		groups = regexp.MustCompile(d.Re).FindStringSubmatch(row[d.Idx])
		if groups == nil {
			return ""
		}
	} else if d.Cond != "" && !regexp.MustCompile(d.Re).MatchString(x.value(d.Cond, row)) {
		return ""
	}
	out := ""
	for i := 0; i < len(d.Tmpl); i++ {
		c := d.Tmpl[i]
		if c == '$' && i+1 < len(d.Tmpl) {
			n := d.Tmpl[i+1]
			if d.Idx >= 0 && n >= '0' && n <= '9' {
				if k := int(n - '0'); k < len(groups) {
					out += groups[k]
				}
				i++
				continue
			}
			if d.Idx < 0 && n == '{' {
				if k := strings.IndexByte(d.Tmpl[i:], '}'); k > 0 {
					out += x.value(d.Tmpl[i+2:i+k], row)
					i += k
					continue
				}
			}
		}
		out += string(c)
	}
	return out
}

func (f *csvFile) render() string {
	s := &style{b: f.Style}
	var b strings.Builder
	eol := []string{"\n", "\n", "\r\n"}[s.next(3)]
	row := func(r []string) {
		for i, v := range r {
			if i > 0 {
				b.WriteByte(',')
			}
			if strings.ContainsAny(v, ",\"\r\n") || s.next(4) == 0 || v != strings.TrimLeft(v, " \t") || len(r) == 1 {
				v = `"` + strings.ReplaceAll(v, `"`, `""`) + `"`
			}
			b.WriteString(v)
		}
		b.WriteString(eol)
		if s.next(8) == 0 {
			b.WriteString(eol)
		}
	}
	for _, r := range f.Head {
		row(r)
	}
	for _, r := range f.Rows {
		row(r)
	}
	t := b.String()
	if s.next(5) == 0 {
		t = strings.TrimRight(t, "\r\n")
	}
	return t
}

var csvLabels = []string{"account", "description", "date", "amount", "currency", "symbol", "quantity", "note"}

func (in *c16Case) source() *csvSource {
	if in.Fields == nil {
		return &in.Sources[in.Use]
	}
	x := &csvSource{}
	for i, k := range in.Fields {
		x.Defs = append(x.Defs, csvDef{Name: csvLabels[i], Idx: k})
	}
	return x
}

// commodity finds a commodity by id or symbol.
func (in *c16Case) commodity(s string) *Com {
	for i := range in.Coms {
		if in.Coms[i].Id == s {
			return &in.Coms[i]
		}
	}
	for i := range in.Coms {
		if in.Coms[i].Symbol == s {
			return &in.Coms[i]
		}
	}
	infraf("no commodity %q", s)
	return nil
}

// model gives the imported transactions.
func (in *c16Case) model() (ts []*impTx, drops, convs int) {
	x := in.source()
	m := newModel(&Led{Coms: in.Coms, Accs: in.Accs})
	find := func(com string, from *mAcc) string {
		res := ""
		var walk func(a *mAcc)
		walk = func(a *mAcc) {
			for _, k := range a.Kids {
				walk(k)
			}
			if res == "" && a.Com == com {
				res = a.Full
			}
		}
		walk(from)
		if res == "" {
			res = "Unbalanced"
		}
		return res
	}
	acc := &c15Case{Accs: in.Accs, Rules: in.Rules}
	squeeze := func(s string) string { return strings.Join(strings.Fields(s), " ") }
	for _, f := range in.Files {
		for _, row := range f.Rows {
			a, sec := acc.account(x.value("account", row))
			desc := squeeze(x.value("description", row))
			to := m.accs["Unbalanced"]
			t := &impTx{Day: x.value("date", row), Desc: desc}
			if n := squeeze(x.value("note", row)); n != "" {
				t.Notes = append(t.Notes, n)
			}
			if in.Rules != nil {
				if r, _ := in.Rules.choose(sec, desc); r != nil {
					if r.Drop {
						drops++
						continue
					}
					to = m.accs[r.Acc]
					t.Notes = append(t.Notes, r.Notes...)
				}
			}
			com := to.Com
			if cur := x.value("currency", row); cur != "" {
				com = in.commodity(cur).Id
			}
			amt := cutLiteral(x.value("amount", row), m.dec[com])
			toName := find(com, to)
			sym, qty := x.value("symbol", row), x.value("quantity", row)
			if sym == "" || qty == "" {
				t.post(find(com, m.accs[a.Full]), toName, amt, m.dec[com], com, "")
			} else {
				k := in.commodity(sym)
				q := cutLiteral(qty, k.Dec)
				if q.Sign()*amt.Sign() > 0 {
					q.Neg(q)
				}
				p1 := impPost{find(k.Id, m.accs[a.Full]), show(q, k.Dec), k.Id, ""}
				p2 := impPost{toName, show(amt, m.dec[com]), com, ""}
				if q.Sign() < 0 {
					p1, p2 = p2, p1
				}
				t.Posts = []impPost{p1, p2}
				convs++
			}
			ts = append(ts, t)
		}
	}
	return ts, drops, convs
}

func c16Gen(t *rapid.T) (in c16Case) {
	in.Coms = genComs(t, ledOpt{MaxComs: 4, NoDefault: true})
	coms := []string{}
	refs := []string{} // ids and symbols
	for i := range in.Coms {
		if rapid.Bool().Draw(t, "hassym") {
			in.Coms[i].Symbol = pick(t, "sym", "SYM", "X.TO", "^G", "BF/B", "a-b") + fmt.Sprint(i)
			refs = append(refs, in.Coms[i].Symbol)
		}
		coms = append(coms, in.Coms[i].Id)
		refs = append(refs, in.Coms[i].Id)
	}
	var accs, ids []string
	free := rapid.Permutation([]string{"100200300", "0012", "777", "42", "A_b9"}).Draw(t, "ids")
	for _, n := range genAccNames(t, 2, 9) {
		a := Acc{Full: n, Com: pick(t, "com", append(coms, "", "", "")...)}
		if len(free) > 1 && chance(t, "hasid", 3) {
			if chance(t, "ofxid", 4) && free[0][0] != 'A' {
				a.OfxId = free[0]
			} else {
				a.CsvId = free[0]
			}
			ids = append(ids, free[0])
			free = free[1:]
		}
		accs = append(accs, n)
		in.Accs = append(in.Accs, a)
	}
	if len(ids) == 0 {
		in.Accs[0].CsvId = free[0]
		ids = append(ids, free[0])
	}
	if !chance(t, "norules", 5) {
		of := map[string]string{}
		var rids []string
		for _, a := range in.Accs {
			if id := a.OfxId + a.CsvId; id != "" && !chance(t, "notinrules", 4) {
				of[id] = a.Full
				rids = append(rids, id)
			}
		}
		if chance(t, "rulesonly", 3) {
			of["9090"] = pick(t, "of", accs...)
			rids = append(rids, "9090")
			ids = append(ids, "9090")
		}
		if len(rids) > 0 {
			f := genRuleFile(t, rids, of, accs, allNames(accs))
			in.Rules = &f
		}
	}
	// columns, in some order; every row has all of them
	kinds := []string{"id", "idtext", "desc", "type", "diso", "dus", "dcompact", "dtime", "amt", "debit", "credit", "abs", "amttext", "cur", "sym", "qty", "note", "note2", "junk"}
	kinds = rapid.Permutation(kinds).Draw(t, "columns")
	col := map[string]int{}
	for i, k := range kinds {
		col[k] = i
	}
	trades := rapid.Bool().Draw(t, "trades")
	genRow := func() []string {
		v := map[string]string{}
		v["id"] = pick(t, "id", ids...)
		v["idtext"] = pick(t, "idpre", "Acct ", "CAD Acct  ", "Acct\t") + pick(t, "id", ids...) + pick(t, "idpost", "", " (x)")
		v["desc"] = genPayee(t)
		if strings.HasPrefix(v["desc"], "(") {
			v["desc"] = "p " + v["desc"]
		}
		if chance(t, "blanks", 5) {
			v["desc"] = " " + strings.ReplaceAll(v["desc"], " ", pick(t, "wide", "  ", "\n", " \t")) + " "
		}
		if chance(t, "punct", 6) {
			v["desc"] = "Dr. \"Q\", " + v["desc"]
		}
		v["type"] = pick(t, "type", "Buy", "Sell", "Dividend", "")
		d := genDay(t, day("2019/12/25"), 20)
		v["diso"] = d
		v["dus"] = d[5:7] + "/" + d[8:] + "/" + d[:4]
		v["dcompact"] = d[:4] + d[5:7] + d[8:]
		v["dtime"] = d + pick(t, "time", "", " 10:11:12", " x")
		abs := fmt.Sprint(num(t, "units", 0, 3000)) + pick(t, "frac", "", ".5", ".05", ".00", ".125", ".9999")
		if chance(t, "big", 8) {
			abs = digits(t, "bigamt", 8, 22) + ".01"
		}
		neg := rapid.Bool().Draw(t, "neg")
		v["abs"] = abs
		v["amt"] = abs
		if neg {
			v["amt"] = "-" + abs
			v["debit"] = abs
		} else {
			v["credit"] = abs
		}
		v["amttext"] = strings.Replace("CAD $"+v["amt"]+"*", "$-", "-$", 1)
		if rapid.Bool().Draw(t, "hascur") {
			v["cur"] = pick(t, "cur", refs...)
		}
		if trades && !chance(t, "nosym", 4) {
			v["sym"] = pick(t, "rowsym", refs...)
		}
		if trades && !chance(t, "noqty", 4) {
			v["qty"] = pick(t, "qneg", "", "-") + fmt.Sprint(num(t, "qty", 0, 50)) + pick(t, "qfrac", "", ".5", ".333")
		}
		v["note"] = pick(t, "note", "", "", "n1", "#tag: v", "two  blanks ", "a, b")
		v["note2"] = pick(t, "note2", "", "more", "7")
		v["junk"] = pick(t, "junk", "", "x", "#", "\"", "5.00")
		row := make([]string, len(kinds))
		for k, i := range col {
			row[i] = v[k]
		}
		return row
	}
	if chance(t, "fields", 3) {
		n := num(t, "nfields", 4, 8)
		in.Fields = []int{col["id"], col["desc"], col["diso"], col["amt"], col["cur"], col["sym"], col["qty"], col["note"]}[:n]
	}
	if in.Fields == nil || rapid.Bool().Draw(t, "sources") {
		n := num(t, "nsources", 1, 3)
		for i := 0; i < n; i++ {
			x := csvSource{Name: fmt.Sprintf("%s%d", pick(t, "sname", "bank", "x_", "9"), i), Skip: num(t, "skip", 0, 3)}
			x.NoSkip = x.Skip == 0 && rapid.Bool().Draw(t, "noskip")
			x.Defs = genDefs(t, col, ids, refs)
			in.Sources = append(in.Sources, x)
		}
		in.Use = num(t, "use", 0, n-1)
	}
	skip := in.source().Skip
	for n := num(t, "nfiles", 1, 2); n > 0; n-- {
		f := csvFile{Style: rapid.SliceOfN(rapid.Byte(), 8, 40).Draw(t, "csvstyle")}
		for k := skip; k > 0; k-- {
			switch num(t, "headkind", 0, 2) {
			case 0:
				f.Head = append(f.Head, kinds)
			case 1:
				f.Head = append(f.Head, []string{"Statement", "of 2020"})
			default:
				f.Head = append(f.Head, genRow())
			}
		}
		for k := count(t, "nrows", 6, 15, 40); k > 0; k-- {
			f.Rows = append(f.Rows, genRow())
		}
		in.Files = append(in.Files, f)
	}
	return in
}

// genDefs makes the definitions of a source, in some order.
func genDefs(t *rapid.T, col map[string]int, ids, refs []string) []csvDef {
	at := func(k string) int { return col[k] }
	dir := func(n, k string) csvDef { return csvDef{Name: n, Idx: at(k)} }
	ext := func(n, k, tmpl, re string) csvDef { return csvDef{Name: n, Idx: at(k), Tmpl: tmpl, Re: re} }
	der := func(n, tmpl string) csvDef { return csvDef{Name: n, Idx: -1, Tmpl: tmpl} }
	cond := func(n, tmpl, f, re string) csvDef { return csvDef{Name: n, Idx: -1, Tmpl: tmpl, Cond: f, Re: re} }
	var groups [][]csvDef
	add := func(label string, options ...[]csvDef) {
		groups = append(groups, options[num(t, label, 0, len(options)-1)])
	}
	ds := func(d ...csvDef) []csvDef { return d }
	add("account",
		ds(dir("account", "id")),
		ds(ext("account", "idtext", "$1", `Acct\s+(\w+)`)),
		ds(der("account", pick(t, "constid", ids...))),
		ds(dir("aid", "id"), der("account", "${aid}")),
		ds(ext("account", "desc", "none", `no such text`), dir("account", "id")),
		ds(dir("atype", "type"), cond("account", pick(t, "condid", ids...), "atype", "^(Buy|Sell)$"), ext("account", "idtext", "$2", `(Acct)\s+(\w+)`)))
	add("description",
		ds(dir("description", "desc")),
		ds(dir("dd", "desc"), dir("dt", "type"), der("description", "${dt} ${dd}")),
		ds(ext("description", "desc", "$0!", `\S.*`), dir("description", "desc")),
		ds(ext("description", "desc", "$1 $1", `(PAY\w*)`), ext("description", "desc", "x $9$2$", `A(.)`), dir("description", "desc")),
		ds(der("description", "A constant B")),
		ds(dir("dd", "desc"), der("description", "{${dd}} x } $}")),
		ds(dir("dd", "desc"), der("description", "cost $5 of $x ${dd} ${nosuch}$")),
		ds(dir("dt", "type"), dir("dd", "desc"), cond("description", "DIV ${dd}", "dt", "Div"), cond("description", "none", "nosuch", "."), der("description", "${dd}")))
	add("date",
		ds(dir("date", "diso")),
		ds(ext("date", "dus", "$3/$1/$2", `(\d\d)/(\d\d)/(\d{4})`)),
		ds(ext("date", "dcompact", "$1/$2/$3", `^(\d{4})(\d\d)(\d\d)$`)),
		ds(ext("date", "dtime", "$1", `^(\S+)`)),
		ds(ext("year", "dcompact", "$1", `^(....)`), ext("md", "dus", "$1/$2", `^(..)/(..)`), der("date", "${year}/${md}")))
	add("amount",
		ds(dir("amount", "amt")),
		ds(ext("amount", "debit", "-$1", `(.+)`), dir("amount", "credit")),
		ds(dir("amount", "credit"), dir("deb", "debit"), der("amount", "-${deb}")),
		ds(ext("amount", "amttext", "$1$2", `(-?)\$([0-9.]+)`)),
		ds(dir("abs", "abs"), dir("mt", "type"), cond("amount", "-${abs}", "mt", "^Buy$"), der("amount", "${abs}")))
	add("currency", nil,
		ds(dir("currency", "cur")),
		ds(der("currency", pick(t, "constcur", refs...))),
		ds(dir("ct", "type"), cond("currency", pick(t, "condcur", refs...), "ct", "Dividend|Sell"), dir("currency", "cur")))
	add("symbol", nil,
		ds(dir("symbol", "sym")),
		ds(dir("symbol", "sym"), dir("st", "type"), cond("symbol", pick(t, "condsym", refs...), "st", "^S")))
	add("quantity", nil,
		ds(dir("quantity", "qty")),
		ds(dir("q", "qty"), dir("qt", "type"), ext("quantity", "qty", "$1", `^-(.+)`), dir("quantity", "qty")))
	add("note", nil,
		ds(dir("note", "note")),
		ds(dir("n1", "note"), dir("n2", "note2"), der("note", "${n2} => ${n1}")),
		ds(ext("note", "note", "tag $1", `#(\w+)`), dir("note", "note2")))
	// names used by several groups keep one meaning; their definitions come once
	seen := map[string]string{}
	var queues [][]csvDef
	for _, g := range groups {
		var q []csvDef
		inGroup := map[string]bool{}
		for _, d := range g {
			if o, ok := seen[d.Name]; ok && !inGroup[d.Name] && o != "" {
				continue
			}
			inGroup[d.Name] = true
			seen[d.Name] = "x"
			q = append(q, d)
		}
		if len(q) > 0 {
			queues = append(queues, q)
		}
	}
	// interleave, each group in its order
	var out []csvDef
	for len(queues) > 0 {
		k := num(t, "next", 0, len(queues)-1)
		out = append(out, queues[k][0])
		if queues[k] = queues[k][1:]; len(queues[k]) == 0 {
			queues = append(queues[:k:k], queues[k+1:]...)
		}
	}
	return out
}

// write writes the files and gives the rules and the arguments of the importer.
func (in *c16Case) write(d string) (text string, args []string) {
	l := Led{Coms: in.Coms, Accs: in.Accs}
	l.write(d)
	var rules strings.Builder
	s := &style{b: []uint8{3, 1, 4, 1, 5, 9, 2, 6}}
	if in.Rules != nil {
		s = &style{b: in.Rules.Style}
	}
	for i := range in.Sources {
		if i == 0 {
			rules.WriteString([]string{"", "", "", "\n", "  \n"}[s.next(5)])
		}
		rules.WriteString(in.Sources[i].render(s))
		rules.WriteString([]string{"", "", "\n", "\n\n", " \t\n", "\n  \n"}[s.next(6)])
	}
	if in.Rules != nil {
		rules.WriteString("---\n" + in.Rules.render())
	} else if s.next(3) == 0 {
		rules.WriteString("---\n")
	}
	if rules.Len() > 0 {
		writeFile(filepath.Join(d, "csv.rules"), rules.String())
	}
	if in.Fields != nil {
		var fs []string
		for _, k := range in.Fields {
			fs = append(fs, strconv.Itoa(k))
		}
		args = append(args, "-fields="+strings.Join(fs, ","))
	} else {
		args = append(args, "-source="+in.Sources[in.Use].Name)
	}
	for i := range in.Files {
		fn := filepath.Join("csv", fmt.Sprintf("%d.csv", i))
		writeFile(filepath.Join(d, fn), in.Files[i].render())
		args = append(args, fn)
	}
	return rules.String(), args
}

func c16Check(c *Ctx, in c16Case) error {
	d := c.Dir()
	rules, args := in.write(d)
	rfn := filepath.Join(d, "csv.rules")
	model, drops, convs := in.model()
	o := c.Run(d, d, "csv2coin", args...)
	if err := mustOK(o, "csv2coin", args); err != nil {
		return viol("%w\n%s", err, rules)
	}
	out, err := readFormatted(o.Stdout)
	if err != nil {
		return err
	}
	var got, want []string
	for _, f := range out {
		got = append(got, f.imp().full())
	}
	classified := 0
	for _, t := range model {
		want = append(want, t.full())
		for _, p := range t.Posts {
			if p.Acc != "Unbalanced" {
				classified++
			}
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if d := firstDiff(got, want); d != "" {
		return viol("imported: %s\n%s", d, rules)
	}
	if rules != "" {
		dump := c.Run(d, d, "csv2coin", "-rules")
		if err := mustOK(dump, "csv2coin -rules"); err != nil {
			return err
		}
		writeFile(rfn, dump.Stdout)
		o2 := c.Run(d, d, "csv2coin", args...)
		if err := mustOK(o2, "csv2coin with dumped rules", args); err != nil {
			return viol("%w\n%s", err, dump.Stdout)
		}
		if o2.Stdout != o.Stdout {
			return viol("imported differently with dumped rules: %s\n%s", firstDiff(lines(o2.Stdout), lines(o.Stdout)), dump.Stdout)
		}
	}
	if convs > 0 {
		c.Label("conversions")
	}
	if drops > 0 {
		c.Label("dropped")
	}
	if in.Fields != nil {
		c.Label("field list")
	}
	derived := false
	if in.Fields == nil {
		for _, d := range in.Sources[in.Use].Defs {
			derived = derived || d.Idx < 0 || d.Re != ""
		}
	}
	c.NonTrivial(len(model) >= 2 && classified > len(model) && (derived || in.Fields != nil))
	return nil
}

// A c16Ragged is an import with a row of another number of columns than the others of its file.
type c16Ragged struct {
	c16Case
	File, Row int
	More      bool
}

func c16RaggedGen(t *rapid.T) (in c16Ragged) {
	in.c16Case = c16Gen(t)
	in.File = num(t, "rfile", 0, len(in.Files)-1)
	f := &in.Files[in.File]
	for len(f.Rows) > 0 && len(f.Rows) < 2 {
		f.Rows = append(f.Rows, append([]string(nil), f.Rows[0]...))
	}
	if len(f.Rows) == 0 {
		return in
	}
	in.Row = num(t, "rrow", 0, len(f.Rows)-1)
	in.More = rapid.Bool().Draw(t, "more")
	r := append([]string(nil), f.Rows[in.Row]...)
	if in.More {
		r = append(r, "x")
	} else {
		r = r[:len(r)-num(t, "less", 1, 3)]
	}
	f.Rows[in.Row] = r
	return in
}

func c16RaggedCheck(c *Ctx, in c16Ragged) error {
	if len(in.Files[in.File].Rows) == 0 {
		return nil
	}
	d := c.Dir()
	rules, args := in.write(d)
	o := c.Run(d, d, "csv2coin", args...)
	if o.TimedOut || o.Fault() {
		return viol("internal fault on a row with another number of columns\n%s", o.Stderr)
	}
	if o.OK() || o.Stderr == "" {
		return viol("row %d of file %d has another number of columns and is not refused\n%s\n%s", in.Row+1, in.File, o.Stdout, rules)
	}
	if strings.TrimSpace(o.Stdout) != "" {
		return viol("a refused import has output\n%s", o.Stdout)
	}
	c.NonTrivial(true)
	return nil
}

func init() {
	register(&Prop{
		ID:   "C16",
		Rule: "random commodities with symbols, account trees with import ids, rule files and sources (direct, extracted, derived and conditional values, several rules for a value, header lines) or field lists, CSV files with quoting, blank and header lines; non-trivial if there are at least two transactions, some of them classified, and values are extracted, derived or listed, or a row of another number of columns has to be refused",
		Subs: []Sub{
			sub("import", 8000, 100000, c16Gen, c16Check),
			sub("ragged", 800, 8000, c16RaggedGen, c16RaggedCheck),
		},
	})
}
