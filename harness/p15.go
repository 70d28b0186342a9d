package main

import (
	"fmt"
	"math/big"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

type ofxRec struct {
	Day, Time  string // 2020/01/02, rest of the date field
	Amt        string
	Name, Memo string
}

type ofxStmt struct {
	CC     bool
	Id     string
	Bal    string
	NoList bool
	Recs   []ofxRec
}

type ofxFile struct {
	Xml   bool
	Stmts []ofxStmt
}

type c15Case struct {
	Coms    []Com
	Accs    []Acc
	Rules   *RuleFile
	Files   []ofxFile
	Ledger  []Tx
	Keep    bool
	ByRules map[string]string // import ids mentioned by the rules
}

func xmlEsc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}

func (f *ofxFile) render() string {
	var b strings.Builder
	el := func(tag, val string) {
		b.WriteString("<" + tag + ">" + xmlEsc(val))
		if f.Xml {
			b.WriteString("</" + tag + ">")
		}
		b.WriteString("\n")
	}
	open := func(ts ...string) {
		for _, t := range ts {
			b.WriteString("<" + t + ">\n")
		}
	}
	status := func() {
		open("STATUS")
		el("CODE", "0")
		el("SEVERITY", "INFO")
		open("/STATUS")
	}
	if f.Xml {
		b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\"?>\n<?OFX OFXHEADER=\"200\" VERSION=\"203\" SECURITY=\"NONE\" OLDFILEUID=\"NONE\" NEWFILEUID=\"NONE\"?>\n")
	} else {
		b.WriteString("OFXHEADER:100\nDATA:OFXSGML\nVERSION:103\nSECURITY:NONE\nENCODING:USASCII\nCHARSET:1252\nCOMPRESSION:NONE\nOLDFILEUID:NONE\nNEWFILEUID:NONE\n\n")
	}
	open("OFX", "SIGNONMSGSRSV1", "SONRS")
	status()
	el("DTSERVER", "20200407001840")
	el("LANGUAGE", "ENG")
	open("/SONRS", "/SIGNONMSGSRSV1")
	for _, cc := range []bool{false, true} {
		n := 0
		set, rs, st, from := "BANKMSGSRSV1", "STMTTRNRS", "STMTRS", "BANKACCTFROM"
		if cc {
			set, rs, st, from = "CREDITCARDMSGSRSV1", "CCSTMTTRNRS", "CCSTMTRS", "CCACCTFROM"
		}
		for i := range f.Stmts {
			s := &f.Stmts[i]
			if s.CC != cc {
				continue
			}
			if n == 0 {
				open(set)
			}
			n++
			open(rs)
			el("TRNUID", fmt.Sprint(1000+i))
			status()
			open(st)
			el("CURDEF", "CAD")
			open(from)
			if !cc {
				el("BANKID", "300000100")
			}
			el("ACCTID", s.Id)
			if !cc {
				el("ACCTTYPE", "CHECKING")
			}
			open("/" + from)
			if !s.NoList {
				open("BANKTRANLIST")
				el("DTSTART", "20200101")
				el("DTEND", "20201231")
				for j, r := range s.Recs {
					open("STMTTRN")
					el("TRNTYPE", "DEBIT")
					el("DTPOSTED", strings.ReplaceAll(r.Day, "/", "")+r.Time)
					el("TRNAMT", r.Amt)
					el("FITID", fmt.Sprintf("%d-%d", i, j))
					if r.Name != "" {
						el("NAME", r.Name)
					}
					if r.Memo != "" {
						el("MEMO", r.Memo)
					}
					open("/STMTTRN")
				}
				open("/BANKTRANLIST")
			}
			open("LEDGERBAL")
			el("BALAMT", s.Bal)
			el("DTASOF", "20201231")
			open("/LEDGERBAL", "/"+st, "/"+rs)
		}
		if n > 0 {
			open("/" + set)
		}
	}
	open("/OFX")
	return b.String()
}

// An impTx is an imported transaction.
type impTx struct {
	Day, Code, Desc string
	Notes           []string
	Posts           []impPost
}

type impPost struct {
	Acc, Amt, Com string
	Bal           string
}

// key is what makes imported records equal.
func (t *impTx) key() string {
	s := t.Day + "|" + t.Code
	for _, p := range t.Posts {
		s += "|" + p.Acc + " " + p.Amt + " " + p.Com
	}
	return s
}

func (t *impTx) text() string { return fmt.Sprintf("%q %q", t.Desc, t.Notes) }
func (t *impTx) bals() (s string) {
	for _, p := range t.Posts {
		if p.Bal != "" {
			s += p.Acc + " = " + p.Bal + " " + p.Com + ";"
		}
	}
	return s
}
func (t *impTx) full() string { return t.key() + " " + t.text() + " " + t.bals() }

func (f *fTx) imp() *impTx {
	t := &impTx{Day: f.Day, Code: f.Code, Desc: f.Desc, Notes: f.Notes}
	for _, p := range f.Posts {
		t.Posts = append(t.Posts, impPost{p.Acc, p.Amt, p.Com, p.Bal})
	}
	return t
}

// post makes the postings of an import, the positive one first.
func (t *impTx) post(from, to string, u *big.Int, dec int, com, bal string) {
	a := impPost{from, show(u, dec), com, bal}
	b := impPost{to, show(new(big.Int).Neg(u), dec), com, ""}
	if u.Sign() < 0 {
		a, b = b, a
	}
	t.Posts = []impPost{a, b}
}

var codeLike = regexp.MustCompile(`^\(([A-Za-z0-9_]+)\)(?:\s+(.*))?$`)

func (in *c15Case) dec(com string) int {
	for _, c := range in.Coms {
		if c.Id == com {
			return c.Dec
		}
	}
	return 0
}

// account gives the account with an import id and its rules.
func (in *c15Case) account(id string) (a *Acc, sec *RuleSec) {
	full := ""
	if in.Rules != nil {
		if sec = in.Rules.sec(id); sec != nil {
			full = sec.Acc
		}
	}
	for i := range in.Accs {
		if a := &in.Accs[i]; a.Full == full || full == "" && a.OfxId == id {
			return a, sec
		}
	}
	for i := range in.Accs {
		if a := &in.Accs[i]; full == "" && a.CsvId == id {
			return a, sec
		}
	}
	return nil, sec
}

// model gives the transactions of the statements in order, duplicates included.
func (in *c15Case) model() (ts []*impTx, dropped int) {
	for _, f := range in.Files {
		for _, s := range f.Stmts {
			if s.NoList {
				continue
			}
			a, sec := in.account(s.Id)
			com := a.Com
			if com == "" {
				com = "CAD"
			}
			dec := in.dec(com)
			for j, r := range s.Recs {
				payee := strings.TrimSpace(r.Name)
				if !s.CC {
					payee = strings.Join(strings.Fields(payee+strings.TrimSpace(r.Memo)), " ")
				}
				to := "Unbalanced"
				t := &impTx{Day: r.Day, Desc: payee}
				if in.Rules != nil {
					if rule, _ := in.Rules.choose(sec, payee); rule != nil {
						if rule.Drop {
							dropped++
							continue
						}
						to, t.Notes = rule.Acc, rule.Notes
					}
				}
				if m := codeLike.FindStringSubmatch(payee); m != nil {
					t.Code, t.Desc = m[1], m[2]
				}
				bal := ""
				if !s.CC && j == len(s.Recs)-1 {
					bal = show(cutLiteral(ofxAmt(s.Bal), dec), dec)
				}
				t.post(a.Full, to, cutLiteral(ofxAmt(r.Amt), dec), dec, com, bal)
				ts = append(ts, t)
			}
		}
	}
	return ts, dropped
}

func ofxAmt(s string) string {
	s = strings.TrimPrefix(strings.Replace(s, ",", ".", 1), "+")
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	if strings.HasPrefix(s, ".") {
		s = "0" + s
	}
	if neg {
		s = "-" + s
	}
	return s
}

func genOfxAmt(t *rapid.T) string {
	s := ""
	switch num(t, "akind", 0, 5) {
	case 0:
		s = pick(t, "simple", "5", "10.00", "0", "0.01", "0.009", "1.999")
	case 1:
		s = digits(t, "big", 10, 25) + "." + digits(t, "frac", 1, 15)
	default:
		s = fmt.Sprint(num(t, "units", 0, 500)) + pick(t, "frac", "", ".5", ".05", ".00", ".125", ".9999")
	}
	switch num(t, "spelling", 0, 5) {
	case 0:
		s = strings.Replace(s, ".", ",", 1)
	case 1:
		if strings.HasPrefix(s, "0.") {
			s = s[1:]
		}
	}
	switch num(t, "sign", 0, 4) {
	case 0, 1:
		s = "-" + s
	case 2:
		s = "+" + s
	}
	return s
}

func genOfxTime(t *rapid.T) string {
	switch num(t, "tkind", 0, 5) {
	case 0, 1:
		return ""
	case 2:
		return pick(t, "time", "120000", "000000", "235959", "120000.000", "003000.123", "1200")
	}
	return pick(t, "time", "120000", "000000", "235959", "235959.999", "010203.000") +
		pick(t, "zone", "[-5:EST]", "[0:GMT]", "[-12]", "[+12:NZST]", "[-4:EDT]", "[5.50:IST]", "[0]", "[+14]")
}

// genAccs makes accounts with their commodities, some of them with import ids.
func genImpAccs(t *rapid.T) (coms []Com, accs []Acc, ids []string) {
	coms = genComs(t, ledOpt{MaxComs: 3, NoDefault: true})
	names := []string{}
	for _, c := range coms {
		names = append(names, c.Id)
	}
	one := rapid.Bool().Draw(t, "onecom")
	free := rapid.Permutation([]string{"100200300", "0012", "777", "42", "555000111222333"}).Draw(t, "ids")
	for _, n := range genAccNames(t, 1, 7) {
		a := Acc{Full: n}
		if !one {
			a.Com = pick(t, "com", append(names, "")...)
		}
		if len(free) > 1 && chance(t, "hasid", 2) {
			if chance(t, "csvid", 4) {
				a.CsvId = free[0]
			} else {
				a.OfxId = free[0]
			}
			ids = append(ids, free[0])
			free = free[1:]
		}
		accs = append(accs, a)
	}
	if len(ids) == 0 {
		accs[0].OfxId = free[0]
		ids = append(ids, free[0])
	}
	return coms, accs, ids
}

func c15Gen(t *rapid.T) (in c15Case) {
	var ids []string
	in.Coms, in.Accs, ids = genImpAccs(t)
	var accs []string
	for _, a := range in.Accs {
		accs = append(accs, a.Full)
	}
	if !chance(t, "norules", 5) {
		of := map[string]string{}
		var rids []string
		for _, a := range in.Accs {
			id := a.OfxId + a.CsvId
			if id != "" && !chance(t, "notinrules", 4) {
				of[id] = a.Full
				rids = append(rids, id)
			}
		}
		if chance(t, "rulesonly", 3) { // known to the rules only
			of["9090"] = pick(t, "of", accs...)
			rids = append(rids, "9090")
			ids = append(ids, "9090")
		}
		f := genRuleFile(t, rids, of, accs, allNames(accs))
		in.Rules = &f
	}
	days := num(t, "days", 1, 6)
	var recs []ofxRec
	for nf := num(t, "nfiles", 1, 3); nf > 0; nf-- {
		f := ofxFile{Xml: rapid.Bool().Draw(t, "xml")}
		for ns := num(t, "nstmts", 1, 2); ns > 0; ns-- {
			s := ofxStmt{CC: chance(t, "cc", 3), Id: pick(t, "id", ids...), Bal: genOfxAmt(t), NoList: chance(t, "nolist", 15)}
			for nr := count(t, "nrecs", 5, 20, 60); nr > 0 && !s.NoList; nr-- {
				r := ofxRec{Day: genDay(t, day("2019/12/29"), days), Time: genOfxTime(t), Amt: genOfxAmt(t), Name: genPayee(t)}
				switch num(t, "rkind", 0, 9) {
				case 0:
					r.Name = pick(t, "code", "(123)", "(A_1)", "(é)", "(a b)", "()") + pick(t, "gap", " ", " ", "") + r.Name
				case 1:
					r.Name = pick(t, "special", "AT&T", "<b>x</b>", "a & < b", "(77)", "Queen St. \"Q\"")
				case 2:
					r.Name = ""
				case 3, 4:
					if len(recs) > 0 { // the same again, or nearly
						o := pick(t, "again", recs...)
						r.Day, r.Amt = o.Day, o.Amt
						if rapid.Bool().Draw(t, "samename") {
							r.Name, r.Memo = o.Name, o.Memo
						}
					}
				}
				if r.Memo == "" && chance(t, "hasmemo", 3) || r.Name == "" {
					r.Memo = genPayee(t)
				}
				if !s.CC && chance(t, "blanks", 4) {
					r.Name = strings.ReplaceAll(r.Name, " ", pick(t, "wide", "  ", "\t", "     "))
				}
				if s.CC && r.Name == "" {
					r.Name = "CARD"
				}
				s.Recs = append(s.Recs, r)
				recs = append(recs, r)
			}
			f.Stmts = append(f.Stmts, s)
		}
		// banks come before credit cards in a file
		sort.SliceStable(f.Stmts, func(i, j int) bool { return !f.Stmts[i].CC && f.Stmts[j].CC })
		in.Files = append(in.Files, f)
	}
	if chance(t, "samefile", 6) {
		in.Files = append(in.Files, in.Files[0])
	}
	in.Keep = chance(t, "keep", 4)
	// transactions of the ledger: like some of the records, or nearly
	model, _ := in.model()
	com := map[string]string{"Unbalanced": "CAD"}
	for _, n := range allNames(accs) {
		com[n] = "CAD"
	}
	for _, a := range in.Accs {
		if a.Com != "" {
			com[a.Full] = a.Com
		}
	}
	for _, m := range model {
		if !chance(t, "inledger", 3) {
			continue
		}
		tx := Tx{Day: m.Day, Code: m.Code, Desc: pick(t, "ldesc", "x", "Other text", "Y")}
		foreign := false
		for _, p := range m.Posts {
			foreign = foreign || com[p.Acc] != p.Com
			tx.Posts = append(tx.Posts, Post{Acc: p.Acc, Lit: p.Amt, Com: p.Com})
		}
		if foreign {
			continue
		}
		switch num(t, "differ", 0, 8) {
		case 0:
			tx.Day = day(tx.Day).AddDate(0, 0, pick(t, "off", -1, 1)).Format(dateFmt)
		case 1:
			tx.Code = pick(t, "lcode", "", "9", "12a")
		case 2:
			if a := pick(t, "lacc", accs...); com[a] == tx.Posts[1].Com && a != tx.Posts[1].Acc {
				tx.Posts[1].Acc = a
			}
		case 3:
			z := show(big.NewInt(0), in.dec(tx.Posts[0].Com))
			tx.Posts = append(tx.Posts, Post{Acc: tx.Posts[1].Acc, Lit: z, Com: tx.Posts[0].Com})
		case 4:
			tx.Posts[1].Lit = "" // the amount is left to be filled in
		}
		in.Ledger = append(in.Ledger, tx)
	}
	if len(in.Ledger) > 1 {
		in.Ledger = rapid.Permutation(in.Ledger).Draw(t, "ledorder")
	}
	return in
}

func c15Check(c *Ctx, in c15Case) error {
	d := c.Dir()
	l := Led{Coms: in.Coms, Accs: in.Accs, Txs: in.Ledger, Files: 1}
	l.write(d)
	if in.Rules != nil {
		writeFile(filepath.Join(d, "ofx.rules"), in.Rules.render())
	}
	args := []string{}
	if in.Keep {
		args = append(args, "-keep-dupes")
	}
	for i := range in.Files {
		fn := filepath.Join("stmts", fmt.Sprintf("%d.ofx", i))
		writeFile(filepath.Join(d, fn), in.Files[i].render())
		args = append(args, fn)
	}
	model, drops := in.model()
	inLedger := map[string]bool{}
	for _, t := range newModel(&l).txs {
		k := t.Src.Day + "|" + t.Src.Code
		for _, p := range t.Posts {
			k += "|" + p.Acc.Full + " " + show(p.Q, in.dec(p.Com)) + " " + p.Com
		}
		inLedger[k] = true
	}
	o := c.Run(d, d, "ofx2coin", args...)
	if err := mustOK(o, "ofx2coin", args); err != nil {
		return err
	}
	out, err := readFormatted(o.Stdout)
	if err != nil {
		return err
	}
	var got []*impTx
	prev := ""
	for _, f := range out {
		if f.Day < prev {
			return viol("imported out of order: %s after %s\n%s", f.Day, prev, o.Stdout)
		}
		prev = f.Day
		got = append(got, f.imp())
	}
	reported := strings.Count(o.Stderr, "DROPPING DUPLICATE TRANSACTION:")
	dups := 0
	if in.Keep {
		var g, w []string
		for _, t := range got {
			g = append(g, t.full())
		}
		for _, t := range model {
			w = append(w, t.full())
		}
		sort.Strings(g)
		sort.Strings(w)
		if d := firstDiff(g, w); d != "" {
			return viol("imported with duplicates: %s", d)
		}
		if reported != 0 {
			return viol("%d duplicates reported though kept", reported)
		}
	} else {
		groups := map[string][]*impTx{}
		var keys []string
		want := 0
		for _, t := range model {
			k := t.key()
			if inLedger[k] {
				dups++
				continue
			}
			if groups[k] == nil {
				want++
				keys = append(keys, k)
			} else {
				dups++
			}
			groups[k] = append(groups[k], t)
		}
		seen := map[string]bool{}
		for _, t := range got {
			k := t.key()
			if groups[k] == nil {
				why := "no such record"
				if inLedger[k] {
					why = "is in the ledger already"
				}
				return viol("imported: %s: %s\nexpected one of %q", why, t.full(), keys)
			}
			if seen[k] {
				return viol("imported: twice: %s", t.full())
			}
			seen[k] = true
			text, bal, hasBal := false, false, false
			for _, w := range groups[k] {
				text = text || w.text() == t.text()
				bal = bal || w.bals() == t.bals()
				hasBal = hasBal || w.bals() != ""
			}
			if !text {
				return viol("imported: %s, want %s", t.full(), groups[k][0].full())
			}
			if !bal || hasBal && t.bals() == "" {
				return viol("imported: asserted balance %q of %s, want that of %s", t.bals(), t.full(), groups[k][len(groups[k])-1].full())
			}
		}
		for _, k := range keys {
			if !seen[k] {
				return viol("imported: missing %s", groups[k][0].full())
			}
		}
		if reported != dups {
			return viol("%d duplicates reported, want %d\n%s", reported, dups, o.Stderr)
		}
	}
	// again, with the result among the ledger
	same := true
	com := map[string]string{}
	for _, a := range in.Accs {
		com[a.Full] = a.Com
	}
	for _, t := range model {
		for _, p := range t.Posts {
			x := com[p.Acc]
			if x == "" {
				x = "CAD"
			}
			same = same && x == p.Com
		}
	}
	if same {
		writeFile(filepath.Join(d, "e-import.coin"), o.Stdout)
		if in.Keep {
			args = args[1:]
		}
		o2 := c.Run(d, d, "ofx2coin", args...)
		if err := mustOK(o2, "ofx2coin the second time", args); err != nil {
			return err
		}
		if o2.Stdout != "" {
			return viol("importing again imports again:\n%s", o2.Stdout)
		}
		if n := strings.Count(o2.Stderr, "DROPPING DUPLICATE TRANSACTION:"); n != len(model) {
			return viol("importing again reports %d duplicates of %d\n%s", n, len(model), o2.Stderr)
		}
		c.Label("imported twice")
	}
	classified := 0
	for _, t := range model {
		for _, p := range t.Posts {
			if p.Acc == "Unbalanced" {
				classified--
			}
		}
		classified++
	}
	if dups > 0 {
		c.Label("duplicates")
	}
	if drops > 0 {
		c.Label("dropped by rule")
	}
	if classified > 0 {
		c.Label("classified")
	}
	c.NonTrivial(len(model) >= 2 && (dups > 0 || classified > 0 || drops > 0))
	return nil
}

func init() {
	register(&Prop{
		ID:   "C15",
		Rule: "random accounts with import ids, rule files, OFX files in SGML and XML (bank and card statements, dates with times and zones, amounts of any precision), ledger transactions equal or nearly equal to records; non-trivial if there are at least two records and some is classified, dropped by a rule or a duplicate",
		Subs: []Sub{sub("import", 4000, 50000, c15Gen, c15Check)},
	})
}
