package main

import (
	"fmt"
	"math/big"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// ---- the ledger of a case: plain data, rendered to files and evaluated by the model below ----

type Com struct {
	Id       string
	Dec      int
	Name     string `json:",omitempty"`
	Symbol   string `json:",omitempty"`
	NoMarket bool   `json:",omitempty"`
	Default  bool   `json:",omitempty"`
	Fmt      string `json:",omitempty"` // number of the format line
}

type Acc struct {
	Full   string
	Com    string `json:",omitempty"` // default commodity if empty
	Note   string `json:",omitempty"`
	Closed string `json:",omitempty"`
	OfxId  string `json:",omitempty"`
	BankId string `json:",omitempty"`
	CsvId  string `json:",omitempty"`
}

type Pri struct {
	Day      string
	Com, Cur string
	Val      string // literal
}

type Post struct {
	Acc    string
	Lit    string // literal amount, empty if left out
	Com    string
	Assert string   `json:",omitempty"` // literal of asserted balance
	ACom   string   `json:",omitempty"` // commodity of the assertion, if not Com
	Notes  []string `json:",omitempty"`
}

type Tx struct {
	Day   string
	Code  string   `json:",omitempty"`
	Desc  string   `json:",omitempty"`
	Notes []string `json:",omitempty"`
	Posts []Post
	File  int `json:",omitempty"`
}

type Led struct {
	Coms   []Com
	Accs   []Acc
	Prices []Pri `json:",omitempty"`
	Txs    []Tx
	Files  int // 0: transactions.coin, otherwise that many a.coin, b.coin...
}

const dateFmt = "2006/01/02"

func day(s string) time.Time {
	t, err := time.Parse(dateFmt, s)
	infraIf(err)
	return t
}

// ---- rendering ----

func (c *Com) render() string {
	var b strings.Builder
	fmt.Fprintf(&b, "commodity %s\n", c.Id)
	if c.Name != "" {
		fmt.Fprintf(&b, "  note %s\n", c.Name)
	}
	f := c.Fmt
	if f == "" {
		f = "1"
		if c.Dec > 0 {
			f += "." + strings.Repeat("0", c.Dec)
		}
	}
	fmt.Fprintf(&b, "  format %s %s\n", f, c.Id)
	if c.NoMarket {
		b.WriteString("  nomarket\n")
	}
	if c.Symbol != "" {
		fmt.Fprintf(&b, "  symbol %s\n", c.Symbol)
	}
	if c.Default {
		b.WriteString("  default\n")
	}
	return b.String()
}

func (a *Acc) render() string {
	var b strings.Builder
	fmt.Fprintf(&b, "account %s\n", a.Full)
	if a.Note != "" {
		fmt.Fprintf(&b, "  note %s\n", a.Note)
	}
	if a.Com != "" {
		fmt.Fprintf(&b, "  commodity %s\n", a.Com)
	}
	if a.Closed != "" {
		fmt.Fprintf(&b, "  closed %s\n", a.Closed)
	}
	if a.BankId != "" {
		fmt.Fprintf(&b, "  ofx_bankid %s\n", a.BankId)
	}
	if a.OfxId != "" {
		fmt.Fprintf(&b, "  ofx_acctid %s\n", a.OfxId)
	}
	if a.CsvId != "" {
		fmt.Fprintf(&b, "  csv_acctid %s\n", a.CsvId)
	}
	return b.String()
}

func (p *Pri) render() string {
	return fmt.Sprintf("P %s %s %s %s\n", p.Day, p.Com, p.Val, p.Cur)
}

func (p *Post) render() string {
	s := "  " + p.Acc
	if p.Lit != "" {
		s += "  " + p.Lit + " " + p.Com
		if p.Assert != "" {
			com := p.Com
			if p.ACom != "" {
				com = p.ACom
			}
			s += " = " + p.Assert + " " + com
		}
	}
	s += "\n"
	for _, n := range p.Notes {
		s += "    ; " + n + "\n"
	}
	return s
}

func (t *Tx) render() string {
	s := t.Day
	if t.Code != "" {
		s += " (" + t.Code + ")"
	}
	if t.Desc != "" {
		s += " " + t.Desc
	}
	s += "\n"
	for _, n := range t.Notes {
		s += "  ; " + n + "\n"
	}
	for i := range t.Posts {
		s += t.Posts[i].render()
	}
	return s
}

func (l *Led) comFile() string {
	var b strings.Builder
	for i := range l.Coms {
		b.WriteString(l.Coms[i].render())
		b.WriteString("\n")
	}
	return b.String()
}

func (l *Led) accFile() string {
	var b strings.Builder
	for i := range l.Accs {
		b.WriteString(l.Accs[i].render())
		b.WriteString("\n")
	}
	return b.String()
}

func (l *Led) priceFile() string {
	var b strings.Builder
	for i := range l.Prices {
		b.WriteString(l.Prices[i].render())
	}
	return b.String()
}

func (l *Led) txFileName(i int) string {
	if l.Files == 0 {
		return "transactions.coin"
	}
	return fmt.Sprintf("%c-tx.coin", 'd'+rune(i))
}

// write the ledger into directory dir.
func (l *Led) write(dir string) {
	writeFile(filepath.Join(dir, "commodities.coin"), l.comFile())
	writeFile(filepath.Join(dir, "accounts.coin"), l.accFile())
	if len(l.Prices) > 0 {
		writeFile(filepath.Join(dir, "prices.coin"), l.priceFile())
	}
	n := max(l.Files, 1)
	for f := 0; f < n; f++ {
		var b strings.Builder
		for i := range l.Txs {
			if l.Txs[i].File%n == f {
				b.WriteString(l.Txs[i].render())
				b.WriteString("\n")
			}
		}
		writeFile(filepath.Join(dir, l.txFileName(f)), b.String())
	}
}

// ---- model ----

type mAcc struct {
	Name, Full, Com string
	Src             *Acc // nil if implied
	Parent          *mAcc
	Kids            []*mAcc
	Posts           []*mPost // by date, then load order
}

type mPost struct {
	Tx   *mTx
	Acc  *mAcc
	Src  *Post
	Q    *big.Int // units of Com
	Com  string
	Run  *big.Int // account balance including this posting
	Tags map[string]string
}

type mTx struct {
	Src   *Tx
	Date  time.Time
	File  string
	Line  int
	Posts []*mPost
	Tags  map[string]string
}

type model struct {
	led  *Led
	dec  map[string]int
	def  string
	accs map[string]*mAcc
	root *mAcc
	txs  []*mTx // load order
	load *adder // conversions needed by the load itself
}

func parentOf(full string) string {
	if i := strings.LastIndexByte(full, ':'); i >= 0 {
		return full[:i]
	}
	return ""
}

func (m *model) show(u *big.Int, com string) string { return show(u, m.dec[com]) }

// newModel evaluates the ledger; transactions are assumed to be valid, i.e. at most one amount left
// out among postings of one commodity.
func newModel(l *Led) *model {
	m := &model{led: l, dec: map[string]int{}, def: "CAD", accs: map[string]*mAcc{}}
	m.load = &adder{m: m}
	for _, c := range l.Coms {
		m.dec[c.Id] = c.Dec
		if c.Default {
			m.def = c.Id
		}
	}
	add := func(full, com string, src *Acc) {
		if com == "" {
			com = m.def
		}
		m.accs[full] = &mAcc{Name: full[strings.LastIndexByte(full, ':')+1:], Full: full, Com: com, Src: src}
	}
	for i := range l.Accs {
		add(l.Accs[i].Full, l.Accs[i].Com, &l.Accs[i])
	}
	for _, n := range []string{"Root", "Unbalanced"} {
		if m.accs[n] == nil {
			add(n, "", nil)
		}
	}
	for i := range l.Accs {
		for p := parentOf(l.Accs[i].Full); p != ""; p = parentOf(p) {
			if m.accs[p] == nil {
				add(p, "", nil)
			}
		}
	}
	m.root = m.accs["Root"]
	for _, a := range m.sorted() {
		if a == m.root {
			continue
		}
		a.Parent = m.root
		if p := parentOf(a.Full); p != "" {
			a.Parent = m.accs[p]
		}
		a.Parent.Kids = append(a.Parent.Kids, a)
	}
	for _, a := range m.accs {
		sort.SliceStable(a.Kids, func(i, j int) bool { return a.Kids[i].Name < a.Kids[j].Name })
	}
	n := max(l.Files, 1)
	for f := 0; f < n; f++ {
		line := 1
		for i := range l.Txs {
			t := &l.Txs[i]
			if t.File%n != f {
				continue
			}
			mt := &mTx{Src: t, Date: day(t.Day), File: l.txFileName(f), Line: line, Tags: scanTags(t.Notes)}
			line += strings.Count(t.render(), "\n") + 1
			var missing *mPost
			mixed := false
			for j := range t.Posts {
				mixed = mixed || m.accs[t.Posts[j].Acc].Com != m.accs[t.Posts[0].Acc].Com
			}
			sum := new(big.Int)
			for j := range t.Posts {
				p := &t.Posts[j]
				mp := &mPost{Tx: mt, Acc: m.accs[p.Acc], Src: p, Com: p.Com, Tags: scanTags(p.Notes)}
				if mp.Acc == nil {
					infraf("no account %s", p.Acc)
				}
				if p.Lit == "" {
					missing = mp
					mp.Com = mp.Acc.Com
					mp.Q = new(big.Int)
				} else {
					mp.Q = cutLiteral(p.Lit, m.dec[p.Com])
					if !mixed {
						sum = m.load.add(sum, mp.Acc.Com, mp.Q, mp.Com)
					}
				}
				mt.Posts = append(mt.Posts, mp)
			}
			if missing != nil {
				missing.Q = new(big.Int).Neg(sum)
			}
			m.txs = append(m.txs, mt)
		}
	}
	for _, t := range m.txs {
		for _, p := range t.Posts {
			p.Acc.Posts = append(p.Acc.Posts, p)
		}
	}
	for _, a := range m.accs {
		sort.SliceStable(a.Posts, func(i, j int) bool { return a.Posts[i].Tx.Date.Before(a.Posts[j].Tx.Date) })
		run := new(big.Int)
		for _, p := range a.Posts {
			run = m.load.add(run, a.Com, p.Q, p.Com)
			p.Run = run
		}
	}
	return m
}

func (m *model) sorted() []*mAcc {
	var as []*mAcc
	for _, a := range m.accs {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].Full < as[j].Full })
	return as
}

// walk visits a and its sub-accounts, each below its parent in name order.
func (a *mAcc) walk(f func(*mAcc)) {
	f(a)
	for _, k := range a.Kids {
		k.walk(f)
	}
}

func (m *model) depth(a *mAcc) int {
	if a == m.root {
		return 1
	}
	return strings.Count(a.Full, ":") + 1
}

// byDate gives the transactions by date, the load order kept within a day.
func (m *model) byDate() []*mTx {
	ts := append([]*mTx(nil), m.txs...)
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].Date.Before(ts[j].Date) })
	return ts
}

func (t *mTx) asserts() bool {
	for _, p := range t.Posts {
		if p.Src.Assert != "" {
			return true
		}
	}
	return false
}

// formatted gives the transactions in formatting order.
func (m *model) formatted() []*mTx {
	ts := append([]*mTx(nil), m.txs...)
	sort.SliceStable(ts, func(i, j int) bool {
		a, b := ts[i], ts[j]
		if !a.Date.Equal(b.Date) {
			return a.Date.Before(b.Date)
		}
		return !a.asserts() && b.asserts()
	})
	return ts
}

func (p *mPost) other() *mPost {
	for _, q := range p.Tx.Posts {
		if q != p {
			return q
		}
	}
	return nil
}

// scanTags finds the tags in notes, character by character.
func scanTags(notes []string) map[string]string {
	tags := map[string]string{}
	for _, n := range notes {
		for _, kv := range scanTagList(n) {
			tags[kv[0]] = kv[1]
		}
	}
	return tags
}

func isKeyChar(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-' || c == '/'
}

const blanks = " \t\r\f"

func scanTagList(n string) (kvs [][2]string) {
	for i := 0; i < len(n); i++ {
		if n[i] != '#' {
			continue
		}
		j := i + 1
		for j < len(n) && isKeyChar(n[j]) {
			j++
		}
		if j == i+1 {
			continue
		}
		key := n[i+1 : j]
		value := ""
		end := j
		if j < len(n) && n[j] == ':' {
			rest := n[j+1:]
			stop := len(n)
			if k := strings.IndexByte(rest, ','); k >= 0 {
				stop = j + 1 + k
			}
			if v := strings.Trim(n[j+1:stop], blanks+"\n"); v != "" {
				value, end = v, stop
			}
		}
		kvs = append(kvs, [2]string{key, value})
		i = end - 1
	}
	return kvs
}

// ---- generation ----

func pick[T any](t *rapid.T, label string, xs ...T) T { return rapid.SampledFrom(xs).Draw(t, label) }
func num(t *rapid.T, label string, lo, hi int) int    { return rapid.IntRange(lo, hi).Draw(t, label) }
func chance(t *rapid.T, label string, of int) bool    { return num(t, label, 0, of-1) == of-1 }

// count is a number up to small, one time in so many up to big.
func count(t *rapid.T, label string, small, of, big int) int {
	if chance(t, label+"many", of) {
		return num(t, label, small, big)
	}
	return num(t, label, 0, small)
}

type ledOpt struct {
	MaxComs      int  // 1: single commodity
	Prices       bool // prices from every other commodity to an earlier one
	Asserts      int  // one posting in so many gets an assertion (0 none)
	Wrong        bool // some of them are wrong
	MaxTx        int
	Days         int // transactions are within so many days
	Notes        bool
	Codes        bool
	Attrs        bool // names, symbols, notes, closing dates
	Singles      bool // transactions of one posting
	TreeComs     bool // accounts of a subtree share a commodity
	Big          bool // some huge amounts
	Pipes        bool // hostile characters in texts
	Unb          bool // some postings to Unbalanced
	NoDefault    bool // keep CAD as the default commodity
	AnyPrices    bool // prices between any two commodities, both ways
	ForeignMixed bool // only in transactions mixing commodities
	Foreign      bool // amounts in other commodities than that of the account
}

var segPool = []string{"Assets", "Bank", "Food", "Foo", "Foods", "food", "Car", "Card", "A", "B", "b", "Exp-x", "In_c", "R/S", "Tax2", "Rent"}
var topPool = []string{"Assets", "Expenses", "Income", "Liab", "Eq"}
var comPool = []string{"CAD", "USD", "EUR", "VTI", "XAU", "JPY", "B52"}
var descPool = []string{"Grocery Store", "Coffee", "coffee shop", "Rent", "ACME Inc.", "Pay day", "Gas", "gas station 12", "x", "Ünïcode Café", "10% off", "a=b & c", "'quoted' \"text\"", "The (old) shop", "100", "P.K.", "No. 5, Main St"}
var wordPool = []string{"lunch", "Trip", "for bob", "ref 123", "see also x", "a, b and c", "100 CAD", "weird: text", "-", "mañana"}
var keyPool = []string{"trip", "Trip2", "proj/x", "who", "a-b", "k", "tax_y"}
var valPool = []string{"berlin", "Bob", "2 days", "x", "A B  C", "50%", "q/w"}

func uniq(xs []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range xs {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func genComs(t *rapid.T, o ledOpt) []Com {
	n := num(t, "ncoms", 1, max(o.MaxComs, 1))
	ids := append([]string(nil), comPool...)
	var coms []Com
	for i := 0; i < n; i++ {
		k := 0
		if i > 0 {
			k = num(t, "com", 0, len(ids)-1)
		}
		c := Com{Id: ids[k], Dec: pick(t, "dec", 2, 2, 0, 3, 1, 5, 8)}
		ids = append(ids[:k:k], ids[k+1:]...)
		if chance(t, "hasfmt", 4) {
			c.Fmt = pick(t, "fmtint", "1", "0", "1000", "12", "-7", "01")
			if c.Dec > 0 {
				c.Fmt += "." + pick(t, "fmtfrac", "25000001", "99999999", "00000001", "10203040")[:c.Dec]
			}
		}
		if o.Attrs {
			if chance(t, "hasname", 2) {
				c.Name = pick(t, "name", "Canadian Dollars", "x", "Gold & Co.", "n 1.00 X")
			}
			if chance(t, "hassym", 3) {
				c.Symbol = pick(t, "sym", "VTI", "X.TO", "A_1", "q") + fmt.Sprint(i)
			}
			c.NoMarket = chance(t, "nomarket", 4)
		}
		coms = append(coms, c)
	}
	if !o.NoDefault && n > 1 && chance(t, "newdefault", 3) {
		coms[num(t, "default", 0, n-1)].Default = true
	}
	return coms
}

func genAccNames(t *rapid.T, lo, hi int) []string {
	n := num(t, "naccs", lo, hi)
	names := []string{}
	for i := 0; i < n; i++ {
		var full string
		if len(names) > 0 && chance(t, "sub", 2) {
			full = pick(t, "parent", names...) + ":" + pick(t, "seg", segPool...)
			if strings.Count(full, ":") > 4 {
				full = pick(t, "seg", segPool...)
			}
		} else if chance(t, "deep", 2) {
			full = pick(t, "top", topPool...)
			for k := num(t, "depth", 1, 3); k > 0; k-- {
				full += ":" + pick(t, "seg", segPool...)
			}
		} else {
			full = pick(t, "top", topPool...)
		}
		names = append(names, full)
	}
	return uniq(names)
}

func genUnits(t *rapid.T, big_ bool) *big.Int {
	switch k := num(t, "ukind", 0, 9); {
	case k < 5:
		return big.NewInt(int64(num(t, "u", -2000, 2000)))
	case k < 7:
		return big.NewInt(int64(num(t, "u", -3, 3)))
	case k < 8 && big_:
		s := digits(t, "huge", 20, 40)
		v, _ := new(big.Int).SetString(s, 10)
		if rapid.Bool().Draw(t, "neg") {
			v.Neg(v)
		}
		return v
	default:
		return big.NewInt(int64(num(t, "u", -100_000_000, 100_000_000)))
	}
}

// genLit writes units in one of the ways that mean the same.
func genLit(t *rapid.T, u *big.Int, dec int) string {
	s := show(u, dec)
	if dec > 0 && chance(t, "trimzeros", 3) {
		s = strings.TrimRight(s, "0")
		s = strings.TrimSuffix(s, ".")
	} else if chance(t, "morezeros", 8) {
		if dec == 0 {
			s += "."
		}
		s += "00"
	}
	if s == "-0" || s == "" || s == "-" {
		s = "0"
	}
	return s
}

func genDay(t *rapid.T, base time.Time, days int) string {
	return base.AddDate(0, 0, num(t, "day", 0, max(days-1, 0))).Format(dateFmt)
}

func genNotes(t *rapid.T, used map[string]bool) []string {
	var notes []string
	for n := count(t, "nnotes", 2, 12, 7); n > 0; n-- {
		var parts []string
		if rapid.Bool().Draw(t, "text") {
			parts = append(parts, pick(t, "word", wordPool...))
		}
		for k := num(t, "ntags", 0, 2); k > 0; k-- {
			key := pick(t, "key", keyPool...)
			if used[key] {
				continue
			}
			used[key] = true
			tag := "#" + key
			if rapid.Bool().Draw(t, "hasval") {
				tag += ": " + pick(t, "val", valPool...)
			}
			parts = append(parts, tag)
		}
		if len(parts) > 0 {
			notes = append(notes, strings.Join(parts, ", "))
		}
	}
	return notes
}

// genLed makes a valid ledger.
func genLed(t *rapid.T, o ledOpt) Led {
	var l Led
	l.Coms = genComs(t, o)
	def := "CAD"
	ids := []string{}
	dec := map[string]int{}
	for _, c := range l.Coms {
		ids = append(ids, c.Id)
		dec[c.Id] = c.Dec
		if c.Default {
			def = c.Id
		}
	}
	names := genAccNames(t, 2, 9)
	com := map[string]string{"Unbalanced": def, "Root": def}
	for _, n := range names {
		a := Acc{Full: n}
		c := def
		if len(ids) > 1 && chance(t, "othercom", 2) {
			c = pick(t, "acccom", ids...)
		}
		if o.TreeComs {
			if p := parentOf(n); p != "" && com[p] != "" {
				c = com[p]
			}
		}
		com[n] = c
		if c != def || chance(t, "statecom", 2) {
			a.Com = c
		}
		if o.Attrs {
			if chance(t, "hasnote", 3) {
				a.Note = pick(t, "note", "x", "My account", "a: b; c", "100 CAD")
			}
			if chance(t, "closed", 5) {
				a.Closed = genDay(t, day("2019/12/15"), 60)
			}
		}
		l.Accs = append(l.Accs, a)
	}
	for _, n := range names { // implied parents can be posted to as well
		for p := parentOf(n); p != ""; p = parentOf(p) {
			if com[p] == "" {
				com[p] = def
			}
		}
	}
	targets := []string{}
	for n := range com {
		if n != "Unbalanced" && n != "Root" {
			targets = append(targets, n)
		}
	}
	sort.Strings(targets)
	if o.Unb {
		targets = append(targets, "Unbalanced")
	}
	base := day(pick(t, "base", "2020/01/01", "2019/12/20", "2020/02/20", "1999/12/25"))
	if o.AnyPrices && len(ids) > 1 && !chance(t, "sparse", 3) {
		for i := 1; i < len(ids); i++ { // a tree of prices, both ways: one chain between any two
			j := num(t, "hub", 0, i-1)
			if rapid.Bool().Draw(t, "chain") {
				j = i - 1
			}
			l.Prices = append(l.Prices, genPrices(t, base, o.Days, ids[i], ids[j], dec[ids[j]], nil)...)
			l.Prices = append(l.Prices, genPrices(t, base, o.Days, ids[j], ids[i], dec[ids[i]], nil)...)
		}
	} else if o.AnyPrices && len(ids) > 1 {
		for k := num(t, "npairs", 0, 4); k > 0; k-- {
			i, j := num(t, "pcom", 0, len(ids)-1), num(t, "pcur", 0, len(ids)-2)
			if j >= i {
				j++
			}
			l.Prices = append(l.Prices, genPrices(t, base, o.Days, ids[i], ids[j], dec[ids[j]], l.Prices)...)
		}
	}
	if o.Prices {
		for i := 1; i < len(ids); i++ {
			for k := num(t, "ncur", 0, 2); k > 0; k-- {
				cur := ids[num(t, "cur", 0, i-1)]
				l.Prices = append(l.Prices, genPrices(t, base, o.Days, ids[i], cur, dec[cur], l.Prices)...)
			}
		}
	}
	if len(l.Prices) > 1 {
		l.Prices = rapid.Permutation(l.Prices).Draw(t, "priceorder")
	}
	ntx := num(t, "ntx", 0, o.MaxTx)
	if rapid.Bool().Draw(t, "many") {
		ntx = num(t, "ntx", o.MaxTx/2, o.MaxTx)
	}
	if o.MaxTx >= 6 && chance(t, "crowd", 20) { // enough for a sort to be more than insertions
		ntx = num(t, "ntx", 13, 30)
		if len(targets) > 2 && rapid.Bool().Draw(t, "few") {
			targets = targets[:2]
		}
		o.Days = min(o.Days, num(t, "days", 2, 5))
	}
	l.Files = pick(t, "files", 0, 0, 1, 2, 3)
	for i := 0; i < ntx; i++ {
		tx := Tx{Day: genDay(t, base, o.Days), Desc: pick(t, "desc", descPool...)}
		if l.Files > 1 {
			tx.File = num(t, "file", 0, l.Files-1)
		}
		if o.Codes && chance(t, "hascode", 3) {
			tx.Code = pick(t, "code", "1", "A12", "x_y", "0042")
		}
		if o.Codes && chance(t, "nodesc", 12) {
			tx.Desc = ""
		}
		used := map[string]bool{}
		if o.Notes {
			tx.Notes = genNotes(t, used)
		}
		np := pick(t, "nposts", 2, 2, 2, 3, 3, 4, 5)
		if o.Singles && chance(t, "single", 12) {
			np = 1
		}
		mixed := false
		var accs []string
		for j := 0; j < np; j++ {
			a := pick(t, "acc", targets...)
			accs = append(accs, a)
			mixed = mixed || com[a] != com[accs[0]]
		}
		left := -1
		if !mixed && chance(t, "leaveout", 2) {
			left = num(t, "left", 0, np-1)
		}
		sum := new(big.Int)
		for j, a := range accs {
			p := Post{Acc: a, Com: com[a]}
			if o.Notes && chance(t, "pnotes", 3) {
				p.Notes = genNotes(t, map[string]bool{})
			}
			if j != left {
				var u *big.Int
				last := j == np-1 || (j == np-2 && left == np-1)
				switch {
				case !mixed && last && left < 0:
					u = new(big.Int).Neg(sum)
				default:
					u = genUnits(t, o.Big)
				}
				sum.Add(sum, u)
				if (o.Foreign && (mixed || left >= 0) || o.ForeignMixed && mixed) && len(ids) > 1 && chance(t, "foreign", 4) {
					p.Com = pick(t, "pcom", ids...)
				}
				p.Lit = genLit(t, u, dec[p.Com])
			} else {
				p.Com = ""
			}
			tx.Posts = append(tx.Posts, p)
		}
		l.Txs = append(l.Txs, tx)
	}
	if o.Asserts > 0 {
		genAsserts(t, &l, o)
	}
	return l
}

func genPrices(t *rapid.T, base time.Time, days int, com, cur string, dec int, have []Pri) (ps []Pri) {
	seen := map[string]bool{}
	for _, p := range have {
		if p.Com == com && p.Cur == cur {
			seen[p.Day] = true
		}
	}
	for k := num(t, "nprices", 1, 4); k > 0; k-- {
		d := genDay(t, base, days)
		if seen[d] {
			continue
		}
		seen[d] = true
		u := big.NewInt(int64(num(t, "price", 1, 100000)))
		ps = append(ps, Pri{Day: d, Com: com, Cur: cur, Val: genLit(t, u, dec)})
	}
	return ps
}

// genAsserts adds balance assertions, right ones and (if asked) some that are off.
func genAsserts(t *rapid.T, l *Led, o ledOpt) {
	for i := range l.Txs {
		for j := range l.Txs[i].Posts {
			p := &l.Txs[i].Posts[j]
			if p.Lit != "" && chance(t, "assert", o.Asserts) {
				p.Assert = "0"
			}
		}
	}
	m := newModel(l)
	for _, tx := range m.txs {
		for _, p := range tx.Posts {
			if p.Src.Assert == "" {
				continue
			}
			u := p.Run
			if o.Wrong && chance(t, "wrong", 3) {
				u = new(big.Int).Add(u, big.NewInt(int64(pick(t, "off", 1, -1, 100, -1000))))
			}
			p.Src.Assert = genLit(t, u, m.dec[p.Acc.Com])
			if p.Com != p.Acc.Com {
				p.Src.ACom = p.Acc.Com
			}
		}
	}
}

// ---- selection ----

// A Sel selects postings: options as given to balance and register.
type Sel struct {
	Begin, End string `json:",omitempty"`
	Payee      string `json:",omitempty"`
	Tag        string `json:",omitempty"`
}

func (s *Sel) args() (args []string) {
	if s.Begin != "" {
		args = append(args, "-b", s.Begin)
	}
	if s.End != "" {
		args = append(args, "-e", s.End)
	}
	if s.Payee != "" {
		args = append(args, "-p", s.Payee)
	}
	if s.Tag != "" {
		args = append(args, "-t", s.Tag)
	}
	return args
}

func genSel(t *rapid.T, l *Led, invert bool) (s Sel) {
	days := []string{}
	for i := range l.Txs {
		days = append(days, l.Txs[i].Day)
	}
	pickDay := func(label string) string {
		if len(days) > 0 && chance(t, label+"near", 2) {
			return day(pick(t, label, days...)).AddDate(0, 0, num(t, label+"off", -1, 1)).Format(dateFmt)
		}
		return genDay(t, day("2019/12/25"), 60)
	}
	if chance(t, "hasbegin", 2) {
		s.Begin = pickDay("begin")
	}
	if chance(t, "hasend", 2) {
		s.End = pickDay("end")
	}
	if chance(t, "haspayee", 3) {
		s.Payee = pick(t, "payee", "coffee", "GAS", "rent", "^x$", "o", "shop|pay", "nomatch", "[0-9]", "c.ffee$", "caf")
		if invert && chance(t, "invert", 3) {
			s.Payee = "!" + s.Payee
		}
	}
	if chance(t, "hastag", 3) {
		s.Tag = pick(t, "tag", "trip", "TRIP", "^trip$", "who:bob", "k:", "trip:b", "proj/x", "who:^b", "nokey", "a-b:x$", "k|who:b", "k", "p", "x:", "o:b")
		if chance(t, "taginvert", 4) {
			s.Tag = "!" + s.Tag
		}
	}
	return s
}

// pick says whether the selection takes the posting.
func (s *Sel) takes(p *mPost) bool {
	if s.Begin != "" && p.Tx.Date.Before(day(s.Begin)) {
		return false
	}
	if s.End != "" && !p.Tx.Date.Before(day(s.End)) {
		return false
	}
	if pat := s.Payee; pat != "" {
		want := true
		if pat[0] == '!' {
			want, pat = false, pat[1:]
		}
		if imatch(pat, p.Tx.Src.Desc) != want {
			return false
		}
	}
	if s.Tag != "" && !tagMatch(s.Tag, p.Tags, p.Tx.Tags) {
		return false
	}
	return true
}

// tagMatch tells whether any of the tags matches the pattern; one starting with ! takes what the rest of it does not.
func tagMatch(pat string, tags ...map[string]string) bool {
	pat, inverted := strings.CutPrefix(pat, "!")
	k, v, hasv := strings.Cut(pat, ":")
	for _, ts := range tags {
		for key, val := range ts {
			if imatch(k, key) && (!hasv || imatch(v, val)) {
				return !inverted
			}
		}
	}
	return inverted
}

func (s *Sel) filter(ps []*mPost) (out []*mPost) {
	for _, p := range ps {
		if s.takes(p) {
			out = append(out, p)
		}
	}
	return out
}
