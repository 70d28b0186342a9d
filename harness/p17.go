package main

import (
	"bytes"
	"compress/gzip"
	"encoding/xml"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// a GnuCash book and how to convert it
type gcBook struct {
	Coms     []gcCom
	Accs     []gcAcc // the first one is the root
	Order    []int   // of the accounts in the file
	Prices   []gcPrice
	Txs      []gcTx
	Template bool // has a template commodity and template transactions

	Yearly, Ledger, DB bool
}

type gcCom struct {
	Space, Id, Name string
	Dec             int
}

type gcAcc struct {
	Name   string
	Parent int
	Com    string
	Desc   string
	Online string
}

type gcPrice struct{ Com, Cur, Num, Den, Stamp string }

type gcSplit struct {
	Acc            int
	Units          string // in the smallest unit of the commodity of the account
	Mul            int    // how much bigger the numerator and denominator are written, 0 to reduce the fraction
	Memo           string
	ValNum, ValDen string
}

type gcTx struct {
	Stamp, Num, Desc string
	Splits           []gcSplit
}

var gcTextPool = []string{"Groceries", "Tim & Tom's <Diner>", "café über", "a  b", "x: y", "50% off, #sale", "ALL CAPS 123", "it's \"quoted\"", "日本 trip", "-", "a/b", "100"}
var gcNamePool = []string{"Assets", "Bank", "Bank Account", "Gas/Fuel", "My-Card", "A1", "x_y", "Expenses", "Income", "Root", "Imbalance-CAD", "Savings", "a", "Unbalanced", "Long Name With Blanks", "One of Those Very Long Names", "a  b   c d"}
var gcZones = []string{"+0000", "-0500", "+1300", "-1100", "+0530", "-0500", "+0100"}

func gcStamp(t *rapid.T) string {
	d := genDay(t, day("2018/12/20"), pick(t, "span", 5, 30, 800))
	return strings.ReplaceAll(d, "/", "-") + fmt.Sprintf(" %02d:%02d:%02d ", pick(t, "h", 0, 0, 5, 10, 12, 23), pick(t, "min", 0, 59, 30), pick(t, "s", 0, 59)) + pick(t, "zone", gcZones...)
}

func gcText(t *rapid.T, label string) string {
	s := pick(t, label, gcTextPool...)
	if chance(t, label+"2", 3) {
		s += " " + pick(t, label, gcTextPool...)
	}
	return s
}

func gcAccName(n string) string { return strings.ReplaceAll(n, " ", "") }

func c17Gen(t *rapid.T) gcBook {
	var b gcBook
	ids := rapid.Permutation([]string{"CAD", "USD", "EUR", "ZLB", "XIU2", "a_b", "Q9", "JPY"}).Draw(t, "ids")
	if !chance(t, "anyids", 4) {
		for i, id := range ids {
			if id == "CAD" {
				ids[0], ids[i] = ids[i], ids[0]
			}
		}
	}
	for i := num(t, "ncoms", 1, 4); i > 0; i-- {
		c := gcCom{Id: ids[i-1], Space: pick(t, "space", "ISO4217", "CURRENCY", "TSX"), Dec: pick(t, "dec", 2, 2, 3, 0, 1, 4, 8)}
		if chance(t, "named", 2) {
			c.Name = gcText(t, "cname")
		}
		b.Coms = append(b.Coms, c)
	}
	b.Template = chance(t, "template", 3)
	root := gcAcc{Name: "Root Account", Parent: -1}
	if chance(t, "rootcom", 4) {
		root.Com = pick(t, "com", b.Coms...).Id
	}
	b.Accs = []gcAcc{root}
	full := map[string]bool{"Root": true}
	name := func(i int, n string) string {
		if b.Accs[i].Parent < 0 {
			return gcAccName(n)
		}
		return b.full(i) + ":" + gcAccName(n)
	}
	for i := num(t, "naccs", 2, 9); i > 0; i-- {
		p := num(t, "parent", 0, len(b.Accs)-1)
		n := pick(t, "name", gcNamePool...)
		f := name(p, n)
		if full[f] {
			continue
		}
		full[f] = true
		a := gcAcc{Name: n, Parent: p, Com: pick(t, "com", b.Coms...).Id}
		if chance(t, "desc", 3) {
			a.Desc = gcText(t, "adesc")
		}
		if chance(t, "online", 5) {
			a.Online = pick(t, "onlineid", "123 456", "789", "00012 0034", "abc", "12   99")
		}
		b.Accs = append(b.Accs, a)
	}
	for i := range b.Accs {
		b.Order = append(b.Order, i)
	}
	b.Order = rapid.Permutation(b.Order).Draw(t, "order")
	if len(b.Coms) > 1 {
		for i := num(t, "nprices", 0, 8); i > 0; i-- {
			c := num(t, "pcom", 0, len(b.Coms)-1)
			d := (c + num(t, "pcur", 1, len(b.Coms)-1)) % len(b.Coms)
			b.Prices = append(b.Prices, gcPrice{Com: b.Coms[c].Id, Cur: b.Coms[d].Id, Stamp: gcStamp(t),
				Num: strconv.Itoa(num(t, "num", 1, 300000)), Den: pick(t, "den", "1", "100", "1000", "10000", "211", "7", "1061", "1000000000")})
		}
	}
	for i := count(t, "ntxs", 14, 20, 60); i > 0; i-- {
		x := gcTx{Stamp: gcStamp(t)}
		if chance(t, "numbered", 3) {
			x.Num = pick(t, "tnum", "1", "101", "chq_7", "A", "000")
		}
		if !chance(t, "nodesc", 12) {
			x.Desc = gcText(t, "tdesc")
		}
		if chance(t, "note", 3) {
			x.Desc += " - " + gcText(t, "tnote")
			if chance(t, "note2", 4) {
				x.Desc += " - again"
			}
		}
		sum, uniform := new(big.Int), true
		n := num(t, "nsplits", 1, 5)
		for j := 0; j < n; j++ {
			s := gcSplit{Acc: num(t, "acc", 0, len(b.Accs)-1), Mul: pick(t, "mul", 1, 1, 0, 2, 10)}
			if j > 0 && chance(t, "same", 2) { // more often within one commodity
				for k := range b.Accs {
					if a := (s.Acc + k) % len(b.Accs); b.com(a) != "" && b.com(a) == b.com(x.Splits[0].Acc) {
						s.Acc = a
						break
					}
				}
			}
			if b.com(s.Acc) == "" {
				s.Acc = 1 % len(b.Accs)
			}
			if b.com(s.Acc) == "" { // only the root
				s.Acc = 0
			}
			u := genUnits(t, true)
			if uniform = uniform && (j == 0 || b.com(s.Acc) == b.com(x.Splits[0].Acc)); uniform && j == n-1 {
				u = new(big.Int).Neg(sum)
			}
			sum.Add(sum, u)
			s.Units = u.String()
			s.ValNum, s.ValDen = strconv.Itoa(num(t, "val", -500, 500)), pick(t, "valden", "1", "100")
			if chance(t, "memo", 4) {
				s.Memo = gcText(t, "memo")
			}
			x.Splits = append(x.Splits, s)
		}
		b.Txs = append(b.Txs, x)
	}
	b.DB = !chance(t, "stdout", 4)
	b.Yearly = b.DB && chance(t, "yearly", 2)
	b.Ledger = chance(t, "ledger", 4)
	return b
}

func (b *gcBook) full(i int) string {
	a := b.Accs[i]
	switch {
	case a.Parent < 0:
		return "Root"
	case b.Accs[a.Parent].Parent < 0:
		return gcAccName(a.Name)
	default:
		return b.full(a.Parent) + ":" + gcAccName(a.Name)
	}
}

func (b *gcBook) com(i int) string { return b.Accs[i].Com }

func (b *gcBook) dec(com string) int {
	for _, c := range b.Coms {
		if c.Id == com {
			return c.Dec
		}
	}
	return 2
}

func esc(s string) string {
	var b bytes.Buffer
	infraIf(xml.EscapeText(&b, []byte(s)))
	return b.String()
}

func gcCommodityRef(b *gcBook, tag, id string) string {
	space := "TSX"
	for _, c := range b.Coms {
		if c.Id == id {
			space = c.Space
		}
	}
	return fmt.Sprintf("<%s><cmdty:space>%s</cmdty:space><cmdty:id>%s</cmdty:id></%s>\n", tag, space, id, tag)
}

func (b *gcBook) xml() string {
	var w strings.Builder
	w.WriteString(`<?xml version="1.0" encoding="utf-8" ?>
<gnc-v2 xmlns:gnc="http://www.gnucash.org/XML/gnc" xmlns:act="http://www.gnucash.org/XML/act" xmlns:book="http://www.gnucash.org/XML/book" xmlns:cd="http://www.gnucash.org/XML/cd" xmlns:cmdty="http://www.gnucash.org/XML/cmdty" xmlns:price="http://www.gnucash.org/XML/price" xmlns:slot="http://www.gnucash.org/XML/slot" xmlns:split="http://www.gnucash.org/XML/split" xmlns:trn="http://www.gnucash.org/XML/trn" xmlns:ts="http://www.gnucash.org/XML/ts">
<gnc:count-data cd:type="book">1</gnc:count-data>
<gnc:book version="2.0.0">
<book:id type="guid">3dc1c84173022dfdb9410e0933fa2fa3</book:id>
`)
	for _, c := range b.Coms {
		fmt.Fprintf(&w, "<gnc:commodity version=\"2.0.0\"><cmdty:space>%s</cmdty:space><cmdty:id>%s</cmdty:id>", c.Space, c.Id)
		if c.Name != "" {
			fmt.Fprintf(&w, "<cmdty:name>%s</cmdty:name>", esc(c.Name))
		}
		fmt.Fprintf(&w, "<cmdty:fraction>1%s</cmdty:fraction><cmdty:get_quotes/></gnc:commodity>\n", strings.Repeat("0", c.Dec))
	}
	if b.Template {
		w.WriteString("<gnc:commodity version=\"2.0.0\"><cmdty:space>template</cmdty:space><cmdty:id>template</cmdty:id><cmdty:name>template</cmdty:name><cmdty:fraction>1</cmdty:fraction></gnc:commodity>\n")
	}
	if len(b.Prices) > 0 {
		w.WriteString("<gnc:pricedb version=\"1\">\n")
		for i, p := range b.Prices {
			fmt.Fprintf(&w, "<price><price:id type=\"guid\">%032x</price:id>\n%s%s<price:time><ts:date>%s</ts:date></price:time><price:source>user:price</price:source><price:value>%s/%s</price:value></price>\n",
				i+1, gcCommodityRef(b, "price:commodity", p.Com), gcCommodityRef(b, "price:currency", p.Cur), p.Stamp, p.Num, p.Den)
		}
		w.WriteString("</gnc:pricedb>\n")
	}
	for _, i := range b.Order {
		a := b.Accs[i]
		kind := "ASSET"
		if a.Parent < 0 {
			kind = "ROOT"
		}
		fmt.Fprintf(&w, "<gnc:account version=\"2.0.0\"><act:name>%s</act:name><act:id type=\"guid\">a%031x</act:id><act:type>%s</act:type>\n", esc(a.Name), i, kind)
		if a.Com != "" {
			w.WriteString(gcCommodityRef(b, "act:commodity", a.Com))
			w.WriteString("<act:commodity-scu>100</act:commodity-scu>\n")
		}
		if a.Desc != "" {
			fmt.Fprintf(&w, "<act:description>%s</act:description>\n", esc(a.Desc))
		}
		w.WriteString("<act:slots><slot><slot:key>placeholder</slot:key><slot:value type=\"string\">true</slot:value></slot>")
		if a.Online != "" {
			fmt.Fprintf(&w, "<slot><slot:key>online_id</slot:key><slot:value type=\"string\">%s</slot:value></slot>", a.Online)
		}
		w.WriteString("</act:slots>\n")
		if a.Parent >= 0 {
			fmt.Fprintf(&w, "<act:parent type=\"guid\">a%031x</act:parent>\n", a.Parent)
		}
		w.WriteString("</gnc:account>\n")
	}
	tx := func(id int, x gcTx) {
		fmt.Fprintf(&w, "<gnc:transaction version=\"2.0.0\"><trn:id type=\"guid\">b%031x</trn:id>\n%s", id, gcCommodityRef(b, "trn:currency", b.Coms[0].Id))
		if x.Num != "" {
			fmt.Fprintf(&w, "<trn:num>%s</trn:num>\n", x.Num)
		}
		fmt.Fprintf(&w, "<trn:date-posted><ts:date>%s</ts:date></trn:date-posted><trn:date-entered><ts:date>2021-02-03 04:05:06 +0000</ts:date></trn:date-entered>\n", x.Stamp)
		if x.Desc != "" {
			fmt.Fprintf(&w, "<trn:description>%s</trn:description>\n", esc(x.Desc))
		}
		w.WriteString("<trn:splits>\n")
		for i, s := range x.Splits {
			n, _ := new(big.Int).SetString(s.Units, 10)
			d := pow10big(b.dec(b.com(s.Acc)))
			if s.Mul == 0 {
				if g := new(big.Int).GCD(nil, nil, new(big.Int).Abs(n), d); g.Sign() > 0 {
					n, d = new(big.Int).Quo(n, g), new(big.Int).Quo(d, g)
				}
			} else {
				m := big.NewInt(int64(s.Mul))
				n, d = new(big.Int).Mul(n, m), new(big.Int).Mul(d, m)
			}
			fmt.Fprintf(&w, "<trn:split><split:id type=\"guid\">c%031x</split:id>", id*100+i)
			if s.Memo != "" {
				fmt.Fprintf(&w, "<split:memo>%s</split:memo>", esc(s.Memo))
			}
			fmt.Fprintf(&w, "<split:reconciled-state>n</split:reconciled-state><split:value>%s/%s</split:value><split:quantity>%s/%s</split:quantity><split:account type=\"guid\">a%031x</split:account></trn:split>\n",
				s.ValNum, s.ValDen, n, d, s.Acc)
		}
		w.WriteString("</trn:splits></gnc:transaction>\n")
	}
	for i, x := range b.Txs {
		tx(i, x)
	}
	if b.Template {
		w.WriteString("<gnc:template-transactions><gnc:account version=\"2.0.0\"><act:name>Template</act:name><act:id type=\"guid\">d0000000000000000000000000000000</act:id><act:type>BANK</act:type></gnc:account>\n")
		tx(9999, gcTx{Stamp: "2019-01-01 00:00:00 +0000", Desc: "template", Splits: []gcSplit{{Acc: 0, Units: "1", Mul: 1, ValNum: "1", ValDen: "1"}}})
		w.WriteString("</gnc:template-transactions>\n")
	}
	w.WriteString("</gnc:book>\n</gnc-v2>\n<!-- Local variables: -->\n")
	return w.String()
}

var (
	gcItem  = regexp.MustCompile(`^(commodity|account)\s+(\S+)\s*$`)
	gcPrRE  = regexp.MustCompile(`^P\s+(\S+)\s+(\S+)\s+(-?[\d.]+)\s+(\S+)\s*$`)
	gcQuote = regexp.MustCompile(`"([A-Za-z]\w*)"`)
)

// gcRead takes converted text apart into definitions, prices and the text of the transactions.
func gcRead(text string) (defs map[string][]string, prices []string, txs string, err error) {
	defs = map[string][]string{}
	cur := ""
	var b strings.Builder
	for _, l := range strings.SplitAfter(text, "\n") {
		s := strings.TrimRight(l, "\n")
		if m := gcItem.FindStringSubmatch(s); m != nil {
			cur = m[1] + " " + m[2]
			if _, dup := defs[cur]; dup {
				return nil, nil, "", viol("%s defined twice", cur)
			}
			defs[cur] = []string{}
			continue
		}
		if cur != "" && strings.HasPrefix(s, " ") {
			defs[cur] = append(defs[cur], strings.TrimSpace(s))
			continue
		}
		cur = ""
		if m := gcPrRE.FindStringSubmatch(s); m != nil {
			prices = append(prices, strings.Join(m[1:], " "))
			continue
		}
		if s == "" && b.Len() == 0 {
			continue
		}
		b.WriteString(l)
	}
	return defs, prices, b.String(), nil
}

func gcDay(stamp string) string { return strings.ReplaceAll(stamp[:10], "-", "/") }

func c17Check(c *Ctx, in gcBook) error {
	d := c.Dir()
	var gz bytes.Buffer
	zw := gzip.NewWriter(&gz)
	_, err := zw.Write([]byte(in.xml()))
	infraIf(err)
	infraIf(zw.Close())
	book := filepath.Join(d, "book.gnucash")
	writeFile(book, gz.String())
	db := filepath.Join(d, "db")
	infraIf(os.MkdirAll(db, 0o755))
	args := []string{"-gnucashdb", book}
	if in.Yearly {
		args = append(args, "-y")
	}
	convert := func(ledger bool) (map[string]string, error) {
		dir := ""
		if in.DB {
			dir = db
			if ledger {
				dir = db + "-l"
				infraIf(os.MkdirAll(dir, 0o755))
			}
		}
		a := args
		if ledger {
			a = append(a[:len(a):len(a)], "-l")
		}
		o := c.Run(d, dir, "gc2coin", a...)
		if err := mustOK(o, "gc2coin %v", a); err != nil {
			return nil, err
		}
		files := map[string]string{}
		if !in.DB {
			files[""] = o.Stdout
			return files, nil
		}
		es, err := os.ReadDir(dir)
		infraIf(err)
		for _, e := range es {
			s, err := os.ReadFile(filepath.Join(dir, e.Name()))
			infraIf(err)
			files[e.Name()] = string(s)
		}
		return files, nil
	}
	files, err := convert(false)
	if err != nil {
		return err
	}
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	days := map[string]bool{}
	ties := false
	for _, x := range in.Txs {
		ties = ties || days[gcDay(x.Stamp)]
		days[gcDay(x.Stamp)] = true
	}
	c.NonTrivial(len(in.Txs) > 1 && len(in.Accs) > 2)
	if in.Yearly {
		c.Label("yearly")
	}
	if ties {
		c.Label("same day")
	}
	// everything, with the file it is in
	defs := map[string][]string{}
	var prices, priceFiles []string
	var txs []*fTx
	var txFiles []string
	for _, n := range names {
		ds, ps, text, err := gcRead(files[n])
		if err != nil {
			return err
		}
		for k, v := range ds {
			if _, dup := defs[k]; dup {
				return viol("%s defined twice", k)
			}
			defs[k] = v
		}
		for _, p := range ps {
			prices = append(prices, p)
			priceFiles = append(priceFiles, n)
		}
		ts, err := readFormatted(text)
		if err != nil {
			return err
		}
		for _, x := range ts {
			txs = append(txs, x)
			txFiles = append(txFiles, n)
		}
		if in.DB {
			allowed := map[string]bool{"commodities.coin": true, "accounts.coin": true}
			if in.Yearly {
				for _, p := range in.Prices {
					allowed[p.Stamp[:4]+".prices"] = true
				}
				for _, x := range in.Txs {
					allowed[x.Stamp[:4]+".coin"] = true
				}
			} else {
				allowed["prices.coin"], allowed["transactions.coin"] = true, true
			}
			if !allowed[n] {
				return viol("file: unexpected %s", n)
			}
			for k := range ds {
				if want := strings.NewReplacer("commodity", "commodities.coin", "account", "accounts.coin").Replace(strings.Fields(k)[0]); want != n {
					return viol("file: %s in %s", k, n)
				}
			}
		}
	}
	for i, n := range priceFiles {
		if want := "prices.coin"; in.DB && !in.Yearly && n != want || in.Yearly && n != prices[i][:4]+".prices" {
			return viol("file: price %s in %s", prices[i], n)
		}
	}
	for i, n := range txFiles {
		if want := "transactions.coin"; in.DB && !in.Yearly && n != want || in.Yearly && n != txs[i].Day[:4]+".coin" {
			return viol("file: transaction of %s in %s", txs[i].Day, n)
		}
		if i > 0 && txs[i].Day < txs[i-1].Day {
			return viol("order: transaction of %s after %s", txs[i].Day, txs[i-1].Day)
		}
	}
	// commodities
	for _, cm := range in.Coms {
		k := "commodity " + cm.Id
		ls, ok := defs[k]
		if !ok {
			return viol("commodities: %s lost", cm.Id)
		}
		delete(defs, k)
		f := "1"
		if cm.Dec > 0 {
			f += "." + strings.Repeat("0", cm.Dec)
		}
		want := []string{"format " + f + " " + cm.Id}
		if cm.Name != "" {
			want = append([]string{"note " + cm.Name}, want...)
		}
		var got []string
		for _, l := range ls {
			if l != "default" {
				got = append(got, l)
			}
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			return viol("commodities: %s is %q, want %q", cm.Id, got, want)
		}
	}
	// accounts
	for i, a := range in.Accs {
		k := "account " + in.full(i)
		ls, ok := defs[k]
		if !ok {
			return viol("accounts: %s lost", in.full(i))
		}
		delete(defs, k)
		var want, got []string
		if a.Desc != "" {
			want = append(want, "note "+a.Desc)
		}
		if a.Com != "" {
			want = append(want, "commodity "+a.Com)
		}
		for _, l := range ls {
			if a.Com == "" && strings.HasPrefix(l, "commodity ") {
				continue // the default one
			}
			got = append(got, l)
		}
		if id := strings.Fields(a.Online); len(id) == 2 {
			want = append(want, "ofx_bankid "+id[0], "ofx_acctid "+id[1])
		} else if len(id) == 1 && id[0] != "abc" {
			want = append(want, "ofx_acctid "+id[0])
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			return viol("accounts: %s is %q, want %q", in.full(i), got, want)
		}
	}
	for k := range defs {
		return viol("definitions: unexpected %s", k)
	}
	// prices
	var wantPrices []string
	for _, p := range in.Prices {
		n, _ := new(big.Int).SetString(p.Num, 10)
		den, _ := new(big.Int).SetString(p.Den, 10)
		n.Mul(n, pow10big(in.dec(p.Cur))).Quo(n, den)
		wantPrices = append(wantPrices, gcDay(p.Stamp)+" "+p.Com+" "+show(n, in.dec(p.Cur))+" "+p.Cur)
	}
	for i := range prices {
		if i > 0 && prices[i][:10] < prices[i-1][:10] {
			return viol("order: price %s after %s", prices[i], prices[i-1])
		}
	}
	got := append([]string(nil), prices...)
	sort.Strings(got)
	sort.Strings(wantPrices)
	if strings.Join(got, "\n") != strings.Join(wantPrices, "\n") {
		return viol("prices: %s", firstDiff(got, wantPrices))
	}
	// transactions
	var want []*fTx
	for _, x := range in.Txs {
		desc, note, _ := strings.Cut(x.Desc, " - ")
		w := &fTx{Day: gcDay(x.Stamp), Code: x.Num, Desc: desc}
		if note != "" {
			w.Notes = []string{note}
		}
		for _, s := range x.Splits {
			u, _ := new(big.Int).SetString(s.Units, 10)
			com := in.com(s.Acc)
			p := &fPost{Acc: in.full(s.Acc), Com: com, Amt: show(u, in.dec(com))}
			if com == "" {
				p.Com, p.Amt = "", "" // the root has the default one
			}
			if s.Memo != "" {
				p.Notes = []string{s.Memo}
			}
			w.Posts = append(w.Posts, p)
		}
		want = append(want, w)
	}
	key := func(x *fTx) string {
		s := fmt.Sprintf("%s (%s) %q %q", x.Day, x.Code, x.Desc, x.Notes)
		for _, p := range x.Posts {
			amt, com := p.Amt, p.Com
			if p.Acc == "Root" && in.Accs[0].Com == "" {
				amt, com = "", ""
			}
			s += fmt.Sprintf(" | %s %s %s %s %q", p.Acc, amt, com, p.Bal, p.Notes)
		}
		return s
	}
	var gotTx, wantTx []string
	for _, x := range txs {
		gotTx = append(gotTx, key(x))
	}
	for _, x := range want {
		wantTx = append(wantTx, key(x))
	}
	sort.Strings(gotTx)
	sort.Strings(wantTx)
	if strings.Join(gotTx, "\n") != strings.Join(wantTx, "\n") {
		return viol("transactions: %s", firstDiff(gotTx, wantTx))
	}
	// it loads
	if !in.DB {
		writeFile(db+"/transactions.coin", files[""])
		for _, n := range []string{"commodities", "prices", "accounts"} {
			writeFile(db+"/"+n+".coin", "")
		}
	}
	o := c.Coin(db, "stats")
	if err := mustOK(o, "loading the converted book"); err != nil {
		return err
	}
	if o.Stderr != "" {
		return viol("load: %s", o.Stderr)
	}
	naccs := len(in.Accs) + 1
	for i := range in.Accs {
		if in.full(i) == "Unbalanced" {
			naccs--
		}
	}
	counts := fmt.Sprintf("Commodities: %d\nPrices: %d\nAccounts: %d\nTransactions: %d\n", len(in.Coms), len(in.Prices), naccs, len(in.Txs))
	if o.Stdout != counts {
		return viol("load: counts %q, want %q", o.Stdout, counts)
	}
	if !in.Ledger {
		return nil
	}
	// the ledger format
	lfiles, err := convert(true)
	if err != nil {
		return err
	}
	if len(lfiles) != len(files) {
		return viol("ledger: %d files instead of %d", len(lfiles), len(files))
	}
	for _, n := range names {
		plain := squeeze(files[n], true)
		ledger := squeeze(gcQuote.ReplaceAllString(lfiles[n], "$1"), false)
		if plain != ledger {
			return viol("ledger: %s differs in more than quotes: %s", n, firstDiff(lines(ledger), lines(plain)))
		}
		for _, l := range lines(lfiles[n]) { // all that need quotes have them
			if m := gcPrRE.FindStringSubmatch(l); m != nil && (m[2] == "XIU2" || m[4] == "Q9") {
				return viol("ledger: not quoted: %s", l)
			}
		}
	}
	return nil
}

// squeeze makes blanks the same, and leaves the ids of accounts out which the ledger format has none of.
func squeeze(s string, ids bool) string {
	var out []string
	for _, l := range lines(gcQuote.ReplaceAllString(s, "$1")) {
		if ids && (strings.HasPrefix(l, "  ofx_bankid ") || strings.HasPrefix(l, "  ofx_acctid ")) {
			continue
		}
		// whether a note still fits on the line depends on the quotes
		l = strings.Join(strings.Fields(l), " ")
		if i := strings.Index(l, " ; "); i > 0 {
			out = append(out, l[:i])
			l = l[i+1:]
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

func init() {
	register(&Prop{
		ID: "C17",
		Rule: "a case is a gzipped GnuCash book (1-4 commodities of 0-8 decimals, up to 10 accounts in any order, up to 8 prices and 14 transactions of 1-5 splits with time stamps in several zones, " +
			"fractions reduced or expanded, template entries) converted to stdout, to a directory or to files by year, with or without -l; non-trivial with several transactions and accounts",
		Subs: []Sub{sub("convert", 5000, 60000, c17Gen, c17Check)},
	})
}
