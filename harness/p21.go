package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// files with whatever in them, and the commands to read them with
type c21Case struct {
	Files []c21File
	Cmds  [][]string // executable and arguments
	Ops   int
}

type c21File struct {
	Name string
	Data []byte
	Gzip bool `json:",omitempty"`
}

var dictLedger = []string{"account ", "commodity ", "P ", "include ", "include a.coin\n", "include x/../a.coin\n", "include *.coin\n", "include .\n", "include \n", "test balance\nend test\n", "test   \nend test\n", "test test\nend test\n", "test ", "test\n", "end test\n", "end\n",
	";", "; #a: b", "#", "=", " = ", " = 5 CAD", "(", ")", "(1)", ":", "::", "Root", "Root:Root", "Root:", ":A", "A:", "Unbalanced", "CAD", "USD", "\"CAD\"", "A", "note ", "  note\n", "  format\n", "  format 1 CAD\n", "  format 1.000000000000000000000000000000 CAD\n",
	"  default\n", "  symbol\n", "  nomarket\n", "  closed\n", "  closed 2020/01/01\n", "  commodity CAD\n", "  commodity XYZ\n", "  ofx_acctid 1\n", "\n\n", "\n", " ", "\t", "  ",
	"2020/02/30", "2020/13/45", "0000/00/00", "0/0", "9999/12/31", "99999/1/1", "2020", "2020/02", "20/1/1", "1/1", "+1d", "-99999999999999999999d", "+9999999999y", "-", "--5", "-.5", "5.", ".", "1e9", "1,000.00", "0", "-0", "00000000000000000000000000", strings.Repeat("9", 400), "0." + strings.Repeat("0", 300) + "1"}
var dictBytes = []string{"\x00", "\xff", "\xff\xfe", "\ufeff", "\r", "\r\n", "\x1a", "\u2028", "\u00a0", "é", "😀", "\"", "'", "`", "\\", "%s%d%n", "$", "${1}", "*", "[", "(?P<a>"}
var dictRules = []string{"---\n", "--- \n", "#", "@", "@grp\n", "  @grp\n", "grp\n", "*", "  Assets:Bank  [\n", "  Assets:Bank  (\n", "  Assets:Bank\n", "  Assets:Bank  drop\n", "; note\n", "  ; note\n", "name 0\n", "  amount 999999999999999999999\n", "  amount -1\n", "  date 0\n", "  date 0 \"${x}\" (?P<x>\n", "\"$1\"", "\"${99}\"", "\"$\"", "\"\"", "(.*)", "((((((((((", ")", "[", "\\", "a{1000}", "a{1001}", "(a{500}){500}",
	"  description 0 \"$1 $2\" (.)(.)\n", "  account \"x\" amount ^-\n", "  payee \"$payee\"\n", "-source", "bank 99999999999999999999\n", "bank -1\n"}
var dictOfx = []string{"<OFX>", "</OFX>", "<STMTTRN>", "</STMTTRN>", "<STMTTRN>\n<TRNTYPE>DEBIT\n", "<DTPOSTED>", "<DTPOSTED>20200230", "<DTPOSTED>99999999999999", "<DTPOSTED>2020", "<TRNAMT>", "<TRNAMT>1e5", "<TRNAMT>NaN", "<TRNAMT>1/3", "<TRNAMT>-", "<TRNAMT>1,5", "<TRNAMT>Inf",
	"<FITID>", "<NAME>", "<MEMO>", "<BANKACCTFROM>", "</BANKACCTFROM>", "<ACCTID>", "<LEDGERBAL>", "<BALAMT>", "<DTASOF>", "<BANKTRANLIST>", "</BANKTRANLIST>", "<STMTRS>", "</STMTRS>", "<CURDEF>", "<CURDEF>XXX", "<CURDEF>US", "<CCSTMTRS>", "<INVSTMTRS>", "<SECLIST>", "&#", "&amp", "&lt;", "<", ">", "<>", "</>", "<!--", "<![CDATA[", "<?xml", "OFXHEADER:", "VERSION:102\n", "VERSION:999\n", "ENCODING:UNICODE\n", "<BANKMSGSET><BANKMSGSETV1>\n", "\n\n"}
var dictCsv = []string{",", ",,", "\"", "\"\"", "\"a\nb\"", "\"a\"b", ";", "-", "--", "1.2.3", "1,000", "$5", "(5)", "2020/02/30", "x", "\n", "\r\n", "\n\n"}
var dictGc = []string{"<gnc:transaction>", "</gnc:transaction>", "<trn:split>", "</trn:split>", "<trn:splits/>", "<gnc:account>", "</gnc:account>", "<act:parent type=\"guid\">a0000000000000000000000000000000</act:parent>", "<act:parent/>", "<split:account/>", "<split:quantity/>", "<split:quantity>1/0</split:quantity>", "<split:quantity>1</split:quantity>", "<split:quantity>/</split:quantity>", "1/0", "0/0", "-1/-100", "1/3", "/", "1//2", "9/99999999999999999999999", "<ts:date/>", "<ts:date>2020</ts:date>", "<ts:date></ts:date>",
	"<cmdty:id/>", "<cmdty:id>XXX</cmdty:id>", "<cmdty:fraction>0</cmdty:fraction>", "<cmdty:fraction>-5</cmdty:fraction>", "<cmdty:fraction>7</cmdty:fraction>", "<cmdty:fraction>99999999999999999999</cmdty:fraction>", "<cmdty:fraction/>", "<act:name/>", "<act:name>:</act:name>", "<act:id/>", "<price>", "</price>", "<price:value/>", "<slot><slot:key>online_id</slot:key><slot:value>  </slot:value></slot>", "&#0;", "&", "<", "]]>", "<!DOCTYPE x>"}

// mutate changes data in one way.
func mutate(t *rapid.T, data []byte, dict []string) []byte {
	at := func(label string) int { return num(t, label, 0, max(len(data), 1)) % (len(data) + 1) }
	ls := bytes.SplitAfter(data, []byte("\n"))
	line := func(label string) int { return num(t, label, 0, max(len(ls)-1, 0)) }
	splice := func(i, j int, s string) []byte {
		return append(append(append([]byte(nil), data[:i]...), s...), data[j:]...)
	}
	token := func() string {
		if chance(t, "bytes", 5) {
			return pick(t, "token", dictBytes...)
		}
		return pick(t, "token", dict...)
	}
	// words of a line are what can be mistaken most easily
	word := func() (int, int) {
		k := line("wline")
		start := 0
		for _, l := range ls[:k] {
			start += len(l)
		}
		ends := [][2]int{{start, start + len(bytes.TrimRight(ls[k], "\n"))}}
		in := -1
		for i, b := range ls[k] {
			sep := strings.IndexByte(" \t\n,:;/()=<>\"", b) >= 0
			switch {
			case !sep && in < 0:
				in = i
			case sep && in >= 0:
				ends = append(ends, [2]int{start + in, start + i})
				in = -1
			}
		}
		w := ends[num(t, "word", 0, len(ends)-1)]
		return w[0], w[1]
	}
	switch num(t, "op", 0, 13) {
	case 0: // a token
		i := at("at")
		return splice(i, i, token())
	case 1, 2, 3: // another word
		i, j := word()
		return splice(i, j, token())
	case 4: // no word
		i, j := word()
		return splice(i, j, "")
	case 5: // a line less
		k := line("line")
		return bytes.Join(append(slices.Clone(ls[:k]), ls[k+1:]...), nil)
	case 6: // a line again, elsewhere
		k, l := line("line"), line("to")
		return bytes.Join(slices.Insert(slices.Clone(ls), l, ls[k]), nil)
	case 7: // lines exchanged
		k, l := line("line"), line("to")
		ls = slices.Clone(ls)
		ls[k], ls[l] = ls[l], ls[k]
		return bytes.Join(ls, nil)
	case 8: // the end is missing
		return data[:at("end")]
	case 9: // some bytes missing
		i := at("at")
		return splice(i, min(i+num(t, "n", 1, 5), len(data)), "")
	case 10: // a byte changed
		if len(data) == 0 {
			return data
		}
		d := bytes.Clone(data)
		d[at("at")%len(d)] = rapid.Byte().Draw(t, "byte")
		return d
	case 11: // a line of tokens
		k := line("line")
		s := ""
		for n := num(t, "n", 1, 4); n > 0; n-- {
			s += token() + pick(t, "sep", "", " ", "  ")
		}
		return bytes.Join(slices.Insert(slices.Clone(ls), k, []byte(s+"\n")), nil)
	case 12: // very long
		i := at("at")
		return splice(i, i, strings.Repeat(pick(t, "rep", "x", "9", ":a", " ", "(", "\n", "é"), pick(t, "times", 100, 5000, 70000)))
	default: // lines joined
		i := bytes.IndexByte(data[at("at"):], '\n')
		if i < 0 {
			return data
		}
		return splice(i, i+1, pick(t, "by", "", " ", "\r"))
	}
}

func (in *c21Case) add(name, text string) {
	in.Files = append(in.Files, c21File{Name: name, Data: []byte(text)})
}

// mutateSome changes some of the files.
func (in *c21Case) mutateSome(t *rapid.T, dict func(name string) []string) {
	for k := num(t, "nops", 1, 6); k > 0; k-- {
		i := num(t, "file", 0, len(in.Files)-1)
		if d := dict(in.Files[i].Name); d != nil {
			in.Files[i].Data = mutate(t, in.Files[i].Data, d)
			in.Ops++
		}
	}
	if chance(t, "garbage", 15) {
		i := num(t, "file", 0, len(in.Files)-1)
		if d := dict(in.Files[i].Name); d != nil {
			in.Files[i].Data = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "data")
			if rapid.Bool().Draw(t, "tokens") {
				s := ""
				for n := num(t, "ntokens", 0, 20); n > 0; n-- {
					s += pick(t, "token", d...)
				}
				in.Files[i].Data = []byte(s)
			}
			in.Ops++
		}
	}
}

var c21Tests = []string{"test", "t -v", "test x.test", " ", "\t", "nosuch", "version", "v", "register", "balance -nosuch", "-h", "modify -p", "accounts Root", "commodities -q"}

func c21LedGen(t *rapid.T) (in c21Case) {
	l := genLed(t, ledOpt{MaxComs: pick(t, "maxcoms", 1, 3), MaxTx: 6, Days: 10, Notes: true, Codes: true, Attrs: true, Prices: true, Singles: true, Unb: true, Asserts: 4, Wrong: true})
	l.Files = pick(t, "txfiles", 0, 2)
	in.add("commodities.coin", l.comFile())
	in.add("accounts.coin", l.accFile())
	in.add("prices.coin", l.priceFile())
	n := max(l.Files, 1)
	var files []string
	for f := 0; f < n; f++ {
		var b strings.Builder
		for i := range l.Txs {
			if l.Txs[i].File%n == f {
				w := genWild(t)
				b.WriteString(w.render(&l.Txs[i]) + "\n")
			}
		}
		if chance(t, "tests", 4) {
			b.WriteString("test " + pick(t, "testcmd", append(c21Tests, c22Cmds...)...) + "\n" + pick(t, "result", "", "x\n") + "end test\n\n")
		}
		if chance(t, "incl", 6) {
			b.WriteString("include " + pick(t, "inclname", "a.inc", "sub/b.inc", "./a.inc", "none.inc") + "\n")
		}
		in.add(l.txFileName(f), b.String())
		files = append(files, l.txFileName(f))
	}
	if chance(t, "a.inc", 3) {
		in.add("a.inc", l.comFile()+pick(t, "inc", "include sub/b.inc\n", "", "include a.inc\n"))
		in.add("sub/b.inc", pick(t, "inc2", "include ../a.inc\n", "account B\n", "2020/01/01 x\n  B  5 CAD\n  Unbalanced\n"))
	}
	withTests := chance(t, "maintest", 3)
	if withTests {
		var b strings.Builder
		for _, f := range append([]string{"commodities.coin", "accounts.coin", "prices.coin"}, files...) {
			b.WriteString("include " + f + "\n")
		}
		for k := num(t, "mtests", 1, 3); k > 0; k-- {
			b.WriteString("test " + pick(t, "mtestcmd", append(c21Tests, c22Cmds...)...) + "\n" + pick(t, "mresult", "", "", "x\n") + "end test\n\n")
		}
		in.add("main.test", b.String())
	}
	in.mutateSome(t, func(string) []string { return dictLedger })
	acc := "Root"
	if len(l.Accs) > 0 {
		acc = pick(t, "acc", l.Accs...).Full
	}
	file := pick(t, "fmtfile", files...)
	all := [][]string{
		{"coin", "balance"}, {"coin", "balance", "-z", "-l", "2"}, {"coin", "register", "-r", acc}, {"coin", "register", "-r", "-m", "-g", "2", "Root"}, {"coin", "register", "-r", "-y", "-bt", "-o", "json", acc},
		{"coin", "register", "-n", "-f", "-l", "1000", acc}, {"coin", "register", "-r", "-bp", "-c", "-q", acc},
		{"coin", "accounts", "-c"}, {"coin", "commodities", "-p", "-f"}, {"coin", "tags", "-v", "-a"}, {"coin", "stats", "-d", "-u", "-c"},
		{"coin", "format", file}, {"coin", "format", "-ledger", "-t", file}, {"coin", "format", "-i", file}, {"coin", "modify", "-a", acc, "-tt:", "#x", file}, {"coin", "test", file}, {"coin", "test", "-v", file}, {"coin2html"},
	}
	for k := num(t, "ncmds", 2, 4); k > 0; k-- {
		in.Cmds = append(in.Cmds, pick(t, "cmd", all...))
	}
	if withTests {
		in.Cmds = append(in.Cmds, []string{"coin", "test", "main.test"})
	}
	return in
}

func c21CsvGen(t *rapid.T) (in c21Case) {
	b := c16Gen(t)
	l := Led{Coms: b.Coms, Accs: b.Accs}
	in.add("commodities.coin", l.comFile())
	in.add("accounts.coin", l.accFile())
	s := &style{b: []uint8{3, 1, 4, 1, 5, 9, 2, 6}}
	rules := ""
	for i := range b.Sources {
		rules += b.Sources[i].render(s)
	}
	if b.Rules != nil {
		rules += "---\n" + b.Rules.render()
	}
	in.add("csv.rules", rules)
	var args []string
	for i := range b.Files {
		fn := fmt.Sprintf("csv/%d.csv", i)
		in.add(fn, b.Files[i].render())
		args = append(args, fn)
	}
	in.mutateSome(t, func(name string) []string {
		switch filepath.Ext(name) {
		case ".rules":
			return dictRules
		case ".csv":
			return dictCsv
		}
		return nil
	})
	if b.Fields != nil {
		var fs []string
		for _, k := range b.Fields {
			fs = append(fs, strconv.Itoa(k))
		}
		if chance(t, "badfields", 4) {
			fs[num(t, "badfield", 0, len(fs)-1)] = pick(t, "bad", "", "x", "-1", "999", "99999999999999999999", " 1", "1.5")
		}
		in.Cmds = append(in.Cmds, append([]string{"csv2coin", "-fields=" + strings.Join(fs, ",")}, args...))
	} else {
		in.Cmds = append(in.Cmds, append([]string{"csv2coin", "-source=" + b.Sources[b.Use].Name}, args...))
	}
	if chance(t, "dump", 4) {
		in.Cmds = append(in.Cmds, []string{"csv2coin", "-rules"})
	}
	return in
}

func c21OfxGen(t *rapid.T) (in c21Case) {
	b := c15Gen(t)
	l := Led{Coms: b.Coms, Accs: b.Accs, Txs: b.Ledger, Files: 1}
	in.add("commodities.coin", l.comFile())
	in.add("accounts.coin", l.accFile())
	s := ""
	for i := range l.Txs {
		s += l.Txs[i].render() + "\n"
	}
	in.add(l.txFileName(0), s)
	if b.Rules != nil {
		in.add("ofx.rules", b.Rules.render())
	}
	var args []string
	for i := range b.Files {
		fn := fmt.Sprintf("stmts/%d.ofx", i)
		in.add(fn, b.Files[i].render())
		args = append(args, fn)
	}
	in.mutateSome(t, func(name string) []string {
		switch filepath.Ext(name) {
		case ".rules":
			return dictRules
		case ".ofx":
			return dictOfx
		}
		return nil
	})
	in.Cmds = append(in.Cmds, append([]string{"ofx2coin"}, args...))
	if chance(t, "bmo", 3) {
		in.Cmds = append(in.Cmds, append([]string{"ofx2coin", "-bmo"}, args...))
	}
	if chance(t, "dump", 4) {
		in.Cmds = append(in.Cmds, []string{"ofx2coin", pick(t, "what", "-rules", "-ids")})
	}
	return in
}

func c21GcGen(t *rapid.T) (in c21Case) {
	b := c17Gen(t)
	in.Files = []c21File{{Name: "book.gnucash", Data: []byte(b.xml()), Gzip: !chance(t, "plain", 12)}}
	in.mutateSome(t, func(string) []string { return dictGc })
	in.Cmds = [][]string{{"gc2coin", "-gnucashdb", "book.gnucash"}}
	if b.Ledger {
		in.Cmds[0] = append(in.Cmds[0], "-l")
	}
	if b.Yearly {
		in.Cmds[0] = append(in.Cmds[0], "-y")
	}
	return in
}

func c21Check(c *Ctx, in c21Case) error {
	d := c.Dir()
	for _, f := range in.Files {
		data := string(f.Data)
		if f.Gzip {
			var gz bytes.Buffer
			zw := gzip.NewWriter(&gz)
			_, err := zw.Write(f.Data)
			infraIf(err)
			infraIf(zw.Close())
			data = gz.String()
		}
		writeFile(filepath.Join(d, f.Name), data)
	}
	failed := 0
	for _, cmd := range in.Cmds {
		o := c.Run(d, d, cmd[0], cmd[1:]...)
		if err := diagnosed(o, cmd); err != nil {
			return err
		}
		if o.Code != 0 {
			failed++
		}
	}
	c.NonTrivial(in.Ops > 0)
	switch failed {
	case 0:
		c.Label("accepted")
	case len(in.Cmds):
		c.Label("refused")
	default:
		c.Label("mixed")
	}
	return nil
}

// diagnosed says whether a command succeeded or failed as it should.
func diagnosed(o *Out, cmd []string) error {
	switch {
	case o.TimedOut:
		return viol("hangs: %q", cmd)
	case o.Fault():
		return viol("internal fault: %q\n%s", cmd, head(o.Stderr, 2500))
	case o.Code != 0 && strings.TrimSpace(o.Stderr+o.Stdout) == "":
		return viol("no message: %q ends with %d", cmd, o.Code)
	}
	return nil
}

// ---- arguments ----

type c21Args struct {
	Led  Led
	Cmds [][]string
}

var argPool = []string{"", "Root", "Assets", "A:B", ":", "::", "a:", ":a", "(", "[", "*", ".", "\\", "!", "!(", "-", "--", "-1", "0", "1", "2", "99999999999999999999", "x", "é", "\x00"[:0], "#", "#a", "#a:b", "a:b", ":b", "2020/01/05", "2020/02/30", "2020", "01/05", "+1d", "-5m", "+99999999y", "none", "json", "csv", "text", "transactions.coin", "d-tx.coin", "nosuch.coin", ".", "..", " "}

func c21ArgsGen(t *rapid.T) (in c21Args) {
	in.Led = genLed(t, ledOpt{MaxComs: pick(t, "maxcoms", 1, 3), MaxTx: 8, Days: pick(t, "days", 5, 100), Notes: true, Codes: true, Attrs: true, Prices: true, Singles: true, Unb: true, Asserts: 4, Wrong: true})
	if chance(t, "empty", 10) {
		in.Led.Txs = nil
	}
	var names []string
	for _, a := range in.Led.Accs {
		names = append(names, a.Full)
	}
	val := func() string {
		if len(names) > 0 && chance(t, "name", 3) {
			n := pick(t, "acc", names...)
			if chance(t, "cut", 3) {
				n = n[:num(t, "len", 0, len(n))]
			}
			return n
		}
		return pick(t, "val", argPool...)
	}
	bools := map[string][]string{"balance": {"-z"}, "register": {"-r", "-w", "-m", "-q", "-y", "-bp", "-bt", "-c", "-f", "-n", "-v"}, "accounts": {"-c"}, "commodities": {"-p", "-f"}, "tags": {"-v", "-a"}, "stats": {"-d", "-u", "-c"}, "format": {"-ledger", "-t"}, "modify": {}, "test": {"-v"}, "version": {}, "help": {}, "nosuch": {}}
	vals := map[string][]string{"balance": {"-b", "-e", "-p", "-t", "-l"}, "register": {"-b", "-e", "-p", "-t", "-g", "-l", "-o"}, "stats": {"-b", "-e"}, "modify": {"-p", "-tt", "-pt", "-a", "-a:", "-pt:", "-tt:"}}
	var cmds []string
	for k := range bools {
		cmds = append(cmds, k)
	}
	slices.Sort(cmds)
	cmds = append(cmds, "register", "register", "register", "register", "balance", "modify", "tags", "accounts")
	for k := num(t, "ncmds", 2, 6); k > 0; k-- {
		name := pick(t, "cmd", cmds...)
		cmd := []string{"coin", name}
		for n := num(t, "nflags", 0, 4); n > 0; n-- {
			if bs := bools[name]; len(bs) > 0 && rapid.Bool().Draw(t, "bool") {
				cmd = append(cmd, pick(t, "flag", bs...))
			} else if vs := vals[name]; len(vs) > 0 {
				f := pick(t, "flag", vs...)
				v := val()
				if (f == "-g" || f == "-l") && !chance(t, "anyval", 4) {
					v = pick(t, "int", "-1", "0", "1", "2", "-100", "5", "1000000", "-99999999999")
				}
				if f == "-o" && rapid.Bool().Draw(t, "fmt") {
					v = pick(t, "out", "json", "csv", "text")
				}
				cmd = append(cmd, f, v)
			}
		}
		for n := num(t, "nargs", 0, 2); n > 0; n-- {
			cmd = append(cmd, val())
		}
		in.Cmds = append(in.Cmds, cmd)
	}
	if chance(t, "others", 5) {
		in.Cmds = append(in.Cmds, append([]string{pick(t, "exe", "csv2coin", "ofx2coin", "gc2coin", "gen2coin")}, pick(t, "exeargs",
			[]string{}, []string{"-h"}, []string{"nosuch"}, []string{"."}, []string{"-source", "x", "y"}, []string{"-fields", ""}, []string{"-fields", ",,", "transactions.coin"}, []string{"-fields=0,1,2", "accounts.coin"}, []string{"-source=x", "accounts.coin"}, []string{"-bmo", "accounts.coin"}, []string{"-gnucashdb", "accounts.coin"},
			[]string{"-gnucashdb", "."}, []string{"-gnucashdb", ""}, []string{"-rules"}, []string{"-ids"}, []string{"-b", "2020/01/01", "-e", "2019/01/01"}, []string{"-b", "x"}, []string{"-b", "2019/01/01", "-e", "2019/01/05"})...))
	}
	return in
}

func c21ArgsCheck(c *Ctx, in c21Args) error {
	d := c.Dir()
	in.Led.write(d)
	ok := 0
	for _, cmd := range in.Cmds {
		o := c.Run(d, d, cmd[0], cmd[1:]...)
		if err := diagnosed(o, cmd); err != nil {
			return err
		}
		if o.Code == 0 {
			ok++
		}
	}
	c.NonTrivial(len(in.Cmds) > 1)
	if ok > 0 {
		c.Label("some succeed")
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C21",
		Rule: "well-formed files of each kind, changed by 1-6 operations on bytes, words and lines with a dictionary of the format's own syntax and odd bytes, or replaced by garbage, and read by 1-4 commands; " +
			"arguments: any options and arguments on a well-formed ledger. Non-trivial when a file was changed or several commands were run",
		Subs: []Sub{
			sub("ledger", 8000, 150000, c21LedGen, c21Check),
			sub("csv", 4000, 80000, c21CsvGen, c21Check),
			sub("ofx", 4000, 80000, c21OfxGen, c21Check),
			sub("gnucash", 4000, 80000, c21GcGen, c21Check),
			sub("arguments", 4000, 80000, c21ArgsGen, c21ArgsCheck),
		},
	})
}
