package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

var strays = []string{"<BANKMSGSET><BANKMSGSETV1>\n", "<BANKMSGSETV1><BANKMSGSET>\n"}

type c27Case struct {
	Lines  []string // as they are in the file
	Cut    bool     // no line end at the end
	Chunks []int
	Bufs   []int
	Fail   bool
	With   bool
}

func c27Gen(t *rapid.T) (in c27Case) {
	long := func() string {
		n := pick(t, "len", 100, 4093, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 20000)
		return strings.Repeat("x", max(n-1+num(t, "off", -2, 2), 1)) + "\n"
	}
	for n := num(t, "leading", 0, 3); n > 0; n-- {
		in.Lines = append(in.Lines, "\n")
	}
	in.Lines = append(in.Lines, pick(t, "first", "OFXHEADER:100\n", " \n", "\r\n", "x\n"))
	for n := num(t, "header", 0, 5); n > 0; n-- {
		in.Lines = append(in.Lines, pick(t, "hline", "DATA:OFXSGML\n", "\n", "\r\n", strays[0], strays[1], " <OFX>\n", "<OFX><X>\n", "NEWFILEUID:NONE\n", long()))
	}
	in.Lines = append(in.Lines, "<OFX>\n")
	for n := num(t, "body", 0, 12); n > 0; n-- {
		switch num(t, "bkind", 0, 9) {
		case 0, 1:
			in.Lines = append(in.Lines, strays[num(t, "stray", 0, 1)])
		case 2:
			in.Lines = append(in.Lines, long())
		case 3:
			in.Lines = append(in.Lines, pick(t, "near", " "+strays[0], strings.TrimSuffix(strays[1], "\n")+"\r\n", strings.TrimSuffix(strays[0], "\n")+"x\n", "<BANKMSGSET>\n", "<BANKMSGSETV1>\n", "<BANKMSGSET><BANKMSGSET>\n", strings.TrimSuffix(strays[0], "\n")+strays[1], strings.ToLower(strays[0])))
		case 4:
			in.Lines = append(in.Lines, pick(t, "again", "<OFX>\n", "\n", "\n\n", "\r\n", "\x00\xff\n"))
		default:
			in.Lines = append(in.Lines, "<"+digits(t, "tag", 1, 4)+">"+pick(t, "text", "a b", "", "é", "\t")+"\n")
		}
	}
	in.Cut = rapid.Bool().Draw(t, "cut")
	if in.Cut && (in.last() == strays[0] || in.last() == strays[1] || in.last() == "<OFX>\n") {
		in.Lines = append(in.Lines, "</OFX>\n")
	}
	in.Chunks = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 7, 26, 27, 4095, 4096, 4097, 10000}), 0, 5).Draw(t, "chunks")
	in.Bufs = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 5, 26, 27, 28, 512, 4096, 32768}), 1, 4).Draw(t, "bufs")
	in.Fail = chance(t, "fail", 4)
	in.With = rapid.Bool().Draw(t, "with")
	return in
}

func (in *c27Case) last() string { return in.Lines[len(in.Lines)-1] }

// bmoFilter is what the repair has to do.
func bmoFilter(s string) string {
	for strings.HasPrefix(s, "\n") {
		s = s[1:]
	}
	var b strings.Builder
	body := false
	prev := ""
	for s != "" {
		n := strings.IndexByte(s, '\n') + 1
		if n == 0 {
			n = len(s)
		}
		l := s[:n]
		s = s[n:]
		switch {
		case !body && l == "<OFX>\n":
			body = true
			if prev != "\n" {
				b.WriteString("\n")
			}
			b.WriteString(l)
		case body && (l == strays[0] || l == strays[1]):
		default:
			b.WriteString(l)
		}
		prev = l
	}
	return b.String()
}

func c27Check(c *Ctx, in c27Case) error {
	exe := filepath.Join(c.bin, "bmofilter")
	if _, err := os.Stat(exe); err != nil {
		c.Label("filter not reachable")
		return nil
	}
	data := strings.Join(in.Lines, "")
	if in.Cut {
		data = strings.TrimSuffix(data, "\n")
	}
	want := bmoFilter(data)
	b, err := json.Marshal(map[string]any{"Data": []byte(data), "Chunks": in.Chunks, "Bufs": in.Bufs, "Fail": in.Fail, "With": in.With})
	infraIf(err)
	o := c.runExe(c.Dir(), []string{"VERIF_BMO=1", "COINDB=" + c.Dir()}, b, exe)
	if o.TimedOut {
		return viol("filter hangs")
	}
	if o.Code != 0 {
		return viol("filter failed: %s", o.Stderr)
	}
	var out struct {
		Data []byte
		End  string
	}
	infraIf(json.Unmarshal([]byte(o.Stdout), &out))
	if !bytes.Equal(out.Data, []byte(want)) {
		i := 0
		for i < len(out.Data) && i < len(want) && out.Data[i] == want[i] {
			i++
		}
		ctx := func(s string) string {
			return fmt.Sprintf("%q", s[max(0, min(i, len(s))-40):min(len(s), i+60)])
		}
		return viol("filtered: %d bytes, want %d, they differ at %d:\ngot  %s\nwant %s", len(out.Data), len(want), i, ctx(string(out.Data)), ctx(want))
	}
	if wantEnd := map[bool]string{true: "boom", false: "EOF"}[in.Fail]; out.End != wantEnd {
		return viol("filtered: ends with %q, want %q", out.End, wantEnd)
	}
	c.NonTrivial(want != data)
	if len(data) > 4096 {
		c.Label("over 4096 bytes")
	}
	return nil
}

// ---- through the importer ----

type c27Import struct {
	c15Case
	Leading int
	NoBlank bool
	At      []int // where stray lines go
	Long    int
}

func c27ImportGen(t *rapid.T) (in c27Import) {
	in.c15Case = c15Gen(t)
	in.Ledger = nil
	in.Leading = num(t, "leading", 0, 3)
	in.NoBlank = rapid.Bool().Draw(t, "noblank")
	in.At = rapid.SliceOfN(rapid.IntRange(0, 10000), 0, 6).Draw(t, "at")
	in.Long = pick(t, "long", 0, 0, 300, 4000, 5000, 9000)
	return in
}

func c27ImportCheck(c *Ctx, in c27Import) error {
	d := c.Dir()
	l := Led{Coms: in.Coms, Accs: in.Accs}
	l.write(d)
	if in.Rules != nil {
		writeFile(filepath.Join(d, "ofx.rules"), in.Rules.render())
	}
	var clean, bad []string
	for i := range in.Files {
		f := in.Files[i]
		f.Xml = false
		if in.Long > 0 {
			for j := range f.Stmts {
				for k := range f.Stmts[j].Recs {
					r := &f.Stmts[j].Recs[k]
					if !strings.HasSuffix(r.Name, "LONG") {
						r.Name += strings.Repeat("y", in.Long) + "LONG"
					}
				}
			}
		}
		text := f.render()
		fn := fmt.Sprintf("stmts/clean%d.qfx", i)
		writeFile(filepath.Join(d, fn), text)
		clean = append(clean, fn)
		head, body, _ := strings.Cut(text, "<OFX>\n")
		if in.NoBlank {
			head = strings.TrimSuffix(head, "\n")
		}
		ls := strings.SplitAfter(body, "\n")
		for n, at := range in.At {
			at %= len(ls)
			ls = append(ls[:at:at], append([]string{strays[n%2]}, ls[at:]...)...)
		}
		fn = fmt.Sprintf("stmts/bad%d.qfx", i)
		writeFile(filepath.Join(d, fn), strings.Repeat("\n", in.Leading)+head+"<OFX>\n"+strings.Join(ls, ""))
		bad = append(bad, fn)
	}
	want := c.Run(d, d, "ofx2coin", clean...)
	if err := mustOK(want, "ofx2coin"); err != nil {
		return err
	}
	for _, fs := range [][]string{clean, bad} {
		got := c.Run(d, d, "ofx2coin", append([]string{"-bmo"}, fs...)...)
		if err := mustOK(got, "ofx2coin -bmo", fs); err != nil {
			return err
		}
		if got.Stdout != want.Stdout {
			return viol("imported differently through -bmo %v: %s", fs, firstDiff(lines(got.Stdout), lines(want.Stdout)))
		}
	}
	c.NonTrivial(want.Stdout != "" && (in.Leading > 0 || in.NoBlank || len(in.At) > 0))
	return nil
}

func init() {
	register(&Prop{
		ID:   "C27",
		Rule: "random files of header and body lines with stray and nearly stray lines, lines around the buffer sizes, random chunk sizes of the source and of the reads, read errors; OFX statements damaged that way imported with -bmo; non-trivial if there is something to repair",
		Subs: []Sub{
			sub("filter", 3000, 40000, c27Gen, c27Check),
			sub("import", 1000, 10000, c27ImportGen, c27ImportCheck),
		},
	})
}
