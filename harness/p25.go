package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/mkobetic/coin"
	"pgregory.net/rapid"
)

type c25Case struct {
	Accs   []string
	Rules  RuleFile
	Payees []string
}

func c25Gen(t *rapid.T) (in c25Case) {
	in.Accs = genAccNames(t, 1, 8)
	all := allNames(in.Accs)
	ids := rapid.Permutation([]string{"1", "0012", "A_b", "x9", "7777777", "q"}).Draw(t, "ids")[:num(t, "nids", 1, 4)]
	of := map[string]string{}
	for _, id := range ids {
		of[id] = pick(t, "of", in.Accs...)
	}
	in.Rules = genRuleFile(t, ids, of, in.Accs, all)
	for n := num(t, "npayees", 1, 8); n > 0; n-- {
		in.Payees = append(in.Payees, genPayee(t))
	}
	if chance(t, "odd", 3) {
		in.Payees = append(in.Payees, pick(t, "oddpayee", "", " ", "two  blanks", "amazon", "; x", "\tA", "x -- 9"))
	}
	return in
}

// allNames gives the accounts a ledger with those definitions has.
func allNames(accs []string) []string {
	all := []string{"Root", "Unbalanced"}
	for _, a := range accs {
		for p := a; p != ""; p = parentOf(p) {
			all = append(all, p)
		}
	}
	return uniq(all)
}

func writeAccs(d string, accs []string) {
	writeFile(filepath.Join(d, "commodities.coin"), "commodity CAD\n  format 1.00 CAD\n")
	l := Led{}
	for _, a := range accs {
		l.Accs = append(l.Accs, Acc{Full: a})
	}
	writeFile(filepath.Join(d, "accounts.coin"), l.accFile())
}

// rulesHelper reads rules from file args[0] and classifies the payees given as JSON (id -> payees) in args[1].
func rulesHelper(args []string) {
	no := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
	coin.LoadFile(coin.CommoditiesFile)
	coin.LoadFile(coin.AccountsFile)
	coin.ResolveAccounts()
	f, err := os.Open(args[0])
	no(err)
	defer f.Close()
	rules, err := coin.ReadRules(f)
	no(err)
	var ask map[string][]string
	no(json.Unmarshal([]byte(args[1]), &ask))
	res := map[string][]string{}
	for id, payees := range ask {
		ar := rules.AccountRulesFor(id)
		res[id] = append(res[id], ar.Account.FullName)
		for _, p := range payees {
			s := "none"
			if r := ar.RuleFor(p); r != nil {
				s = fmt.Sprintf("drop %q", r.Notes)
				if r.Account != nil {
					s = fmt.Sprintf("%s %q", r.Account.FullName, r.Notes)
				}
			}
			res[id] = append(res[id], s)
		}
	}
	b, err := json.Marshal(res)
	no(err)
	os.Stdout.Write(b)
}

func c25Check(c *Ctx, in c25Case) error {
	d := c.Dir()
	writeAccs(d, in.Accs)
	fn := filepath.Join(d, "ofx.rules")
	writeFile(fn, in.Rules.render())
	ask, want := map[string][]string{}, map[string][]string{}
	multi, viaGroup := 0, false
	for i := range in.Rules.Secs {
		sec := &in.Rules.Secs[i]
		if sec.Id == "" {
			continue
		}
		ask[sec.Id] = in.Payees
		want[sec.Id] = []string{sec.Acc}
		for _, r := range sec.Rules {
			viaGroup = viaGroup || r.Group != ""
		}
		for _, p := range in.Payees {
			r, n := in.Rules.choose(sec, p)
			s := "none"
			switch {
			case r != nil && r.Drop:
				s = fmt.Sprintf("drop %q", r.Notes)
			case r != nil:
				s = fmt.Sprintf("%s %q", r.Acc, r.Notes)
			}
			if n > 1 {
				multi++
			}
			want[sec.Id] = append(want[sec.Id], s)
		}
	}
	askJson, _ := json.Marshal(ask)
	compare := func(what, file string) error {
		o := c.helper(d, "rules", file, string(askJson))
		if err := mustOK(o, what); err != nil {
			return viol("%w\n%s", err, readFile(file))
		}
		got := map[string][]string{}
		infraIf(json.Unmarshal([]byte(o.Stdout), &got))
		for id := range want {
			for i := range want[id] {
				if i >= len(got[id]) || got[id][i] != want[id][i] {
					p := "its account"
					if i > 0 {
						p = fmt.Sprintf("payee %q", in.Payees[i-1])
					}
					return viol("%s: %s of id %s: got %v, want %s\n%s", what, p, id, got[id], want[id][i], readFile(file))
				}
			}
		}
		return nil
	}
	if err := compare("rules", fn); err != nil {
		return err
	}
	dump := func(prog, file string) (string, error) {
		o := c.Run(d, d, prog, "-rules")
		return o.Stdout, mustOK(o, prog+" -rules")
	}
	d1, err := dump("ofx2coin", fn)
	if err != nil {
		return err
	}
	writeFile(fn, d1)
	if err := compare("dumped rules", fn); err != nil {
		return err
	}
	d2, err := dump("ofx2coin", fn)
	if err != nil {
		return err
	}
	if d1 != d2 {
		return viol("rules dumped differently when read back:\n%s", firstDiff(lines(d2), lines(d1)))
	}
	writeFile(filepath.Join(d, "csv.rules"), "---\n"+in.Rules.render())
	d3, err := dump("csv2coin", "")
	if err != nil {
		return err
	}
	if d3 != "---\n"+d1 {
		return viol("csv2coin dumps the rules differently than ofx2coin:\n%s", firstDiff(lines(d3), append([]string{"---"}, lines(d1)...)))
	}
	c.NonTrivial(multi > 0 || viaGroup)
	if multi > 0 {
		c.Label("several rules match")
	}
	if viaGroup {
		c.Label("groups")
	}
	return nil
}

// A c25Bad is a rules file with one line that cannot be understood.
type c25Bad struct {
	c25Case
	Line  string
	At    int
	Again string // the header of a section or source that comes twice
}

func c25BadGen(t *rapid.T) (in c25Bad) {
	in.c25Case = c25Gen(t)
	acc := pick(t, "acc", in.Accs...)
	in.Line = pick(t, "bad", "  @nogroup", "  @", "  @common1 x", "  "+acc+".x foo", "  NoSuchAccount foo", "  "+acc+" fo(o", "  "+acc+" [", "1 NoSuchAccount", "id "+acc+" trailing text", "a b c d", "name!", "1: "+acc, "- "+acc, "@common1", "  ."+acc+" x", "  @grp-1", acc+":Foo x y", "  ? x")
	in.At = num(t, "at", 0, 1000)
	switch num(t, "again", 0, 5) {
	case 0:
		sec := in.Rules.Secs[in.At%len(in.Rules.Secs)]
		if in.Again = sec.Name; sec.Name == "" {
			in.Again = sec.Id + " " + pick(t, "acc", in.Accs...)
		}
	case 1:
		if rapid.Bool().Draw(t, "source") {
			in.Again = "source"
		}
	}
	return in
}

func c25BadCheck(c *Ctx, in c25Bad) error {
	d := c.Dir()
	writeAccs(d, in.Accs)
	ls := lines(in.Rules.render())
	// after the first header, so that an indented line belongs to something
	h := 0
	for h < len(ls) && (strings.TrimSpace(ls[h]) == "" || isComment(ls[h])) {
		h++
	}
	at := h + 1 + in.At%(len(ls)-h)
	sources, progs := "", []string{"ofx2coin", "csv2coin"}
	switch in.Again {
	case "":
		ls = append(ls[:at:at], append([]string{in.Line}, ls[at:]...)...)
	case "source":
		in.Line = "b"
		sources = "b 1\n  account 0\na\n  account 1\nb\n  account 2\n"
		progs = progs[1:]
	default:
		in.Line = in.Again
		ls = append(ls, in.Line, "  "+in.Accs[0]+" xyz")
	}
	text := strings.Join(ls, "\n") + "\n"
	fn := filepath.Join(d, "ofx.rules")
	writeFile(fn, text)
	writeFile(filepath.Join(d, "csv.rules"), sources+"---\n"+text)
	for _, prog := range progs {
		o := c.Run(d, d, prog, "-rules")
		if o.TimedOut || o.Fault() {
			return viol("%s: internal fault on rule line %q\n%s", prog, in.Line, o.Stderr)
		}
		if o.OK() {
			return viol("%s: accepted rule line %q\n%s", prog, in.Line, text)
		}
		if o.Stderr == "" {
			return viol("%s: no message about rule line %q", prog, in.Line)
		}
	}
	c.NonTrivial(true)
	return nil
}

func init() {
	register(&Prop{
		ID:   "C25",
		Rule: "random accounts, rule files (groups referring to earlier groups, drop rules, notes, comments, varied blanks, shortened account names) and payees; non-trivial if several rules match some payee or a group is used, or a damaged line or one of over 4 KB was added",
		Subs: []Sub{
			sub("classify", 1500, 20000, c25Gen, c25Check),
			sub("refuse", 800, 8000, c25BadGen, c25BadCheck),
			sub("long", 200, 3000, c25LongGen, c25LongCheck),
		},
	})
}
