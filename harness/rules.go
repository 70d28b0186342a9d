package main

import (
	"fmt"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// ---- import rules, shared by the checks of the importers ----

type Rule struct {
	Acc   string   `json:",omitempty"` // full name
	Spell string   `json:",omitempty"` // how it is written
	Drop  bool     `json:",omitempty"`
	Group string   `json:",omitempty"` // reference to a group
	Re    string   `json:",omitempty"`
	Notes []string `json:",omitempty"`
}

// A RuleSec is a group (Name) or the rules of an import account (Id, Acc).
type RuleSec struct {
	Name  string `json:",omitempty"`
	Id    string `json:",omitempty"`
	Acc   string `json:",omitempty"`
	Spell string `json:",omitempty"`
	Rules []Rule
}

type RuleFile struct {
	Secs  []RuleSec
	Style []uint8
}

func (f *RuleFile) render() string {
	s := &style{b: f.Style}
	var b strings.Builder
	comment := func() {
		switch s.next(9) {
		case 0:
			b.WriteString("\n")
		case 1:
			b.WriteString("; Foo bar\n")
		case 2:
			b.WriteString("   \t\n")
		case 3:
			b.WriteString([]string{"# x\n", "%\n", "|@grp\n", "* x y z\n", ";\n"}[s.next(5)])
		}
	}
	for i := range f.Secs {
		sec := &f.Secs[i]
		comment()
		if sec.Name != "" {
			b.WriteString(sec.Name)
		} else {
			b.WriteString(sec.Id + s.gap() + sec.Spell)
		}
		b.WriteString(s.tail() + "\n")
		for _, r := range sec.Rules {
			comment()
			b.WriteString(s.indent())
			switch {
			case r.Group != "":
				b.WriteString("@" + r.Group)
			case r.Drop:
				b.WriteString("--")
			default:
				b.WriteString(r.Spell)
			}
			if r.Re != "" {
				b.WriteString(s.gap() + r.Re)
			}
			b.WriteString(s.tail() + "\n")
			for _, n := range r.Notes {
				comment()
				b.WriteString(s.indent() + ";" + []string{" ", "", "  ", "\t"}[s.next(4)] + n + "\n")
			}
		}
		comment()
	}
	return b.String()
}

// expand gives the rules of a section in order, those of referenced groups in place.
func (f *RuleFile) expand(sec *RuleSec) (out []*Rule) {
	for i := range sec.Rules {
		r := &sec.Rules[i]
		if r.Group == "" {
			out = append(out, r)
			continue
		}
		for j := range f.Secs {
			if f.Secs[j].Name == r.Group {
				out = append(out, f.expand(&f.Secs[j])...)
			}
		}
	}
	return out
}

func (f *RuleFile) sec(id string) *RuleSec {
	for i := range f.Secs {
		if f.Secs[i].Id == id {
			return &f.Secs[i]
		}
	}
	return nil
}

// choose gives the rule for a payee and how many rules of the section match it.
func (f *RuleFile) choose(sec *RuleSec, payee string) (first *Rule, n int) {
	if sec == nil {
		return nil, 0
	}
	for _, r := range f.expand(sec) {
		if regexp.MustCompile(r.Re).MatchString(payee) {
			n++
			if first == nil {
				first = r
			}
		}
	}
	return first, n
}

var payeeWords = []string{"AMAZON", "Amazon", "PAYROLL", "PAY", "DEP", "INTERAC", "e-TRANSFER", "STORE", "#1234", "No.5", "COFFEE", "shop", "A", "B", "AB", "X*Y", "99", "100.00", "CAD", "[PR]", "Visa/MC", "(x)", "O'NEIL", "café", "a|b", "?", "$5"}
var ruleRes = []string{"AMAZON", "Amazon", "(?i)amazon", "^PAY", "PAY$", "PAYROLL DEP", "PAY.*DEP", "STORE|COFFEE", "#\\d+", "[0-9]{2}", "^A", "B$", "A", "AB", "^AB?$", "", "\\[PR\\]", "X\\*Y", "é", "\\(x\\)", "^$", "\\$5", ".", "e-TRANSFER", "shop", "Visa/MC", "a\\|b", "[^A-Z ]", "; x", "-- 9", "O'N", "\\s99", "INTERAC e"}

func genPayee(t *rapid.T) string {
	var ws []string
	for n := num(t, "nwords", 1, 4); n > 0; n-- {
		ws = append(ws, pick(t, "word", payeeWords...))
	}
	return strings.Join(ws, " ")
}

// spellAcc is the name of an account or an unambiguous pattern for it.
func spellAcc(t *rapid.T, all []string, full string) string {
	if !chance(t, "short", 3) {
		return full
	}
	elems := strings.Split(full, ":")
	lo := num(t, "lo", 0, len(elems)-1)
	s := strings.Join(elems[lo:], pick(t, "sep", ":", ":", "::"))
	if rapid.Bool().Draw(t, "lower") {
		s = strings.ToLower(s)
	}
	a, n := resolve(all, s, false)
	b, k := resolve(all, s, true)
	if a == full && b == full && n == 1 && k == 1 {
		return s
	}
	return full
}

var ruleNotes = []string{"x", "#tag: v", "see: the rules", "a, b", "100 CAD", "#k", "; y", "Foo bar", "ü", "@grp"}

func genRules(t *rapid.T, accs, all []string, groups []string, label string, max int) (rs []Rule) {
	for n := num(t, "n"+label, 0, max); n > 0; n-- {
		if len(groups) > 0 && chance(t, "ref", 4) {
			g := Rule{Group: pick(t, "group", groups...)}
			if chance(t, "stray", 4) {
				g.Notes = []string{pick(t, "note", ruleNotes...)} // of no rule
			}
			rs = append(rs, g)
			continue
		}
		r := Rule{Re: pick(t, "re", ruleRes...)}
		if chance(t, "pair", 6) {
			r.Re += pick(t, "alt", "|", ".*", " ") + pick(t, "re", ruleRes...)
		}
		r.Re = strings.TrimSpace(r.Re)
		if regexpErr(r.Re) {
			r.Re = "A"
		}
		if chance(t, "drop", 6) {
			r.Drop = true
		} else {
			r.Acc = pick(t, "acc", accs...)
			r.Spell = spellAcc(t, all, r.Acc)
		}
		if chance(t, "hasnotes", 3) {
			for k := 1 + count(t, "nnotes", 1, 4, 6); k > 0; k-- {
				r.Notes = append(r.Notes, pick(t, "note", ruleNotes...))
			}
		}
		rs = append(rs, r)
	}
	return rs
}

func regexpErr(s string) bool {
	_, err := regexp.Compile(s)
	return err != nil
}

// genRuleFile makes rules for the import ids, given with their accounts.
func genRuleFile(t *rapid.T, ids []string, of map[string]string, accs, all []string) (f RuleFile) {
	var groups []string
	ids = append([]string(nil), ids...)
	ng := num(t, "ngroups", 0, 3)
	for ng > 0 || len(ids) > 0 {
		if ng > 0 && (len(ids) == 0 || !chance(t, "first", 4)) {
			g := fmt.Sprintf("%s%d", pick(t, "gname", "common", "grp_", "9"), ng)
			f.Secs = append(f.Secs, RuleSec{Name: g, Rules: genRules(t, accs, all, groups, "grules", 4)})
			groups = append(groups, g)
			ng--
			continue
		}
		id := ids[0]
		ids = ids[1:]
		f.Secs = append(f.Secs, RuleSec{Id: id, Acc: of[id], Spell: spellAcc(t, all, of[id]), Rules: genRules(t, accs, all, groups, "rules", 6)})
	}
	f.Style = rapid.SliceOfN(rapid.Byte(), 8, 60).Draw(t, "style")
	return f
}
