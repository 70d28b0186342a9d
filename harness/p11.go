package main

import (
	"path/filepath"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

type c11Case struct {
	Accs    []string
	Pattern string
}

var c11Segs = []string{"Assets", "Bank", "Food", "Foo", "food", "Foods", "Car", "Card", "A", "b", "ab", "Exp-x", "In_c", "R/S", "Tax2", "Bank2"}

func c11Gen(t *rapid.T) c11Case {
	var in c11Case
	n := num(t, "naccs", 1, 9)
	for i := 0; i < n; i++ {
		var full string
		if len(in.Accs) > 0 && chance(t, "sub", 2) {
			full = pick(t, "parent", in.Accs...) + ":" + pick(t, "seg", c11Segs...)
		} else {
			full = pick(t, "seg", c11Segs...)
			for k := num(t, "depth", 0, 3); k > 0; k-- {
				full += ":" + pick(t, "seg", c11Segs...)
			}
		}
		in.Accs = append(in.Accs, full)
	}
	in.Accs = uniq(in.Accs)
	// a pattern: part of one of the names, spelled differently
	elems := strings.Split(pick(t, "from", in.Accs...), ":")
	if chance(t, "full", 8) {
		in.Pattern = strings.Join(elems, ":")
		return in
	}
	lo := num(t, "lo", 0, len(elems)-1)
	hi := num(t, "hi", lo, len(elems)-1)
	p := ""
	for i := lo; i <= hi; i++ {
		if p != "" && i < hi && chance(t, "skip", 3) {
			if !strings.HasSuffix(p, "::") {
				p = strings.TrimRight(p, ":") + "::"
			}
			continue
		}
		e := elems[i]
		switch num(t, "part", 0, 4) {
		case 0:
			e = e[:num(t, "cutto", 1, len(e))]
		case 1:
			e = e[num(t, "cutfrom", 0, len(e)-1):]
		case 2:
			e = pick(t, "other", c11Segs...)
		}
		switch num(t, "case", 0, 3) {
		case 0:
			e = strings.ToLower(e)
		case 1:
			e = strings.ToUpper(e)
		}
		p += e
		if i < hi {
			if chance(t, "any", 4) {
				p += "::"
			} else {
				p += ":"
			}
		}
	}
	in.Pattern = p
	return in
}

// pathMatch is a backtracking matcher of patterns; within says whether the parts around '::' may
// match within one path element.
func pathMatch(pattern, full string, within bool) bool {
	type part struct {
		text string
		any  bool // separated from the previous part by '::'
	}
	var parts []part
	for i, chunk := range strings.Split(pattern, "::") {
		for j, e := range strings.Split(chunk, ":") {
			parts = append(parts, part{strings.ToLower(e), i > 0 && j == 0})
		}
	}
	elems := strings.Split(strings.ToLower(full), ":")
	var match func(i, at, from int) bool // parts from i on; element at, not before from
	match = func(i, at, from int) bool {
		if i == len(parts) {
			return true
		}
		try := func(at, from int) bool {
			if at >= len(elems) {
				return false
			}
			e := elems[at]
			for k := from; k+len(parts[i].text) <= len(e); k++ {
				if strings.HasPrefix(e[k:], parts[i].text) && match(i+1, at, k+len(parts[i].text)) {
					return true
				}
			}
			return false
		}
		switch {
		case i == 0:
			for k := range elems {
				if try(k, 0) {
					return true
				}
			}
		case parts[i].any:
			if within && try(at, from) {
				return true
			}
			for k := at + 1; k < len(elems); k++ {
				if try(k, 0) {
					return true
				}
			}
		default:
			return try(at+1, 0)
		}
		return false
	}
	return match(0, 0, 0)
}

// resolve gives the account a pattern stands for, "" if none or several.
func resolve(all []string, pattern string, within bool) (string, int) {
	var found []string
	for _, a := range all {
		if a == pattern {
			return a, 1
		}
		if pathMatch(pattern, a, within) {
			found = append(found, a)
		}
	}
	for _, top := range found {
		ok := true
		for _, a := range found {
			ok = ok && (a == top || strings.HasPrefix(a, top+":"))
		}
		if ok {
			return top, len(found)
		}
	}
	return "", len(found)
}

var c11Posting = regexp.MustCompile(`^[A-Za-z][\w/-]*(::?[A-Za-z][\w/-]*)*$`)

func c11Check(c *Ctx, in c11Case) error {
	d := c.Dir()
	l := Led{Coms: []Com{{Id: "CAD", Dec: 2}}}
	for _, a := range in.Accs {
		l.Accs = append(l.Accs, Acc{Full: a})
	}
	l.write(d)
	var all []string
	for _, a := range newModel(&l).sorted() {
		all = append(all, a.Full)
	}
	want, n := resolve(all, in.Pattern, false)
	alt, _ := resolve(all, in.Pattern, true)
	exact := false
	for _, a := range all {
		exact = exact || a == in.Pattern
	}
	c.NonTrivial(n > 1 || !exact && n == 1)
	switch {
	case want == "" && n > 1:
		c.Label("ambiguous")
	case want == "":
		c.Label("none")
	case exact:
		c.Label("exact")
	case n > 1:
		c.Label("parent")
	default:
		c.Label("unique")
	}
	if strings.Contains(in.Pattern, "::") {
		c.Label("any-elements")
	}
	if want != alt {
		c.Label("within-element")
	}
	decide := func(what, got string, failed bool) error {
		if failed {
			if want != "" && alt != "" {
				return viol("pattern %q refused by %s, want %s among %v", in.Pattern, what, want, all)
			}
			return nil
		}
		if got != want && got != alt || got == "" {
			return viol("pattern %q is taken for %q by %s, want %q among %v", in.Pattern, got, what, want, all)
		}
		return nil
	}
	o := c.Coin(d, "register", "--", in.Pattern)
	if o.Fault() || o.TimedOut {
		return viol("register %q: crashed: %s", in.Pattern, o.Stderr)
	}
	got, _, _ := strings.Cut(o.Stdout, " ")
	if err := decide("register", got, o.Code != 0); err != nil {
		return err
	}
	o = c.Coin(d, "balance", "-z", "--", in.Pattern)
	if o.Fault() || o.TimedOut {
		return viol("balance %q: crashed: %s", in.Pattern, o.Stderr)
	}
	got = ""
	if o.Code == 0 {
		rows, err := parseBalance(o.Stdout)
		if err != nil {
			return err
		}
		if len(rows) == 0 {
			return viol("balance %q: no rows", in.Pattern)
		}
		got = rows[0].full
	}
	if err := decide("balance", got, o.Code != 0); err != nil {
		return err
	}
	// in a transaction
	if !c11Posting.MatchString(in.Pattern) {
		return nil
	}
	fn := filepath.Join(d, "t.coin")
	writeFile(fn, "2020/01/01 x\n  "+in.Pattern+"  1.00 CAD\n  Unbalanced\n")
	o = c.Coin(d, "format", fn)
	if o.Fault() || o.TimedOut {
		return viol("format %q: crashed: %s", in.Pattern, o.Stderr)
	}
	got = ""
	if o.Code == 0 {
		ls := lines(o.Stdout)
		if len(ls) < 3 {
			return viol("format: %q", o.Stdout)
		}
		got = strings.Fields(ls[1])[0]
	}
	if err := decide("a transaction", got, o.Code != 0); err != nil {
		return err
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C11",
		Rule: "a case is a set of up to 9 accounts over few overlapping names (prefixes and case variants of each other, implied parents) and a pattern derived from one of them " +
			"by dropping, cutting, replacing and re-casing path elements, resolved by register, balance and as account of a posting; non-trivial when the pattern matches several accounts, " +
			"or one that it does not spell out",
		Subs: []Sub{sub("resolve", 12000, 100000, c11Gen, c11Check)},
	})
}
