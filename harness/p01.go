package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/mkobetic/coin"
	"pgregory.net/rapid"
)

type c01Lit struct {
	Dec  int
	Lits []string
}

func c01GenLit(t *rapid.T) c01Lit {
	in := c01Lit{
		Dec:  c01Dec(t, "dec"),
		Lits: rapid.SliceOfN(rapid.Custom(genLiteral), 1, 6).Draw(t, "lits"),
	}
	if in.Dec > 12 && strings.Contains(in.Lits[0], ".") {
		in.Lits[0] += digits(t, "long", 1, 80)
	}
	return in
}

// exact checks an amount object of the code under test against units u at dec decimals.
func exact(what string, a *coin.Amount, u *big.Int, dec int, id string) error {
	want := show(u, dec)
	if got := a.String(); got != want {
		return viol("%s: printed %s, want %s", what, got, want)
	}
	if got := fmt.Sprintf("%a", a); got != want {
		return viol("%s: formatted %s, want %s", what, got, want)
	}
	var b strings.Builder
	if err := a.Write(&b, false); err != nil || b.String() != want+" "+id {
		return viol("%s: written %q, want %q", what, b.String(), want+" "+id)
	}
	j, err := json.Marshal(a)
	if err != nil || string(j) != `"`+want+" "+id+`"` {
		return viol("%s: JSON %s, want %q", what, j, want+" "+id)
	}
	if a.Sign() != u.Sign() || a.IsZero() != (u.Sign() == 0) {
		return viol("%s: sign %d zero %v, want sign %d", what, a.Sign(), a.IsZero(), u.Sign())
	}
	if w := a.Width(dec); w != len(want) {
		return viol("%s: width %d of %q", what, w, want)
	}
	// width asked for more decimals than the commodity has (a column with a wider commodity)
	if w := a.Width(dec + 2); dec > 0 && w != len(want)+2 {
		return viol("%s: width %d of %q with two more decimals", what, w, want)
	}
	if got := fmt.Sprintf("%*a", len(want)+3, a); got != "   "+want {
		return viol("%s: padded %q", what, got)
	}
	if got := fmt.Sprintf("%-*a", len(want)+3, a); got != want+"   " {
		return viol("%s: left-adjusted %q", what, got)
	}
	return nil
}

func c01CheckLit(c *Ctx, in c01Lit) error {
	com := &coin.Commodity{Id: "X", Decimals: in.Dec}
	for _, l := range in.Lits {
		u := cutLiteral(l, in.Dec)
		a := coin.MustParseAmount(l, com)
		if err := exact(fmt.Sprintf("literal %s at %d decimals", l, in.Dec), a, u, in.Dec, "X"); err != nil {
			return err
		}
		// sign symmetry
		neg := "-" + l
		if strings.HasPrefix(l, "-") {
			neg = l[1:]
		}
		if n := coin.MustParseAmount(neg, com); n.Int.Cmp(new(big.Int).Neg(a.Int)) != 0 {
			return viol("symmetry: %s is %s but %s is %s", l, a, neg, n)
		}
		// reading back the printed text
		if s := a.String(); coin.MustParseAmount(s, com).Int.Cmp(a.Int) != 0 {
			return viol("round trip: %s reads back as %s", s, coin.MustParseAmount(s, com))
		}
		_, fp, _ := strings.Cut(l, ".")
		cut := len(fp) > in.Dec && strings.Trim(fp[in.Dec:], "0") != ""
		if cut {
			c.Label("cut")
			c.NonTrivial(true)
			if strings.HasPrefix(l, "-") {
				c.Label("cut-negative")
			}
		}
		if len(fp) < in.Dec && u.Sign() != 0 {
			c.Label("extended")
			c.NonTrivial(true)
		}
	}
	return nil
}

type c01Arith struct {
	Dec  int
	A, B string
	DecB int // decimals of another commodity
}

func c01CheckArith(c *Ctx, in c01Arith) error {
	com := &coin.Commodity{Id: "X", Decimals: in.Dec}
	ua, ub := cutLiteral(in.A, in.Dec), cutLiteral(in.B, in.Dec)
	a, b := coin.MustParseAmount(in.A, com), coin.MustParseAmount(in.B, com)
	sum := a.Copy()
	if err := sum.AddIn(b); err != nil {
		return viol("adding %s to %s: %v", b, a, err)
	}
	if err := exact(fmt.Sprintf("sum of %s and %s", a, b), sum, new(big.Int).Add(ua, ub), in.Dec, "X"); err != nil {
		return err
	}
	if err := exact("operand after addition", a, ua, in.Dec, "X"); err != nil {
		return err
	}
	if err := exact("operand after addition", b, ub, in.Dec, "X"); err != nil {
		return err
	}
	if err := exact("negation of "+a.String(), a.Negated(), new(big.Int).Neg(ua), in.Dec, "X"); err != nil {
		return err
	}
	cmp := ua.Cmp(ub)
	if a.Cmp(b) != cmp || a.IsEqual(b) != (cmp == 0) || a.IsLessThan(b) != (cmp < 0) || a.IsMoreThan(b) != (cmp > 0) {
		return viol("comparison: %s with %s gives %d (equal %v less %v more %v)", a, b, a.Cmp(b), a.IsEqual(b), a.IsLessThan(b), a.IsMoreThan(b))
	}
	if in.DecB != in.Dec {
		other := coin.MustParseAmount(in.B, &coin.Commodity{Id: "Y", Decimals: in.DecB})
		uo := cutLiteral(in.B, in.DecB)
		l, r := new(big.Int).Mul(ua, pow10big(in.DecB)), new(big.Int).Mul(uo, pow10big(in.Dec))
		want := l.Cmp(r)
		if a.Cmp(other) != want || other.Cmp(a) != -want || a.IsEqual(other) != (want == 0) || a.IsLessThan(other) != (want < 0) || a.IsMoreThan(other) != (want > 0) {
			return viol("comparison of different precision: %s with %s gives %d", a, other, a.Cmp(other))
		}
		if want != 0 && in.A == in.B {
			c.Label("cut-differently")
		}
	}
	mag := new(big.Int).Abs(ua).Cmp(new(big.Int).Abs(ub))
	if a.CmpMagnitude(b) != mag || a.IsBigger(b) != (mag > 0) || a.IsSmaller(b) != (mag < 0) {
		return viol("magnitude: %s with %s gives %d", a, b, a.CmpMagnitude(b))
	}
	p := new(big.Int).Mul(ua, ub)
	p.Quo(p, pow10big(in.Dec))
	if err := exact(fmt.Sprintf("product of %s and %s", a, b), a.Times(b), p, in.Dec, "X"); err != nil {
		return err
	}
	if err := exact("zero", coin.NewZeroAmount(com), new(big.Int), in.Dec, "X"); err != nil {
		return err
	}
	c.NonTrivial(ua.Sign() != 0 && ub.Sign() != 0)
	if ua.Sign()*ub.Sign() < 0 {
		c.Label("mixed-signs")
	}
	if mag == 0 && cmp != 0 {
		c.Label("opposites")
	}
	return nil
}

func c01Dec(t *rapid.T, label string) int {
	if chance(t, label+"many", 8) {
		return num(t, label, 13, 75)
	}
	return rapid.IntRange(0, 12).Draw(t, label)
}

type c01Frac struct {
	Num, Den string
	Dec      int
}

func c01GenFrac(t *rapid.T) c01Frac {
	f := c01Frac{Dec: rapid.IntRange(0, 12).Draw(t, "dec")}
	f.Num = digits(t, "num", 1, 20)
	if rapid.Bool().Draw(t, "neg") {
		f.Num = "-" + f.Num
	}
	if rapid.Bool().Draw(t, "pow") {
		f.Den = "1" + strings.Repeat("0", rapid.IntRange(0, 12).Draw(t, "z"))
	} else {
		f.Den = fmt.Sprint(rapid.IntRange(1, 1000000).Draw(t, "den"))
	}
	return f
}

func c01CheckFrac(c *Ctx, in c01Frac) error {
	com := &coin.Commodity{Id: "X", Decimals: in.Dec}
	n, _ := new(big.Int).SetString(in.Num, 10)
	d, _ := new(big.Int).SetString(in.Den, 10)
	want := new(big.Int).Mul(n, pow10big(in.Dec))
	r := new(big.Int)
	want.QuoRem(want, d, r)
	a := coin.NewAmountFrac(n, d, com)
	c.NonTrivial(r.Sign() != 0)
	if r.Sign() < 0 {
		c.Label("cut-negative")
	}
	if n.String() != strings.TrimPrefix(normInt(in.Num), "+") {
		return viol("fraction operands were changed: %s", n)
	}
	return exact(fmt.Sprintf("fraction %s/%s at %d decimals", in.Num, in.Den, in.Dec), a, want, in.Dec, "X")
}

func normInt(s string) string {
	v, _ := new(big.Int).SetString(s, 10)
	return v.String()
}

// The same through the executables: literals in a ledger, read back from format and register.
type c01File struct {
	Dec  int
	Lits []string
}

func c01CheckFile(c *Ctx, in c01File) error {
	d := c.Dir()
	format := "1"
	if in.Dec > 0 {
		format = "1." + strings.Repeat("0", in.Dec)
	}
	writeFile(d+"/commodities.coin", "commodity X\n  format "+format+" X\n  default\n")
	writeFile(d+"/accounts.coin", "account A\naccount B\n")
	var b strings.Builder
	sum := new(big.Int)
	var want []string
	for i, l := range in.Lits {
		fmt.Fprintf(&b, "2000/01/%02d t%d\n  A  %s X\n  B\n\n", i+1, i, l)
		u := cutLiteral(l, in.Dec)
		sum.Add(sum, u)
		want = append(want, show(u, in.Dec)+" "+show(sum, in.Dec)+" X")
	}
	writeFile(d+"/2000.coin", b.String())
	o := c.Coin(d, "register", "A")
	if !o.OK() {
		return viol("register failed: %s", o.Stderr)
	}
	var got []string
	for _, l := range strings.Split(strings.TrimSpace(o.Stdout), "\n")[1:] {
		f := strings.Split(l, "|")
		if len(f) != 5 {
			return viol("register row %q", l)
		}
		got = append(got, strings.Join(strings.Fields(f[3]+" "+f[4]), " "))
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		return viol("register amounts and totals: got\n%s\nwant\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
	}
	f := c.Coin(d, "format", d+"/2000.coin")
	if !f.OK() {
		return viol("format failed: %s", f.Stderr)
	}
	i := 0
	for _, l := range strings.Split(f.Stdout, "\n") {
		fs := strings.Fields(l)
		if len(fs) == 3 && fs[2] == "X" {
			u := cutLiteral(in.Lits[i/2], in.Dec)
			if i%2 == 1 {
				u.Neg(u)
			}
			if fs[1] != show(u, in.Dec) {
				return viol("format prints %s for %s", fs[1], in.Lits[i/2])
			}
			i++
		}
	}
	if i != 2*len(in.Lits) {
		return viol("format printed %d postings of %d:\n%s", i, 2*len(in.Lits), f.Stdout)
	}
	writeFile(d+"/2000.coin", f.Stdout)
	g := c.Coin(d, "register", "A")
	if g.Stdout != o.Stdout {
		return viol("register differs after formatting:\n%s\n%s", o.Stdout, g.Stdout)
	}
	for _, l := range in.Lits {
		_, fp, _ := strings.Cut(l, ".")
		c.NonTrivial(len(fp) != in.Dec)
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C01",
		Rule: "decimal literals with up to 45+13 digits, fractions and pairs of amounts at 0..12 decimals, in-process and through register/format; non-trivial: the literal has more or fewer decimals than the commodity (non-zero digits cut or value extended), both operands non-zero, or the fraction does not divide evenly",
		Subs: []Sub{
			sub("literal", 40000, 1600000, c01GenLit, c01CheckLit),
			sub("arith", 40000, 1600000, func(t *rapid.T) c01Arith {
				a := genLiteral(t)
				b := genLiteral(t)
				switch rapid.IntRange(0, 5).Draw(t, "rel") {
				case 0:
					b = a
				case 1:
					b = strings.TrimPrefix("-"+a, "--")
				}
				return c01Arith{c01Dec(t, "dec"), a, b, c01Dec(t, "decb")}
			}, c01CheckArith),
			sub("fraction", 40000, 1600000, c01GenFrac, c01CheckFrac),
			sub("file", 1500, 30000, func(t *rapid.T) c01File {
				return c01File{c01Dec(t, "dec"), rapid.SliceOfN(rapid.Custom(genLiteral), 1, 12).Draw(t, "lits")}
			}, c01CheckFile),
		},
	})
}
