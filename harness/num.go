package main

import (
	"math/big"
	"strings"

	"pgregory.net/rapid"
)

// Reference arithmetic: an amount is an integer count of 10^-dec units.

func pow10big(n int) *big.Int {
	return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil)
}

// cutLiteral gives the units of literal lit at dec decimals, cut toward zero.
func cutLiteral(lit string, dec int) *big.Int {
	neg := strings.HasPrefix(lit, "-")
	s := strings.TrimPrefix(lit, "-")
	ip, fp, _ := strings.Cut(s, ".")
	for len(fp) < dec {
		fp += "0"
	}
	fp = fp[:dec]
	v, ok := new(big.Int).SetString(ip+fp, 10)
	if !ok {
		infraf("bad literal %q", lit)
	}
	if neg {
		v.Neg(v)
	}
	return v
}

// show prints units at dec decimals.
func show(u *big.Int, dec int) string {
	s := new(big.Int).Abs(u).String()
	if dec > 0 {
		for len(s) <= dec {
			s = "0" + s
		}
		s = s[:len(s)-dec] + "." + s[len(s)-dec:]
	}
	if u.Sign() < 0 {
		s = "-" + s
	}
	return s
}

// rescale converts units between precisions, cutting toward zero.
func rescale(u *big.Int, from, to int) *big.Int {
	if to >= from {
		return new(big.Int).Mul(u, pow10big(to-from))
	}
	return new(big.Int).Quo(u, pow10big(from-to))
}

func digits(t *rapid.T, label string, min, max int) string {
	return rapid.StringOfN(rapid.RuneFrom([]rune("0123456789")), min, max, -1).Draw(t, label)
}

// genLiteral draws a decimal literal with up to 45 digits before and 13 after the point.
func genLiteral(t *rapid.T) string {
	kind := rapid.IntRange(0, 9).Draw(t, "kind")
	ip := ""
	switch {
	case kind < 4:
		ip = digits(t, "int", 1, 5)
	case kind < 6: // around powers of ten
		n := rapid.IntRange(0, 14).Draw(t, "pow")
		v := pow10big(n)
		v.Add(v, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(t, "off"))))
		ip = v.String()
	case kind < 8:
		ip = "0"
	case kind < 9:
		ip = digits(t, "int", 1, 15)
	default:
		ip = digits(t, "int", 16, 45)
	}
	s := ip
	if rapid.IntRange(0, 3).Draw(t, "hasfrac") > 0 {
		max := 13
		{
			switch rapid.IntRange(0, 2).Draw(t, "frackind") {
			case 0:
				s += "." + digits(t, "frac", 1, max)
			case 1:
				n := rapid.IntRange(1, max).Draw(t, "nines")
				s += "." + strings.Repeat("9", n)
			default:
				n := rapid.IntRange(0, max-1).Draw(t, "zeros")
				s += "." + strings.Repeat("0", n) + rapid.SampledFrom([]string{"1", "5", "9", "0"}).Draw(t, "last")
			}
		}
	}
	if rapid.Bool().Draw(t, "neg") {
		s = "-" + s
	}
	return s
}
