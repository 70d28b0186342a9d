package main

import (
	"math/big"
	"strings"
)

// latest gives, per commodity and currency, the latest price in units of the currency.
func (m *model) latest() map[string]map[string]*big.Int {
	res := map[string]map[string]*big.Int{}
	at := map[[2]string]string{}
	for _, p := range m.led.Prices {
		k := [2]string{p.Com, p.Cur}
		if at[k] != "" && at[k] > p.Day {
			continue
		}
		at[k] = p.Day
		if res[p.Com] == nil {
			res[p.Com] = map[string]*big.Int{}
		}
		res[p.Com][p.Cur] = cutLiteral(p.Val, m.dec[p.Cur])
	}
	return res
}

type conv int

const (
	convOK conv = iota
	convNone
	convAmbiguous
)

// convert gives u of from in to: by the direct price, otherwise along the only chain of prices.
func (m *model) convert(u *big.Int, from, to string) (*big.Int, conv) {
	if from == to {
		return u, convOK
	}
	prices := m.latest()
	step := func(u *big.Int, from, to string) *big.Int {
		v := new(big.Int).Mul(u, prices[from][to])
		return v.Quo(v, pow10big(m.dec[from]))
	}
	if prices[from][to] != nil {
		return step(u, from, to), convOK
	}
	var found []*big.Int
	var follow func(u *big.Int, at string, seen map[string]bool)
	follow = func(u *big.Int, at string, seen map[string]bool) {
		if at == to {
			found = append(found, u)
			return
		}
		seen[at] = true
		for next := range prices[at] {
			if !seen[next] {
				follow(step(u, at, next), next, seen)
			}
		}
		seen[at] = false
	}
	follow(u, from, map[string]bool{})
	switch len(found) {
	case 0:
		return nil, convNone
	case 1:
		return found[0], convOK
	}
	return nil, convAmbiguous
}

// adder sums amounts into a total of one commodity, noting what could not be converted.
type adder struct {
	m         *model
	fails     bool // an amount cannot be converted
	zeroFails bool // a zero amount cannot be converted
	ambiguous bool
	converted int
	cut       int
}

func (a *adder) add(total *big.Int, totalCom string, u *big.Int, com string) *big.Int {
	v, how := a.m.convert(u, com, totalCom)
	switch how {
	case convNone:
		if u.Sign() == 0 {
			a.zeroFails = true
		} else {
			a.fails = true
		}
		return total
	case convAmbiguous:
		a.ambiguous = true
		return total
	}
	if com != totalCom && u.Sign() != 0 {
		a.converted++
	}
	return new(big.Int).Add(total, v)
}

// loadDecides deals with ledgers whose load needs a price that is missing.
func (c *Ctx) loadDecides(d string, m *model) (bool, error) {
	switch {
	case m.load.ambiguous:
		c.Label("ambiguous-chain")
		return true, nil
	case m.load.fails:
		c.Label("load-no-price")
		for _, cmd := range [][]string{{"balance"}, {"stats"}, {"register", "Root"}} {
			o := c.Coin(d, cmd...)
			if o.Fault() || o.TimedOut {
				return true, viol("load without price: crashed: %s", o.Stderr)
			}
			if o.Code == 0 || strings.TrimSpace(o.Stderr) == "" {
				return true, viol("load without price: %v succeeds or says nothing\n%s%s", cmd, o.Stdout, o.Stderr)
			}
		}
		return true, nil
	case m.load.zeroFails:
		return true, nil
	}
	if m.load.converted > 0 {
		c.Label("load-converted")
	}
	return false, nil
}
