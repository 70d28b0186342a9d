package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"time"

	"github.com/mkobetic/coin"
	"pgregory.net/rapid"
)

// own calendar: days since 1970/01/01 (civil from days and back)
func daysOf(y, m, d int) int {
	if m <= 2 {
		y--
	}
	era := y / 400
	yoe := y - era*400
	mp := (m + 9) % 12
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

func civilOf(z int) (y, m, d int) {
	z += 719468
	era := z / 146097
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = doy - (153*mp+2)/5 + 1
	m = mp + 3
	if m > 12 {
		m -= 12
	}
	if m <= 2 {
		y++
	}
	return
}

func monthDays(y, m int) int {
	switch m {
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// A dateSpec is a date as it may be written, and the day it means relative to today.
type dateSpec struct {
	Year  string // "", two or four digits
	Month string // as written
	Day   string
	Off   string // [+-]N[dwmy]
}

func (s dateSpec) String() string {
	var parts []string
	for _, p := range []string{s.Year, s.Month, s.Day} {
		if p != "" {
			parts = append(parts, p)
		}
	}
	return strings.Join(parts, "/") + s.Off
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

func atoi(s string) (n int) {
	for _, c := range s {
		n = n*10 + int(c-'0')
	}
	return n
}

// days gives the days the date may stand for; none: it does not exist; known false: not specified.
func (s dateSpec) days(today int) (res []int, known bool) {
	ty, _, _ := civilOf(today)
	var bases []int
	switch {
	case s.Year == "" && s.Month == "":
		bases = []int{today}
	default:
		m, d := 1, 1
		if s.Month != "" {
			m = atoi(s.Month)
		}
		if s.Day != "" {
			d = atoi(s.Day)
		}
		if m < 1 || m > 12 || d < 1 {
			return nil, true
		}
		var years []int
		switch len(s.Year) {
		case 4:
			years = []int{atoi(s.Year)}
		case 2:
			best := 1 << 30
			for y := ty%100*0 + atoi(s.Year); y < 2300; y += 100 {
				switch dist := abs(y - ty); {
				case dist < best:
					best, years = dist, []int{y}
				case dist == best:
					years = append(years, y)
				}
			}
		default:
			best := 1 << 30
			for y := ty - 9; y <= ty+9; y++ {
				if d > monthDays(y, m) {
					continue
				}
				switch dist := abs(daysOf(y, m, d) - today); {
				case dist < best:
					best, years = dist, []int{y}
				case dist == best:
					years = append(years, y)
				}
			}
		}
		for _, y := range years {
			if d <= monthDays(y, m) {
				bases = append(bases, daysOf(y, m, d))
			} else if len(years) > 1 {
				return nil, false
			}
		}
		if len(bases) == 0 {
			return nil, true
		}
	}
	if s.Off == "" {
		return bases, true
	}
	n := atoi(s.Off[1 : len(s.Off)-1])
	if s.Off[0] == '-' {
		n = -n
	}
	for _, b := range bases {
		y, m, d := civilOf(b)
		switch s.Off[len(s.Off)-1] {
		case 'd':
			b += n
		case 'w':
			b += 7 * n
		case 'm':
			k := y*12 + m - 1 + n
			y, m = k/12, k%12+1
			if last := monthDays(y, m); d > last {
				// no such day: whether the last day of the month or the excess days into the next one is meant is not documented
				res = append(res, daysOf(y, m, last))
			}
			b = daysOf(y, m, 1) + d - 1
		case 'y':
			y += n
			if last := monthDays(y, m); d > last {
				res = append(res, daysOf(y, m, last))
			}
			b = daysOf(y, m, 1) + d - 1
		}
		res = append(res, b)
	}
	return res, true
}

func dayString(z int) string {
	y, m, d := civilOf(z)
	return fmt.Sprintf("%04d/%02d/%02d", y, m, d)
}

func genDateSpec(t *rapid.T, today int) dateSpec {
	ty, _, _ := civilOf(today)
	var s dateSpec
	pad := func(n int) string {
		if rapid.Bool().Draw(t, "pad") {
			return fmt.Sprintf("%02d", n)
		}
		return fmt.Sprint(n)
	}
	md := func() {
		if chance(t, "near", 3) { // around today or half a year from it
			_, m, d := civilOf(today + pick(t, "off", -183, -182, -184, 182, 183, 184, 0, 1, -1, 365))
			s.Month, s.Day = pad(m), pad(d)
			return
		}
		s.Month = pad(num(t, "month", 1, 12))
		s.Day = pad(pick(t, "day", 1, 2, 10, 15, 28, 29, 30, 31))
		if chance(t, "badmd", 12) {
			s.Month = pick(t, "badm", "0", "00", "13", "19", "12")
			s.Day = pick(t, "badd", "0", "00", "32", "40", "31")
		}
		if chance(t, "leap", 8) {
			s.Month, s.Day = pick(t, "lm", "2", "02"), "29"
		}
	}
	switch num(t, "kind", 0, 6) {
	case 0:
		md()
		s.Year = fmt.Sprintf("%04d", num(t, "year", 1900, 2100))
	case 1:
		md()
		s.Year = fmt.Sprintf("%02d", (ty+num(t, "yoff", -52, 52)+200)%100)
	case 2, 3:
		md()
	case 4:
		s.Year = fmt.Sprintf("%04d", num(t, "year", 1900, 2100))
	case 5:
		s.Year = fmt.Sprintf("%04d", num(t, "year", 1900, 2100))
		s.Month = pad(num(t, "month", 0, 13))
	}
	if s.Year == "" && s.Month == "" || chance(t, "offset", 3) {
		s.Off = pick(t, "sign", "+", "-") + fmt.Sprint(pick(t, "n", 0, 1, 2, 7, 11, 12, 13, 30, 100)) + pick(t, "unit", "d", "w", "m", "y")
	}
	return s
}

type c12Parse struct {
	Today string
	Spec  dateSpec
}

func genToday(t *rapid.T) int {
	y := num(t, "ty", 1951, 2060)
	switch num(t, "tkind", 0, 5) {
	case 0:
		return daysOf(y, 1, 1) + num(t, "toff", -2, 2)
	case 1:
		return daysOf(y, 3, 1) + num(t, "toff", -3, 2)
	case 2:
		return daysOf(y, 7, 1) + num(t, "toff", -3, 3)
	}
	return daysOf(y, 1, 1) + num(t, "tday", 0, 365)
}

func c12GenParse(t *rapid.T) c12Parse {
	today := genToday(t)
	return c12Parse{dayString(today), genDateSpec(t, today)}
}

func oneOf(got string, days []int) bool {
	for _, d := range days {
		if dayString(d) == got {
			return true
		}
	}
	return false
}

func list(days []int) (s []string) {
	for _, d := range days {
		s = append(s, dayString(d))
	}
	return s
}

func (c *Ctx) labelSpec(s dateSpec, days []int) {
	c.NonTrivial(s.Off != "" || len(s.Year) < 4 || len(days) == 0)
	switch {
	case len(days) == 0:
		c.Label("not-a-date")
	case s.Year == "" && s.Month == "":
		c.Label("offset-only")
	case s.Year == "":
		c.Label("no-year")
	case len(s.Year) == 2:
		c.Label("two-digit-year")
	case s.Month == "":
		c.Label("year-only")
	case s.Day == "":
		c.Label("year-month")
	default:
		c.Label("full")
	}
	if s.Off != "" {
		c.Label("offset-%c", s.Off[len(s.Off)-1])
	}
}

func c12CheckParse(c *Ctx, in c12Parse) error {
	td := day(in.Today)
	today := daysOf(td.Year(), int(td.Month()), td.Day())
	days, known := in.Spec.days(today)
	if !known {
		c.Label("unspecified")
		return nil
	}
	c.labelSpec(in.Spec, days)
	s := in.Spec.String()
	var got string
	var err error
	var filePanic any
	var fileGot string
	coin.WithDate(in.Today, func() {
		if g := fmt.Sprintf("%04d/%02d/%02d", coin.Year, coin.Month, coin.Day); g != in.Today {
			err = fmt.Errorf("today %s is %s", in.Today, g)
			return
		}
		var d coin.Date
		err = d.Set(s)
		got = d.String()
		func() {
			defer func() { filePanic = recover() }()
			fileGot = coin.MustParseDate(s).Format(dateFmt)
		}()
	})
	if len(days) == 0 {
		if err == nil || filePanic == nil {
			return viol("no such date: %s on %s is taken for %s / %s", s, in.Today, got, fileGot)
		}
		return nil
	}
	if err != nil || filePanic != nil {
		return viol("date %s on %s refused: %v %v, want %v", s, in.Today, err, filePanic, list(days))
	}
	if !oneOf(got, days) || !oneOf(fileGot, days) {
		return viol("date %s on %s is %s as an option and %s in a file, want %v", s, in.Today, got, fileGot, list(days))
	}
	return nil
}

// Through the executables, with the real today.
type c12File struct {
	Specs  []dateSpec
	Option dateSpec
	Opt    string
}

func realToday() int {
	n := time.Now().UTC()
	return daysOf(n.Year(), int(n.Month()), n.Day())
}

func c12GenFile(t *rapid.T) c12File {
	var in c12File
	today := daysOf(2026, 11, 20) // only shapes the case; the meaning is relative to the day of the run
	for k := num(t, "n", 1, 4); k > 0; k-- {
		s := genDateSpec(t, today)
		if s.Year == "" && s.Month == "" {
			s.Year = "2021" // an entry starts with a digit
		}
		in.Specs = append(in.Specs, s)
	}
	in.Option = genDateSpec(t, today)
	in.Opt = pick(t, "opt", "b", "e")
	return in
}

func c12CheckFile(c *Ctx, in c12File) error {
	d := c.Dir()
	today := realToday()
	writeFile(filepath.Join(d, "commodities.coin"), "commodity CAD\n  format 1.00 CAD\n\ncommodity USD\n  format 1.00 USD\n")
	writeFile(filepath.Join(d, "accounts.coin"), "account A\n\naccount B\n")
	var b strings.Builder
	var want [][]int
	for i, s := range in.Specs {
		days, known := s.days(today)
		if !known || len(days) == 0 {
			continue
		}
		c.labelSpec(s, days)
		want = append(want, days)
		fmt.Fprintf(&b, "%s tx%d\n  A  1.00 CAD\n  B\n\n", s, len(want)-1)
		_ = i
	}
	fn := filepath.Join(d, "t.coin")
	writeFile(fn, b.String())
	o := c.Coin(d, "format", fn)
	prices := strings.Builder{}
	for i, s := range in.Specs {
		if days, known := s.days(today); known && len(days) > 0 {
			fmt.Fprintf(&prices, "P %s USD %d.00 CAD\n", s, i+1)
		}
	}
	writeFile(filepath.Join(d, "prices.coin"), prices.String())
	oc := c.Coin(d, "commodities", "USD")
	days, known := in.Option.days(today)
	// transactions around the day of the option
	var probe []string
	var or *Out
	if known {
		at := today
		if len(days) > 0 {
			at = days[0]
		}
		var b strings.Builder
		for off := -2; off <= 2; off++ {
			probe = append(probe, dayString(at+off))
			fmt.Fprintf(&b, "%s probe\n  A  1.00 CAD\n  B\n\n", dayString(at+off))
		}
		writeFile(fn, b.String())
		or = c.Coin(d, "register", "-"+in.Opt, in.Option.String(), "A")
	}
	if today != realToday() {
		return nil // midnight passed
	}
	if err := mustOK(o, "format of dates"); err != nil {
		return err
	}
	got := map[string]string{}
	for _, l := range lines(o.Stdout) {
		if f := strings.Fields(l); len(f) == 2 && strings.HasPrefix(f[1], "tx") {
			got[f[1]] = f[0]
		}
	}
	for i, days := range want {
		if !oneOf(got[fmt.Sprintf("tx%d", i)], days) {
			return viol("file: entry %d of\n%s\nwritten by format for day %q, want %v", i, b.String(), got[fmt.Sprintf("tx%d", i)], list(days))
		}
	}
	if err := mustOK(oc, "price list"); err != nil {
		return err
	}
	for i, s := range in.Specs {
		days, known := s.days(today)
		if !known || len(days) == 0 {
			continue
		}
		found := false
		for _, l := range lines(oc.Stdout) {
			f := strings.Fields(l)
			if len(f) == 3 && f[1] == fmt.Sprintf("%d.00", i+1) {
				found = oneOf(f[0], days)
			}
		}
		if !found {
			return viol("price dated %s is not on %v:\n%s", s, list(days), oc.Stdout)
		}
	}
	if !known {
		return nil
	}
	c.labelSpec(in.Option, days)
	if len(days) == 0 {
		if or.Code == 0 {
			return viol("option: -%s %s accepted:\n%s", in.Opt, in.Option, or.Stdout)
		}
		return nil
	}
	if err := mustOK(or, "option -"+in.Opt+" "+in.Option.String()); err != nil {
		return err
	}
	ok := false
	var wants []string
	for _, dd := range days {
		var w []string
		for _, p := range probe {
			if in.Opt == "b" && p >= dayString(dd) || in.Opt == "e" && p < dayString(dd) {
				w = append(w, p)
			}
		}
		var g []string
		for _, l := range lines(or.Stdout)[1:] {
			g = append(g, strings.Fields(l)[0])
		}
		wants = w
		ok = ok || strings.Join(w, " ") == strings.Join(g, " ")
	}
	if !ok {
		return viol("option: -%s %s on %s selects\n%s\nwant %v", in.Opt, in.Option, dayString(today), or.Stdout, wants)
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C12",
		Rule: "a case is a date in every documented form (four, two digit and no year, month and day padded or not, impossible ones, offsets of days, weeks, months, years, offset only) and " +
			"a today (in-process, 1951-2060 with year, leap day and half-year boundaries; the real one through the executables, as transaction date, price date, -b and -e); " +
			"non-trivial when the date has an offset, no four-digit year, or does not exist",
		Subs: []Sub{
			sub("parse", 60000, 2000000, c12GenParse, c12CheckParse),
			sub("commands", 4000, 40000, c12GenFile, c12CheckFile),
		},
	})
}
