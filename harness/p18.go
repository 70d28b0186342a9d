package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
)

type c18Case struct {
	Begin, End string // empty for the default
	Split      string // -y, -m or both
	Balances   bool
	Rnd        int
}

func c18Gen(t *rapid.T) (in c18Case) {
	b := genDay(t, day("2018/11/20"), pick(t, "bspan", 40, 900, 3000))
	if !chance(t, "nobegin", 8) {
		in.Begin = b
	}
	if !chance(t, "noend", 12) {
		n := num(t, "len", 0, pick(t, "max", 0, 7, 40, 100, 400, 1000))
		if chance(t, "empty", 20) {
			n = -3
		}
		in.End = day(b).AddDate(0, 0, n).Format(dateFmt)
	} else if in.Begin != "" { // until today
		in.Begin = time.Now().UTC().AddDate(0, 0, -num(t, "ago", 2, 400)).Format(dateFmt)
	}
	in.Split = pick(t, "split", "", "-y", "-m", "-y -m", "-m")
	in.Balances = rapid.Bool().Draw(t, "wb")
	in.Rnd = num(t, "rnd", 1, 1<<30)
	return in
}

func (c *Ctx) gen2coin(rnd int, cwd, db string, args ...string) *Out {
	exe := filepath.Join(c.bin, "gen2coin-seeded")
	if _, err := os.Stat(exe); err != nil {
		exe = filepath.Join(c.bin, "gen2coin")
	}
	return c.runExe(cwd, []string{"COINDB=" + db, "VERIF_RND=" + strconv.Itoa(rnd), "GODEBUG=randautoseed=0"}, nil, exe, args...)
}

func (c *Ctx) seeded() bool {
	_, err := os.Stat(filepath.Join(c.bin, "gen2coin-seeded"))
	return err == nil
}

func fKey(x *fTx) string {
	s := fmt.Sprintf("%s (%s) %q %q", x.Day, x.Code, x.Desc, x.Notes)
	for _, p := range x.Posts {
		s += fmt.Sprintf(" | %s %s %s %q", p.Acc, p.Amt, p.Com, p.Notes)
	}
	return s
}

func fKeys(xs []*fTx) (keys []string) {
	for _, x := range xs {
		keys = append(keys, fKey(x))
	}
	return keys
}

// units of an amount as it is written, with its decimals
func units(s string) (*big.Int, int, error) {
	w, f, _ := strings.Cut(s, ".")
	n, ok := new(big.Int).SetString(w+f, 10)
	if !ok {
		return nil, 0, viol("not an amount: %q", s)
	}
	return n, len(f), nil
}

// c18Txs checks generated transactions by themselves.
func c18Txs(txs []*fTx, begin, end string) error {
	for i, x := range txs {
		if x.Day < begin || x.Day > end {
			return viol("range: transaction of %s is not within %s - %s", x.Day, begin, end)
		}
		if i > 0 && x.Day < txs[i-1].Day {
			return viol("order: transaction of %s after %s", x.Day, txs[i-1].Day)
		}
		if len(x.Posts) < 2 {
			return viol("balance: transaction with %d postings", len(x.Posts))
		}
		sums := map[string]*big.Int{}
		for _, p := range x.Posts {
			u, _, err := units(p.Amt)
			if err != nil {
				return err
			}
			if sums[p.Com] == nil {
				sums[p.Com] = new(big.Int)
			}
			sums[p.Com].Add(sums[p.Com], u)
		}
		for com, s := range sums {
			if s.Sign() != 0 {
				return viol("balance: transaction off by %v %s: %s", s, com, fKey(x))
			}
		}
	}
	return nil
}

func c18Check(c *Ctx, in c18Case) error {
	d := c.Dir()
	args := []string{}
	now := time.Now().UTC()
	begin, end := in.Begin, in.End
	if in.End == "" {
		end = now.AddDate(0, 0, 1).Format(dateFmt)
	} else {
		args = append(args, "-e", in.End)
	}
	if in.Begin == "" {
		e := now
		if in.End != "" {
			e = day(in.End)
		}
		begin = e.AddDate(0, -3, 0).Format(dateFmt)
	} else {
		args = append(args, "-b", in.Begin)
	}
	if in.Balances {
		args = append(args, "-wb")
	}
	// to stdout
	o := c.gen2coin(in.Rnd, d, "", args...)
	if err := mustOK(o, "gen2coin %v", args); err != nil {
		return err
	}
	plain, err := readFormatted(o.Stdout)
	if err != nil {
		return err
	}
	if err := c18Txs(plain, begin, end); err != nil {
		return err
	}
	if long := day(end).Sub(day(begin)) > 62*24*time.Hour; long && len(plain) == 0 {
		return viol("nothing generated for %s - %s", begin, end)
	}
	accs := map[string]bool{}
	for _, x := range plain {
		for _, p := range x.Posts {
			accs[p.Acc] = true
		}
	}
	var b strings.Builder
	b.WriteString("commodity CAD\n  default\n  format 1.00 CAD\n\n")
	for a := range accs {
		b.WriteString("account " + a + "\n\n")
	}
	writeFile(d+"/one/accounts.coin", "")
	writeFile(d+"/one/commodities.coin", b.String())
	writeFile(d+"/one/x.coin", o.Stdout)
	loads := func(db string) (string, error) {
		o := c.Coin(db, "stats")
		if err := mustOK(o, "loading the generated ledger"); err != nil {
			return "", err
		}
		if o.Stderr != "" {
			return "", viol("load: %s", o.Stderr)
		}
		n := -1
		for _, l := range lines(o.Stdout) {
			fmt.Sscanf(l, "Transactions: %d", &n)
		}
		if n != len(plain) && c.seeded() {
			return "", viol("load: %q, want %d transactions", o.Stdout, len(plain))
		}
		return o.Stdout, nil
	}
	if _, err := loads(d + "/one"); err != nil {
		return err
	}
	// to files
	db := filepath.Join(d, "db")
	infraIf(os.MkdirAll(db, 0o755))
	fargs := append(append(append([]string(nil), args...), strings.Fields(in.Split)...), db)
	o = c.gen2coin(in.Rnd, d, "", fargs...)
	if err := mustOK(o, "gen2coin %v", fargs); err != nil {
		return err
	}
	if o.Stdout != "" {
		return viol("output while writing files: %q", o.Stdout)
	}
	es, err := os.ReadDir(db)
	infraIf(err)
	var all []*fTx
	for _, e := range es { // in the order of their names
		if e.Name() == "commodities.coin" || e.Name() == "accounts.coin" {
			continue
		}
		s, err := os.ReadFile(filepath.Join(db, e.Name()))
		infraIf(err)
		txs, err := readFormatted(string(s))
		if err != nil {
			return err
		}
		for _, x := range txs {
			want := "transactions.coin"
			switch {
			case strings.Contains(in.Split, "-m"):
				want = strings.ReplaceAll(x.Day[:7], "/", "-") + ".coin"
			case in.Split == "-y":
				want = x.Day[:4] + ".coin"
			}
			if want != e.Name() {
				return viol("file: transaction of %s in %s", x.Day, e.Name())
			}
		}
		all = append(all, txs...)
	}
	if err := c18Txs(all, begin, end); err != nil {
		return err
	}
	if c.seeded() {
		if got, want := fKeys(all), fKeys(plain); strings.Join(got, "\n") != strings.Join(want, "\n") {
			return viol("split %q: %s", in.Split, firstDiff(got, want))
		}
	}
	if _, err := loads(db); err != nil {
		return err
	}
	// as JSON
	jargs := append(append([]string(nil), args...), "-j")
	o = c.gen2coin(in.Rnd, d, "", jargs...)
	if err := mustOK(o, "gen2coin %v", jargs); err != nil {
		return err
	}
	var js []struct {
		Description, Posted string
		Postings            []struct{ Account, Balance, Quantity string }
	}
	if err := json.Unmarshal([]byte(o.Stdout), &js); err != nil {
		return viol("json: %v", err)
	}
	var jtx []*fTx
	run := map[string]*big.Int{}
	for _, j := range js {
		x := &fTx{Day: j.Posted, Desc: j.Description}
		for _, p := range j.Postings {
			amt, com, _ := strings.Cut(p.Quantity, " ")
			x.Posts = append(x.Posts, &fPost{Acc: p.Account, Amt: amt, Com: com})
			u, dec, err := units(amt)
			if err != nil {
				return err
			}
			if run[p.Account] == nil {
				run[p.Account] = new(big.Int)
			}
			run[p.Account].Add(run[p.Account], u)
			want := ""
			if in.Balances {
				want = show(run[p.Account], dec) + " " + com
			}
			if p.Balance != want && (in.Balances || p.Balance != "") {
				return viol("balances: %s of %s %s is %q, want %q", j.Posted, p.Account, p.Quantity, p.Balance, want)
			}
		}
		jtx = append(jtx, x)
	}
	if err := c18Txs(jtx, begin, end); err != nil {
		return err
	}
	if c.seeded() {
		if got, want := fKeys(jtx), fKeys(plain); strings.Join(got, "\n") != strings.Join(want, "\n") {
			return viol("json: %s", firstDiff(got, want))
		}
	} else {
		c.Label("not seeded")
	}
	c.NonTrivial(len(plain) > 5)
	if in.Split != "" && len(es) > 3 {
		c.Label("several files")
	}
	if len(plain) > 100 {
		c.Label("over 100 transactions")
	}
	return nil
}

// ---- schedules ----

type c18Sched struct {
	Monthly         bool
	Count, Interval int
	Days            []int
	Begin, End      string
}

type c18Scheds struct {
	S   []c18Sched
	Rnd int
}

func c18SchedGen(t *rapid.T) (in c18Scheds) {
	in.Rnd = num(t, "rnd", 1, 1<<30)
	for n := num(t, "n", 1, 12); n > 0; n-- {
		s := c18Sched{Monthly: rapid.Bool().Draw(t, "monthly"), Count: num(t, "count", 0, 6), Interval: num(t, "interval", 0, 4)}
		if s.Monthly {
			s.Days = rapid.SliceOfNDistinct(rapid.SampledFrom([]int{1, 2, 3, 10, 15, 28, 29, 30, 31, 0, 32, -1, -2, -3, -15, -28, -29, -30, -31, -32}), 0, 5, rapid.ID[int]).Draw(t, "days")
		} else {
			s.Days = rapid.SliceOfNDistinct(rapid.IntRange(0, 6), 0, 5, rapid.ID[int]).Draw(t, "days")
		}
		s.Begin = genDay(t, day("2019/11/20"), pick(t, "span", 10, 400, 5000))
		s.End = day(s.Begin).AddDate(0, 0, num(t, "len", -1, pick(t, "max", 0, 7, 31, 100, 800))).Format(dateFmt)
		in.S = append(in.S, s)
	}
	return in
}

// periods are the allowed days of each week or month of the schedule which has days in the range.
func (s *c18Sched) periods() (all [][]time.Time) {
	begin, end := day(s.Begin), day(s.End)
	step := max(s.Interval, 1)
	if s.Monthly {
		for m := time.Date(begin.Year(), begin.Month(), 1, 0, 0, 0, 0, time.UTC); !m.After(end); m = m.AddDate(0, step, 0) {
			last := m.AddDate(0, 1, -1).Day()
			ok := map[int]bool{}
			for _, d := range s.Days {
				if d < 0 {
					d += last + 1
				}
				ok[d] = true
			}
			var ds []time.Time
			for d := 1; d <= last; d++ {
				if ok[d] || len(s.Days) == 0 {
					ds = append(ds, m.AddDate(0, 0, d-1))
				}
			}
			all = append(all, ds)
		}
		return all
	}
	for w := begin.AddDate(0, 0, -int(begin.Weekday())); !w.After(end); w = w.AddDate(0, 0, 7*step) {
		var ds []time.Time
		for d := 0; d < 7; d++ {
			for _, x := range s.Days {
				if x == d {
					ds = append(ds, w.AddDate(0, 0, d))
				}
			}
			if len(s.Days) == 0 {
				ds = append(ds, w.AddDate(0, 0, d))
			}
		}
		all = append(all, ds)
	}
	return all
}

func c18SchedCheck(c *Ctx, in c18Scheds) error {
	if !c.seeded() {
		c.Label("schedules not reachable")
		return nil
	}
	b, err := json.Marshal(in.S)
	infraIf(err)
	o := c.runExe(c.Dir(), []string{"VERIF_DATES=1", "VERIF_RND=" + strconv.Itoa(in.Rnd)}, b, filepath.Join(c.bin, "gen2coin-seeded"))
	if err := mustOK(o, "schedule"); err != nil {
		return err
	}
	var out [][]string
	infraIf(json.Unmarshal([]byte(o.Stdout), &out))
	for i, s := range in.S {
		what := fmt.Sprintf("schedule %+v", s)
		got := out[i]
		if !sort.StringsAreSorted(got) {
			return viol("order: %s gives %v", what, got)
		}
		where := map[string]int{}
		for i, d := range got {
			if i > 0 && d == got[i-1] {
				return viol("repeated: %s gives %s twice", what, d)
			}
			if d < s.Begin || d > s.End {
				return viol("range: %s gives %s", what, d)
			}
			where[d] = -1
		}
		periods := s.periods()
		for i, ds := range periods {
			n, in := 0, 0
			for _, d := range ds {
				f := d.Format(dateFmt)
				if f >= s.Begin && f <= s.End {
					in++
				}
				if _, ok := where[f]; ok {
					where[f] = i
					n++
				}
			}
			listed := len(s.Days)
			if listed == 0 {
				listed = len(ds)
			}
			if s.Count >= listed && n != in {
				return viol("missing: %s gives %v, %d of %d days of %v", what, got, n, in, ds)
			}
			if n > s.Count && s.Count < listed {
				return viol("count: %s gives %v, %d days of %v", what, got, n, ds)
			}
			if s.Count < listed && len(ds) == listed && in == listed && n != s.Count {
				return viol("count: %s gives %v, %d days of %v", what, got, n, ds)
			}
		}
		for d, i := range where {
			if i < 0 {
				return viol("allowed: %s gives %s", what, d)
			}
		}
		if len(got) > 3 {
			c.NonTrivial(true)
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C18",
		Rule: "generate: a range (given or default), file split, balances and start of the random numbers; the same ledger generated to stdout, files and JSON and loaded; non-trivial with over 5 transactions. " +
			"schedules: up to 12 weekly or monthly schedules (count, interval, days counted from either end, begin, end); non-trivial when one has over 3 dates",
		Subs: []Sub{
			sub("generate", 3000, 40000, c18Gen, c18Check),
			sub("schedules", 3000, 60000, c18SchedGen, c18SchedCheck),
		},
	})
}
