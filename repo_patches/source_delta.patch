From 7a0d8cb5fcd64ad3cd91648a0b576db1ae499734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 01/83] fix: cut negative amounts toward zero like positive
 ones

---
 amount.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amount.go b/amount.go
index d07feb6..d9f422e 100644
--- a/amount.go
+++ b/amount.go
@@ -23,7 +23,7 @@ func NewAmountFrac(num, den *big.Int, c *Commodity) *Amount {
 	if c.Decimals > 0 {
 		b.Mul(b, bigPow10(c.Decimals))
 	}
-	b.Div(b, den)
+	b.Quo(b, den)
 	return NewAmount(b, c)
 }
 
@@ -97,7 +97,7 @@ func parseAmount(s string, c *Commodity) (*Amount, error) {
 	decimals := len(ss[1])
 	if c.Decimals != decimals {
 		bi.Mul(bi, bigPow10(c.Decimals))
-		bi.Div(bi, bigPow10(decimals))
+		bi.Quo(bi, bigPow10(decimals))
 	}
 	return NewAmount(bi, c), nil
 }
-- 
2.43.0


From b4d1ce559e16bd1bede0e1125cb47dc021026078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 02/83] fix: read amounts of any size, so that printed amounts
 can be read back

---
 amount.go | 15 ++++++++++-----
 pow10.go  |  5 ++++-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/amount.go b/amount.go
index d9f422e..b9c9350 100644
--- a/amount.go
+++ b/amount.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"io"
 	"math/big"
-	"strconv"
 	"strings"
 
 	"github.com/mkobetic/coin/rex"
@@ -72,14 +71,21 @@ func (a *Amount) Format(f fmt.State, c rune) {
 	}
 }
 
+func parseBigInt(s string) (*big.Int, error) {
+	bi, ok := new(big.Int).SetString(s, 10)
+	if !ok {
+		return nil, fmt.Errorf("malformed value %s", s)
+	}
+	return bi, nil
+}
+
 func parseAmount(s string, c *Commodity) (*Amount, error) {
 	ss := strings.Split(s, ".")
 	if len(ss) == 1 {
-		i, err := strconv.ParseInt(ss[0], 10, 64)
+		bi, err := parseBigInt(ss[0])
 		if err != nil {
 			return nil, err
 		}
-		bi := big.NewInt(i)
 		if c.Decimals > 0 {
 			bi.Mul(bi, bigPow10(c.Decimals))
 		}
@@ -89,11 +95,10 @@ func parseAmount(s string, c *Commodity) (*Amount, error) {
 		return nil, fmt.Errorf("malformed value %s", s)
 	}
 	s = strings.Join(ss, "")
-	i, err := strconv.ParseInt(s, 10, 64)
+	bi, err := parseBigInt(s)
 	if err != nil {
 		return nil, err
 	}
-	bi := big.NewInt(i)
 	decimals := len(ss[1])
 	if c.Decimals != decimals {
 		bi.Mul(bi, bigPow10(c.Decimals))
diff --git a/pow10.go b/pow10.go
index 155aada..0e19e08 100644
--- a/pow10.go
+++ b/pow10.go
@@ -62,12 +62,15 @@ func bigLog10(bi *big.Int) int {
 			return i
 		}
 	}
-	panic("number too big")
+	return len(new(big.Int).Abs(bi).String()) - 1
 }
 
 func bigPow10(i int) *big.Int {
 	if i < 1 {
 		return big1
 	}
+	if i > len(bigPow10s) {
+		return new(big.Int).Exp(big10, big.NewInt(int64(i)), nil)
+	}
 	return bigPow10s[i-1]
 }
-- 
2.43.0


From 6ed1022c3a184c2a824788634d3b43fceac6bb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 03/83] fix: recognise one-character tag values and values
 before a comma

---
 tags.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tags.go b/tags.go
index 00f9d90..351cae9 100644
--- a/tags.go
+++ b/tags.go
@@ -6,7 +6,7 @@ import (
 	"strings"
 )
 
-var tagREX = regexp.MustCompile(`#(?P<key>[\w-/]+)(:\s*(?P<value>[^,]+\S)\s*(,|$))?`)
+var tagREX = regexp.MustCompile(`#(?P<key>[\w-/]+)(:\s*(?P<value>[^,\s]([^,]*[^,\s])?)\s*(,|$))?`)
 var tagREXKey = tagREX.SubexpIndex("key")
 var tagREXValue = tagREX.SubexpIndex("value")
 
-- 
2.43.0


From a15db766307a7f3a94879697f56a3eadf6d28d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 04/83] fix: FindEqual returns the transaction found, not the
 one asked for

---
 transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction.go b/transaction.go
index c9d187b..27f5ab9 100644
--- a/transaction.go
+++ b/transaction.go
@@ -53,7 +53,7 @@ func (transactions TransactionsByTime) Less(i, j int) bool {
 func (transactions TransactionsByTime) FindEqual(t *Transaction) *Transaction {
 	for _, t2 := range transactions {
 		if t2.IsEqual(t) {
-			return t
+			return t2
 		}
 	}
 	return nil
-- 
2.43.0


From 594de2db949d85db9e2168e7db05021af28e249c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 05/83] fix: a converted amount is in the target commodity and
 its precision

---
 commodity.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commodity.go b/commodity.go
index 4bfa017..7f8f0d6 100644
--- a/commodity.go
+++ b/commodity.go
@@ -203,7 +203,7 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 	prices := c2.Prices[c]
 	if prices != nil {
 		p := prices[0]
-		val := amount.Times(p.Value)
+		val := p.Value.Times(amount)
 		return val, nil
 	}
 	// Otherwise try to follow each c2 price currency
@@ -213,7 +213,7 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 			continue
 		}
 		p := prices[0]
-		val2 := amount.Times(p.Value)
+		val2 := p.Value.Times(amount)
 		val3, err := c.convert(val2, c3, append(previous, c2))
 		if err == nil {
 			return val3, nil
-- 
2.43.0


From a0ce6bfaa51bf4539bc4ec03e6268bd16cadeeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 06/83] fix: go through the currencies of a commodity in the
 order of their names

---
 cmd/coin/commodities.go | 4 ++--
 commodity.go            | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/cmd/coin/commodities.go b/cmd/coin/commodities.go
index dbd4c54..66760b9 100644
--- a/cmd/coin/commodities.go
+++ b/cmd/coin/commodities.go
@@ -54,8 +54,8 @@ func (cmd *cmdCommodities) execute(f io.Writer) {
 			fmt.Fprintf(os.Stderr, "%s: unknown commodity\n", cmd.Arg(0))
 			return
 		}
-		for _, ps := range commodity.Prices {
-			for _, p := range ps {
+		for _, cur := range commodity.Currencies() {
+			for _, p := range commodity.Prices[cur] {
 				if cmd.location {
 					fmt.Fprintf(f, "%s %s %s %s\n", p.Time.Format(coin.DateFormat), p.Value.String(), p.Value.SafeId(false), p.Location())
 				} else {
diff --git a/commodity.go b/commodity.go
index 7f8f0d6..5d69f17 100644
--- a/commodity.go
+++ b/commodity.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"math/big"
+	"sort"
 	"strconv"
 	"strings"
 	"unicode"
@@ -48,6 +49,7 @@ func (c *Commodity) Currencies() (currencies []*Commodity) {
 	for cur := range c.Prices {
 		currencies = append(currencies, cur)
 	}
+	sort.Slice(currencies, func(i, j int) bool { return currencies[i].Id < currencies[j].Id })
 	return currencies
 }
 
@@ -80,7 +82,8 @@ func (c *Commodity) String() string {
 		return c.Id
 	}
 	var prices []string
-	for c, p := range c.Prices {
+	for _, cur := range c.Currencies() {
+		c, p := cur, c.Prices[cur]
 		format := "%s %a %s [%d]"
 		if c.Decimals > 0 {
 			format = "%s %." + strconv.Itoa(c.Decimals) + "a %s [%d]"
@@ -207,12 +210,12 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 		return val, nil
 	}
 	// Otherwise try to follow each c2 price currency
-	for c3, prices := range c2.Prices {
+	for _, c3 := range c2.Currencies() {
 		// Check if we tried this currency before to avoid cycles
 		if c3.includedIn(previous) {
 			continue
 		}
-		p := prices[0]
+		p := c2.Prices[c3][0]
 		val2 := p.Value.Times(amount)
 		val3, err := c.convert(val2, c3, append(previous, c2))
 		if err == nil {
-- 
2.43.0


From d19e79f70154101b92b9aac54f7f13700518c930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 07/83] fix: refuse account patterns matching several unrelated
 accounts

---
 coin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coin.go b/coin.go
index fba2d21..bd362c2 100644
--- a/coin.go
+++ b/coin.go
@@ -293,10 +293,10 @@ func MustFindAccount(pattern string) *Account {
 	if len(as) == 1 {
 		return as[0]
 	}
-	parent := as[0].FullName
+	parent := as[0].FullName + ":"
 	all := true
 	for _, a := range as[1:] {
-		if all = all && strings.HasPrefix(a.FullName, parent); all {
+		if all = strings.HasPrefix(a.FullName, parent); !all {
 			break
 		}
 	}
-- 
2.43.0


From 72961edf3fc2331671985c2954c88782fdb66ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 08/83] fix: refuse transaction and posting lines that are not
 understood in full

The expressions were not anchored: anything after the part that matched was dropped
and an amount that was not understood was taken for an omitted one.
---
 transaction.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/transaction.go b/transaction.go
index 27f5ab9..11398fb 100644
--- a/transaction.go
+++ b/transaction.go
@@ -117,11 +117,14 @@ func (t *Transaction) Write(w io.Writer, ledger bool) error {
 	return nil
 }
 
-var transactionREX = rex.MustCompile(`%s(\s+\((?P<code>\w+)\))?(\s+(?P<description>\S[^;]*))?(; ?(?P<shortNote>.*))?`, DateREX)
+var transactionREX = rex.MustCompile(`^%s(\s+\((?P<code>\w+)\))?(\s+(?P<description>[^\s;][^;]*))?\s*(; ?(?P<shortNote>.*))?$`, DateREX)
+
+// account path of a posting can be shortened, with :: matching any number of path elements
+var postingAccountREX = rex.MustCompile(`(?P<account>%s(::?%s)*)`, accountNameREX, accountNameREX)
 var postingREX = rex.MustCompile(``+
-	`\s+%s(\s+%s(\s+=\s+%s)?)?(\s*; ?(?P<shortNote>.*))?|`+
-	`\s+; ?(?P<note>.*)`,
-	AccountREX, AmountREX, AmountREX)
+	`^\s+%s(\s+%s(\s+=\s+%s)?)?\s*(; ?(?P<shortNote>.*))?$|`+
+	`^\s+; ?(?P<note>.*)$`,
+	postingAccountREX, AmountREX, AmountREX)
 
 func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 	match := transactionREX.Match(p.Bytes())
-- 
2.43.0


From 3d5b8141401c87fab6f013db1854e317dc64c190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 09/83] fix: read empty notes and notes of transactions without
 postings, keep the blanks of all notes alike

Blanks at the start of a note were dropped on the first line of an entry and kept on the
others, so that formatting twice could give another result than formatting once.
---
 transaction.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/transaction.go b/transaction.go
index 11398fb..57f9e46 100644
--- a/transaction.go
+++ b/transaction.go
@@ -138,7 +138,7 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 		line:        p.lineNr,
 		file:        fn,
 	}
-	if n := strings.TrimLeft(match["shortNote"], " \t"); len(n) > 0 {
+	if n := match["shortNote"]; len(strings.TrimSpace(n)) > 0 {
 		t.Notes = []string{n}
 	}
 	var notes []string
@@ -148,8 +148,10 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 		if match == nil {
 			break
 		}
-		if note := match["note"]; len(note) > 0 {
-			notes = append(notes, string(note))
+		if match["account"] == "" {
+			if note := match["note"]; len(strings.TrimSpace(note)) > 0 {
+				notes = append(notes, note)
+			}
 			continue
 		}
 		var quantity *Amount
@@ -174,7 +176,7 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 			accountName: match["account"],
 			Quantity:    quantity,
 		}
-		if n := strings.TrimLeft(match["shortNote"], " \t"); len(n) > 0 {
+		if n := match["shortNote"]; len(strings.TrimSpace(n)) > 0 {
 			s.Notes = []string{n}
 		}
 		if balance := match["amount2"]; len(balance) > 0 {
@@ -188,7 +190,11 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 		t.Postings = append(t.Postings, s)
 	}
 	if len(notes) > 0 {
-		s.Notes = append(s.Notes, notes...)
+		if s == nil {
+			t.Notes = append(t.Notes, notes...)
+		} else {
+			s.Notes = append(s.Notes, notes...)
+		}
 	}
 	t.Tags = ParseTags(t.Notes...)
 	for _, p := range t.Postings {
-- 
2.43.0


From 3de1be027bc8d1f0c88fb177a35ad5150b24ef32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 10/83] fix: refuse include, test and commodity lines without
 an argument

---
 commodity.go | 3 +++
 include.go   | 3 +++
 test.go      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/commodity.go b/commodity.go
index 5d69f17..1333206 100644
--- a/commodity.go
+++ b/commodity.go
@@ -150,6 +150,9 @@ var commodityBodyREX = rex.MustCompile(``+
 func (p *Parser) parseCommodity(fn string) (*Commodity, error) {
 	c := &Commodity{Decimals: 2, line: p.lineNr, file: fn}
 	match := commodityHeadREX.Match(p.Bytes())
+	if match == nil {
+		return nil, fmt.Errorf("invalid commodity line: %s", p.Text())
+	}
 	c.Id = match["commodity"]
 	for p.Scan() {
 		line := p.Bytes()
diff --git a/include.go b/include.go
index 054b376..b63dfac 100644
--- a/include.go
+++ b/include.go
@@ -25,6 +25,9 @@ var includeHead = regexp.MustCompile(`include\s+(.+)`)
 
 func (p *Parser) parseInclude(fn string) (*Include, error) {
 	matches := includeHead.FindSubmatch(p.Bytes())
+	if matches == nil {
+		return nil, fmt.Errorf("invalid include line: %s", p.Text())
+	}
 	i := &Include{Path: string(matches[1]), line: p.lineNr, file: fn}
 	p.Scan()
 	return i, nil
diff --git a/test.go b/test.go
index 2a5d88e..2e0f498 100644
--- a/test.go
+++ b/test.go
@@ -18,6 +18,9 @@ var testHead = regexp.MustCompile(`test\s+(.+)`)
 
 func (p *Parser) parseTest(fn string) (*Test, error) {
 	matches := testHead.FindSubmatch(p.Bytes())
+	if matches == nil {
+		return nil, fmt.Errorf("invalid test line: %s", p.Text())
+	}
 	t := &Test{Cmd: string(matches[1]), line: p.lineNr, file: fn}
 	var b bytes.Buffer
 	for p.Scan() {
-- 
2.43.0


From b29ade5f0cb589d617efd664b91dae3be8af9e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 11/83] fix: accept account notes of one character

---
 account.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/account.go b/account.go
index 738ae1f..6cb18e9 100644
--- a/account.go
+++ b/account.go
@@ -83,7 +83,7 @@ var accountNameREX = rex.MustCompile(`([A-Za-z][\w/_\-]*)`)
 var AccountREX = rex.MustCompile(`(?P<account>%s(:%s)*)`, accountNameREX, accountNameREX)
 var accountHeadREX = rex.MustCompile(`account\s+%s`, AccountREX)
 var accountBodyREX = rex.MustCompile(``+
-	`(\s+note\s+(?P<note>\S.+))|`+
+	`(\s+note\s+(?P<note>\S.*))|`+
 	`(\s+commodity\s+%s)|`+
 	`(\s+closed\s+%s)|`+
 	`(\s+ofx_bankid\s+(?P<ofx_bankid>\d+))|`+
-- 
2.43.0


From 3842b4b07e60eb5d56e6ee2ce88e8ab8ed50c60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 12/83] fix: keep the definition of an Unbalanced account

---
 coin.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/coin.go b/coin.go
index bd362c2..3b59309 100644
--- a/coin.go
+++ b/coin.go
@@ -168,8 +168,11 @@ func ResolveAccounts() {
 		}
 	}
 	if Unbalanced == nil {
-		Unbalanced = accountFromName("Unbalanced")
-		AccountsByName["Unbalanced"] = Unbalanced
+		Unbalanced = AccountsByName["Unbalanced"]
+		if Unbalanced == nil {
+			Unbalanced = accountFromName("Unbalanced")
+			AccountsByName["Unbalanced"] = Unbalanced
+		}
 	}
 
 	// create parents if missing
-- 
2.43.0


From e99191e0330609f789d6a2e2482ea73ed76338b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 13/83] fix: load prices.coin once

---
 coin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coin.go b/coin.go
index 3b59309..a322945 100644
--- a/coin.go
+++ b/coin.go
@@ -76,7 +76,7 @@ func LoadAll() {
 	if _, err := os.Stat(TransactionsFile); os.IsNotExist(err) {
 		files, _ := filepath.Glob(filepath.Join(DB, "*.coin"))
 		for _, f := range files {
-			if f != CommoditiesFile && f != AccountsFile {
+			if f != CommoditiesFile && f != AccountsFile && f != PricesFile {
 				LoadFile(f)
 			}
 		}
-- 
2.43.0


From cc6a744af8e5cbf043c4aecb6be18fe0e7d2a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 14/83] fix: detect include loops through several files

---
 coin.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/coin.go b/coin.go
index a322945..55f6189 100644
--- a/coin.go
+++ b/coin.go
@@ -86,7 +86,15 @@ func LoadAll() {
 	ResolveAll()
 }
 
+// files being loaded
+var loading = map[string]bool{}
+
 func LoadFile(filename string) {
+	path, err := filepath.Abs(filename)
+	check.NoError(err, "Failed to open %s", filename)
+	check.If(!loading[path], "Include loop detected %s", filename)
+	loading[path] = true
+	defer delete(loading, path)
 	file, err := os.Open(filename)
 	check.NoError(err, "Failed to open %s", filename)
 	defer file.Close()
@@ -122,8 +130,6 @@ func Load(r io.Reader, fn string) {
 			files, err := i.Files()
 			check.NoError(err, "Failed to resolve include %s", i.Path)
 			for _, f := range files {
-				// This won't catch nested loops, but should catch the easier to make errors.
-				check.If(f != fn, "Include loop detected %s", f)
 				LoadFile(f)
 			}
 		default:
-- 
2.43.0


From dfe41257db19543c3dd2972f6d2dd5a5da18f45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 15/83] fix: take the year closest to today when it is omitted
 or has two digits

An omitted year was chosen by the month only, a two-digit one was completed with the
millenium instead of the century.
---
 date.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/date.go b/date.go
index 98af69f..5817983 100644
--- a/date.go
+++ b/date.go
@@ -70,6 +70,23 @@ func MustParseDate(s string) time.Time {
 	return mustParseDate(match, 0)
 }
 
+// closestYear returns the year in which given month and day is closest to today.
+func closestYear(m, d int) int {
+	today := time.Date(Year, Month, Day, 12, 0, 0, 0, time.UTC)
+	closest, distance := Year, time.Duration(-1)
+	// leap days are up to 8 years apart
+	for _, y := range []int{0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6, -6, 7, -7} {
+		t := time.Date(Year+y, time.Month(m), d, 12, 0, 0, 0, time.UTC)
+		if t.Day() != d {
+			continue // not in this year
+		}
+		if dist := t.Sub(today).Abs(); distance < 0 || dist < distance {
+			closest, distance = Year+y, dist
+		}
+	}
+	return closest
+}
+
 func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 	if idx > 0 {
 		return t, fmt.Errorf("multiple date fields not implemented!")
@@ -82,8 +99,8 @@ func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 		mm, _ := strconv.Atoi(match["ymdm"])
 		if yy := match["ymdy"]; yy != "" {
 			yyy, _ := strconv.Atoi(yy)
-			if yyy < 100 {
-				yyy = y/1000*1000 + yyy
+			if len(yy) == 2 {
+				yyy = y/100*100 + yyy
 				if yyy < y && y-yyy > 50 {
 					yyy += 100
 				} else if yyy > y && yyy-y > 50 {
@@ -94,11 +111,7 @@ func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 				y = yyy
 			}
 		} else {
-			if mm < m && m-mm > 6 {
-				y += 1
-			} else if m < mm && mm-m > 6 {
-				y -= 1
-			}
+			y = closestYear(mm, d)
 		}
 		m = mm
 	} else if match["ym"] != "" {
-- 
2.43.0


From 25a3823c2b9781a11acf50d368476544320d717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 16/83] fix: refuse dates that do not exist or are not
 understood in full

---
 date.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/date.go b/date.go
index 5817983..e70249e 100644
--- a/date.go
+++ b/date.go
@@ -40,7 +40,7 @@ func (d *Date) String() string {
 
 func (d *Date) Set(s string) (err error) {
 	match := DateREX.Match([]byte(s))
-	if match == nil {
+	if match == nil || match["date"] != s {
 		return fmt.Errorf("invalid date: %s", s)
 	}
 	d.Time, err = parseDate(match, 0)
@@ -54,7 +54,7 @@ var YearFormat = "2006"
 var ymd = rex.MustCompile(`` +
 	`((?P<ymd>((?P<ymdy>\d\d(\d\d)?)/)?(?P<ymdm>\d{1,2})/(?P<ymdd>\d{1,2}))|` +
 	`(?P<ym>(?P<ymy>\d{4})(/(?P<ymm>\d{1,2}))?))`)
-var offset = rex.MustCompile(`(?P<offset>[+-]\d+[d|w|m|y])`)
+var offset = rex.MustCompile(`(?P<offset>[+-]\d+[dwmy])`)
 var DateREX = rex.MustCompile(`(?P<date>%s?%s?)`, ymd, offset)
 
 func mustParseDate(match map[string]string, idx int) time.Time {
@@ -125,9 +125,15 @@ func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 	}
 
 	t = time.Date(y, time.Month(m), d, 12, 0, 0, 0, time.UTC)
+	if t.Day() != d || t.Month() != time.Month(m) {
+		return t, fmt.Errorf("invalid date: %s", match["date"])
+	}
 	if offset != "" {
 		e := len(offset) - 1
-		o, _ := strconv.Atoi(offset[:e])
+		o, err := strconv.Atoi(offset[:e])
+		if err != nil {
+			return t, err
+		}
 		switch offset[e] {
 		case 'd':
 			t = t.AddDate(0, 0, o)
-- 
2.43.0


From 1d806a4e9df1be9ab35fde53f2c4eb5a82ef807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 17/83] fix: replace rewritten files in one step and only when
 they were written completely

---
 cmd/coin/format.go | 30 ++++++++++++------------------
 cmd/coin/modify.go | 26 +++++++++++++-------------
 cmd/coin/test.go   | 42 ++++++++++++++++++++----------------------
 cmd/coin/utils.go  | 30 ++++++++++++++++++++++++++++++
 4 files changed, 75 insertions(+), 53 deletions(-)

diff --git a/cmd/coin/format.go b/cmd/coin/format.go
index a917fbf..7abe3c7 100644
--- a/cmd/coin/format.go
+++ b/cmd/coin/format.go
@@ -3,8 +3,6 @@ package main
 import (
 	"fmt"
 	"io"
-	"os"
-	"path"
 
 	"github.com/mkobetic/coin"
 	"github.com/mkobetic/coin/check"
@@ -41,37 +39,33 @@ func (cmd *cmdFormat) init() {
 
 func (cmd *cmdFormat) execute(f io.Writer) {
 	if len(cmd.Args()) == 0 { // for testing
-		cmd.writeTransactions(f)
+		check.NoError(cmd.writeTransactions(f), "writing transactions")
 		return
 	}
 	for _, fn := range cmd.Args() {
-		var err error
-		var tf *os.File
 		coin.LoadFile(fn)
 		coin.ResolveTransactions(false)
 		if cmd.replace {
-			tf, err = os.CreateTemp(path.Dir(fn), path.Base(fn))
-			check.NoError(err, "creating temp file")
-			f = tf
-		}
-		cmd.writeTransactions(f)
-		if cmd.replace {
-			err = os.Remove(fn)
-			check.NoError(err, "deleting old file")
-			err = os.Rename(tf.Name(), fn)
-			check.NoError(err, "renaming temp file")
+			rewriteFile(fn, cmd.writeTransactions)
+		} else {
+			check.NoError(cmd.writeTransactions(f), "writing transactions")
 		}
 		coin.DropTransactions()
 	}
 }
 
-func (cmd *cmdFormat) writeTransactions(f io.Writer) {
+func (cmd *cmdFormat) writeTransactions(f io.Writer) error {
 	for _, t := range coin.Transactions {
 		if cmd.trimWS {
 			t.Description = trimWS(t.Description)[0]
 			t.Notes = trimWS(t.Notes...)
 		}
-		t.Write(f, cmd.ledger)
-		fmt.Fprintln(f)
+		if err := t.Write(f, cmd.ledger); err != nil {
+			return err
+		}
+		if _, err := fmt.Fprintln(f); err != nil {
+			return err
+		}
 	}
+	return nil
 }
diff --git a/cmd/coin/modify.go b/cmd/coin/modify.go
index 9b726c7..990838d 100644
--- a/cmd/coin/modify.go
+++ b/cmd/coin/modify.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"io"
 	"os"
-	"path"
 	"regexp"
 	"strings"
 
@@ -89,20 +88,21 @@ func (cmd *cmdModify) execute(f io.Writer) {
 	for _, fn := range cmd.Args() {
 		coin.LoadFile(fn)
 		coin.ResolveTransactions(false)
-		tf, err := os.CreateTemp(path.Dir(fn), path.Base(fn))
-		check.NoError(err, "creating temp file")
 		var count int
-		for _, t := range coin.Transactions {
-			if cmd.modify(t) {
-				count++
+		rewriteFile(fn, func(w io.Writer) error {
+			for _, t := range coin.Transactions {
+				if cmd.modify(t) {
+					count++
+				}
+				if err := t.Write(w, false); err != nil {
+					return err
+				}
+				if _, err := fmt.Fprintln(w); err != nil {
+					return err
+				}
 			}
-			t.Write(tf, false)
-			fmt.Fprintln(tf)
-		}
-		err = os.Remove(fn)
-		check.NoError(err, "deleting old file")
-		err = os.Rename(tf.Name(), fn)
-		check.NoError(err, "renaming temp file")
+			return nil
+		})
 		fmt.Fprintf(os.Stderr, "Updated %d transactions in %s\n", count, fn)
 		coin.DropTransactions()
 	}
diff --git a/cmd/coin/test.go b/cmd/coin/test.go
index 3ce5ecc..1d1bd77 100644
--- a/cmd/coin/test.go
+++ b/cmd/coin/test.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"io"
 	"os"
-	"path"
 	"strconv"
 	"strings"
 
@@ -134,41 +133,40 @@ func file(t *coin.Test) string {
 // then write the results from the test commands into the file.
 func updateTestFile(ts []*coin.Test) {
 	fn := file(ts[0])
-	tf, err := os.CreateTemp(path.Dir(fn), path.Base(fn))
-	check.NoError(err, "creating temp file")
 	// read file fn by lines up to line
-	// write the lines into tf
+	// write the lines into the new file
 	of, err := os.Open(fn)
 	check.NoError(err, "opening old file")
 	defer of.Close()
 
+	rewriteFile(fn, func(w io.Writer) error { return writeTestResults(w, of, ts) })
+	for _, t := range ts {
+		fmt.Fprintf(os.Stderr, "UPDATED %s %s\n", t.Location(), t.Cmd)
+	}
+}
+
+// writeTestResults copies the old file adding the test results.
+func writeTestResults(w io.Writer, of io.Reader, ts []*coin.Test) error {
 	scanner := bufio.NewScanner(of)
-	writer := bufio.NewWriter(tf)
 	line := 0
-	for i, t := range ts {
+	for _, t := range ts {
 		_, ln, _ := strings.Cut(t.Location(), ":")
 		tLine, _ := strconv.Atoi(ln)
 
 		for ; line < tLine && scanner.Scan(); line++ {
-			_, err := writer.Write(scanner.Bytes())
-			check.NoError(err, "writing prefix %d", i)
-			check.NoError(writer.WriteByte('\n'), "writing prefix %d", i)
+			if _, err := fmt.Fprintf(w, "%s\n", scanner.Bytes()); err != nil {
+				return err
+			}
+		}
+		if _, err := w.Write(t.Result); err != nil {
+			return err
 		}
-		check.NoError(scanner.Err(), "writing prefix %d", i)
-		_, err = writer.Write(t.Result)
-		check.NoError(err, "writing result %d", i)
-		fmt.Fprintf(os.Stderr, "UPDATED %s %s\n", t.Location(), t.Cmd)
 	}
 	// finish writing rest of the old file
 	for scanner.Scan() {
-		_, err := writer.Write(scanner.Bytes())
-		check.NoError(err, "writing trailer")
-		check.NoError(writer.WriteByte('\n'), "writing trailer")
+		if _, err := fmt.Fprintf(w, "%s\n", scanner.Bytes()); err != nil {
+			return err
+		}
 	}
-	check.NoError(scanner.Err(), "writing trailer")
-	check.NoError(of.Close(), "closing old file")
-	check.NoError(writer.Flush(), "flushing writer")
-	check.NoError(tf.Close(), "closing temp file")
-	check.NoError(os.Remove(fn), "deleting old file")
-	check.NoError(os.Rename(tf.Name(), fn), "renaming temp file %s to %s", tf.Name(), fn)
+	return scanner.Err()
 }
diff --git a/cmd/coin/utils.go b/cmd/coin/utils.go
index 5261af9..e32d806 100644
--- a/cmd/coin/utils.go
+++ b/cmd/coin/utils.go
@@ -5,6 +5,8 @@ import (
 	"compress/gzip"
 	"encoding/base64"
 	"io"
+	"os"
+	"path"
 	"sort"
 	"strings"
 
@@ -23,6 +25,34 @@ func decode(name, encoded string) (decoded []byte) {
 	return decoded
 }
 
+// rewriteFile replaces content of the file with whatever the write function writes.
+// The file has either the complete old content or the complete new content at all times.
+func rewriteFile(fn string, write func(w io.Writer) error) {
+	tf, err := os.CreateTemp(path.Dir(fn), path.Base(fn))
+	check.NoError(err, "creating temp file")
+	bw := bufio.NewWriter(tf)
+	err = write(bw)
+	if err == nil {
+		err = bw.Flush()
+	}
+	if err == nil {
+		var info os.FileInfo
+		if info, err = os.Stat(fn); err == nil {
+			err = tf.Chmod(info.Mode())
+		}
+	}
+	if err2 := tf.Close(); err == nil {
+		err = err2
+	}
+	if err == nil {
+		err = os.Rename(tf.Name(), fn)
+	}
+	if err != nil {
+		os.Remove(tf.Name())
+	}
+	check.NoError(err, "rewriting file %s", fn)
+}
+
 func trim(ps []*coin.Posting, begin, end coin.Date) []*coin.Posting {
 	if !begin.IsZero() {
 		from := sort.Search(len(ps), func(i int) bool {
-- 
2.43.0


From f2ed415d2cfe3968e7c1c38d7df5f8c9b805ab98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 18/83] fix: modify all selected postings of a transaction,
 count tagged transactions

---
 cmd/coin/modify.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/coin/modify.go b/cmd/coin/modify.go
index 990838d..ab8a05d 100644
--- a/cmd/coin/modify.go
+++ b/cmd/coin/modify.go
@@ -117,12 +117,13 @@ func (cmd *cmdModify) modify(t *coin.Transaction) (modified bool) {
 	}
 	var hasPostingsMatchingAccount bool
 	for _, p := range t.Postings {
+		matches := cmd.ptag != nil && cmd.ptag.Match(p.Tags)
 		if p.Account == cmd.from {
 			hasPostingsMatchingAccount = true
-			modified = modified || cmd.modifyPosting(p)
+			matches = true
 		}
-		if cmd.ptag != nil && cmd.ptag.Match(p.Tags) {
-			modified = modified || cmd.modifyPosting(p)
+		if matches && cmd.modifyPosting(p) {
+			modified = true
 		}
 	}
 
@@ -131,6 +132,7 @@ func (cmd *cmdModify) modify(t *coin.Transaction) (modified bool) {
 	}
 	if len(cmd.setTTag) > 0 {
 		t.Notes = addTagLine(t.Notes, cmd.setTTag)
+		modified = true
 	}
 	return modified
 }
-- 
2.43.0


From dd646c963fcf3978b09246ed3ae02044fb9ae186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 19/83] fix: an added tag does not become part of the value of
 the previous one

---
 cmd/coin/modify.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/coin/modify.go b/cmd/coin/modify.go
index ab8a05d..411bc26 100644
--- a/cmd/coin/modify.go
+++ b/cmd/coin/modify.go
@@ -168,6 +168,9 @@ func addTagLine(notes []string, tagLine string) []string {
 		return append(notes, tagLine)
 	}
 	if len(notes[0])+len(tagLine) < coin.TRANSACTION_LINE_MAX {
+		if len(coin.ParseTags(notes[0])) > 0 {
+			notes[0] += "," // ends value of the last tag
+		}
 		notes[0] += " " + tagLine
 		return notes
 	}
-- 
2.43.0


From 588879d5621f7dd26c1fe62057f542eea96f608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 20/83] fix: coin test sums up the result of each file

---
 cmd/coin/test.go | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/cmd/coin/test.go b/cmd/coin/test.go
index 1d1bd77..777fb8a 100644
--- a/cmd/coin/test.go
+++ b/cmd/coin/test.go
@@ -46,19 +46,26 @@ func (cmd *cmdTest) execute(f io.Writer) {
 	lastTestFile := file(coin.Tests[0])
 	var toUpdate []*coin.Test
 	success := true
+	finishFile := func() {
+		if len(toUpdate) > 0 {
+			updateTestFile(toUpdate)
+			toUpdate = nil
+		}
+		if !cmd.verbose {
+			result := "OK"
+			if !success {
+				result = "FAIL"
+			}
+			fmt.Fprintf(f, "%s %s\n", result, lastTestFile)
+		}
+		success = true
+	}
 	for _, t := range coin.Tests {
 		// assume the tests are sorted file by file
 		// and in the order they are in the file
-		testFile := file(t)
-		startingNewFile := testFile != lastTestFile
-		var oldTestFile string // this is set only when moving to new file
-		if startingNewFile {
-			oldTestFile = lastTestFile
-		}
-		lastTestFile = testFile
-		if startingNewFile && len(toUpdate) > 0 {
-			updateTestFile(toUpdate)
-			toUpdate = nil
+		if testFile := file(t); testFile != lastTestFile {
+			finishFile()
+			lastTestFile = testFile
 		}
 		var args []string
 		scanner := bufio.NewScanner(strings.NewReader(t.Cmd))
@@ -95,8 +102,6 @@ func (cmd *cmdTest) execute(f io.Writer) {
 		if bytes.Equal(b.Bytes(), t.Result) {
 			if cmd.verbose {
 				fmt.Fprintf(f, "OK %s %s\n", t.Location(), t.Cmd)
-			} else if oldTestFile != "" {
-				fmt.Fprintf(f, "OK %s\n", oldTestFile)
 			}
 			continue
 		}
@@ -111,16 +116,7 @@ func (cmd *cmdTest) execute(f io.Writer) {
 				Context:  3,
 			})
 	}
-	if len(toUpdate) > 0 {
-		updateTestFile(toUpdate)
-	}
-	if !cmd.verbose {
-		result := "OK"
-		if !success {
-			result = "FAIL"
-		}
-		fmt.Fprintf(f, "%s %s\n", result, lastTestFile)
-	}
+	finishFile()
 }
 
 func file(t *coin.Test) string {
-- 
2.43.0


From 33dbd70f0b279bc84bed4d14cee404374b7be23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 21/83] fix: format and modify test clauses do not affect the
 following clauses

---
 cmd/coin/format.go |  1 +
 cmd/coin/modify.go |  1 +
 posting.go         |  6 ++++--
 transaction.go     | 15 +++++++++++++++
 4 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/cmd/coin/format.go b/cmd/coin/format.go
index 7abe3c7..0a806b7 100644
--- a/cmd/coin/format.go
+++ b/cmd/coin/format.go
@@ -57,6 +57,7 @@ func (cmd *cmdFormat) execute(f io.Writer) {
 func (cmd *cmdFormat) writeTransactions(f io.Writer) error {
 	for _, t := range coin.Transactions {
 		if cmd.trimWS {
+			t = t.Copy() // other tests use the original
 			t.Description = trimWS(t.Description)[0]
 			t.Notes = trimWS(t.Notes...)
 		}
diff --git a/cmd/coin/modify.go b/cmd/coin/modify.go
index 411bc26..86aac4a 100644
--- a/cmd/coin/modify.go
+++ b/cmd/coin/modify.go
@@ -79,6 +79,7 @@ func (cmd *cmdModify) execute(f io.Writer) {
 	}
 	if cmd.NArg() == 0 { // for testing
 		for _, t := range coin.Transactions {
+			t = t.Copy() // other tests use the original
 			cmd.modify(t)
 			t.Write(f, false)
 			fmt.Fprintln(f)
diff --git a/posting.go b/posting.go
index 76aa24f..cbc3ca9 100644
--- a/posting.go
+++ b/posting.go
@@ -63,8 +63,10 @@ func (p *Posting) MoveTo(a *Account) {
 	if p.Account == a {
 		return
 	}
-	p.Account.deletePosting(p)
-	a.addPosting(p)
+	if _, found := p.Account.findPosting(p); found {
+		p.Account.deletePosting(p)
+		a.addPosting(p)
+	}
 	p.Account = a
 }
 
diff --git a/transaction.go b/transaction.go
index 57f9e46..8bcfb2e 100644
--- a/transaction.go
+++ b/transaction.go
@@ -203,6 +203,21 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 	return t, p.Err()
 }
 
+// Copy returns a copy that can be modified without affecting the original.
+// Postings of the copy are not among the postings of their accounts.
+func (t *Transaction) Copy() *Transaction {
+	c := *t
+	c.Notes = append([]string(nil), t.Notes...)
+	c.Postings = nil
+	for _, p := range t.Postings {
+		pc := *p
+		pc.Transaction = &c
+		pc.Notes = append([]string(nil), p.Notes...)
+		c.Postings = append(c.Postings, &pc)
+	}
+	return &c
+}
+
 func (t *Transaction) String() string {
 	var b strings.Builder
 	t.Write(&b, false)
-- 
2.43.0


From bc1f88e3b2745e944db3d3622ae46f7bcc990671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 22/83] fix: an inverted payee pattern applies to all accounts
 of a recursive or aggregated register

---
 cmd/coin/register.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cmd/coin/register.go b/cmd/coin/register.go
index 7823fc7..2dbfd67 100644
--- a/cmd/coin/register.go
+++ b/cmd/coin/register.go
@@ -179,13 +179,9 @@ func (cmd *cmdRegister) period() *timeReducer {
 func (cmd *cmdRegister) trim(ps []*coin.Posting) postings {
 	ps = trim(ps, cmd.begin, cmd.end)
 	if len(cmd.payee) > 0 {
-		inverted := false
-		if cmd.payee[0] == '!' {
-			inverted = true
-			cmd.payee = cmd.payee[1:]
-		}
+		payee, inverted := strings.CutPrefix(cmd.payee, "!")
 		var pps []*coin.Posting
-		r := regexp.MustCompile("(?i)" + cmd.payee)
+		r := regexp.MustCompile("(?i)" + payee)
 		for _, p := range ps {
 			if match := r.MatchString(p.Transaction.Description); match && !inverted || !match && inverted {
 				pps = append(pps, p)
-- 
2.43.0


From 2c98c3779b46b86e9f92be08c866bed9dfee542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 23/83] fix: aggregated register with an Other column of one
 account, an account outside of the top ones, ties or no postings

---
 cmd/coin/register.go | 6 +++++-
 cmd/coin/totals.go   | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmd/coin/register.go b/cmd/coin/register.go
index 2dbfd67..d38b8ed 100644
--- a/cmd/coin/register.go
+++ b/cmd/coin/register.go
@@ -127,8 +127,12 @@ func (cmd *cmdRegister) aggregatedRegister(f io.Writer, acc *coin.Account) {
 	})
 	totals.sanitize()
 	var accounts []*coin.Account
+	timeline := totals[acc]
 	totals, accounts = totals.top(cmd.top)
-	totals.mergeTime(totals[acc])
+	if len(accounts) == 0 {
+		return
+	}
+	totals.mergeTime(timeline)
 
 	if cmd.cumulative {
 		totals.makeCumulative()
diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index 5df5868..d546d94 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -423,7 +423,11 @@ func (ats accountTotals) top(n int) (topn accountTotals, order []*coin.Account)
 	}
 
 	sort.Slice(accounts, func(i int, j int) bool {
-		return magnitudes[accounts[i]].IsBigger(magnitudes[accounts[j]])
+		mi, mj := magnitudes[accounts[i]], magnitudes[accounts[j]]
+		if c := mi.CmpMagnitude(mj); c != 0 {
+			return c > 0
+		}
+		return accounts[i].FullName < accounts[j].FullName
 	})
 	if len(accounts) <= n {
 		return ats, accounts
@@ -433,7 +437,7 @@ func (ats accountTotals) top(n int) (topn accountTotals, order []*coin.Account)
 	}
 	rest := accounts[n:]
 	accounts = accounts[:n]
-	if len(rest) > 1 {
+	if len(rest) > 0 {
 		others := ats[rest[0]]
 		for _, acc := range rest[1:] {
 			others.merge(ats[acc])
-- 
2.43.0


From 87775e689a606ed0faabef1fada52537c4d8f20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:45 +0000
Subject: [PATCH 24/83] fix: aggregate transactions without a payee

---
 cmd/coin/totals.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index d546d94..2c3dd9d 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -506,7 +506,8 @@ func (ats accountTotals) print(f io.Writer,
 	format := []string{"%*s "}
 	periodWidth := firstCol.maxPeriodWidth()
 	categoryWidth := firstCol.maxCategoryWidth()
-	if periodWidth > 0 && categoryWidth > 0 {
+	hasCategory := firstCol.categoryReducer != nil
+	if periodWidth > 0 && hasCategory {
 		format = append(format, " %*s ")
 	}
 	widths := ats.widths(order)
@@ -526,7 +527,7 @@ func (ats accountTotals) print(f io.Writer,
 		if periodWidth > 0 {
 			args = append(args, periodWidth, "")
 		}
-		if categoryWidth > 0 {
+		if hasCategory {
 			args = append(args, categoryWidth, "")
 		}
 		for i := range widths {
@@ -553,7 +554,7 @@ func (ats accountTotals) print(f io.Writer,
 				tm := period.Time.Format(firstCol.format)
 				args = append(args, periodWidth, tm)
 			}
-			if categoryWidth > 0 {
+			if hasCategory {
 				args = append(args, categoryWidth, category)
 			}
 			for ii, acc := range order {
@@ -567,7 +568,7 @@ func (ats accountTotals) print(f io.Writer,
 						period.Time.Format(firstCol.format))
 				}
 				amt := t.total
-				if category != "" {
+				if ts.categoryReducer != nil {
 					amt = t.totals[category]
 				}
 				args = append(args, widths[ii], amt)
@@ -627,7 +628,7 @@ func (ats accountTotals) rows(
 						period.Time.Format(firstCol.format))
 				}
 				amt := t.total
-				if category != "" {
+				if ts.categoryReducer != nil {
 					amt = t.totals[category]
 				}
 				row = append(row, amt.String())
-- 
2.43.0


From 604dfb547867a82b04bda4a6697cec3407ffbfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 25/83] fix: totals of aggregated registers are in the
 commodity of their account

---
 cmd/coin/totals.go | 78 ++++++++++++++++------------------------------
 1 file changed, 27 insertions(+), 51 deletions(-)

diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index 2c3dd9d..73d2ad7 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -30,41 +30,22 @@ func (t *timeTotal) Categories() (keys []string) {
 	return keys
 }
 
-func (t *timeTotal) AddIn(t2 *timeTotal, keysOnly bool) {
+func (t *timeTotal) AddIn(t2 *timeTotal, keysOnly bool, c *coin.Commodity) {
 	check.If(t.Time.Equal(t2.Time), "%v is not equal to %v", t.Time, t2.Time)
 	if t.total != nil && !keysOnly {
-		t.total.AddIn(t2.total)
+		check.NoError(t.total.AddIn(t2.total), "cannot merge totals")
 		return
 	}
 	for k, v := range t2.totals {
 		amt := t.totals[k]
-		if amt != nil {
-			if !keysOnly {
-				amt.AddIn(v)
-			}
-		} else {
-			if keysOnly {
-				t.totals[k] = coin.NewZeroAmount(v.Commodity)
-			} else {
-				t.totals[k] = v.Copy()
-			}
+		if amt == nil {
+			amt = coin.NewZeroAmount(c)
+			t.totals[k] = amt
 		}
-	}
-}
-
-func (t *timeTotal) Copy(keysOnly bool) *timeTotal {
-	if t.total != nil {
-		return &timeTotal{Time: t.Time, total: t.total.Copy()}
-	}
-	totals := make(map[string]*coin.Amount)
-	for k, v := range t.totals {
-		if keysOnly {
-			totals[k] = coin.NewZeroAmount(v.Commodity)
-		} else {
-			totals[k] = v.Copy()
+		if !keysOnly {
+			check.NoError(amt.AddIn(v), "cannot merge totals")
 		}
 	}
-	return &timeTotal{Time: t.Time, totals: totals}
 }
 
 func (t *timeTotal) Commodity() *coin.Commodity {
@@ -102,12 +83,16 @@ type timeTotals struct {
 	// at least one of these must be set before using
 	*timeReducer
 	*categoryReducer
+	commodity *coin.Commodity // commodity of the totals
 	// these are internal
 	all     []*timeTotal // ordered totals by time if we are reducing by time
 	current *timeTotal   // latest total, if not reducing by time then the only total
 }
 
 func (ts *timeTotals) Commodity() *coin.Commodity {
+	if ts.commodity != nil {
+		return ts.commodity
+	}
 	if ts.current != nil {
 		if c := ts.current.Commodity(); c != nil {
 			return c
@@ -129,30 +114,22 @@ func (ts *timeTotals) add(p *coin.Posting) {
 	if ts.timeReducer != nil {
 		period = ts.timeReducer.reduce(p.Transaction.Posted)
 	}
-	if ts.current != nil && ts.current.Equal(period) {
-		if ts.categoryReducer != nil {
-			category := ts.categoryReducer.reduce(p)
-			amt := ts.current.totals[category]
-			if amt != nil {
-				check.NoError(amt.AddIn(p.Quantity), "cannot add %a to totals", p.Quantity)
-			} else {
-				ts.current.totals[category] = p.Quantity.Copy()
-			}
-		} else {
-			check.NoError(ts.current.total.AddIn(p.Quantity), "cannot add %a to totals", p.Quantity)
+	if ts.current == nil || !ts.current.Equal(period) {
+		ts.current = ts.newTotal(period, ts.commodity)
+		if ts.timeReducer != nil {
+			ts.all = append(ts.all, ts.current)
 		}
-		return
 	}
-	amt := p.Quantity.Copy()
+	amt := ts.current.total
 	if ts.categoryReducer != nil {
 		category := ts.categoryReducer.reduce(p)
-		ts.current = &timeTotal{Time: period, totals: map[string]*coin.Amount{category: amt}}
-	} else {
-		ts.current = &timeTotal{Time: period, total: amt}
-	}
-	if ts.timeReducer != nil {
-		ts.all = append(ts.all, ts.current)
+		amt = ts.current.totals[category]
+		if amt == nil {
+			amt = coin.NewZeroAmount(ts.commodity)
+			ts.current.totals[category] = amt
+		}
 	}
+	check.NoError(amt.AddIn(p.Quantity), "cannot add %a to totals", p.Quantity)
 }
 
 func (ts *timeTotals) newTotal(t time.Time, c *coin.Commodity) *timeTotal {
@@ -173,10 +150,9 @@ func (ts *timeTotals) mergeTotals(ts2 *timeTotals, keysOnly bool) {
 			return
 		}
 		if ts.current == nil {
-			ts.current = ts2.current.Copy(keysOnly)
-		} else {
-			ts.current.AddIn(ts2.current, keysOnly)
+			ts.current = ts.newTotal(ts2.current.Time, ts.commodity)
 		}
+		ts.current.AddIn(ts2.current, keysOnly, ts.Commodity())
 		return
 	}
 	var offsets []int
@@ -192,7 +168,7 @@ func (ts *timeTotals) mergeTotals(ts2 *timeTotals, keysOnly bool) {
 		remaining = remaining[i:]
 		j += i
 		if len(remaining) > 0 && remaining[0].Time.Equal(t.Time) {
-			remaining[0].AddIn(t, keysOnly)
+			remaining[0].AddIn(t, keysOnly, ts.Commodity())
 		} else {
 			offsets = append(offsets, j)
 			j = 0
@@ -214,7 +190,7 @@ func (ts *timeTotals) mergeTotals(ts2 *timeTotals, keysOnly bool) {
 			com = extra.Commodity()
 		}
 		newExtra := ts.newTotal(extra.Time, com)
-		newExtra.AddIn(extra, keysOnly)
+		newExtra.AddIn(extra, keysOnly, com)
 		ts.all = append(ts.all, remaining[:mark]...)
 		ts.all = append(ts.all, newExtra)
 		remaining = remaining[mark:]
@@ -377,7 +353,7 @@ func (ats accountTotals) String() string {
 }
 
 func (ats accountTotals) newTotals(acc *coin.Account, period *timeReducer, category *categoryReducer) *timeTotals {
-	ts := &timeTotals{timeReducer: period, categoryReducer: category}
+	ts := &timeTotals{timeReducer: period, categoryReducer: category, commodity: acc.Commodity}
 	ats[acc] = ts
 
 	return ts
-- 
2.43.0


From 84a7f6260209b10c27a4161c2dfa3d7f09c32557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 26/83] fix: list transactions with one posting in the register

---
 cmd/coin/postings.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmd/coin/postings.go b/cmd/coin/postings.go
index f3d2483..8da4e25 100644
--- a/cmd/coin/postings.go
+++ b/cmd/coin/postings.go
@@ -26,12 +26,20 @@ func trimLocation(loc string) string {
 
 type postings []*coin.Posting
 
+// otherAccountName is empty if the transaction has no other posting.
+func otherAccountName(p *coin.Posting) string {
+	if other := p.Transaction.Other(p); other != nil {
+		return other.Account.FullName
+	}
+	return ""
+}
+
 func (ps postings) widths(acctPrefix string) (widths [4]int) {
 	for _, p := range ps {
 		widths[0] = max(widths[0], len(p.Transaction.Description))
 		widths[1] = max(widths[1], len(strings.TrimPrefix(p.Account.FullName, acctPrefix)))
 		widths[2] = max(widths[2], p.Quantity.Width(p.Account.Commodity.Decimals))
-		widths[3] = max(widths[3], len(p.Transaction.Other(p).Account.FullName))
+		widths[3] = max(widths[3], len(otherAccountName(p)))
 	}
 	return widths
 }
@@ -71,7 +79,7 @@ func (ps postings) print(f io.Writer, opts *options) {
 		args := []interface{}{
 			s.Transaction.Posted.Format(coin.DateFormat),
 			widths[0], s.Transaction.Description,
-			widths[3], coin.ShortenAccountName(strings.TrimPrefix(s.Transaction.Other(s).Account.FullName, opts.Prefix()), opts.MaxAcct()),
+			widths[3], coin.ShortenAccountName(strings.TrimPrefix(otherAccountName(s), opts.Prefix()), opts.MaxAcct()),
 			widths[2], s.Quantity,
 			tWidth, totals[i],
 			s.Account.CommodityId,
@@ -114,7 +122,7 @@ func (ps postings) printLong(f io.Writer, opts *options) {
 			s.Transaction.Posted.Format(coin.DateFormat),
 			widths[0], s.Transaction.Description,
 			widths[1], coin.ShortenAccountName(strings.TrimPrefix(s.Account.FullName, opts.Prefix()), opts.MaxAcct()),
-			widths[3], coin.ShortenAccountName(strings.TrimPrefix(s.Transaction.Other(s).Account.FullName, opts.Prefix()), opts.MaxAcct()),
+			widths[3], coin.ShortenAccountName(strings.TrimPrefix(otherAccountName(s), opts.Prefix()), opts.MaxAcct()),
 			widths[2], s.Quantity,
 			tWidth, totals[i],
 			s.Account.CommodityId,
-- 
2.43.0


From bd2de1d006233830a7062d2da8fa7562729c4ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 27/83] fix: report an unbalanced transaction once

---
 cmd/coin/stats.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/coin/stats.go b/cmd/coin/stats.go
index cd96b11..a5793df 100644
--- a/cmd/coin/stats.go
+++ b/cmd/coin/stats.go
@@ -86,6 +86,7 @@ func (cmd *cmdStats) execute(f io.Writer) {
 					"UNBALANCED TRANSACTION!\n%s\n%s\n",
 					t.Location(),
 					t)
+				break
 			}
 		}
 	}
-- 
2.43.0


From 92fe35ab743e604251dc441d6f0ed3a58fa32eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 28/83] fix: compare amounts of different precision exactly

---
 amount.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amount.go b/amount.go
index b9c9350..ef04754 100644
--- a/amount.go
+++ b/amount.go
@@ -149,6 +149,9 @@ func (a *Amount) IsEqual(b *Amount) bool    { return a.Cmp(b) == 0 }
 func (a *Amount) IsLessThan(b *Amount) bool { return a.Cmp(b) < 0 }
 func (a *Amount) IsMoreThan(b *Amount) bool { return a.Cmp(b) > 0 }
 func (a *Amount) Cmp(b *Amount) int {
+	if a.Decimals < b.Decimals {
+		return a.adjustedTo(b).Cmp(b.Int)
+	}
 	return a.Int.Cmp(b.adjustedTo(a))
 }
 
-- 
2.43.0


From b63b0aa6458e19840b77dcd11eaa4fd387c30864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 29/83] fix: line up amounts in a commodity other than that of
 their account

---
 transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction.go b/transaction.go
index 8bcfb2e..166ccd3 100644
--- a/transaction.go
+++ b/transaction.go
@@ -104,7 +104,7 @@ func (t *Transaction) Write(w io.Writer, ledger bool) error {
 		if l := len(s.Account.FullName); l > maxn {
 			maxn = l
 		}
-		if l := s.Quantity.Width(s.Account.Commodity.Decimals); l > maxa {
+		if l := s.Quantity.Width(s.Quantity.Commodity.Decimals); l > maxa {
 			maxa = l
 		}
 	}
-- 
2.43.0


From 3848f2f118e3b89b4e4cc6cd9cc8f0d8d3bc0e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 30/83] fix: ignore blanks after the path of an include

---
 include.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include.go b/include.go
index b63dfac..3799ecd 100644
--- a/include.go
+++ b/include.go
@@ -21,7 +21,7 @@ type Include struct {
 	file string
 }
 
-var includeHead = regexp.MustCompile(`include\s+(.+)`)
+var includeHead = regexp.MustCompile(`include\s+(.*\S)`)
 
 func (p *Parser) parseInclude(fn string) (*Include, error) {
 	matches := includeHead.FindSubmatch(p.Bytes())
-- 
2.43.0


From 61f113be56536bb9714843a97abba3905dd564b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 31/83] fix: resolve accounts and check their balances in the
 order of their names

---
 coin.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/coin.go b/coin.go
index 55f6189..440227a 100644
--- a/coin.go
+++ b/coin.go
@@ -200,19 +200,19 @@ func ResolveAccounts() {
 	}
 
 	// link parents with children,
-	for _, a := range AccountsByName {
+	AccountsDo(func(a *Account) {
 		if a == Root {
-			continue
+			return
 		}
 		pName := a.ParentName()
 		if pName == "" {
 			Root.adopt(a)
-			continue
+			return
 		}
 		p := AccountsByName[pName]
 		check.If(p != nil, "Missing account %s (%s)\n", pName, a.Location())
 		p.adopt(a)
-	}
+	})
 
 	isChild := func(p, c *Account) bool {
 		for _, a := range p.Children {
@@ -224,7 +224,7 @@ func ResolveAccounts() {
 	}
 
 	// sort children, link commodities
-	for _, a := range AccountsByName {
+	AccountsDo(func(a *Account) {
 		if pn := a.ParentName(); pn != "" {
 			warn.If(!(pn == a.Parent.FullName), "%s doesn't match parent name %s\n", a.Parent.Name, pn)
 			warn.If(!isChild(a.Parent, a), "%s is not a child of %s\n", a.FullName, a.Parent.FullName)
@@ -234,10 +234,11 @@ func ResolveAccounts() {
 		} else {
 			a.Commodity = DefaultCommodity()
 		}
-		sort.Slice(a.Children, func(i, j int) bool {
+		// Root:A and A are both children of Root
+		sort.SliceStable(a.Children, func(i, j int) bool {
 			return a.Children[i].Name < a.Children[j].Name
 		})
-	}
+	})
 
 }
 
@@ -278,12 +279,12 @@ func ResolveTransactions(checkPostings bool) {
 		}
 	}
 
-	for _, a := range AccountsByName {
+	AccountsDo(func(a *Account) {
 		a.sortPostings()
 		if checkPostings {
 			a.CheckPostings()
 		}
-	}
+	})
 	sort.Stable(Transactions)
 }
 
-- 
2.43.0


From ea71eb8ad624108648ebb1b83cf481613c91f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 32/83] fix: find the file of a test clause when its path
 includes a colon

---
 cmd/coin/test.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cmd/coin/test.go b/cmd/coin/test.go
index 777fb8a..f378219 100644
--- a/cmd/coin/test.go
+++ b/cmd/coin/test.go
@@ -120,10 +120,18 @@ func (cmd *cmdTest) execute(f io.Writer) {
 }
 
 func file(t *coin.Test) string {
-	file, _, _ := strings.Cut(t.Location(), ":")
+	file, _ := splitLocation(t)
 	return file
 }
 
+// splitLocation gives the file and line of the test, the path of the file can include colons.
+func splitLocation(t *coin.Test) (file string, line int) {
+	loc := t.Location()
+	i := strings.LastIndexByte(loc, ':')
+	line, _ = strconv.Atoi(loc[i+1:])
+	return loc[:i], line
+}
+
 // assume ts are tests from the same file in the order in which they are in the file,
 // and all test have empty result in the file,
 // then write the results from the test commands into the file.
@@ -146,9 +154,7 @@ func writeTestResults(w io.Writer, of io.Reader, ts []*coin.Test) error {
 	scanner := bufio.NewScanner(of)
 	line := 0
 	for _, t := range ts {
-		_, ln, _ := strings.Cut(t.Location(), ":")
-		tLine, _ := strconv.Atoi(ln)
-
+		_, tLine := splitLocation(t)
 		for ; line < tLine && scanner.Scan(); line++ {
 			if _, err := fmt.Fprintf(w, "%s\n", scanner.Bytes()); err != nil {
 				return err
-- 
2.43.0


From c721cfa09fc088a38be51bc51c4734c9dd956ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 33/83] fix: run the test clauses of a file around an include
 together

---
 cmd/coin/test.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cmd/coin/test.go b/cmd/coin/test.go
index f378219..c8adb03 100644
--- a/cmd/coin/test.go
+++ b/cmd/coin/test.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -43,6 +44,16 @@ func (cmd *cmdTest) execute(f io.Writer) {
 	if len(coin.Tests) == 0 {
 		return
 	}
+	// the tests of a file including another one are not necessarily together
+	firstOfFile := map[string]int{}
+	for i, t := range coin.Tests {
+		if _, found := firstOfFile[file(t)]; !found {
+			firstOfFile[file(t)] = i
+		}
+	}
+	sort.SliceStable(coin.Tests, func(i, j int) bool {
+		return firstOfFile[file(coin.Tests[i])] < firstOfFile[file(coin.Tests[j])]
+	})
 	lastTestFile := file(coin.Tests[0])
 	var toUpdate []*coin.Test
 	success := true
@@ -61,8 +72,6 @@ func (cmd *cmdTest) execute(f io.Writer) {
 		success = true
 	}
 	for _, t := range coin.Tests {
-		// assume the tests are sorted file by file
-		// and in the order they are in the file
 		if testFile := file(t); testFile != lastTestFile {
 			finishFile()
 			lastTestFile = testFile
-- 
2.43.0


From 51796a3df7de174c49bb1d32bcfeced695b930b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 34/83] fix: filling in test results keeps the line ends of the
 rest of the file

---
 cmd/coin/test.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cmd/coin/test.go b/cmd/coin/test.go
index c8adb03..2eaa6fc 100644
--- a/cmd/coin/test.go
+++ b/cmd/coin/test.go
@@ -160,12 +160,16 @@ func updateTestFile(ts []*coin.Test) {
 
 // writeTestResults copies the old file adding the test results.
 func writeTestResults(w io.Writer, of io.Reader, ts []*coin.Test) error {
-	scanner := bufio.NewScanner(of)
+	old := bufio.NewReader(of)
 	line := 0
 	for _, t := range ts {
 		_, tLine := splitLocation(t)
-		for ; line < tLine && scanner.Scan(); line++ {
-			if _, err := fmt.Fprintf(w, "%s\n", scanner.Bytes()); err != nil {
+		for ; line < tLine; line++ {
+			s, err := old.ReadString('\n')
+			if err != nil {
+				return err
+			}
+			if _, err := io.WriteString(w, s); err != nil {
 				return err
 			}
 		}
@@ -174,10 +178,6 @@ func writeTestResults(w io.Writer, of io.Reader, ts []*coin.Test) error {
 		}
 	}
 	// finish writing rest of the old file
-	for scanner.Scan() {
-		if _, err := fmt.Fprintf(w, "%s\n", scanner.Bytes()); err != nil {
-			return err
-		}
-	}
-	return scanner.Err()
+	_, err := io.Copy(w, old)
+	return err
 }
-- 
2.43.0


From cb03e83e6986b8473057aa9e36578245a3d0ca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 35/83] fix: refuse test clauses without an end

---
 test.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/test.go b/test.go
index 2e0f498..d8f6da6 100644
--- a/test.go
+++ b/test.go
@@ -32,7 +32,10 @@ func (p *Parser) parseTest(fn string) (*Test, error) {
 		b.Write(p.Bytes())
 		fmt.Fprintln(&b)
 	}
-	return t, p.Err()
+	if err := p.Err(); err != nil {
+		return nil, err
+	}
+	return nil, fmt.Errorf("test without end: %s", t.Location())
 }
 
 func (t *Test) Location() string {
-- 
2.43.0


From 7f440e7e7229a61635f77e116cc79504c9f26f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 36/83] fix: postings of amounts in different commodities are
 not equal

---
 posting.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/posting.go b/posting.go
index cbc3ca9..0579326 100644
--- a/posting.go
+++ b/posting.go
@@ -56,6 +56,7 @@ func (s *Posting) String() string {
 
 func (s *Posting) IsEqual(s2 *Posting) bool {
 	return s.Account == s2.Account &&
+		s.Quantity.Commodity == s2.Quantity.Commodity &&
 		s.Quantity.IsEqual(s2.Quantity)
 }
 
-- 
2.43.0


From 2dacdf285f5934e995ca6b8eddd011dc11fd3d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 37/83] fix: read account and commodity definitions in full or
 refuse them

---
 account.go   | 19 +++++++++++--------
 commodity.go | 14 +++++++-------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/account.go b/account.go
index 6cb18e9..6572d52 100644
--- a/account.go
+++ b/account.go
@@ -81,14 +81,14 @@ func (a *Account) Write(w io.Writer, ledger bool) error {
 
 var accountNameREX = rex.MustCompile(`([A-Za-z][\w/_\-]*)`)
 var AccountREX = rex.MustCompile(`(?P<account>%s(:%s)*)`, accountNameREX, accountNameREX)
-var accountHeadREX = rex.MustCompile(`account\s+%s`, AccountREX)
-var accountBodyREX = rex.MustCompile(``+
-	`(\s+note\s+(?P<note>\S.*))|`+
-	`(\s+commodity\s+%s)|`+
-	`(\s+closed\s+%s)|`+
-	`(\s+ofx_bankid\s+(?P<ofx_bankid>\d+))|`+
-	`(\s+ofx_acctid\s+(?P<ofx_acctid>\d+))|`+
-	`(\s+csv_acctid\s+(?P<csv_acctid>\w+))`,
+var accountHeadREX = rex.MustCompile(`^account\s+%s\s*$`, AccountREX)
+var accountBodyREX = rex.MustCompile(`^\s+(`+
+	`(note\s+(?P<note>\S.*))|`+
+	`(commodity\s+%s\s*)|`+
+	`(closed\s+%s\s*)|`+
+	`(ofx_bankid\s+(?P<ofx_bankid>\d+)\s*)|`+
+	`(ofx_acctid\s+(?P<ofx_acctid>\d+)\s*)|`+
+	`(csv_acctid\s+(?P<csv_acctid>\w+)\s*))$`,
 	CommodityREX, DateREX)
 
 func accountFromName(fullName string) *Account {
@@ -115,6 +115,9 @@ func (a *Account) ParentName() string {
 
 func (p *Parser) parseAccount(fn string) (*Account, error) {
 	match := accountHeadREX.Match(p.Bytes())
+	if match == nil {
+		return nil, fmt.Errorf("invalid account line: %s", p.Text())
+	}
 	a := accountFromName(match["account"])
 	a.line = p.lineNr
 	a.file = fn
diff --git a/commodity.go b/commodity.go
index 1333206..27bc38e 100644
--- a/commodity.go
+++ b/commodity.go
@@ -138,13 +138,13 @@ func (c *Commodity) Write(w io.Writer, ledger bool) error {
 }
 
 var CommodityREX = rex.MustCompile(`(?P<commodity>[A-Za-z][\w]*)`)
-var commodityHeadREX = rex.MustCompile(`commodity\s+%s`, CommodityREX)
-var commodityBodyREX = rex.MustCompile(``+
-	`(\s+note\s+(?P<note>.+))|`+
-	`(\s+format\s+(?P<format>%s))|`+
-	`(\s+(?P<nomarket>nomarket)\s*)|`+
-	`(\s+symbol\s+(?P<symbol>[\w\.]+))|`+
-	`(\s+(?P<default>default)\s*)`,
+var commodityHeadREX = rex.MustCompile(`^commodity\s+%s\s*$`, CommodityREX)
+var commodityBodyREX = rex.MustCompile(`^\s+(`+
+	`(note\s+(?P<note>.+))|`+
+	`(format\s+(?P<format>%s)\s*)|`+
+	`((?P<nomarket>nomarket)\s*)|`+
+	`(symbol\s+(?P<symbol>\S+)\s*)|`+
+	`((?P<default>default)\s*))$`,
 	AmountREX)
 
 func (p *Parser) parseCommodity(fn string) (*Commodity, error) {
-- 
2.43.0


From e58ea709920108aedbda867b971df3f8c8909a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 38/83] fix: write the symbol and default mark of a commodity

---
 commodity.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/commodity.go b/commodity.go
index 27bc38e..186a580 100644
--- a/commodity.go
+++ b/commodity.go
@@ -27,6 +27,7 @@ type Commodity struct {
 	Decimals int    // how many decimal places to use
 	NoMarket bool   // Don't download prices
 	Symbol   string // symbol to use for quotes
+	Default  bool   // the default commodity
 
 	// price lists by currency
 	Prices map[*Commodity][]*Price
@@ -128,6 +129,12 @@ func (c *Commodity) Write(w io.Writer, ledger bool) error {
 	if c.NoMarket {
 		lines = append(lines, "  nomarket\n")
 	}
+	if c.Symbol != "" && !ledger {
+		lines = append(lines, "  symbol ", c.Symbol, "\n")
+	}
+	if c.Default {
+		lines = append(lines, "  default\n")
+	}
 	for _, line := range lines {
 		_, err := io.WriteString(w, line)
 		if err != nil {
@@ -176,6 +183,7 @@ func (p *Parser) parseCommodity(fn string) (*Commodity, error) {
 		} else if s := match["symbol"]; s != "" {
 			c.Symbol = s
 		} else if match["default"] != "" {
+			c.Default = true
 			DefaultCommodityId = c.Id
 		} else {
 			return c, fmt.Errorf("%s - failed to match commodity line: %s", c.Location(), p.Text())
-- 
2.43.0


From e107f15d9fa0bc0cf2f2ab14d392b1ee0abfbcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 39/83] fix: read price lines in full or refuse them

---
 price.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/price.go b/price.go
index ee41dd0..ec75763 100644
--- a/price.go
+++ b/price.go
@@ -38,12 +38,12 @@ func (p *Price) Write(w io.Writer, ledger bool) error {
 	return err
 }
 
-var priceREX = rex.MustCompile(`P %s\s+%s\s+%s`, DateREX, CommodityREX, AmountREX)
+var priceREX = rex.MustCompile(`^P\s+%s\s+%s\s+%s\s*$`, DateREX, CommodityREX, AmountREX)
 
 func (p *Parser) parsePrice(fn string) (*Price, error) {
 	match := priceREX.Match(p.Bytes())
 	if match == nil {
-		return nil, fmt.Errorf("invalid price line")
+		return nil, fmt.Errorf("invalid price line: %s", p.Text())
 	}
 	date := mustParseDate(match, 0)
 	currencyId := string(match["commodity2"])
-- 
2.43.0


From 362a3900833f312172792b322a6c4134ed83c504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 40/83] fix: refuse closed directives without a date

---
 account.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/account.go b/account.go
index 6572d52..b948124 100644
--- a/account.go
+++ b/account.go
@@ -142,6 +142,8 @@ func (p *Parser) parseAccount(fn string) (*Account, error) {
 			a.OFXAcctId = i
 		} else if i := match["csv_acctid"]; i != "" {
 			a.CSVAcctId = i
+		} else {
+			return a, fmt.Errorf("unrecognized account line: %s", p.Text())
 		}
 	}
 	return a, p.Err()
-- 
2.43.0


From 1d1bb2d7db9e6cbfbbc0541b5fc61cbbc9726687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 41/83] fix: import without a rules file, or without one of its
 sections

---
 cmd/csv2coin/main.go  |  2 +-
 cmd/csv2coin/rules.go | 20 ++++++++++----------
 rules.go              |  8 +++++---
 3 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/cmd/csv2coin/main.go b/cmd/csv2coin/main.go
index 66bb839..badd27d 100644
--- a/cmd/csv2coin/main.go
+++ b/cmd/csv2coin/main.go
@@ -43,7 +43,7 @@ func main() {
 	coin.LoadFile(coin.AccountsFile)
 	coin.ResolveAccounts()
 
-	var rules *Rules
+	rules := &Rules{}
 	fn := filepath.Join(coin.DB, "csv.rules")
 	if _, err := os.Stat(fn); !os.IsNotExist(err) {
 		file, err := os.Open(fn)
diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index 1526c45..f509e70 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -176,19 +176,19 @@ func (rules *Rules) Write(w io.Writer) {
 func ReadRules(r io.Reader) *Rules {
 	rules := Rules{sources: map[string]*Source{}}
 	s := bufio.NewScanner(r)
-	check.If(s.Scan(), "Failed scanning first line: %s", s.Err())
-	line := s.Bytes()
-	for {
-		if bytes.Equal(line, separator) {
-			if !s.Scan() { // nothing after separator
-				return &rules
-			}
-			break
+	more := s.Scan()
+	for more && !bytes.Equal(s.Bytes(), separator) {
+		if len(bytes.TrimSpace(s.Bytes())) == 0 { // blank line or the end
+			more = s.Scan()
+			continue
 		}
-		source := ScanSource(line, s)
+		source := ScanSource(s.Bytes(), s)
 		check.If(source != nil, "invalid source definition in rules file: %s", string(s.Bytes()))
 		rules.sources[source.name] = source
-		line = s.Bytes()
+	}
+	if !more || !s.Scan() { // nothing after the sources
+		check.NoError(s.Err(), "Failed reading rules")
+		return &rules
 	}
 	var err error
 	rules.RuleIndex, err = coin.ScanRules(s.Bytes(), s)
diff --git a/rules.go b/rules.go
index 8e15eb6..1deb8a6 100644
--- a/rules.go
+++ b/rules.go
@@ -26,9 +26,8 @@ type RuleIndex struct {
 }
 
 func (rs *RuleIndex) AccountRulesFor(acctId string) *AccountRules {
-	ars := rs.Accounts[acctId]
-	if ars != nil {
-		return ars
+	if rs != nil && rs.Accounts[acctId] != nil {
+		return rs.Accounts[acctId]
 	}
 	account := FindAccountOfxId(acctId)
 	check.If(account != nil, "could not find account for Acct ID %s", acctId)
@@ -36,6 +35,9 @@ func (rs *RuleIndex) AccountRulesFor(acctId string) *AccountRules {
 }
 
 func (rs *RuleIndex) Write(w io.Writer) error {
+	if rs == nil {
+		return nil
+	}
 	for _, r := range rs.Sets {
 		if _, err := fmt.Fprintf(w, "%s\n", r.Name()); err != nil {
 			return err
-- 
2.43.0


From d7286645f144cb9c55adf0538ef1f7d867a788d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:32 +0000
Subject: [PATCH 42/83] fix: the number of lines to skip of a csv source can be
 left out

---
 cmd/csv2coin/rules.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index f509e70..7ac9362 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -103,8 +103,12 @@ func ScanSource(line []byte, s *bufio.Scanner) *Source {
 	if match == nil {
 		return nil
 	}
-	skip, err := strconv.Atoi(match["skip"])
-	check.NoError(err, "parsing header line count")
+	skip := 0
+	if match["skip"] != "" {
+		var err error
+		skip, err = strconv.Atoi(match["skip"])
+		check.NoError(err, "parsing header line count")
+	}
 	src := &Source{name: match["source"], skip: skip, fields: make(map[string]Fields)}
 	check.If(s.Scan(), "reading next source line: %s\n", s.Err())
 	line = s.Bytes()
-- 
2.43.0


From dd6e11e14b7b4464abdc19142710c43fb3aab0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:37 +0000
Subject: [PATCH 43/83] fix: csv templates with a dollar sign that is no
 reference, indexes beyond the end of a row

---
 check/check.go        |  2 +-
 cmd/csv2coin/main.go  |  3 ++-
 cmd/csv2coin/rules.go | 11 ++++++-----
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/check/check.go b/check/check.go
index ef23c99..099c827 100644
--- a/check/check.go
+++ b/check/check.go
@@ -29,6 +29,6 @@ func Includes(list []string, s string, format string, args ...interface{}) {
 			return
 		}
 	}
-	fmt.Fprint(os.Stderr, "Bad value %s\n"+format, append([]interface{}{s}, args...))
+	fmt.Fprintf(os.Stderr, "Bad value %s\n"+format+"\n", append([]interface{}{s}, args...)...)
 	os.Exit(1)
 }
diff --git a/cmd/csv2coin/main.go b/cmd/csv2coin/main.go
index badd27d..80c47aa 100644
--- a/cmd/csv2coin/main.go
+++ b/cmd/csv2coin/main.go
@@ -227,7 +227,8 @@ func parseFields(list string) map[string]Fields {
 	fields := make(map[string]Fields)
 	for i, s := range idxs {
 		c, err := strconv.Atoi(s)
-		check.NoError(err, "%s is not a valid column index", i)
+		check.NoError(err, "%s is not a valid column index", s)
+		check.If(c >= 0, "%s is not a valid column index", s)
 		fields[labels[i]] = Fields{&Field{&c, "", "", nil}}
 	}
 	return fields
diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index 7ac9362..034a1d0 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -26,6 +26,7 @@ func (f *Field) Value(row []string, fields map[string]Fields) string {
 	if f.idx == nil {
 		return f.derivedField(row, fields)
 	}
+	check.If(*f.idx < len(row), "no field %d in row %q", *f.idx, row)
 	s := row[*f.idx]
 	if f.re == nil {
 		return s
@@ -43,7 +44,7 @@ func (f *Field) derivedField(row []string, fields map[string]Fields) string {
 	}
 	out := []string{parts[0]}
 	for _, p := range parts[1:] {
-		if p[0] == '{' {
+		if strings.HasPrefix(p, "{") {
 			i := strings.IndexByte(p, '}')
 			if i > 0 {
 				f := p[1:i]
@@ -51,7 +52,7 @@ func (f *Field) derivedField(row []string, fields map[string]Fields) string {
 				continue
 			}
 		}
-		out = append(out, p)
+		out = append(out, "$"+p)
 	}
 	return strings.Join(out, "")
 }
@@ -67,10 +68,10 @@ func (f *Field) directField(s string) string {
 	}
 	out := []string{parts[0]}
 	for _, p := range parts[1:] {
-		if '0' <= p[0] && p[0] <= '9' {
+		if p != "" && '0' <= p[0] && p[0] <= '9' {
 			out = append(out, match[p[0:1]]+p[1:])
 		} else {
-			out = append(out, p)
+			out = append(out, "$"+p)
 		}
 	}
 	return strings.Join(out, "")
@@ -126,7 +127,7 @@ func ScanSource(line []byte, s *bufio.Scanner) *Source {
 			}
 		} else {
 			idx, err := strconv.Atoi(match["rowIdx"])
-			check.NoError(err, "invalid field row index: %s\n", idx)
+			check.NoError(err, "invalid field row index: %s\n", match["rowIdx"])
 			field.idx = &idx
 			field.out = strings.TrimSpace(match["out"])
 			if ex := match["rex"]; ex != "" {
-- 
2.43.0


From dfbdb68127eabacdc54612c2227995213b77b3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 44/83] fix: optional columns at the end of a csv field list
 can be left out

---
 cmd/csv2coin/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/csv2coin/main.go b/cmd/csv2coin/main.go
index 80c47aa..f36faac 100644
--- a/cmd/csv2coin/main.go
+++ b/cmd/csv2coin/main.go
@@ -220,10 +220,13 @@ var labels = []string{
 	"note",        // optional note associated with the transaction
 }
 
+// number of labels that are not optional
+const required = 4
+
 func parseFields(list string) map[string]Fields {
 	idxs := strings.Split(list, ",")
-	check.If(len(idxs) == len(labels),
-		"%d fields must be specified:\n%v\n", len(labels), labels)
+	check.If(required <= len(idxs) && len(idxs) <= len(labels),
+		"%d to %d fields must be specified:\n%v\n", required, len(labels), labels)
 	fields := make(map[string]Fields)
 	for i, s := range idxs {
 		c, err := strconv.Atoi(s)
-- 
2.43.0


From 266e46a8fb12d60b6b63ba2f15010da974bf84e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 45/83] fix: keep the notes of the rule when a csv row has a
 note

---
 cmd/csv2coin/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/csv2coin/main.go b/cmd/csv2coin/main.go
index f36faac..313e069 100644
--- a/cmd/csv2coin/main.go
+++ b/cmd/csv2coin/main.go
@@ -143,7 +143,7 @@ func transactionFrom(row []string, fields map[string]Fields, allRules *Rules) *c
 	}
 
 	if n := trim(valueFor("note")); len(n) > 0 {
-		t.Notes = []string{n}
+		t.Notes = append([]string{n}, notes...)
 	}
 
 	var amount *coin.Amount
-- 
2.43.0


From f8aebe347de896e9976b19690e25fbb7c3fea021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 46/83] fix: csv headers can have another number of fields than
 the rows

---
 cmd/csv2coin/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/csv2coin/main.go b/cmd/csv2coin/main.go
index 313e069..d8cdf0f 100644
--- a/cmd/csv2coin/main.go
+++ b/cmd/csv2coin/main.go
@@ -97,6 +97,7 @@ func readTransactions(in io.Reader, src *Source, rules *Rules) (transactions []*
 		}
 		check.NoError(err, "Failed to read header line %d", i)
 	}
+	r.FieldsPerRecord = 0 // that of the first row
 	for {
 		rec, err := r.Read()
 		if err == io.EOF {
-- 
2.43.0


From 7e17c5b2a1977a436ac4c76443e27f9631fc673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 47/83] fix: find accounts of imports by their csv_acctid, and
 none without an id

---
 coin.go  | 21 ++++++++++++++++-----
 rules.go |  3 +++
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/coin.go b/coin.go
index 440227a..f8e6c0c 100644
--- a/coin.go
+++ b/coin.go
@@ -321,12 +321,23 @@ func MustFindAccount(pattern string) *Account {
 }
 
 func FindAccountOfxId(acctId string) *Account {
-	for _, a := range AccountsByName {
-		if a.OFXAcctId == acctId {
-			return a
-		}
+	return findAccountById(acctId, func(a *Account) string { return a.OFXAcctId })
+}
+
+func FindAccountCsvId(acctId string) *Account {
+	return findAccountById(acctId, func(a *Account) string { return a.CSVAcctId })
+}
+
+func findAccountById(id string, idOf func(a *Account) string) (found *Account) {
+	if id == "" {
+		return nil
 	}
-	return nil
+	AccountsDo(func(a *Account) {
+		if found == nil && idOf(a) == id {
+			found = a
+		}
+	})
+	return found
 }
 
 func ToRegex(pattern string) *regexp.Regexp {
diff --git a/rules.go b/rules.go
index 1deb8a6..3360b7f 100644
--- a/rules.go
+++ b/rules.go
@@ -30,6 +30,9 @@ func (rs *RuleIndex) AccountRulesFor(acctId string) *AccountRules {
 		return rs.Accounts[acctId]
 	}
 	account := FindAccountOfxId(acctId)
+	if account == nil {
+		account = FindAccountCsvId(acctId)
+	}
 	check.If(account != nil, "could not find account for Acct ID %s", acctId)
 	return &AccountRules{Account: account}
 }
-- 
2.43.0


From 114f9b22e1397c418a3249690493834edda8d84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:31 +0000
Subject: [PATCH 48/83] fix: dump csv sources so that they can be read back

---
 cmd/csv2coin/rules.go | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index 034a1d0..bd503a5 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -144,19 +145,28 @@ func ScanSource(line []byte, s *bufio.Scanner) *Source {
 }
 
 func (s *Source) Write(w io.Writer) {
-	fmt.Fprintln(w, s.name)
-	for _, n := range labels {
-		fs := s.fields[n]
-		for _, f := range fs {
-			if f.re == nil {
-				if f.out != "" {
-					fmt.Fprintf(w, "  %s %s\n", n, f.out)
-				} else {
-					fmt.Fprintf(w, "  %s %d\n", n, f.idx)
-				}
-			} else {
-				fmt.Fprintf(w, "  %s %d %s %s\n", n, f.idx, f.out, f.re)
+	fmt.Fprintf(w, "%s %d\n", s.name, s.skip)
+	var names []string
+	for n := range s.fields {
+		names = append(names, n)
+	}
+	sort.Strings(names)
+	for _, n := range names {
+		for _, f := range s.fields[n] {
+			fmt.Fprintf(w, "  %s", n)
+			if f.idx != nil {
+				fmt.Fprintf(w, " %d", *f.idx)
 			}
+			if f.idx == nil || f.re != nil {
+				fmt.Fprintf(w, " \"%s\"", f.out)
+			}
+			if f.condField != "" {
+				fmt.Fprintf(w, " %s", f.condField)
+			}
+			if f.re != nil {
+				fmt.Fprintf(w, " %s", f.re)
+			}
+			fmt.Fprintln(w)
 		}
 	}
 }
@@ -171,8 +181,13 @@ type Rules struct {
 }
 
 func (rules *Rules) Write(w io.Writer) {
-	for _, src := range rules.sources {
-		src.Write(w)
+	var names []string
+	for n := range rules.sources {
+		names = append(names, n)
+	}
+	sort.Strings(names)
+	for _, n := range names {
+		rules.sources[n].Write(w)
 	}
 	fmt.Fprintln(w, string(separator))
 	rules.RuleIndex.Write(w)
-- 
2.43.0


From d2c2946c6e32a579263f2126d98afefd434cb841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 49/83] fix: dump drop rules and the notes of rules

---
 rules.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rules.go b/rules.go
index 3360b7f..02cdea1 100644
--- a/rules.go
+++ b/rules.go
@@ -136,11 +136,17 @@ type Rule struct {
 }
 
 func (r *Rule) Name() string {
+	if r.Account == nil {
+		return dropAccount
+	}
 	return r.Account.FullName
 }
 
 func (r *Rule) Write(w io.Writer, max int) error {
 	_, err := fmt.Fprintf(w, "  %-*s %s\n", max, r.Name(), r.String())
+	for _, n := range r.Notes {
+		err = writeStrings(w, err, "  ; ", n, "\n")
+	}
 	return err
 }
 
@@ -151,6 +157,9 @@ func (r *Rule) RuleFor(payee string) *Rule {
 	return nil
 }
 
+// dropAccount in place of an account drops the matching transactions
+const dropAccount = "--"
+
 var patternRE = `([\w:$^\\-]+)`
 var headerRE = regexp.MustCompile(`^(\w+)\s+` + patternRE + `|^(\w+)`)
 var bodyRE = regexp.MustCompile(`^\s+` + patternRE + `(\s+(\S.*\S))?|` +
@@ -198,7 +207,7 @@ func ScanRules(line []byte, s *bufio.Scanner) (*RuleIndex, error) {
 				}
 				if len(match[1]) > 0 {
 					var account *Account
-					if string(match[1]) != "--" {
+					if string(match[1]) != dropAccount {
 						account = MustFindAccount(string(match[1]))
 					}
 					lastRule = &Rule{
-- 
2.43.0


From 4be6fd39912d7779f0b54aad23b79851f0e25b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 50/83] fix: dump the rules of several ids of an account in a
 fixed order

---
 rules.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rules.go b/rules.go
index 02cdea1..3beedd5 100644
--- a/rules.go
+++ b/rules.go
@@ -52,6 +52,7 @@ func (rs *RuleIndex) Write(w io.Writer) error {
 	var accounts []*AccountRules
 	ids := map[*AccountRules]string{}
 	var max int
+	// one account can have several ids
 	for id, ars := range rs.Accounts {
 		ids[ars] = id
 		accounts = append(accounts, ars)
@@ -60,7 +61,10 @@ func (rs *RuleIndex) Write(w io.Writer) error {
 		}
 	}
 	sort.Slice(accounts, func(i, j int) bool {
-		return accounts[i].Account.FullName < accounts[j].Account.FullName
+		if ni, nj := accounts[i].Account.FullName, accounts[j].Account.FullName; ni != nj {
+			return ni < nj
+		}
+		return ids[accounts[i]] < ids[accounts[j]]
 	})
 	for _, ars := range accounts {
 		id := ids[ars]
-- 
2.43.0


From 1d475ecf2c82715e879a246d16ae749d4002fe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 51/83] fix: read rule lines in full or refuse them

---
 rules.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/rules.go b/rules.go
index 3beedd5..30ed9c6 100644
--- a/rules.go
+++ b/rules.go
@@ -2,7 +2,6 @@ package coin
 
 import (
 	"bufio"
-	"bytes"
 	"fmt"
 	"io"
 	"regexp"
@@ -164,11 +163,12 @@ func (r *Rule) RuleFor(payee string) *Rule {
 // dropAccount in place of an account drops the matching transactions
 const dropAccount = "--"
 
-var patternRE = `([\w:$^\\-]+)`
-var headerRE = regexp.MustCompile(`^(\w+)\s+` + patternRE + `|^(\w+)`)
-var bodyRE = regexp.MustCompile(`^\s+` + patternRE + `(\s+(\S.*\S))?|` +
-	`^\s+@(\w+)|` +
-	`^\s+;\s+(.*)`)
+var patternRE = `([\w:/$^\\-]+)`
+var headerRE = regexp.MustCompile(`^(\w+)\s+` + patternRE + `\s*$|^(\w+)\s*$`)
+var bodyRE = regexp.MustCompile(`^\s+` + patternRE + `(\s+(\S(.*\S)?))?\s*$|` +
+	`^\s+@(\w+)\s*$|` +
+	`^\s+;\s*(.*)$`)
+var commentRE = regexp.MustCompile(`^\s*$|^[;#%|*]`)
 
 func ReadRules(r io.Reader) (*RuleIndex, error) {
 	s := bufio.NewScanner(r)
@@ -205,6 +205,9 @@ func ScanRules(line []byte, s *bufio.Scanner) (*RuleIndex, error) {
 					return ri, s.Err()
 				}
 				line = s.Bytes()
+				if commentRE.Match(line) {
+					continue
+				}
 				match = bodyRE.FindSubmatch(line)
 				if match == nil {
 					break
@@ -218,23 +221,25 @@ func ScanRules(line []byte, s *bufio.Scanner) (*RuleIndex, error) {
 						Account: account,
 						Regexp:  regexp.MustCompile(string(match[3]))}
 					rules = append(rules, lastRule)
-				} else if len(match[4]) > 0 {
-					r := ri.SetsByName[string(match[4])]
+				} else if len(match[5]) > 0 {
+					r := ri.SetsByName[string(match[5])]
 					if r == nil {
-						panic(fmt.Errorf("invalid rule set ref: %s", string(match[4])))
+						panic(fmt.Errorf("invalid rule set ref: %s", string(match[5])))
 					}
 					rules = append(rules, r)
 					lastRule = nil
-				} else if lastRule != nil {
-					lastRule.Notes = append(lastRule.Notes, string(match[5]))
+				} else if lastRule != nil && len(match[6]) > 0 {
+					lastRule.Notes = append(lastRule.Notes, string(match[6]))
 				}
 			}
 			setRules(rules)
+		} else if !commentRE.Match(line) {
+			return nil, fmt.Errorf("unrecognized rule line: %s", line)
 		} else {
 			if !s.Scan() {
 				return ri, s.Err()
 			}
-			line = bytes.TrimSpace(s.Bytes())
+			line = s.Bytes()
 		}
 	}
 }
-- 
2.43.0


From 09b5eaf2042e8329eb55dfadeeb9c75d5f556949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 52/83] fix: refuse csv values derived from themselves

---
 cmd/csv2coin/rules.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index bd503a5..fe1ec5d 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -141,9 +142,33 @@ func ScanSource(line []byte, s *bufio.Scanner) *Source {
 		}
 		line = s.Bytes()
 	}
+	for name := range src.fields {
+		src.checkLoops(name, nil)
+	}
 	return src
 }
 
+var referenceREX = regexp.MustCompile(`\$\{([^}]*)\}`)
+
+// checkLoops makes sure that the value of a field is not derived from itself.
+func (s *Source) checkLoops(name string, through []string) {
+	for _, n := range through {
+		check.If(n != name, "value %s of source %s is derived from itself", name, s.name)
+	}
+	through = append(through, name)
+	for _, f := range s.fields[name] {
+		if f.idx != nil {
+			continue
+		}
+		if f.condField != "" {
+			s.checkLoops(f.condField, through)
+		}
+		for _, m := range referenceREX.FindAllStringSubmatch(f.out, -1) {
+			s.checkLoops(m[1], through)
+		}
+	}
+}
+
 func (s *Source) Write(w io.Writer) {
 	fmt.Fprintf(w, "%s %d\n", s.name, s.skip)
 	var names []string
-- 
2.43.0


From e5a1b52f846fd9431122d10f8cc9f0f1b7794d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:15 +0000
Subject: [PATCH 53/83] fix: skip ofx statements without a list of transactions

---
 cmd/ofx2coin/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/ofx2coin/main.go b/cmd/ofx2coin/main.go
index bcf341e..0613c3c 100644
--- a/cmd/ofx2coin/main.go
+++ b/cmd/ofx2coin/main.go
@@ -132,6 +132,9 @@ func readTransactions(r io.Reader, rules *coin.RuleIndex) (transactions []*coin.
 	// read bank transactions
 	for _, resp := range responses.Bank {
 		resp := resp.(*ofxgo.StatementResponse)
+		if resp.BankTranList == nil { // optional
+			continue
+		}
 		rules := rules.AccountRulesFor(resp.BankAcctFrom.AcctID.String())
 		last := len(resp.BankTranList.Transactions) - 1
 		for i, t := range resp.BankTranList.Transactions {
@@ -152,6 +155,9 @@ func readTransactions(r io.Reader, rules *coin.RuleIndex) (transactions []*coin.
 	// read credit card transactions
 	for _, resp := range responses.CreditCard {
 		resp := resp.(*ofxgo.CCStatementResponse)
+		if resp.BankTranList == nil { // optional
+			continue
+		}
 		rules := rules.AccountRulesFor(resp.CCAcctFrom.AcctID.String())
 		for _, t := range resp.BankTranList.Transactions {
 			if nt := newTransaction(rules,
-- 
2.43.0


From 100a74417f8900f167e480c8a0845d0d4f33e240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 54/83] fix: find duplicates of ofx records by their day,
 whatever the time

---
 cmd/ofx2coin/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/ofx2coin/main.go b/cmd/ofx2coin/main.go
index 0613c3c..33b5ae7 100644
--- a/cmd/ofx2coin/main.go
+++ b/cmd/ofx2coin/main.go
@@ -192,8 +192,10 @@ func newTransaction(ars *coin.AccountRules, date time.Time, payee string, amount
 	if balance != nil {
 		bal = coin.NewAmountFrac(balance.Num(), balance.Denom(), ars.Account.Commodity)
 	}
+	// same time of day as the dates in the ledger, the time must not make a difference
+	y, m, d := date.Date()
 	t := &coin.Transaction{
-		Posted:      date,
+		Posted:      time.Date(y, m, d, 12, 0, 0, 0, time.UTC),
 		Description: payee,
 		Notes:       notes,
 	}
-- 
2.43.0


From 049af23ec1dd0aed1e07f3987167bcecd4406d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 55/83] fix: pass on the last line of a bmo file without a line
 end, blank line after the header

---
 cmd/ofx2coin/bmo.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cmd/ofx2coin/bmo.go b/cmd/ofx2coin/bmo.go
index ac33eb6..6a5eedc 100644
--- a/cmd/ofx2coin/bmo.go
+++ b/cmd/ofx2coin/bmo.go
@@ -39,7 +39,7 @@ func (r *bmoReader) Read(p []byte) (n int, err error) {
 	loop:
 		for {
 			r.lastLine, err = r.ReadBytes('\n')
-			if err != nil {
+			if len(r.lastLine) == 0 && err != nil {
 				return 0, err
 			}
 			if !r.reachedHeader {
@@ -53,11 +53,10 @@ func (r *bmoReader) Read(p []byte) (n int, err error) {
 				if bytes.Equal(r.lastLine, []byte("<OFX>\n")) {
 					r.reachedBody = true
 					if !r.emptyLineAfterHeader {
-						n = copy(p, emptyLine)
-						return n, nil
+						r.lastLine = append([]byte("\n"), r.lastLine...)
 					}
-				} else if bytes.Equal(r.lastLine, emptyLine) {
-					r.emptyLineAfterHeader = true
+				} else {
+					r.emptyLineAfterHeader = bytes.Equal(r.lastLine, emptyLine)
 				}
 				break loop
 			}
-- 
2.43.0


From 540d0608deb1e78b637a9afba1f390db9f4d5b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 56/83] fix: find duplicates of ofx records with a payee that
 reads as a code

---
 cmd/ofx2coin/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/ofx2coin/main.go b/cmd/ofx2coin/main.go
index 33b5ae7..89db32d 100644
--- a/cmd/ofx2coin/main.go
+++ b/cmd/ofx2coin/main.go
@@ -7,6 +7,7 @@ import (
 	"math/big"
 	"os"
 	"path/filepath"
+	"regexp"
 	"sort"
 	"time"
 
@@ -174,6 +175,8 @@ func readTransactions(r io.Reader, rules *coin.RuleIndex) (transactions []*coin.
 	return transactions, nil
 }
 
+var codeREX = regexp.MustCompile(`^\((\w+)\)(?:\s+(.*))?$`)
+
 func newTransaction(ars *coin.AccountRules, date time.Time, payee string, amount big.Rat, balance *big.Rat) *coin.Transaction {
 	from := ars.Account
 	to := coin.Unbalanced
@@ -199,6 +202,10 @@ func newTransaction(ars *coin.AccountRules, date time.Time, payee string, amount
 		Description: payee,
 		Notes:       notes,
 	}
+	// that is how it will be read back, duplicates have the same code
+	if m := codeREX.FindStringSubmatch(payee); m != nil {
+		t.Code, t.Description = m[1], m[2]
+	}
 	t.Post(from, to, amt, bal)
 	return t
 }
-- 
2.43.0


From cd286ca656e9a4e387bc8aa025bffc02680a05a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 57/83] fix: order gnucash records by the day they are written
 with

---
 gnucash/gnucash.go     | 7 +++++++
 gnucash/price.go       | 6 +++---
 gnucash/transaction.go | 6 +++---
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/gnucash/gnucash.go b/gnucash/gnucash.go
index 0aa1553..48dc726 100644
--- a/gnucash/gnucash.go
+++ b/gnucash/gnucash.go
@@ -70,6 +70,13 @@ func mustParseTimeStamp(ts string) time.Time {
 	return t
 }
 
+// mustParseDay drops the time of the day and the time zone of the record,
+// so that records sort by the day they are written with.
+func mustParseDay(ts string) time.Time {
+	y, m, d := mustParseTimeStamp(ts).Date()
+	return time.Date(y, m, d, 12, 0, 0, 0, time.UTC)
+}
+
 // GncNumeric is a fraction
 func mustParseAmount(f string, c *coin.Commodity) *coin.Amount {
 	values := strings.Split(f, "/")
diff --git a/gnucash/price.go b/gnucash/price.go
index a40cf49..3d6bb26 100644
--- a/gnucash/price.go
+++ b/gnucash/price.go
@@ -42,7 +42,7 @@ func resolvePrices(prices []*Price) {
 		p.Commodity = coin.Commodities[gp.CommodityId]
 		p.Currency = coin.Commodities[gp.CurrencyId]
 		p.Value = mustParseAmount(gp.ValueFraction, p.Currency)
-		p.Time = mustParseTimeStamp(gp.Date)
+		p.Time = mustParseDay(gp.Date)
 		p.Commodity.Prices[p.Currency] =
 			append(p.Commodity.Prices[p.Currency], p)
 		coin.Prices = append(coin.Prices, p)
@@ -50,12 +50,12 @@ func resolvePrices(prices []*Price) {
 	// Sort commodity prices.
 	for _, c := range coin.Commodities {
 		for _, p := range c.Prices {
-			sort.Slice(p, func(i, j int) bool {
+			sort.SliceStable(p, func(i, j int) bool {
 				return p[i].Time.After(p[j].Time)
 			})
 		}
 	}
-	sort.Slice(coin.Prices, func(i, j int) bool {
+	sort.SliceStable(coin.Prices, func(i, j int) bool {
 		return coin.Prices[i].Time.Before(coin.Prices[j].Time)
 	})
 }
diff --git a/gnucash/transaction.go b/gnucash/transaction.go
index 9465147..9a7d04a 100644
--- a/gnucash/transaction.go
+++ b/gnucash/transaction.go
@@ -71,17 +71,17 @@ func resolveTransactions(transactions []*Transaction) {
 		if len(ds) == 2 && len(ds[1]) > 0 {
 			t.Notes = []string{ds[1]}
 		}
-		t.Posted = mustParseTimeStamp(gt.PostedStamp)
+		t.Posted = mustParseDay(gt.PostedStamp)
 		resolveSplits(gt.Splits, t)
 		coin.Transactions = append(coin.Transactions, t)
 	}
 	for _, a := range AccountsByGuid {
-		sort.Slice(a.Postings, func(i, j int) bool {
+		sort.SliceStable(a.Postings, func(i, j int) bool {
 			return a.Postings[i].Transaction.Posted.Before(a.Postings[j].Transaction.Posted)
 		})
 		a.CheckPostings()
 	}
-	sort.Slice(coin.Transactions, func(i, j int) bool {
+	sort.SliceStable(coin.Transactions, func(i, j int) bool {
 		return coin.Transactions[i].Posted.Before(coin.Transactions[j].Posted)
 	})
 }
-- 
2.43.0


From 4efeee71bfad12d9202f967d1394f7d7c9ed3446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:13 +0000
Subject: [PATCH 58/83] fix: split gnucash books without prices or transactions
 by year

---
 cmd/gc2coin/main.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/cmd/gc2coin/main.go b/cmd/gc2coin/main.go
index ca5d66e..21d505a 100644
--- a/cmd/gc2coin/main.go
+++ b/cmd/gc2coin/main.go
@@ -75,11 +75,7 @@ func main() {
 
 	// Assume prices are sorted by date
 	var year int
-	if *yearly {
-		year := coin.Prices[0].Time.Year()
-		f, done = next(strconv.Itoa(year) + coin.PricesExtension)
-		defer done()
-	} else {
+	if !*yearly {
 		f, done = next(coin.PricesFilename)
 		defer done()
 	}
@@ -108,11 +104,8 @@ func main() {
 		}
 	})
 
-	if *yearly {
-		year := coin.Transactions[0].Posted.Year()
-		f, done = next(strconv.Itoa(year) + coin.TransactionsExtension)
-		defer done()
-	} else {
+	year = 0
+	if !*yearly {
 		f, done = next(coin.TransactionsFilename)
 		defer done()
 	}
-- 
2.43.0


From 7dcc2ffc2fa0323d683e14e12945118e4d38a9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:16 +0000
Subject: [PATCH 59/83] fix: convert gnucash accounts with an online id without
 digits

---
 gnucash/account.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gnucash/account.go b/gnucash/account.go
index 6e1dffd..ff14038 100644
--- a/gnucash/account.go
+++ b/gnucash/account.go
@@ -101,9 +101,10 @@ func resolveAccounts(accounts []*Account) {
 			a.Commodity = coin.DefaultCommodity()
 		}
 		if online_id := gca.slot("online_id"); online_id != "" {
-			ids := gc_online_id.FindStringSubmatch(online_id)
-			a.OFXBankId = ids[2]
-			a.OFXAcctId = ids[3]
+			if ids := gc_online_id.FindStringSubmatch(online_id); ids != nil {
+				a.OFXBankId = ids[2]
+				a.OFXAcctId = ids[3]
+			}
 		}
 	}
 	// Link parents and children.
-- 
2.43.0


From 9a557b59889588524a74c41ad71d1d1404964f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:19 +0000
Subject: [PATCH 60/83] fix: refuse gnucash prices of unknown commodities with
 a message

---
 gnucash/price.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gnucash/price.go b/gnucash/price.go
index 3d6bb26..802b69b 100644
--- a/gnucash/price.go
+++ b/gnucash/price.go
@@ -39,8 +39,8 @@ type Price struct {
 func resolvePrices(prices []*Price) {
 	for _, gp := range prices {
 		p := &coin.Price{}
-		p.Commodity = coin.Commodities[gp.CommodityId]
-		p.Currency = coin.Commodities[gp.CurrencyId]
+		p.Commodity = coin.MustFindCommodity(gp.CommodityId, "gnucash price")
+		p.Currency = coin.MustFindCommodity(gp.CurrencyId, "gnucash price")
 		p.Value = mustParseAmount(gp.ValueFraction, p.Currency)
 		p.Time = mustParseDay(gp.Date)
 		p.Commodity.Prices[p.Currency] =
-- 
2.43.0


From cea981e9278af631624b775967bb0fe834a3e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 61/83] fix: refuse malformed gnucash numbers

---
 gnucash/gnucash.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gnucash/gnucash.go b/gnucash/gnucash.go
index 48dc726..de97f9c 100644
--- a/gnucash/gnucash.go
+++ b/gnucash/gnucash.go
@@ -83,12 +83,13 @@ func mustParseAmount(f string, c *coin.Commodity) *coin.Amount {
 	if len(values) != 2 {
 		panic("invalid fraction: " + f)
 	}
-	num := new(big.Int)
-	num.SetString(values[0], 10)
-	den := new(big.Int)
-	den.SetString(values[1], 10)
-	if den.Sign() <= 0 {
-		panic("invalid denominator: " + den.String())
+	num, ok := new(big.Int).SetString(values[0], 10)
+	if !ok {
+		panic("invalid fraction: " + f)
+	}
+	den, ok := new(big.Int).SetString(values[1], 10)
+	if !ok || den.Sign() <= 0 {
+		panic("invalid denominator: " + values[1])
 	}
 	return coin.NewAmountFrac(num, den, c)
 }
-- 
2.43.0


From dee8752b5162a2ac63749f7068b49392c75b2704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:43 +0000
Subject: [PATCH 62/83] fix: convert gnucash books not using the default
 commodity

---
 gnucash/commodity.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/gnucash/commodity.go b/gnucash/commodity.go
index 80dcb20..fe3ce09 100644
--- a/gnucash/commodity.go
+++ b/gnucash/commodity.go
@@ -54,4 +54,17 @@ func resolveCommodities(commodities []*Commodity) {
 		c := CommodityFrom(gc)
 		coin.Commodities[c.Id] = c
 	}
+	if len(commodities) == 0 || coin.Commodities[coin.DefaultCommodityId] != nil {
+		return
+	}
+	// a book that does not use the default commodity, use its first currency instead
+	def := commodities[0]
+	for _, gc := range commodities {
+		if gc.Space == "ISO4217" || gc.Space == "CURRENCY" {
+			def = gc
+			break
+		}
+	}
+	coin.DefaultCommodityId = def.Id
+	coin.Commodities[def.Id].Default = true
 }
-- 
2.43.0


From f7720ced4fbbc2d9786796806734c9e0db234486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 63/83] fix: include the running balances in generated ledgers,
 not those on top of the final ones

---
 cmd/gen2coin/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/gen2coin/main.go b/cmd/gen2coin/main.go
index e01a2f3..24b63d5 100644
--- a/cmd/gen2coin/main.go
+++ b/cmd/gen2coin/main.go
@@ -72,6 +72,8 @@ func main() {
 
 	if withBalances {
 		for _, a := range coin.AccountsByName {
+			// the balance is the final one after generating the postings
+			a.Balance().SetInt64(0)
 			a.CheckPostings()
 		}
 	}
-- 
2.43.0


From f81143b38c18d5cf6de8ba5a0c0fd0ddd30446ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:27 +0000
Subject: [PATCH 64/83] fix: generate the dates of a week or month starting on
 the last day of the range

---
 cmd/gen2coin/dates.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/gen2coin/dates.go b/cmd/gen2coin/dates.go
index c144923..ebcdf9f 100644
--- a/cmd/gen2coin/dates.go
+++ b/cmd/gen2coin/dates.go
@@ -33,7 +33,7 @@ func weekly(count int, interval int, days ...time.Weekday) dateGen {
 		if interval < 1 {
 			interval = 1
 		}
-		for current.Before(end) {
+		for !current.After(end) {
 			picks := days
 			if count < len(picks) {
 				// random picks, each day can only be picked once
@@ -73,7 +73,7 @@ func monthly(count int, interval int, days ...int) dateGen {
 		if interval < 1 {
 			interval = 1
 		}
-		for current.Before(end) {
+		for !current.After(end) {
 			picks := days
 			if len(picks) == 0 {
 				_, _, nDays := current.AddDate(0, 1, -1).Date()
-- 
2.43.0


From d53d16054d776410c9b6f003a5cedddf8028f475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 65/83] fix: generate weekly and monthly dates in order and
 once, whichever way the days are given

---
 cmd/gen2coin/dates.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/gen2coin/dates.go b/cmd/gen2coin/dates.go
index ebcdf9f..adffd94 100644
--- a/cmd/gen2coin/dates.go
+++ b/cmd/gen2coin/dates.go
@@ -30,6 +30,8 @@ func weekly(count int, interval int, days ...time.Weekday) dateGen {
 		if len(days) == 0 {
 			days = anyday
 		}
+		days = append([]time.Weekday(nil), days...)
+		sort.Slice(days, func(i, j int) bool { return days[i] < days[j] })
 		if interval < 1 {
 			interval = 1
 		}
@@ -108,7 +110,12 @@ func monthly(count int, interval int, days ...int) dateGen {
 				}
 			}
 			sort.Slice(newDates, func(i, j int) bool { return newDates[i].Before(newDates[j]) })
-			dates = append(dates, newDates...)
+			for i, d := range newDates {
+				// days counted from the start and the end of the month can be the same
+				if i == 0 || !d.Equal(newDates[i-1]) {
+					dates = append(dates, d)
+				}
+			}
 			current = current.AddDate(0, 1*interval, 0)
 		}
 		return dates
-- 
2.43.0


From af4c31f21b56ccd453b55346f82a3a2b33678d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:37 +0000
Subject: [PATCH 66/83] fix: aggregate all accounts into others when less than
 none are asked for

---
 cmd/coin/totals.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index 73d2ad7..bb9ad03 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -405,6 +405,7 @@ func (ats accountTotals) top(n int) (topn accountTotals, order []*coin.Account)
 		}
 		return accounts[i].FullName < accounts[j].FullName
 	})
+	n = max(n, 0) // all are others then
 	if len(accounts) <= n {
 		return ats, accounts
 	}
-- 
2.43.0


From 4dcddb46e0b3def1cc140febbe59d45d321f9d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:30 +0000
Subject: [PATCH 67/83] fix: refuse rule sets that refer to themselves

---
 rules.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rules.go b/rules.go
index 30ed9c6..ff45dce 100644
--- a/rules.go
+++ b/rules.go
@@ -194,8 +194,10 @@ func ScanRules(line []byte, s *bufio.Scanner) (*RuleIndex, error) {
 			} else {
 				rs := &RuleSet{name: string(match[3])}
 				ri.Sets = append(ri.Sets, rs)
-				ri.SetsByName[rs.Name()] = rs
-				setRules = func(rules []Rules) { rs.Rules = rules }
+				setRules = func(rules []Rules) {
+					rs.Rules = rules
+					ri.SetsByName[rs.Name()] = rs // refer only to complete sets, never to itself
+				}
 			}
 			var rules []Rules
 			var lastRule *Rule
-- 
2.43.0


From 7455a5f9d79d88c4ca428aa1d9bbbaaab16f6b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:37 +0000
Subject: [PATCH 68/83] fix: refuse gnucash accounts that are their own
 ancestors

---
 gnucash/account.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gnucash/account.go b/gnucash/account.go
index ff14038..f010737 100644
--- a/gnucash/account.go
+++ b/gnucash/account.go
@@ -113,6 +113,16 @@ func resolveAccounts(accounts []*Account) {
 		a.Parent.Children = append(a.Parent.Children, a)
 	}
 
+	// The parents must lead up to the root.
+	for _, gca := range accounts {
+		depth := 0
+		for a := AccountsByGuid[gca.Guid]; a != nil; a = a.Parent {
+			if depth++; depth > len(AccountsByGuid) {
+				panic("account is its own ancestor: " + gca.Name)
+			}
+		}
+	}
+
 	// Sort children.
 	for _, a := range AccountsByGuid {
 		a.FullName = buildFullName(a)
-- 
2.43.0


From 2db160dad0c62d89a92b73f61c3212579eecf5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:08 +0000
Subject: [PATCH 69/83] fix: view a ledger without transactions

---
 cmd/coin2html/js/src/account.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/coin2html/js/src/account.ts b/cmd/coin2html/js/src/account.ts
index 38af2b9..fcf2858 100644
--- a/cmd/coin2html/js/src/account.ts
+++ b/cmd/coin2html/js/src/account.ts
@@ -239,7 +239,8 @@ export function loadAccounts(source: string) {
 
 export function loadTransactions(source: string) {
   const importedTransactions = JSON.parse(source) as importedTransactions;
-  for (const impTransaction of Object.values(importedTransactions)) {
+  // there may be no transactions
+  for (const impTransaction of Object.values(importedTransactions ?? [])) {
     const posted = new Date(impTransaction.posted);
     if (posted < MinDate) MinDate = posted;
     if (MaxDate < posted) MaxDate = posted;
-- 
2.43.0


From 724df482bbcc1f21c7d2f1547139617f09e3fa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:51 +0000
Subject: [PATCH 70/83] fix: read viewer amounts with any number of thousands
 separators

---
 cmd/coin2html/js/src/commodity.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/coin2html/js/src/commodity.ts b/cmd/coin2html/js/src/commodity.ts
index 64c0895..1e546c9 100644
--- a/cmd/coin2html/js/src/commodity.ts
+++ b/cmd/coin2html/js/src/commodity.ts
@@ -179,14 +179,15 @@ export class Amount {
 
     // drop the decimal point, make sure value aligns with commodity.decimals.
     let [int, dec] = parts[0].split(".");
+    // drop thousands separators if present
+    int = int.replaceAll(",", "");
     if (commodity.decimals > 0) {
       if (!dec) dec = "";
       dec =
         dec.length > commodity.decimals
           ? dec.slice(0, commodity.decimals)
           : dec + "0".repeat(commodity.decimals - dec.length);
-      // drop thousands separators if present
-      int = int.replace(",", "") + dec;
+      int = int + dec;
     }
     const value = parseInt(int);
     return new Amount(value, commodity);
-- 
2.43.0


From 88aa5cb182b105b4e1753ea80f7dcb1ccc23c232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:51 +0000
Subject: [PATCH 71/83] fix: show accounts called Root below other accounts in
 the viewer

---
 cmd/coin2html/js/src/account.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/coin2html/js/src/account.ts b/cmd/coin2html/js/src/account.ts
index fcf2858..d7ca9f2 100644
--- a/cmd/coin2html/js/src/account.ts
+++ b/cmd/coin2html/js/src/account.ts
@@ -220,7 +220,7 @@ export const Roots: Account[] = [];
 export function loadAccounts(source: string) {
   const importedAccounts = JSON.parse(source) as importedAccounts;
   for (const impAccount of Object.values(importedAccounts)) {
-    if (impAccount.name == "Root") continue;
+    if (impAccount.fullName == "Root") continue;
     const parent = Accounts[impAccount.parent];
     const account = new Account(
       impAccount.name,
-- 
2.43.0


From b4ba1c114c2283de56cdae505cbc81d959a5b025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:54 +0000
Subject: [PATCH 72/83] fix: keep to one time zone in the viewer

---
 cmd/coin2html/js/src/account.ts                      |  9 +++++----
 cmd/coin2html/js/src/commodity.ts                    |  8 ++++----
 cmd/coin2html/js/src/ui.ts                           |  8 ++++++--
 cmd/coin2html/js/src/utils.ts                        |  5 +++++
 cmd/coin2html/js/src/views.ts                        | 10 +++++-----
 cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts |  4 ++--
 6 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/cmd/coin2html/js/src/account.ts b/cmd/coin2html/js/src/account.ts
index d7ca9f2..8e256ed 100644
--- a/cmd/coin2html/js/src/account.ts
+++ b/cmd/coin2html/js/src/account.ts
@@ -5,6 +5,7 @@ import {
   AccountPostingGroups,
   dateToString,
   groupBy,
+  stringToDate,
   trimToDateRange,
 } from "./utils";
 
@@ -227,7 +228,7 @@ export function loadAccounts(source: string) {
       impAccount.fullName,
       Commodity.find(impAccount.commodity),
       parent,
-      impAccount.closed ? new Date(impAccount.closed) : undefined,
+      impAccount.closed ? stringToDate(impAccount.closed) : undefined,
       impAccount.location,
     );
     Accounts[account.fullName] = account;
@@ -241,7 +242,7 @@ export function loadTransactions(source: string) {
   const importedTransactions = JSON.parse(source) as importedTransactions;
   // there may be no transactions
   for (const impTransaction of Object.values(importedTransactions ?? [])) {
-    const posted = new Date(impTransaction.posted);
+    const posted = stringToDate(impTransaction.posted);
     if (posted < MinDate) MinDate = posted;
     if (MaxDate < posted) MaxDate = posted;
     const transaction = new Transaction(
@@ -269,6 +270,6 @@ export function loadTransactions(source: string) {
       );
     }
   }
-  MinDate = new Date(MinDate.getFullYear(), 0, 1);
-  MaxDate = new Date(MaxDate.getFullYear(), 11, 31);
+  MinDate = new Date(Date.UTC(MinDate.getUTCFullYear(), 0, 1));
+  MaxDate = new Date(Date.UTC(MaxDate.getUTCFullYear(), 11, 31));
 }
diff --git a/cmd/coin2html/js/src/commodity.ts b/cmd/coin2html/js/src/commodity.ts
index 1e546c9..02cbbc2 100644
--- a/cmd/coin2html/js/src/commodity.ts
+++ b/cmd/coin2html/js/src/commodity.ts
@@ -1,6 +1,6 @@
 import { scaleTime } from "d3-scale";
-import { timeWeek } from "d3-time";
-import { dateToString, last } from "./utils";
+import { utcWeek } from "d3-time";
+import { dateToString, last, stringToDate } from "./utils";
 
 // Commodity, Amount and Price
 
@@ -19,7 +19,7 @@ export function newConversion(knownPrices: Price[]): Conversion {
     throw new Error("cannot create conversion from empty price list");
   const from = knownPrices[0].date;
   const to = last(knownPrices)!.date;
-  const dates = timeWeek.range(from, to);
+  const dates = utcWeek.range(from, to);
   const params = {
     from: knownPrices[0].commodity,
     to: knownPrices[0].value.commodity,
@@ -340,7 +340,7 @@ export function loadPrices(source: string) {
       }
       const price = new Price(
         commodity,
-        new Date(imported.time),
+        stringToDate(imported.time),
         amount,
         imported.location
       );
diff --git a/cmd/coin2html/js/src/ui.ts b/cmd/coin2html/js/src/ui.ts
index 2d4fe01..5b900eb 100644
--- a/cmd/coin2html/js/src/ui.ts
+++ b/cmd/coin2html/js/src/ui.ts
@@ -34,8 +34,12 @@ function initializeUI() {
   State.EndDate = MaxDate;
   State.ShowClosedAccounts = false;
 
-  const minDate = dateToString(new Date(MinDate.getFullYear(), 1, 1));
-  const maxDate = dateToString(new Date(MaxDate.getFullYear() + 1, 1, 1));
+  const minDate = dateToString(
+    new Date(Date.UTC(MinDate.getUTCFullYear(), 1, 1)),
+  );
+  const maxDate = dateToString(
+    new Date(Date.UTC(MaxDate.getUTCFullYear() + 1, 1, 1)),
+  );
   select(EndDateInput)
     .property("valueAsDate", State.EndDate)
     .property("min", minDate)
diff --git a/cmd/coin2html/js/src/utils.ts b/cmd/coin2html/js/src/utils.ts
index 19c5920..b588ee0 100644
--- a/cmd/coin2html/js/src/utils.ts
+++ b/cmd/coin2html/js/src/utils.ts
@@ -6,6 +6,11 @@ export function dateToString(date: Date): string {
   return date.toISOString().split("T")[0];
 }
 
+// parse exported date, e.g. 2020/01/31; dates are UTC like the values of date inputs
+export function stringToDate(date: string): Date {
+  return new Date(date.replaceAll("/", "-"));
+}
+
 export function trimToDateRange(postings: Posting[], start: Date, end: Date) {
   const from = postings.findIndex((p) => p.transaction.posted >= start);
   if (from < 0) return [];
diff --git a/cmd/coin2html/js/src/views.ts b/cmd/coin2html/js/src/views.ts
index c42468b..9d4d4a4 100644
--- a/cmd/coin2html/js/src/views.ts
+++ b/cmd/coin2html/js/src/views.ts
@@ -1,5 +1,5 @@
 import { select } from "d3-selection";
-import { timeMonth, timeWeek, timeYear } from "d3-time";
+import { utcMonth, utcWeek, utcYear } from "d3-time";
 import {
   renderPostings,
   renderPostingsWithSubAccounts,
@@ -13,10 +13,10 @@ import { viewBalancesChart } from "./viewsBalancesChart";
 
 export const Aggregation = {
   None: null,
-  Weekly: timeWeek,
-  Monthly: timeMonth,
-  Quarterly: timeMonth.every(3),
-  Yearly: timeYear,
+  Weekly: utcWeek,
+  Monthly: utcMonth,
+  Quarterly: utcMonth.every(3),
+  Yearly: utcYear,
 };
 
 export enum AggregationStyle {
diff --git a/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts b/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
index be06439..405c31d 100644
--- a/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
+++ b/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
@@ -18,7 +18,7 @@ import {
 } from "./utils";
 import { Account } from "./account";
 import { axisLeft, axisTop } from "d3-axis";
-import { scaleLinear, scaleOrdinal, scaleTime } from "d3-scale";
+import { scaleLinear, scaleOrdinal, scaleUtc } from "d3-scale";
 import { schemeCategory10 } from "d3-scale-chromatic";
 import { select } from "d3-selection";
 
@@ -99,7 +99,7 @@ export function viewAggregatedRegisterChart(options?: {
     .attr("transform", "translate(" + margin.left + "," + margin.top + ")");
 
   var x = scaleLinear([0, max], [0, width]).nice();
-  var y = scaleTime([State.StartDate, State.EndDate], [0, height]);
+  var y = scaleUtc([State.StartDate, State.EndDate], [0, height]);
   var z = scaleOrdinal([0, maxAccounts], schemeCategory10);
   var xAxis = axisTop(x);
   var yAxis = axisLeft(y).ticks(groupKey, "%Y/%m/%d");
-- 
2.43.0


From 2208edaaea1e26574e652024a2fef61c424b934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:46 +0000
Subject: [PATCH 73/83] fix: export transactions in the order that their
 balances follow

---
 coin.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/coin.go b/coin.go
index f8e6c0c..4ea4113 100644
--- a/coin.go
+++ b/coin.go
@@ -285,7 +285,14 @@ func ResolveTransactions(checkPostings bool) {
 			a.CheckPostings()
 		}
 	})
-	sort.Stable(Transactions)
+	if checkPostings {
+		// keep to the order that the balances of the postings follow
+		sort.SliceStable(Transactions, func(i, j int) bool {
+			return Transactions[i].Posted.Before(Transactions[j].Posted)
+		})
+	} else {
+		sort.Stable(Transactions)
+	}
 }
 
 // MustFindAccount returns an account matching the pattern.
-- 
2.43.0


From 6f36b9d9573badf1b358cb1939163eb69c5e73b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 74/83] fix: aggregate all postings of the selected time range
 in the viewer

---
 cmd/coin2html/js/src/utils.ts                  | 18 +++++++++++++-----
 .../js/src/viewsAggregatedRegisterChart.ts     |  3 ++-
 cmd/coin2html/js/src/viewsRegister.ts          |  5 +++--
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/cmd/coin2html/js/src/utils.ts b/cmd/coin2html/js/src/utils.ts
index b588ee0..f18b385 100644
--- a/cmd/coin2html/js/src/utils.ts
+++ b/cmd/coin2html/js/src/utils.ts
@@ -43,6 +43,12 @@ export function balanceOrSum(g: PostingGroup) {
     : g.balance;
 }
 
+// dates of the groups that cover the selected time range, the first and the last one possibly in part
+export function groupDates(groupBy: d3.TimeInterval): Date[] {
+  const afterEnd = new Date(State.EndDate.getTime() + 1);
+  return groupBy.range(groupBy.floor(State.StartDate), afterEnd);
+}
+
 export function groupBy(
   postings: Posting[],
   groupBy: d3.TimeInterval,
@@ -58,7 +64,7 @@ export function groupBy(
   const data: PostingGroup[] = [];
   const total = new Amount(0, commodity);
   let balance = new Amount(0, commodity);
-  return groupBy.range(State.StartDate, State.EndDate).map((date) => {
+  return groupDates(groupBy).map((date) => {
     let postings = groups.get(dateToString(date));
     const sum = new Amount(0, commodity);
     if (!postings || postings.length == 0) {
@@ -140,12 +146,14 @@ export function groupByWithSubAccounts(
   );
   // compute average for each account
   const averages = groups.map((g, i) => {
-    const lastGroup = last(g.groups)!;
+    const lastGroup = last(g.groups);
     return {
       index: i,
-      avg:
-        account.commodity.convert(lastGroup.total, lastGroup.date).toNumber() /
-        g.groups.length,
+      avg: lastGroup
+        ? account.commodity
+            .convert(lastGroup.total, lastGroup.date)
+            .toNumber() / g.groups.length
+        : 0,
     };
   });
   // sort by average and pick top accounts
diff --git a/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts b/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
index 405c31d..311cb80 100644
--- a/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
+++ b/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
@@ -13,6 +13,7 @@ import {
 } from "./views";
 import {
   groupByWithSubAccounts,
+  groupDates,
   PostingGroup,
   shortenAccountName,
 } from "./utils";
@@ -40,7 +41,7 @@ export function viewAggregatedRegisterChart(options?: {
   addExcludedSubAccountsSpan(containerSelector, account);
 
   const groupKey = Aggregation[State.View.Aggregate] as d3.TimeInterval;
-  const dates = groupKey.range(State.StartDate, State.EndDate);
+  const dates = groupDates(groupKey);
   const maxAccounts = State.View.AggregatedSubAccountMax;
   const accountGroups = groupByWithSubAccounts(
     account,
diff --git a/cmd/coin2html/js/src/viewsRegister.ts b/cmd/coin2html/js/src/viewsRegister.ts
index a7b8836..cb9c222 100644
--- a/cmd/coin2html/js/src/viewsRegister.ts
+++ b/cmd/coin2html/js/src/viewsRegister.ts
@@ -20,6 +20,7 @@ import {
   dateToString,
   groupBy,
   groupByWithSubAccounts,
+  groupDates,
   last,
   PostingGroup,
   shortenAccountName,
@@ -84,7 +85,7 @@ function viewRegisterAggregated(
   if (options.aggregatedTotal) labels.push("Cum.Total");
   const table = addTableWithHeader(containerSelector, labels);
   const data = groupBy(
-    account.postings,
+    trimToDateRange(account.postings, State.StartDate, State.EndDate),
     groupKey,
     (p) => p.transaction.posted,
     account.commodity,
@@ -121,7 +122,7 @@ function viewRegisterAggregatedWithSubAccounts(
     exclude: Account[];
   },
 ) {
-  const dates = groupKey.range(State.StartDate, State.EndDate);
+  const dates = groupDates(groupKey);
   const groups = groupByWithSubAccounts(
     account,
     groupKey,
-- 
2.43.0


From 3b8452e356fa7e15ab93e6d4157304b20833093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 75/83] fix: start from the balance before the selected time
 range in the viewer

---
 cmd/coin2html/js/src/account.ts       | 21 +++++++++++++++------
 cmd/coin2html/js/src/utils.ts         |  3 ++-
 cmd/coin2html/js/src/viewsRegister.ts |  8 +++-----
 3 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/cmd/coin2html/js/src/account.ts b/cmd/coin2html/js/src/account.ts
index 8e256ed..2f3c03e 100644
--- a/cmd/coin2html/js/src/account.ts
+++ b/cmd/coin2html/js/src/account.ts
@@ -5,6 +5,7 @@ import {
   AccountPostingGroups,
   dateToString,
   groupBy,
+  PostingGroup,
   stringToDate,
   trimToDateRange,
 } from "./utils";
@@ -69,6 +70,19 @@ export class Account {
           a.transaction.posted.getTime() - b.transaction.posted.getTime(),
       );
   }
+  postingGroups(
+    from: Date,
+    to: Date,
+    groupKey: d3.TimeInterval,
+  ): PostingGroup[] {
+    return groupBy(
+      trimToDateRange(this.postings, from, to),
+      groupKey,
+      (p) => p.transaction.posted,
+      this.commodity,
+      this.balanceAt(new Date(from.getTime() - 1)),
+    );
+  }
   withAllChildPostingGroups(
     from: Date,
     to: Date,
@@ -81,12 +95,7 @@ export class Account {
     accounts = accounts.filter((a) => a.postings.length > 0);
     return accounts.map((acc) => ({
       account: acc,
-      groups: groupBy(
-        trimToDateRange(acc.postings, from, to),
-        groupKey,
-        (p) => p.transaction.posted,
-        acc.commodity,
-      ),
+      groups: acc.postingGroups(from, to, groupKey),
     }));
   }
   withAllChildBalances(
diff --git a/cmd/coin2html/js/src/utils.ts b/cmd/coin2html/js/src/utils.ts
index f18b385..7a91654 100644
--- a/cmd/coin2html/js/src/utils.ts
+++ b/cmd/coin2html/js/src/utils.ts
@@ -54,6 +54,7 @@ export function groupBy(
   groupBy: d3.TimeInterval,
   date: (p: Posting) => Date,
   commodity: Commodity,
+  opening?: Amount, // balance before the first of the postings
 ): PostingGroup[] {
   const groups = new Map<string, Posting[]>();
   for (const p of postings) {
@@ -63,7 +64,7 @@ export function groupBy(
   }
   const data: PostingGroup[] = [];
   const total = new Amount(0, commodity);
-  let balance = new Amount(0, commodity);
+  let balance = opening ?? new Amount(0, commodity);
   return groupDates(groupBy).map((date) => {
     let postings = groups.get(dateToString(date));
     const sum = new Amount(0, commodity);
diff --git a/cmd/coin2html/js/src/viewsRegister.ts b/cmd/coin2html/js/src/viewsRegister.ts
index cb9c222..3908dca 100644
--- a/cmd/coin2html/js/src/viewsRegister.ts
+++ b/cmd/coin2html/js/src/viewsRegister.ts
@@ -18,7 +18,6 @@ import { Account, Posting } from "./account";
 import {
   balanceOrSum,
   dateToString,
-  groupBy,
   groupByWithSubAccounts,
   groupDates,
   last,
@@ -84,11 +83,10 @@ function viewRegisterAggregated(
   const labels = ["Date", "Amount"];
   if (options.aggregatedTotal) labels.push("Cum.Total");
   const table = addTableWithHeader(containerSelector, labels);
-  const data = groupBy(
-    trimToDateRange(account.postings, State.StartDate, State.EndDate),
+  const data = account.postingGroups(
+    State.StartDate,
+    State.EndDate,
     groupKey,
-    (p) => p.transaction.posted,
-    account.commodity,
   );
   table
     .append("tbody")
-- 
2.43.0


From 5a3267faa86bf1da8ff6426c4ca130ac6a56af19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:07 +0000
Subject: [PATCH 76/83] fix: allow the whole first year to be selected in the
 viewer

Months are counted from 0, so that the dates of the viewer could not be
set to anything in the first January of the ledger.
---
 cmd/coin2html/js/src/ui.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/coin2html/js/src/ui.ts b/cmd/coin2html/js/src/ui.ts
index 5b900eb..6ce23c6 100644
--- a/cmd/coin2html/js/src/ui.ts
+++ b/cmd/coin2html/js/src/ui.ts
@@ -35,10 +35,10 @@ function initializeUI() {
   State.ShowClosedAccounts = false;
 
   const minDate = dateToString(
-    new Date(Date.UTC(MinDate.getUTCFullYear(), 1, 1)),
+    new Date(Date.UTC(MinDate.getUTCFullYear(), 0, 1)),
   );
   const maxDate = dateToString(
-    new Date(Date.UTC(MaxDate.getUTCFullYear() + 1, 1, 1)),
+    new Date(Date.UTC(MaxDate.getUTCFullYear() + 1, 0, 1)),
   );
   select(EndDateInput)
     .property("valueAsDate", State.EndDate)
-- 
2.43.0


From b4275f3daddbddcb417cc474b35ef532c8fd635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:09 +0000
Subject: [PATCH 77/83] fix: show the cumulative total in the aggregated
 register with sub-accounts

The Cum.Total column repeated the Total column.
---
 cmd/coin2html/js/src/viewsRegister.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/coin2html/js/src/viewsRegister.ts b/cmd/coin2html/js/src/viewsRegister.ts
index 3908dca..42be0ee 100644
--- a/cmd/coin2html/js/src/viewsRegister.ts
+++ b/cmd/coin2html/js/src/viewsRegister.ts
@@ -187,7 +187,7 @@ function viewRegisterAggregatedWithSubAccounts(
       columns.unshift([row[0], (g) => dateToString(g.date), "date"]);
       // append total correctly
       if (options.aggregatedTotal)
-        columns.push([total, (g) => balanceOrSum(g).toString(), "amount"]);
+        columns.push([total, (g) => g.total.toString(), "amount"]);
       return columns;
     })
     .join("td")
-- 
2.43.0


From acac0816528c2cc41be62a0f4be2d67dd4fc2319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:25 +0000
Subject: [PATCH 78/83] fix: show transactions without an opposite posting in
 the viewer

A transaction with just one posting, or with several of the same sign,
made the register of the account fail.
---
 cmd/coin2html/js/src/account.ts       | 13 +++++++------
 cmd/coin2html/js/src/viewsRegister.ts |  4 ++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/cmd/coin2html/js/src/account.ts b/cmd/coin2html/js/src/account.ts
index 2f3c03e..d44a427 100644
--- a/cmd/coin2html/js/src/account.ts
+++ b/cmd/coin2html/js/src/account.ts
@@ -183,13 +183,14 @@ export class Transaction {
   // return the other posting in this transaction
   // less clear in multi-posting transactions
   // return first posting that isn't notThis and has the opposite sign
-  other(notThis: Posting): Posting {
+  // undefined if there is no other posting
+  other(notThis: Posting): Posting | undefined {
     const notThisSign = notThis.quantity.sign;
-    for (const p of this.postings) {
-      if (p != notThis && (p.quantity.sign != notThisSign || notThisSign == 0))
-        return p;
-    }
-    throw new Error(`No other posting? ${notThis}`);
+    const others = this.postings.filter((p) => p != notThis);
+    return (
+      others.find((p) => p.quantity.sign != notThisSign || notThisSign == 0) ??
+      others[0]
+    );
   }
 }
 
diff --git a/cmd/coin2html/js/src/viewsRegister.ts b/cmd/coin2html/js/src/viewsRegister.ts
index 42be0ee..0f19abb 100644
--- a/cmd/coin2html/js/src/viewsRegister.ts
+++ b/cmd/coin2html/js/src/viewsRegister.ts
@@ -254,7 +254,7 @@ export function renderPostings(
       const values = [
         [dateToString(p.transaction.posted), "date"],
         [p.transaction.description, "text"],
-        [p.transaction.other(p).account, "account"],
+        [p.transaction.other(p)?.account ?? "", "account"],
         [p.quantity, "amount"],
         [p.balance, "amount"],
         [Amount.clone(total), "amount"],
@@ -338,7 +338,7 @@ export function renderPostingsWithSubAccounts(
         [dateToString(p.transaction.posted), "date"],
         [p.transaction.description, "text"],
         [shortenAccountName(account.relativeName(p.account), 30), "account"],
-        [p.transaction.other(p).account, "account"],
+        [p.transaction.other(p)?.account ?? "", "account"],
         [p.quantity, "amount"],
         [Amount.clone(total), "amount"],
       ];
-- 
2.43.0


From 26216f082a6bc06b6ce2b4e1a229ea544a1c7df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:41 +0000
Subject: [PATCH 79/83] fix: an inverted tag pattern selects exactly what the
 pattern does not

With several tags -t !x selected postings tagged x, and never any posting without tags.
---
 cmd/coin/balance.go  |  2 +-
 cmd/coin/register.go |  2 +-
 tags.go              | 19 ++++++++++---------
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/cmd/coin/balance.go b/cmd/coin/balance.go
index 77997ae..7f4b229 100644
--- a/cmd/coin/balance.go
+++ b/cmd/coin/balance.go
@@ -98,7 +98,7 @@ func (cmd *cmdBalance) trim(ps []*coin.Posting) postings {
 		var pps []*coin.Posting
 		r := coin.NewTagMatcher(cmd.tag)
 		for _, p := range ps {
-			if r.Match(p.Tags) || r.Match(p.Transaction.Tags) {
+			if r.Match(p.Tags, p.Transaction.Tags) {
 				pps = append(pps, p)
 			}
 		}
diff --git a/cmd/coin/register.go b/cmd/coin/register.go
index d38b8ed..e7f7a12 100644
--- a/cmd/coin/register.go
+++ b/cmd/coin/register.go
@@ -197,7 +197,7 @@ func (cmd *cmdRegister) trim(ps []*coin.Posting) postings {
 		var pps []*coin.Posting
 		r := coin.NewTagMatcher(cmd.tag)
 		for _, p := range ps {
-			if r.Match(p.Tags) || r.Match(p.Transaction.Tags) {
+			if r.Match(p.Tags, p.Transaction.Tags) {
 				pps = append(pps, p)
 			}
 		}
diff --git a/tags.go b/tags.go
index 351cae9..5069951 100644
--- a/tags.go
+++ b/tags.go
@@ -79,7 +79,7 @@ func (t Tags) With(t2 Tags) Tags {
 // matched against a tag key and optionally a tag value.
 type TagMatcher struct {
 	Key, Value *regexp.Regexp
-	inverted   bool // match if key/value not matching
+	inverted   bool // match if no key/value matches
 }
 
 func NewTagMatcher(exp string) *TagMatcher {
@@ -100,14 +100,15 @@ func NewTagMatcher(exp string) *TagMatcher {
 	return &TagMatcher{Key: key, Value: value, inverted: inverted}
 }
 
-func (m *TagMatcher) Match(tags Tags) bool {
-	if tags == nil {
-		return false
-	}
-	for k, v := range tags {
-		if match := m.Key.MatchString(k) && (m.Value == nil || m.Value.MatchString(v)); match && !m.inverted || !match && m.inverted {
-			return true
+// Match tells whether any of the tags matches the expression,
+// or that none of them does if the expression is inverted.
+func (m *TagMatcher) Match(tags ...Tags) bool {
+	for _, ts := range tags {
+		for k, v := range ts {
+			if m.Key.MatchString(k) && (m.Value == nil || m.Value.MatchString(v)) {
+				return !m.inverted
+			}
 		}
 	}
-	return false
+	return m.inverted
 }
-- 
2.43.0


From 166b532c4bf8c696a3d2139d498e81d7d7402c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:42 +0000
Subject: [PATCH 80/83] fix: refuse repeated import rule sets and account ids

---
 rules.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rules.go b/rules.go
index ff45dce..01f6efe 100644
--- a/rules.go
+++ b/rules.go
@@ -188,11 +188,18 @@ func ScanRules(line []byte, s *bufio.Scanner) (*RuleIndex, error) {
 		if match != nil {
 			var setRules func(rules []Rules)
 			if len(match[1]) > 0 {
+				id := string(match[1])
+				if ri.Accounts[id] != nil {
+					return nil, fmt.Errorf("duplicate rules for account id: %s", line)
+				}
 				ar := &AccountRules{Account: MustFindAccount(string(match[2]))}
-				ri.Accounts[string(match[1])] = ar
+				ri.Accounts[id] = ar
 				setRules = func(rules []Rules) { ar.Rules = rules }
 			} else {
 				rs := &RuleSet{name: string(match[3])}
+				if ri.SetsByName[rs.name] != nil {
+					return nil, fmt.Errorf("duplicate rule set: %s", line)
+				}
 				ri.Sets = append(ri.Sets, rs)
 				setRules = func(rules []Rules) {
 					rs.Rules = rules
-- 
2.43.0


From fc5fb6d174d071dc74c1c80009c709c1ad62c7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:42 +0000
Subject: [PATCH 81/83] fix: refuse repeated csv sources in the import rules

---
 cmd/csv2coin/rules.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index fe1ec5d..463b21c 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -229,6 +229,7 @@ func ReadRules(r io.Reader) *Rules {
 		}
 		source := ScanSource(s.Bytes(), s)
 		check.If(source != nil, "invalid source definition in rules file: %s", string(s.Bytes()))
+		check.If(rules.sources[source.name] == nil, "duplicate source in rules file: %s", source.name)
 		rules.sources[source.name] = source
 	}
 	if !more || !s.Scan() { // nothing after the sources
-- 
2.43.0


From 8173c1eea810229dc00cc9b5129907ba4dea72f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:45 +0000
Subject: [PATCH 82/83] fix: rewriting a file through a symbolic link keeps the
 link

---
 cmd/coin/utils.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/coin/utils.go b/cmd/coin/utils.go
index e32d806..8c1f88d 100644
--- a/cmd/coin/utils.go
+++ b/cmd/coin/utils.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path"
+	"path/filepath"
 	"sort"
 	"strings"
 
@@ -27,7 +28,11 @@ func decode(name, encoded string) (decoded []byte) {
 
 // rewriteFile replaces content of the file with whatever the write function writes.
 // The file has either the complete old content or the complete new content at all times.
+// A symbolic link keeps leading to the file.
 func rewriteFile(fn string, write func(w io.Writer) error) {
+	if target, err := filepath.EvalSymlinks(fn); err == nil {
+		fn = target
+	}
 	tf, err := os.CreateTemp(path.Dir(fn), path.Base(fn))
 	check.NoError(err, "creating temp file")
 	bw := bufio.NewWriter(tf)
-- 
2.43.0


From cce4f6620b4d5ecfa2a241fb738876786ebede45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:54 +0000
Subject: [PATCH 83/83] fix: refuse to run tests within a test

---
 cmd/coin/test.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/coin/test.go b/cmd/coin/test.go
index 2eaa6fc..d910058 100644
--- a/cmd/coin/test.go
+++ b/cmd/coin/test.go
@@ -93,6 +93,10 @@ func (cmd *cmdTest) execute(f io.Writer) {
 			fmt.Fprintf(os.Stderr, "FAIL: command unknown: %s %s\n", args[0], t.Location())
 			return
 		}
+		if _, isTest := command.(*cmdTest); isTest {
+			fmt.Fprintf(os.Stderr, "FAIL: test cannot run tests: %s\n", t.Location())
+			return
+		}
 		command = command.newCommand(command.Name())
 		if len(args) > 1 {
 			command.Parse(args[1:])
-- 
2.43.0

