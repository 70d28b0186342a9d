#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Amounts are exact decimals, cut toward zero at the commodity's precision",
 "An amount keeps exactly the decimal value that was written, cut toward zero (never rounded, identically for positive and negative values) to the number of decimals of its commodity, and it prints with exactly that many decimals, so that reading the printed text back gives the same amount. Sums, negation, comparison, sign and the column width computed for an amount agree with exact decimal arithmetic for every magnitude that is accepted.",
 ["inputs"], "every decimal literal (sign, leading zeros, 0..17 decimals, up to 18 digits) x every commodity precision 0..12, pairs of amounts, fractions num/den of any size",
 "amount_test.go samples a dozen positive literals; rounding direction, carries, sign symmetry and width at powers of ten depend on the value and are sampled nowhere for negative inputs.",
 ["amount.go", "pow10.go", "commodity.go"],
 [("literal parsing and rescaling", "amount.go parseAmount/NewAmountFrac"), ("printing and widths", "amount.go String/Format/Width"), ("aligned arithmetic", "amount.go AddIn/Cmp/Times")],
 ["coin package amount API", "coin format/balance output"])

prop("C02", "A transaction loads exactly when it balances; an omitted amount is filled in",
 "A transaction whose accounts all share one commodity is accepted exactly when the stated amounts (one stated in another commodity converted at the latest price) sum to zero or exactly one posting leaves its amount out, and that posting then gets exactly the negated sum of the others. A transaction mixing accounts of different commodities is accepted exactly when every posting states its amount. Anything else stops the load with a non-zero exit and a message naming the file and line of the offending transaction.",
 ["inputs"], "every transaction of 2..6 postings over 1..3 commodities with 0..6 omitted amounts, at any position in any file of the ledger, with imbalances down to the last decimal",
 "transaction_test.go loads a few balanced samples; no test loads an unbalanced transaction or one where the imbalance is a single last-place unit, or a mixed one lacking an amount.",
 ["coin.go", "transaction.go", "amount.go"],
 [("balance check and fill-in", "coin.go ResolveTransactions"), ("posting parse", "transaction.go parseTransaction")],
 ["exit code and stderr of every command that loads a ledger", "coin register / format output for the filled amount"])

prop("C03", "The balance report equals the exact sums of the selected postings",
 "For every ledger and every selection of account, date range (begin day included, end day excluded), payee pattern and tag pattern, the balance report shows for each account the exact sum of its selected postings and the exact sum over the account and all its sub-accounts, sub-accounts listed below their parent in name order. Accounts whose cumulative total is zero are left out unless asked for, and the depth limit only hides rows without changing any number.",
 ["inputs", "histories"], "every ledger (accounts tree, transactions, notes, tags) x every combination of balance flags",
 "The two .test fixtures cover one small ledger each with a couple of flag values; range boundaries, case-insensitive patterns, posting vs transaction tags and cumulative sums over deep trees are not exercised together.",
 ["cmd/coin/balance.go", "cmd/coin/utils.go", "account.go", "tags.go"],
 [("selection", "balance.go trim, utils.go trim"), ("cumulative propagation", "balance.go execute"), ("row filter", "balance.go print")],
 ["stdout of coin balance"])

prop("C04", "The register lists exactly the selected postings with exact running totals",
 "The non-aggregated register of an account lists exactly the selected postings (of the account, or of it and all sub-accounts when recursive), by date and, for each account, in load order on the same day, each with its date, payee, counter account, amount, exact running total, assertion mark and, when asked for, notes and file location. Selection by date range includes the begin day and excludes the end day, payee and tag patterns ignore case, and an inverted payee or tag pattern selects exactly the postings the pattern does not.",
 ["inputs", "histories"], "every ledger x every combination of register flags -r -b -e -p -t -n -f -l and account argument",
 "Fixtures list one small ledger with few flag combinations; no test combines recursion with inverted patterns, ties on one day across files, or range boundaries.",
 ["cmd/coin/register.go", "cmd/coin/postings.go", "cmd/coin/utils.go", "account.go"],
 [("selection", "register.go trim"), ("ordering", "account.go addPosting/findPosting, register.go fullRegister"), ("running totals", "postings.go totals/print/printLong")],
 ["stdout of coin register"])

prop("C05", "Aggregated registers conserve every amount in every grouping",
 "Aggregating an account tree by week, month, quarter or year and/or by payee or tags puts every selected posting into exactly one cell: each cell is the exact sum of that account's (recursively: that subtree's) selected postings in that period and category, every period or category occurring in the tree has a row, and rows are in order. When there are more accounts than the requested number of largest ones, the remaining ones are summed exactly into one Other column; cumulative mode shows running sums over the periods. Text, CSV and JSON output carry the same cells, each in its account's own commodity; a subaccount's cell in another commodity is added at the latest price, or the command refuses when there is none.",
 ["inputs", "histories"], "every account tree and history x period x category x -r x -c x -g N (single commodity) x filters x output format",
 "totals_test.go and the fixtures merge a few handmade series; conservation over sparse periods, missing categories, exactly N+1 accounts, ties and empty payees is never checked.",
 ["cmd/coin/totals.go", "cmd/coin/register.go"],
 [("period and category reduction", "totals.go timeReducer/categoryReducer"), ("series merge", "totals.go mergeTotals"), ("top-N and Other", "totals.go top"), ("output", "totals.go print/rows")],
 ["stdout of coin register -w|-m|-q|-y|-bp|-bt with -o text|csv|json"])

prop("C06", "Balance assertions warn exactly when the running balance differs",
 "Loading a ledger warns about a posting with a balance assertion exactly when the asserted balance differs from the sum of that account's posting amounts up to and including that posting, taken by date and on the same day in load order; the warning names the account, date, actual and asserted balance and the location. A warning changes no report and the command still succeeds.",
 ["inputs", "histories"], "every history of postings and assertions (true, off by one unit, same-day ties, several files), all commands that load a ledger",
 "No test in the suite has a failing assertion, and none checks the order in which same-day postings are accumulated.",
 ["account.go", "coin.go", "transaction.go"],
 [("assertion check", "account.go CheckPostings"), ("posting order", "account.go addPosting/sortPostings")],
 ["stderr of coin balance / register / stats"])

prop("C07", "Formatting preserves every transaction, sorts them and is idempotent",
 "Formatting a file of transactions yields a file that loads to the same transactions: same dates, codes, descriptions, notes, tags, accounts, amounts and balance assertions, each exactly once, ordered by date with the original order kept within a day except that transactions with assertions come after those without. Formatting the result again reproduces it byte for byte, accounts and amounts line up in columns, whitespace trimming only collapses runs of blanks in descriptions and transaction notes, and the ledger option only puts quotes around commodity names that ledger requires quoted.",
 ["inputs", "programs"], "every transaction file in the documented syntax: short and long notes, codes, elided amounts, assertions, unicode, lines around the 80 column limit, x the options -t and -ledger",
 "The format fixtures contain four transactions; the note-inlining boundary, empty descriptions, note text containing separators, and re-parsing of the output are not tested.",
 ["transaction.go", "posting.go", "cmd/coin/format.go", "commodity.go"],
 [("writer", "transaction.go Write, posting.go Write"), ("reader", "transaction.go parseTransaction"), ("order", "transaction.go Less"), ("quoting", "commodity.go SafeId")],
 ["stdout of coin format"])

prop("C08", "In-place rewriting never loses the file",
 "Commands that rewrite a file in place (format in place, modify, filling in test results) leave at that path, at every moment, either the complete old content or the complete new content, whether they finish, are killed, or fail to write all of the new content. A failed rewrite exits non-zero and leaves the old content; a successful one leaves exactly the new content and nothing else in the directory, with the permissions the file had and through any symbolic links that lead to it, and several files given at once each keep their own transactions.",
 ["crash_points", "fault_sequences", "inputs"], "every file content and size, every file-system step of the rewrite as crash point, every byte position at which writing may fail, every list of files",
 "Nothing in the suite rewrites a file in place; crash points and short writes are invisible to a test that only looks at the final state.",
 ["cmd/coin/format.go", "cmd/coin/modify.go", "cmd/coin/test.go"],
 [("temp file and replace", "format.go execute, modify.go execute, test.go updateTestFile")],
 ["directory events and file content while the command runs", "exit code and directory content after an injected write failure"])

prop("C09", "Modify changes every selected posting and transaction and nothing else",
 "Modifying files moves and/or tags every posting selected by account or posting tag within the transactions selected by payee and transaction tag, and adds the transaction tag to every transaction so selected. Added tags are afterwards found with the given key and value and no tag present before is lost or altered; everything not selected comes out exactly as plain formatting would write it.",
 ["inputs", "programs"], "every transaction file x every combination of selectors -p -tt -pt -a and actions -a: -pt: -tt:",
 "Two fixtures modify one posting each; several matching postings in one transaction, existing tags or notes and selector combinations are not covered.",
 ["cmd/coin/modify.go", "account.go", "tags.go"],
 [("selection", "modify.go modify"), ("move", "account.go MoveTo/addPosting/deletePosting"), ("tagging", "modify.go modifyPosting/addTagLine")],
 ["file content after coin modify", "coin test with modify clauses"])

prop("C10", "Reports do not depend on how entries are divided among files",
 "A ledger gives the same balances, registers, price lists, tags and counts however its entries are divided among transaction files, price files and included files, and every entry is loaded exactly once for each time its file is named; a file that includes itself is refused. Included paths and patterns are resolved relative to the including file, a leading slash relative to the working directory, and environment variables are expanded; other files in the directory are ignored.",
 ["configurations", "inputs"], "every division of a ledger's entries into files (yearly files, one transactions file, prices.coin or *.prices, nested includes with globs) and every order of entries within a day-preserving rearrangement",
 "include_test and the examples load one fixed layout; no test compares two layouts of the same entries or counts loaded entries.",
 ["coin.go", "include.go", "parser.go"],
 [("file discovery", "coin.go LoadAll/LoadPrices"), ("includes", "include.go Files, coin.go Load"), ("deferred resolution", "coin.go ResolveAll")],
 ["stdout of coin balance, register, stats, commodities, tags for two layouts"])

prop("C11", "Account patterns resolve uniquely or are refused",
 "An account given by its full name is always that account. A shortened name, whose parts separated by ':' match consecutive path elements and by '::' any number of elements (ignoring case), selects the only matching account, or the matching account that contains all other matching ones; if there is no such account the command fails and never picks one of several.",
 ["inputs", "configurations"], "every set of account names x every pattern",
 "coin_test.go checks a fixed table of four patterns against one chart of accounts; refusal of ambiguous patterns is not tested.",
 ["coin.go", "account.go"],
 [("pattern to expression", "coin.go ToRegex"), ("unique choice", "coin.go MustFindAccount/FindAccounts")],
 ["coin register/balance account argument", "account names in postings", "coin accounts PATTERN"])

prop("C12", "Dates mean what the documentation says, relative to today",
 "A date written as [[YY]YY/]M/D, YYYY, or YYYY/M, optionally followed by (or consisting only of) an offset of days, weeks, months or years, denotes the documented calendar day: a four-digit year as written, a two-digit year the year closest to today, an omitted year the occurrence closest to today, an omitted month or day the first, and an offset that many units from the base date or from today. The same holds for command-line options and for dates in files, and formatting turns every entry into the absolute day it denoted.",
 ["inputs", "configurations"], "every documented date form x every day as today x every offset",
 "date_test.go has a table of about ten dates on two reference days; month ends, leap days, ties and century boundaries are not covered.",
 ["date.go"],
 [("parsing", "date.go parseDate, DateREX"), ("option values", "date.go Date.Set")],
 ["coin package date API", "coin format output", "-b/-e options"])

prop("C13", "Tags in notes are recognised exactly and select exactly their postings",
 "Every #key and '#key: value' in the notes of a transaction or posting is recognised with exactly the value up to the next comma or the end of the line (outer blanks removed), and nothing else is. The tags report lists every key once in order, with all its distinct values and all accounts using it when asked, and tag selection by key and value pattern ignores case and considers both the posting's and its transaction's tags; an inverted pattern selects exactly the postings the pattern does not.",
 ["inputs"], "every note text built from words, tags, commas, colons and blanks; every [!]key[:value] pattern; every placement on transactions and postings",
 "tags_test.go has a handful of lines with values of two or more characters, always separated by a comma and a blank.",
 ["tags.go", "cmd/coin/tags.go"],
 [("tag parsing", "tags.go tagREX/ParseTags"), ("matching", "tags.go TagMatcher"), ("report", "cmd/coin/tags.go")],
 ["coin package tag API", "stdout of coin tags, balance -t, register -t"])

prop("C14", "Conversions use the latest price and exact arithmetic",
 "Wherever an amount has to be added to a total in another commodity it is converted at the most recent price of the commodity in the target commodity, or else through a chain of such prices, as the exact product cut to the target commodity's precision at each step; if no chain of prices exists the command fails rather than adding unlike amounts. The price list of a commodity shows every recorded price exactly once, newest first per currency, and the price summary shows each currency's latest price and number of prices.",
 ["inputs", "histories"], "every set of dated prices over 2..5 commodities with different precisions, in any file order, and every multi-commodity account tree",
 "commodity tests convert between two-decimal commodities with a single price; precision differences, date order and chains are not tested.",
 ["commodity.go", "price.go", "amount.go", "coin.go", "cmd/coin/commodities.go"],
 [("conversion", "commodity.go convert"), ("price order", "coin.go ResolvePrices"), ("reports", "cmd/coin/commodities.go")],
 ["stdout of coin balance on mixed trees", "stdout of coin commodities -p and coin commodities ID"])

prop("C15", "OFX import is complete, classified by the rules and safe to repeat",
 "Importing OFX statements yields exactly one balanced transaction per statement record not dropped by a rule, with the record's day, payee and exact amount, posted between the statement's account and the account (and notes) of the first matching rule or else Unbalanced, in date order, the last record of a bank statement carrying the statement balance as an assertion. Records equal to each other or to a transaction already in the ledger are imported once and reported, unless duplicates are to be kept, and the balance carried by a dropped record is kept on the one it duplicates within the import.",
 ["inputs", "histories"], "every set of bank and credit-card statements, rules and existing ledger, including importing overlapping statements and re-importing after appending the result",
 "main_test.go feeds one statement with fixed rules; duplicates across files and ledger, several statements and assertion carry-over are not covered end to end.",
 ["cmd/ofx2coin/main.go", "rules.go", "transaction.go"],
 [("conversion", "ofx2coin newTransaction/readTransactions"), ("dedupe", "ofx2coin main, transaction.go FindEqual/MergeDuplicate/Day"), ("classification", "rules.go RuleFor")],
 ["stdout and stderr of ofx2coin"])

prop("C16", "CSV import maps every row as its rules say",
 "Importing CSV rows through a source definition or a field list yields one transaction per row not dropped by a rule, whose account, date, payee, note and amounts are the values produced by the extraction and derivation rules, balanced against the account and notes of the first matching classification rule or Unbalanced; rows with a traded symbol and quantity become conversions between the two commodities posted to matching sub-accounts with opposite signs. Either section of the rules file may be absent, and skipped header lines are never imported. A file in which a row has another number of columns than the first one is refused.",
 ["inputs", "programs"], "every table of rows x every source definition built from index, template/regex, constant, derived and conditional rules x every rule set",
 "main_test.go and rules_test.go import a few fixed rows through two fixed sources.",
 ["cmd/csv2coin/main.go", "cmd/csv2coin/rules.go", "rules.go"],
 [("value rules", "csv2coin/rules.go Field.Value"), ("transaction building", "csv2coin/main.go transactionFrom"), ("rules file", "csv2coin/rules.go ReadRules/ScanSource")],
 ["stdout of csv2coin"])

prop("C17", "GnuCash conversion keeps every account, price, transaction and split",
 "Converting a GnuCash book yields a ledger that loads and contains exactly the book's commodities with their precision, its account tree with types of commodity and descriptions, its prices and its transactions with their days, numbers, descriptions, notes and split quantities, each exactly once and transactions in date order. Splitting the output by year distributes the same entries over files by year without losing or duplicating any, and the ledger option only adds quotes and leaves out the ids of accounts, which that format has none of. An account is named by its path with blanks removed; a description is split into description and note at its first ' - '; a memo is the note of its posting; prices and days are written as they are on the day stated, whatever the zone.",
 ["inputs", "configurations"], "every well-formed book (several commodities, deep trees, multi-split and multi-currency transactions, same-time entries) x with and without -y, -l, with and without an output directory",
 "gnucash_test.go unmarshals single XML elements; the converter's output is never loaded back.",
 ["gnucash", "cmd/gc2coin/main.go"],
 [("resolution", "gnucash/*.go resolve*"), ("output", "cmd/gc2coin/main.go"), ("fractions", "gnucash.go mustParseAmount, amount.go NewAmountFrac")],
 ["files written by gc2coin, loaded with coin"])

prop("C18", "Generated sample ledgers are always valid and within the asked range",
 "The sample generator produces, for every date range and file split, a ledger that loads without errors or warnings, whose transactions all lie within the range and balance, in which every transaction of the period is in the file its date belongs to and in date order, and whose optional posting balances are the true running balances. Weekly and monthly schedules produce dates in order, without repetitions, only on the allowed days and within the range; all of the allowed days of every so many weeks or months when the count covers them, at most the count of each otherwise.",
 ["inputs", "configurations"], "every begin/end pair x -y/-m/none x -wb x -j x random choices of the generator; every schedule parameter",
 "dates_test.go checks four schedules; the generated ledger itself is never loaded.",
 ["cmd/gen2coin/main.go", "cmd/gen2coin/dates.go", "cmd/gen2coin/rule.go"],
 [("schedules", "gen2coin/dates.go"), ("amounts and balances", "gen2coin/rule.go"), ("batching", "gen2coin/main.go batchesByLabel")],
 ["files and JSON written by gen2coin, loaded with coin"])

prop("C19", "The HTML export embeds the whole ledger faithfully and safely",
 "The HTML export contains, as parseable JSON in its four data blocks, exactly the ledger's commodities, prices, accounts and transactions, with exact amounts in full precision, dates, parents, notes, tags, codes, asserted flags and locations, and each posting's balance equal to the account's running balance at that posting (as long as the ledger's assertions hold). No text of the ledger can terminate a data block or otherwise alter the structure of the document.",
 ["inputs"], "every ledger, with arbitrary unicode and markup in descriptions, notes, tags, account notes and commodity names",
 "No test runs the exporter.",
 ["cmd/coin2html/main.go", "transaction.go", "posting.go", "account.go", "price.go", "commodity.go", "amount.go"],
 [("document assembly", "cmd/coin2html/main.go"), ("JSON encoders", "MarshalJSON of the ledger entities")],
 ["stdout of coin2html"])

prop("C20", "Equal inputs give byte-identical output",
 "Running any reporting, formatting or conversion command repeatedly on the same files with the same arguments prints exactly the same bytes every time, including the order of columns, rows, accounts, commodities and prices that compare equal.",
 ["schedules", "inputs"], "every ledger (with ties) x every deterministic command x repeated process runs",
 "Unordered-map iteration varies from run to run; a test that runs once cannot see it and one fixture is known to be flaky because of it.",
 ["cmd/coin/totals.go", "cmd/coin/commodities.go", "commodity.go", "coin.go", "gnucash", "cmd/csv2coin/rules.go"],
 [("ordered iteration", "coin.go AccountsDo/CommoditiesDo"), ("tie breaking", "totals.go top, gnucash/*.go sorts")],
 ["stdout of all commands over repeated runs"])

prop("C21", "Malformed input is refused with a message, never an internal fault",
 "Whatever bytes the ledger files, rules files, or imported files contain, the commands either succeed or stop with a non-zero exit and a message; they never fail with an internal memory or index fault and never hang.",
 ["inputs"], "arbitrary and mutated file contents for every kind of input file, and every account argument and option combination on well-formed ledgers",
 "Tests only feed well-formed files.",
 ["parser.go", "transaction.go", "include.go", "test.go", "account.go", "commodity.go", "rules.go", "cmd/coin", "cmd/csv2coin", "cmd/ofx2coin"],
 [("item dispatch", "parser.go Next"), ("error reporting", "check/check.go")],
 ["exit code and stderr of every command"])

prop("C22", "Test clauses pass exactly when output matches, and empty ones are filled in",
 "Running the test clauses of a file reports a clause as failed exactly when the output of its command differs from the recorded result, shows the difference, and says so in the file's summary line; clauses do not influence each other. A clause without result gets exactly its command's output written into it, the rest of the file unchanged, after which the clause passes.",
 ["inputs", "programs"], "every file with any number of clauses (passing, failing, empty, repeated, in any order) over any ledger",
 "The fixtures all pass; failing and empty clauses, and mixtures of them, are not tested.",
 ["cmd/coin/test.go", "test.go"],
 [("execution and comparison", "cmd/coin/test.go execute"), ("fill-in", "cmd/coin/test.go updateTestFile"), ("clause parsing", "test.go parseTest")],
 ["stdout of coin test, file content afterwards"])

prop("C23", "Ledger statistics and consistency checks are exact",
 "The statistics report counts exactly the commodities, prices, accounts (with implied parents) and the transactions in the date range. The duplicate check reports exactly the pairs of transactions with equal day, code, accounts and amounts, the unbalanced check exactly the transactions with postings to Unbalanced, and the conversion check exactly the two-posting transactions with amounts of equal magnitude and opposite sign in different commodities, each with its location.",
 ["inputs", "histories"], "every ledger x -b/-e ranges x -d, -u, -c",
 "One fixture covers plain counts; -d, -u, -c and ranges are hardly covered.",
 ["cmd/coin/stats.go", "transaction.go", "posting.go"],
 [("checks", "cmd/coin/stats.go execute"), ("equality", "transaction.go IsEqual, posting.go IsEqual")],
 ["stdout of coin stats"])

prop("C24", "Definitions of commodities, accounts and prices survive write and load",
 "Commodity, account and price definitions read from a file keep every attribute (name or note, precision, symbol, market and default flags, commodity, closing date, import ids, day, value), and writing them out and loading the result gives the same definitions; a line of a definition that is not understood in full is refused. The account and commodity listings show every defined entry exactly once in name order with its attributes, closed accounts and everything below them only when asked, and only those matching a given pattern; the listing of import ids shows every account that has one.",
 ["inputs"], "every set of definitions with every subset of directives in any order and spacing",
 "account_test.go and commodity tests parse one or two definitions; listings are covered by one fixture each.",
 ["account.go", "commodity.go", "price.go", "cmd/coin/accounts.go", "cmd/coin/commodities.go"],
 [("parsers", "account.go parseAccount, commodity.go parseCommodity, price.go parsePrice"), ("writers", "Write of the three"), ("listings", "cmd/coin/accounts.go, commodities.go")],
 ["coin package load/write API", "stdout of coin accounts, coin commodities"])

prop("C25", "Import rules pick the first match and survive a dump",
 "For every rules file and payee, the rule chosen is the first one in order, with referenced groups expanded in place, whose expression matches the payee, together with exactly its notes (a note after a group reference belongs to no rule); a drop rule discards. Dumping the loaded rules gives a file that, when read, classifies every payee identically. A rules file with a line that is not understood or too long to be read, or with two groups, account ids or sources of the same name, is refused.",
 ["inputs", "programs"], "every rules file (groups, references, several accounts, drop rules, notes) x every payee",
 "rules_test.go round-trips one file without notes or drop rules.",
 ["rules.go", "cmd/ofx2coin/main.go", "cmd/csv2coin/rules.go"],
 [("reader", "rules.go ScanRules"), ("matching", "rules.go RuleFor"), ("writer", "rules.go Write")],
 ["coin package rules API", "ofx2coin -rules", "csv2coin -rules"])

prop("C26", "The browser viewer computes the same amounts and totals as the ledger",
 "The viewer's data model reads every exported amount exactly, prints and adds amounts exactly, converts with recorded prices of the time asked for, rebuilds the account tree and each account's postings in every time zone, and its date-range trimming and grouping by week, month, quarter or year put every posting of the range into exactly one group whose total and closing balance are exact. Its shortening of account names agrees with the command-line reports. Whatever the user selects and clicks, the page does not fail, and the tables and charts it shows hold exactly the postings, sums, balances and totals that the ledger has for the account, time range, aggregation and sub-accounts that its controls show.",
 ["inputs"], "every exported ledger x time zone x time range x aggregation period x sub-account selection x sequence of user actions",
 "The viewer's unit tests are not part of the reliable suite and sample a few amounts; nothing compares it with the Go side.",
 ["cmd/coin2html/js/src/commodity.ts", "cmd/coin2html/js/src/account.ts", "cmd/coin2html/js/src/utils.ts"],
 [("amounts", "commodity.ts Amount"), ("account model", "account.ts"), ("grouping", "utils.ts groupBy and friends"), ("page", "ui.ts, views.ts, viewsRegister.ts, viewsBalances.ts, viewsBalancesChart.ts, viewsAggregatedRegisterChart.ts")],
 ["exported functions of the viewer's modules run on generated and exported data", "the page in a browser"])

prop("C27", "The Bank of Montreal filter repairs the file and loses nothing else",
 "With the repair option, reading a statement removes exactly the known stray lines from the body, drops blank lines before the header, makes sure the header is followed by a blank line, and passes every other byte through unchanged and in order, whatever the line lengths, buffer sizes or end of file.",
 ["inputs", "schedules"], "every file content and every sequence of read sizes",
 "bmo_test.go reads one sample through one buffer size.",
 ["cmd/ofx2coin/bmo.go"],
 [("line filter", "bmo.go Read")],
 ["ofx2coin -bmo compared with the repaired file read without the option"])

prop("C28", "Every line of a transaction is understood in full or refused",
 "Loading never ignores part of what a transaction says: if a posting line carries an account, amount, assertion or text that is not understood (a misspelled amount, a thousands separator, a missing commodity, a stray word, an unknown commodity or account), the load stops with an error instead of silently dropping it and deriving a different amount. Comment lines and following entries are never taken for postings. A line too long to be read stops the load, too: nothing that follows it is silently left out.",
 ["inputs"], "every well-formed transaction with one token of a posting line inserted, deleted or corrupted, and every placement of comments and following entries",
 "Tests only load well-formed postings.",
 ["transaction.go", "parser.go", "coin.go"],
 [("posting expression", "transaction.go postingREX"), ("item dispatch", "parser.go Next")],
 ["exit code, stderr and the loaded amounts of coin register"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
import re
for p in P:
    n = len([s for s in re.split(r"(?<=[.!?])\s+(?=[A-Z])", p["statement"]) if s])
    if n > 3: print("too many sentences", p["id"], n)
print(len(P), "properties")
