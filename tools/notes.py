X = 'exploration'
NOTE['C01'] = ('property-based testing (rapid) against exact big-integer arithmetic, in-process and through the CLI', X,
  'Random decimal literals, pairs and fractions compared with independent big-integer arithmetic; trusts math/big. Randomised search, not exhaustive.')
NOTE['C03'] = ('property-based testing (rapid): generated ledgers and selections, balance report compared with a reference report computed from the generated case', X,
  'Black box through the coin executable; the expected rows come from an independent model with big-integer sums. Random search, bounded ledger size.')
NOTE['C04'] = ('property-based testing (rapid): generated ledgers and selections, register lines compared with a reference listing computed from the generated case', X,
  'Black box through the coin executable; order among different accounts on the same day is left free. Random search, bounded ledger size.')
NOTE['C02'] = ('property-based testing (rapid): ledgers with transactions of every kind of balance, accept/refuse decision, message and filled-in amounts compared with a sum model', X,
  'Black box through coin and coin2html. Amounts stated in a commodity other than the account\'s are covered by C14. Random search.')
NOTE['C06'] = ('property-based testing (rapid): ledgers with true and false assertions, set of warnings compared with a running-balance model; metamorphic comparison with the ledger without assertions', X,
  'Black box; the order of the warnings is not specified. Random search, bounded ledger size.')
NOTE['C28'] = ('property-based testing / mutation fuzzing (rapid): damaged transaction lines and overlong lines; refuse-or-every-token-shows-up-in-the-formatted-transaction predicate', X,
  'Black box through coin format and coin stats. A line that is accepted must have every word, number and note of it in the formatted transaction. Random search.')
NOTE['C05'] = ('property-based testing (rapid): generated ledgers and aggregation options, every cell compared with a reference table; differential comparison of the text, CSV and JSON formats', X,
  'Black box; column order, ties and empty columns are left free, trees of one commodity only (conversions are covered by C14). Random search.')
NOTE['C11'] = ('property-based testing (rapid): account sets and derived patterns, resolution compared with an independent backtracking matcher', X,
  "Black box through register, balance and format. Where it matters whether '::' may stay within one path element both outcomes are accepted. Random search.")
NOTE['C12'] = ('property-based testing (rapid): dates x today x offsets compared with an independent calendar, in-process and through the executables', X,
  'Month and year offsets that would land on a day the month does not have, and years exactly equally close, are left free. Random search.')
NOTE['C13'] = ('property-based testing (rapid): note texts compared with an own character-level tag scanner, tags report and tag selection compared with the model', X,
  'In-process ParseTags and black box tags/register/balance. Values of a tag repeated in the notes of one posting or transaction are left free. Random search.')
NOTE['C14'] = ('property-based testing (rapid): generated ledgers with prices, balance, register and aggregated register compared with a model that converts exactly; price lists compared with the recorded prices', X,
  'Black box. Where several chains of prices lead to the target commodity the choice is left free, as is the order of prices of one day. Random search.')
NOTE['C07'] = ('property-based testing (rapid): transactions in varied spelling, formatted output read back by an own reader and compared with the generated transactions in model order; idempotence and in-place/stdout differential', X,
  'Black box. Which notes go on the line itself and column positions are free as long as columns line up. Random search.')
NOTE['C09'] = ('property-based testing (rapid): generated files, selections and actions; the rewritten file compared with the same edit applied to the plainly formatted transactions, tags read by an own scanner and found by register', X,
  'Black box. Added tags have keys the transaction does not use yet; when -a and -pt are combined it is open whether a match of the latter alone tags the transaction; where in the notes a tag is added is free. Random search.')
NOTE['C08'] = ('property-based testing (rapid) with fault injection: generated files and rewriting commands; recorded directory history (inotify), file-size limits and failing or killing system calls (strace), old-or-new-content predicate', X,
  'Black box. Crash points are those between system calls; loss of power (missing fsync) is not considered. If strace cannot be run the third sub-check is skipped (label no-strace). Random search.')
NOTE['C10'] = ('metamorphic property-based testing (rapid): the same entries in two file layouts, all reports compared byte for byte, and counted against the generated entries', X,
  'Black box. The order of entries is the same in both layouts (it matters within a day). Random search.')
NOTE['C22'] = ('property-based testing (rapid): generated test files with right, missing and altered results; FAIL/OK lines, applied differences and the rewritten files compared with the outputs of the commands run by themselves', X,
  'Black box. Unknown commands and wrong flags in clauses are not generated. Random search.')
NOTE['C23'] = ('property-based testing (rapid): ledgers with copies, near copies, unbalanced transactions and conversions; counts and reports compared with a pairwise model', X,
  'Black box. Whether transactions equal up to the order of their postings are duplicates is left open. Random search.')
NOTE['C24'] = ('property-based testing (rapid): definitions in varied spelling, loaded attributes compared with the case, round trip through Write, listings compared with the model; mutation of single lines that must be refused', X,
  'A helper process using the exported API reads and writes; listings are black box. Repeated definitions of one name are not generated. Random search.')
NOTE['C15'] = ('property-based testing (rapid): generated OFX files, rules and ledgers, imported transactions compared with an import model; the import repeated over its own result', X,
  'Black box through ofx2coin. Which description or balance survives when records with the same key differ in them, and the order within a day, are left free; payees with a semicolon are not generated. Random search.')
NOTE['C16'] = ('property-based testing (rapid): generated CSV files, sources and rules, imported transactions compared with an own interpreter of the definitions; the import repeated with the dumped definitions', X,
  'Black box through csv2coin. Double quotes within templates and expressions, and descriptions that read as a code or note, are not generated. Random search.')
NOTE['C25'] = ('property-based testing (rapid): generated rule files and payees, classification compared with an own first-match interpreter, dump and re-read round trip; damaged lines that must be refused', X,
  'A helper process using the exported API classifies; dumps and refusals are black box. Regular expressions are matched by the Go library on both sides. Repeated ids or group names are not generated. Random search.')
NOTE['C27'] = ('property-based testing / fuzzing (rapid): generated files, chunk and buffer sizes fed to the filter, output compared with an own filter; differential import of damaged and clean statements', X,
  'The filter is reached by a file added to its package by a build overlay; should that not build any more, only the importer differential remains. A stray line or <OFX> as the last line without line end is not generated. Random search.')
NOTE['C17'] = ('property-based testing (rapid): generated GnuCash books converted to stdout, a directory or files by year; the output read back and compared with the book, then loaded and counted', X,
  'Black box through gc2coin. Account names of characters coin does not allow, numbers that are not words, and commodities without a fraction are not generated. Random search.')
NOTE['C18'] = ('property-based testing (rapid): generated ranges and options; the ledger written to stdout, files and JSON from the same random choices compared, loaded, and checked for range, order, balance and running balances; schedules compared with an own calendar model', X,
  'The random choices of the generator are made reproducible, and its schedules reached, by a file added to its package by a build overlay; should that not build any more, only the ledger by itself is judged. Texts have no balances at present, which is not held against -wb. Random search.')
NOTE['C19'] = ('property-based testing (rapid): generated ledgers with texts of markup and script syntax; the document taken apart by the rules of HTML scripts, its data compared with the ledger and the rest with the document of an empty ledger', X,
  'Black box through coin2html, with stand-ins for the built viewer (which cannot be built offline as the repository does). Texts are valid UTF-8; balances after false assertions are left open. Random search.')
NOTE['C20'] = ('property-based testing (rapid): generated ledgers with ties, and the cases of fifteen other sub-checks; every command they run is repeated in fresh processes and its output, messages and written files compared byte for byte', X,
  'Black box. Commands that fail are compared by their exit code; the sample generator is random by design and the debugging messages of register -v are left out. Whether an unordered iteration shows is a matter of chance, so each case is run three times and similar cases are many. Random search.')
NOTE['C21'] = ('fuzzing (rapid-driven grammar-aware mutation): files of every format changed by operations on bytes, words and lines with a dictionary of their own syntax, and arbitrary options and arguments; every command must end without internal fault or hang, and say why it fails', X,
  'Black box. A Go panic with a message counts as a diagnosis, a runtime error, stack overflow, signal or hang (90 s) does not. Input sizes stay below about 100 kB. Random search.')
NOTE['C26'] = ('property-based testing (rapid), stateful for the page: generated ledgers exported with coin2html and read by the viewer in generated time zones; its modules, and the page after every action of a generated sequence, compared with an own model of the ledger in exact numbers', X,
  'The modules of the viewer are bundled with an own bundler (esbuild) and run in node, the page with stand-ins for the browser document and the d3 selections, scales and layouts (the viewer depends on packages that are not here). Amounts stay within 2^53 units, prices are not zero, dates are not emptied. Where several recorded prices lie about as near, any of them is accepted. Random search.')
