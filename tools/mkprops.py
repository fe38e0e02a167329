#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

NOLOAD = "The repository has no test of this at all: its 13 tests build small books by hand (accumulation, prices, dates, IRR) and never go through this code; "

p("C01", "Loading a ledger yields exactly the transactions and prices written in it",
  """Loading any file in the supported ledger subset gives exactly the dated transactions, payees, notes, postings
  (account, currency, signed exact amount) and prices written in it and in its included files, whatever equivalent spelling is used
  (currency before or after the amount, sign position, thousands commas, any number of decimals, quoting, comments, blank lines).
  Aliases apply to later postings of their own file and of files it includes afterwards and never leak back, a posting without amount takes the exact
  remainder of its transaction in every currency, and a payee repeated on a date is kept as a separate transaction with ' (2)', ' (3)', and so on appended.
  Postings of a transaction to the same account and currency are added up, zero ones are dropped, and the result is ordered by date, payee, account and currency.""",
  ["inputs"], "every ledger file (and tree of included files) in the supported grammar: any dates, payees, accounts, currencies, amounts, spellings and orderings",
  NOLOAD + "no finite list of sample ledgers covers the product of spellings, amounts, include/alias scoping and duplicate payees.",
  ["loader/lexer.go", "loader/parser.go", "book/builder.go", "book/book_compact.go"],
  [("character-level parser of dates, amounts, payees, currencies", "loader/lexer.go parseAmt/parseDate, loader/parser.go parsePosting/parseCCYAmt"),
   ("alias scoping by copying the map per file", "loader/parser.go parseFileLocal"),
   ("payee disambiguation", "book/builder.go NewTransaction"), ("merge, zero removal, ordering", "book/book_compact.go compact")],
  ["transactions and price lists of the loaded book", "goledger export --type json"])

p("C02", "Books always balance: per currency every transaction sums to zero",
  """A ledger or script in which some transaction (first, middle or last) does not sum to zero in some currency is rejected with an error and never produces a book.
  In an accepted book, before and after any sequence of account/currency renames, moves, depreciations, date cut-offs, combinations, de-duplications and reclassifications,
  the postings of every transaction sum exactly to zero in every currency.""",
  ["inputs", "histories"], "every ledger, every position and size of an imbalance, every sequence of book operations",
  "Existing tests load nothing and apply no operation sequence; balance is an invariant over all inputs and histories.",
  ["book/builder.go", "book/book.go", "book/book_compact.go", "book/book_utils.go", "loader/parser.go", "cmd/app/app.go"],
  [("balance check at each new transaction and at the end", "book/builder.go checkAndClearTransaction"), ("paired postings for every transfer", "book/book.go AdjustPost/Depreciate"),
   ("whole-transaction filters", "book/book.go FilterTransaction")],
  ["error result of loading", "transactions of the book after each operation"])

p("C03", "Malformed or arbitrary ledger input is refused with an error, never crashed on",
  """For any bytes given as a ledger (or included) file, every command ends either with a result or with an error message and non-zero exit status, never with a crash, a hang or silently dropped text.
  A line that is not valid (bad date, number, price, currency, alias, unterminated quote, unknown directive, amount without currency, posting outside any transaction, missing include)
  makes the load fail with an error that names the file and, for a syntax error, the line; nothing is then printed as if it had succeeded.""",
  ["inputs", "fault_sequences"], "arbitrary byte strings, and every valid ledger with one line made invalid at any position, in the main or an included file; unreadable and missing files",
  "Tests contain no malformed input; 'every byte string' can only be sampled by generation and fuzzing.",
  ["loader/lexer.go", "loader/parser.go", "cmd/app/app.go", "main.go"],
  [("parse errors raised with position and recovered into an error", "loader/lexer.go stop, loader/parser.go parseFileLocal recover"), ("exit status", "main.go")],
  ["error returned by loading", "exit status, stdout and stderr of the command"])

p("C04", "Price lookup: exact, linear between, nearest outside, inverse when reversed",
  """The rate from one unit to another on a date is the recorded price when there is one for that date, the straight-line interpolation by calendar days between the neighbouring recorded prices otherwise,
  and the nearest recorded price before the first or after the last one; each answer is labelled as exact, inferred or out of range accordingly.
  If only the opposite direction is recorded the reciprocal is used, a unit converts to itself at 1, and a pair without any prices gives 1 labelled as none;
  the order in which prices were recorded and the way they are read (random access or date-ordered iteration) never matter.""",
  ["inputs", "histories"], "every set of recorded prices (distinct dates), every unit pair and every query date, every order of recording",
  "Two tests probe one fixed price series; the bisection and interpolation must hold for every series length, gap and date.",
  ["book/price.go"], [("bisection and interpolation", "book/price.go PriceList.GetPrice"), ("forward iterator", "book/price.go PriceIterator.GetPrice"),
   ("inverse and fallback", "book/price.go getPrice")], ["rate and label returned for a date and pair", "conversion to base currency in reports"])

p("C05", "Account and currency renaming rewrites exactly the matching names",
  """Renaming accounts by regular expression changes the account of every posting whose account matches to the expression's substitution (with captured groups), gives every non-matching posting the alternative account if one is given,
  and leaves everything else (dates, payees, notes, amounts, currencies, non-matching accounts) untouched apart from adding up postings that now share an account and currency.
  Renaming currencies does the same for the currencies of postings, of recorded prices and of their display precision, each name being renamed exactly once.""",
  ["inputs", "histories"], "every book, every regular expression with or without captured groups and alternative, applied alone or after other operations or through macros",
  "No test exercises renaming; map-order effects and merging only show on particular name sets.",
  ["book/book_utils.go", "book/book.go", "cmd/app/book_op.go"],
  [("account mapping", "book/book_utils.go RegexAccounts, book/book.go MapAccount"), ("currency mapping of postings and prices", "book/book_utils.go RegexCCY"), ("operation parsing", "cmd/app/book_op.go map=, mapccy=")],
  ["transactions, prices and decimals after the operation", "goledger export with map=/mapccy= arguments"])

p("C06", "Moving and depreciating transfer exactly the stated share and nothing else",
  """A move takes, for each posting whose account matches, exactly the given factor of its amount (as written in decimal) out of that account and into the substituted account, in the same transaction.
  Depreciation over N months takes each matching posting's amount into the asset account on its own date and returns it in N equal exact parts, the first on that date and each following one on the first day of the next month.
  All-time totals are conserved: per transaction and currency for a move, and per account for depreciation, where the asset account ends at exactly zero; everything that does not match is unchanged.""",
  ["inputs", "histories"], "every book, matching expression, target with captured groups, factor and number of months, including dates at month ends and year boundaries",
  "No test exercises these operations.",
  ["book/book.go", "book/posting.go", "cmd/app/book_op.go"],
  [("move", "book/book.go AdjustPost"), ("depreciate", "book/book.go Depreciate"), ("posting copies", "book/posting.go dup/byAcctDateFactor")],
  ["transactions after the operation", "goledger export/report with move=/depreciate= arguments"])

p("C07", "Date cut-offs partition the book; combining periods and macros lose nothing",
  """The as-of and since operations with the same date split the transactions into two disjoint sets (strictly before; on or after) whose union is the original book, each transaction kept whole and unchanged.
  Combining by year, quarter or month moves every posting to the first day of its period and adds up, so each account's total per currency in each period is unchanged and no period gains or loses anything; combining by none keeps the dates.
  Operations are applied strictly in the order given, and a macro (also one built from other macros) has exactly the effect of writing out its operations in its place.""",
  ["inputs", "histories", "configurations"], "every book, date spelling, period, operation sequence and macro nesting",
  "No test applies a filter, a combination or a macro.",
  ["book/book.go", "book/book_utils.go", "book/date.go", "cmd/app/book_op.go"],
  [("filters", "book/book_utils.go FilterByDateSince/FilterByDateAsof"), ("combination", "book/book.go SplitBy/MapTransaction, book/date.go Floor*"), ("macro expansion", "cmd/app/book_op.go bookOp")],
  ["transactions after each operation", "goledger export/report arguments"])

p("C08", "Summary report: every parent line is the exact sum of what is below it",
  """In a summarised report each column lists every account and currency of the book with exactly its amount in that period (zero if none), and each parent line equals the exact sum of all postings at or below that account, converted at that period's rate.
  An account is given a parent line if it is a shared prefix of several accounts or holds another currency than the report's; lines form a tree (each inside its nearest parent line, indented by its depth and labelled with the rest of its name) with siblings by descending value in every column.
  Accounts matching the credit expression are shown negated, the hidden account is left out, and neither option changes any other line.""",
  ["inputs", "configurations"], "every book, account hierarchy, divider, set of currencies and prices, period split, credit expression and hidden account",
  "Existing accumulation tests pin a handful of tiny single-purpose books; ordering and tree shape depend on values, name prefixes and empty cells that only varied inputs reach.",
  ["book/book_accum.go", "book/posting.go", "cmd/reports/report.go", "cmd/reports/text.go"],
  [("accumulation", "book/book_accum.go Accumulate"), ("missing cells", "book/book_accum.go addEmptyAccounts"), ("ordering", "book/book_accum.go getSortOrderString, book/posting.go isLess"), ("text layout", "cmd/reports/text.go")],
  ["accumulated transactions (amounts, levels, labels, order)", "goledger report output (text, json)"])

p("C09", "Register: entries add up to the postings and balances run exactly",
  """The register lists, in date order, every posting of the selected accounts with its opposite-direction counteraccounts of the same currency: one entry naming all of them, or when splitting one entry per counteraccount with its proportional share, the shares adding up exactly to the posting.
  The balance shown is the exact running total per currency over all selected accounts from the beginning of the book, and base-currency amounts use the rate implied by the transaction itself if there is one and otherwise the rate from the posting's currency to the base currency on that date.
  Date limits, a positive or negative count and ascending or descending order only select or reorder entries and never change one, and without --combined each listed account shows exactly its own postings.""",
  ["inputs", "configurations"], "every book, account expression, split flag, date range, count, order and output format",
  "The register code has no test.",
  ["book/registry.go", "book/transaction.go", "cmd/register/register.go", "cmd/register/show_register.go"],
  [("entry extraction and shares", "book/registry.go ExtractRegister"), ("date window", "book/registry.go FilterByDate"), ("implied rate", "book/transaction.go InferRate"), ("count and order", "cmd/register/show_register.go ShowReport")],
  ["register entries", "goledger register output (text, json, csv)"])

p("C10", "Ledger export can be loaded back and is the same book",
  """Exporting any loaded book in ledger format (with any language or colour setting, and after any account renaming to valid names, filtering or combining) produces a file that loads without error and yields the same transactions, payees, notes, accounts, currencies, exact amounts and exact prices; amounts without a finite decimal expansion (depreciation) are rounded to no fewer than six decimals, and the file still balances.
  Exporting that again produces the same text (apart from trailing decimal zeros where the export needs fewer decimals than the original ledger).""",
  ["inputs", "configurations"], "every loadable book, with any payee, note, currency and price the grammar can express, any amount, every --lang value",
  "No test exports anything; the quoting and precision cases are unbounded.",
  ["cmd/export/ledger.go", "cmd/export/export.go", "cmd/app/print.go", "loader/parser.go", "book/builder.go"],
  [("ledger writer and currency quoting", "cmd/export/ledger.go"), ("number formatting", "cmd/app/print.go"), ("reader", "loader/parser.go")],
  ["goledger export --type ledger, reloaded"])

p("C11", "CSV, JSON and Beancount exports carry every posting faithfully",
  """The CSV and JSON exports contain every posting of the book exactly once and in book order with its own date, payee, transaction note, account, currency, amount and posting note, in well-formed CSV or JSON.
  The Beancount export contains every transaction with the same date, payee, notes, accounts, currencies and exact amounts, opens every account on or before its first use exactly once, and closes, after its last use, exactly those accounts left with a zero balance in every currency.""",
  ["inputs"], "every loadable book, including quotes, commas, semicolons and non-ASCII text in payees and notes, tiny and large amounts and several currencies per account",
  "No test exports anything.",
  ["cmd/export/csv.go", "cmd/export/beancount.go", "cmd/export/export.go", "cmd/reports/beancount.go", "book/transaction.go", "book/posting.go"],
  [("csv", "cmd/export/csv.go ShowCSV"), ("json", "book/transaction.go and book/posting.go MarshalJSON"), ("beancount", "cmd/export/beancount.go ShowBeancount")],
  ["goledger export --type csv|json|beancount", "goledger report --type beancount|json"])

p("C12", "Import turns every record into exactly its balanced, reloadable transaction",
  """Importing CSV (any delimiter, with or without header) or JSON through the conversion code yields for each added record one balanced transaction with the given date, description, notes and exact amount (divided by its denominator) on the given or default account and currency,
  the opposite amount on the counteraccount, and likewise for the optional second amount; the printed result loads back with the same content, amounts to the precision the main ledger uses for that currency (two decimals for an unknown one).
  With de-duplication, importing the same data again after the printed result was added to the ledger prints no transactions, and a transaction occurring in several imported files is printed once.
  Malformed input, invalid dates, amounts or denominators and an incomplete second amount are reported as errors without printing that file's transactions.""",
  ["inputs", "histories"], "every record set, delimiter, header mode, amount spelling (string, integer, float, denominator), optional argument combination and import history",
  "No test imports anything.",
  ["cmd/importer/import.go", "cmd/importer/import_op.go", "cmd/importer/starlark.go", "script/starlark.go", "script/convert.go", "cmd/reports/ledger.go", "cmd/utils/cli_config.go"],
  [("record readers", "script/convert.go ReadJSON/GetReadCSV"), ("add()", "script/starlark.go GetBuilderFunction"), ("pipeline", "cmd/importer/import.go run"), ("writer", "cmd/reports/ledger.go")],
  ["goledger import output, reloaded"])

p("C13", "De-duplication removes exactly the transactions already present",
  """Removing the duplicates of a reference book keeps exactly those transactions whose date and payee pair does not occur in the reference, in order and unchanged, whatever postings either side has and however the two sets interleave.
  It is idempotent, never alters the reference, removes everything against itself and nothing against an empty book.""",
  ["inputs"], "every pair of books", "No test calls it; the merge-style scan only fails on particular interleavings.",
  ["book/book_dedup.go", "book/book.go"], [("merge scan", "book/book_dedup.go RemoveDuplicatesOf"), ("filter", "book/book.go FilterTransaction")],
  ["transactions of both books afterwards", "goledger import --dedup"])

p("C14", "Reclassification uses the commonest counteraccount of the best-matching payee",
  """Only two-posting transactions touching the reference account are changed, and only the account of their other posting: it becomes the counteraccount most often used, in the reference book's two-posting transactions with that account, for the payee with the highest similarity, if that similarity is positive.
  Dates, payees, notes, currencies and amounts are untouched, the reference book is not altered, and the same inputs always give the same result.""",
  ["inputs"], "every pair of books, reference account and similarity function", "No test calls it; majority choice and map-order independence need varied histories.",
  ["book/book_reclassify.go", "cmd/importer/import.go"], [("payee to account mapping and choice", "book/book_reclassify.go ReclassifyByAccount"), ("similarity threshold", "cmd/importer/import.go")],
  ["transactions afterwards", "goledger import --reclassify"])

p("C15", "Scripts see the book as it is, and generate prints exactly what they add",
  """A generating script sees every transaction and posting of the book in order with its date, payee, notes, account, currency, amount and running balance, and its since, asof and map calls restrict or rename that view exactly as the corresponding operations do.
  The transactions it adds are printed as a reloadable ledger, less those already in the unmodified main book when de-duplicating; a script error is reported and nothing is printed.""",
  ["inputs", "programs"], "every book and every script composed of view restrictions, iteration, indexing and additions", "No test runs a script.",
  ["script/book.go", "script/book_op.go", "script/starlark.go", "cmd/generate/generate.go", "cmd/generate/starlark.go"],
  [("book view", "script/book.go"), ("view operations", "script/book_op.go"), ("pipeline", "cmd/generate/generate.go")],
  ["values printed by a script", "goledger generate output, reloaded"])

p("C16", "Calendar arithmetic is exact on every date",
  """For every valid date from year 1 to 9999, converting to a day number and back is the identity, day differences and day additions agree with the proleptic Gregorian calendar, and order is preserved.
  Flooring to month, quarter or year with any offset gives the first day of that period shifted by that many periods, and the fraction-of-year value grows strictly with the date, is the number of full years since year 1 plus the days elapsed in the year over the days in that year, and so has the same whole part all year long.""",
  ["inputs"], "every date of years 1 to 9999, every day offset and period offset staying in that range",
  "The date tests check a few thousand consecutive days around recent years and four fixed conversions; leap-century and offset arithmetic must hold everywhere.",
  ["book/date.go"], [("day numbers", "book/date.go AsDays/GetDateFromDays"), ("floors", "book/date.go FloorMonth/FloorQuarter/FloorYear/FloorDiff"), ("year fractions", "book/date.go AsYears")],
  ["results of the date functions"])

p("C17", "Dates are read in every documented spelling and print back the same",
  """Every documented date spelling (year, year-month, year-month-day or day-month-year with dash, slash, dot or no separator, and this/last/next month, quarter or year) denotes exactly the expected day, and any text that is no date is recognised as such rather than read as some date.
  Printing a date and reading it back gives the same date, in text, CSV, JSON and ledger output alike.""",
  ["inputs"], "every valid date and spelling, every arbitrary non-date text", "Four sample spellings are tested.",
  ["book/date.go", "cmd/app/book_op.go"], [("parsing", "book/date.go DateFromString"), ("printing", "book/date.go String/MarshalJSON")],
  ["parsed date", "asof=/since= behaviour", "printed dates"])

p("C18", "Text output is aligned, complete and correctly rounded in every language",
  """Every column of a text table has one width on every line, wide enough for its content, so that no visible character of any account, payee or amount is lost, text left-aligned and amounts right-aligned with their currency symbol; colour codes never change the visible text or the alignment.
  Each printed amount is the exact amount rounded to the currency's decimals with the language's decimal and grouping marks, with the sign kept.
  On a terminal every command prints what it prints to a pipe (only register columns for payees and accounts may be cut to the terminal's width); a table longer than the screen goes completely through the pager `less` where there is one, and goledger ends after its pager.""",
  ["inputs", "configurations"], "every set of rows (any printable Unicode, tabs, colour codes, symbols), width, amount, currency precision and language",
  "One formatting test checks three fixed strings.",
  ["cmd/app/print.go", "cmd/reports/text.go", "cmd/register/show_register.go", "cmd/accounts/accounts.go"],
  [("visible length and padding", "cmd/app/print.go Length/PadString"), ("columns", "cmd/app/print.go PrintColumns"), ("numbers", "cmd/app/print.go FormatNumber/FormatMoney"), ("pager", "cmd/app/app.go initialiseLess")],
  ["printed text"])

p("C19", "Configuration: first file wins, unknown keys refused, never overwritten",
  """The settings used are those of exactly one configuration file, the one named by the environment variable or else the first existing one in the documented search order, overridden by any command-line flag given; an unreadable or invalid file or an unknown key stops the program with an error naming the file.
  When no file exists a default file is written, which is itself accepted unchanged by every later run; an existing file is never modified.""",
  ["configurations", "histories"], "every combination of present, absent, invalid and unreadable files in all search locations, environment variables and flags, and sequences of runs",
  "No test loads a configuration.",
  ["cmd/config.go", "cmd/root.go", "cmd/app/app.go"], [("search and decode", "cmd/config.go load"), ("default file", "cmd/config.go DEFAULT_CONFIG_FILE"), ("flag defaults", "cmd/root.go Execute, cmd/app/app.go LoadCommand")],
  ["behaviour of the command", "files on disk after a run"])

p("C20", "A sync keeps everything downloaded, adds everything new, or changes nothing",
  """After a successful bank sync the state file holds every transaction it held before plus every transaction the bank returned in any page, account or feed, each stored once under its own identifier with its latest content, and syncing again without changes adds nothing.
  Any failure during a sync (network error, error status, malformed reply, at any request) is reported as an error and leaves the state file's content as it was, save for a renewed access token. An expired access token is renewed and then used, and a renewed refresh token that works only once is not lost when the rest of that sync fails.""",
  ["histories", "fault_sequences"], "every account and transaction history of a bank, page boundary, prior state and failing request",
  "No test touches the download code; failures must be survived at every request.",
  ["cmd/download/monzo.go", "cmd/download/starling.go", "cmd/download/nordigen.go", "cmd/download/net.go", "cmd/utils/json.go"],
  [("paging and merge", "cmd/download/monzo.go GetAllTransactions"), ("feeds", "cmd/download/starling.go syncFeed"), ("booked merge", "cmd/download/nordigen.go RefreshAccounts"), ("reply validation", "cmd/download/net.go")],
  ["state file before and after a sync against a simulated bank"])

p("C21", "Saved state reads back identical, and failed saves are reported",
  """Data saved to a state file, compressed or not, in an existing or new directory, over an older longer or shorter file, reads back identical; reading a missing file leaves the initial data, and a truncated or corrupt file gives an error.
  A save that cannot complete (unencodable data, unwritable target, write failure) returns an error, and data that cannot be encoded leaves the previous file intact.""",
  ["inputs", "histories", "fault_sequences"], "every JSON value, file name (plain or .gz), prior content, truncation point and write fault",
  "No test saves or loads state.",
  ["cmd/utils/json.go"], [("save", "cmd/utils/json.go SaveToFile"), ("load", "cmd/utils/json.go LoadFromFile")], ["file content", "returned errors"])

p("C22", "Reading never changes the book, and the same input gives the same output",
  """Listing, summarising, registering, price lookup and printing leave the book exactly as it was (transactions, amounts, prices), so any of them can be repeated or interleaved with identical results, and a duplicate of a book and its original never affect each other whatever is done to either.
  Every command run again on the same files and arguments prints the same text.""",
  ["histories", "inputs"], "every interleaving of read-only queries and duplicates with operations, and every repetition of a command",
  "Tests call each function once on a fresh book; aliasing and iteration-order effects need histories and repetition.",
  ["book/book.go", "book/book_accum.go", "book/registry.go", "cmd/export/ledger.go", "cmd/export/beancount.go", "cmd/currencies/currencies.go"],
  [("duplicate", "book/book.go Duplicate"), ("accumulation on copies", "book/book_accum.go"), ("ordered output", "cmd/export")],
  ["book state before and after", "output of repeated commands"])

p("C23", "Invalid operations and options are refused with an error, never crashed on",
  """Any operation, macro, regular expression, date, factor, enumerated option or argument that is not valid makes the command fail with an error message and non-zero exit status and without printing a result, never with a crash, a hang or by being silently ignored.
  Enumerated options are accepted in any letter case and behave the same.""",
  ["inputs", "configurations"], "every operation string, malformed expression, self-referencing macro and option value for every command",
  "No test runs a command.",
  ["cmd/app/book_op.go", "cmd/utils/types.go", "book/book_utils.go", "cmd/reports/report.go", "cmd/register/register.go", "cmd/accounts/accounts.go", "script/book_op.go"],
  [("operation grammar", "cmd/app/book_op.go"), ("enumerations", "cmd/utils/types.go"), ("regular expression compilation", "book/book_utils.go")],
  ["error and exit status of the command"])

p("C24", "Account listing and currency precision reflect the whole book",
  """The account list contains exactly the accounts matching the expression that hold a non-zero balance in at least one currency, or all matching accounts when all are asked for, sorted and each once, in text and in JSON alike.
  The precision reported for each currency is the smallest number of decimals that shows every amount of that currency in the ledger exactly.""",
  ["inputs"], "every book, expression and flag, including accounts with several currencies that cancel or not and amounts with any decimals",
  "No test covers either.",
  ["book/book.go", "cmd/accounts/accounts.go", "book/builder.go", "cmd/currencies/currencies.go"],
  [("account listing", "book/book.go Accounts"), ("precision", "book/builder.go Build")], ["goledger accts", "goledger ccy"])

p("C25", "The computed rate of return makes the cash flows' present value zero",
  """For an investment (an outflow first, returns later) whose cash flows were produced by a constant yearly rate between -50% and +100%, the computed internal rate of return recovers that rate to within a tenth of a percentage point.
  The result does not depend on the order of the later flows and is unchanged when all flows are scaled by the same factor or shifted by whole leap-cycle periods.""",
  ["inputs"], "every series of dated cash flows of that shape, with any spacing down to days",
  "One fixed series is tested.", ["book/irr.go", "book/date.go"], [("Newton iteration", "book/irr.go CalculateIRR"), ("year fractions", "book/date.go AsYears")], ["returned rate"])

p("C26", "HTML report is well formed, escaped, and shows the same lines as the text",
  """The HTML report of any book is well-formed (every element closed, nested properly, one block per period) and contains, for every line of the report in order, the same account label, currency, amount, sign class and nesting depth as the other report formats.
  Payees, account names and currencies appear literally as text whatever characters they contain, never as markup.""",
  ["inputs"], "every book, hierarchy depth, number of periods, and any characters in payees and currencies", "No test renders HTML.",
  ["cmd/reports/html.go"], [("writer", "cmd/reports/html.go ShowHTMLTransactions")], ["goledger report --type html"])

p("C27", "Converting to the base currency uses that date's rate for every amount",
  """With conversion requested, every amount of a report or register is the original amount times the rate from its currency to the base currency on its (combined) date, exactly, and is shown in the base currency; amounts already in the base currency are unchanged and postings of one account are then added up.
  Conversion without a base currency is refused, and it never alters recorded prices or any other field.""",
  ["inputs", "configurations"], "every book, price history (including reciprocal and missing prices), base currency and period split",
  "No test converts a report.",
  ["cmd/reports/report.go", "cmd/register/register.go", "book/book.go", "book/price.go"], [("amount mapping", "book/book.go MapAmount"), ("report conversion", "cmd/reports/report.go"), ("register conversion", "cmd/register/register.go")],
  ["goledger report --convert", "goledger register --convert"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
