package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/cmd/export"
	regcmd "github.com/mescanne/goledger/cmd/register"
	"github.com/mescanne/goledger/cmd/reports"
	"pgregory.net/rapid"
)

// C22: queries change nothing, duplicates are independent, repetition gives the same.

// HStep is one step of a history on a pool of books.
type HStep struct {
	Kind string // op, api, dup, with (an operation with another book), query
	On   int
	With int
	Op   *Op
	Name string // of the query or api operation
	A, B string
	D    int
	F    bool
}

type HistCase struct {
	L     LCase
	Steps []HStep
}

var queryNames = []string{"transactions", "accounts", "price", "pairs", "prices", "decimals", "accumulate", "accumulate", "register", "register", "json", "rates", "export Ledger", "export CSV", "export Beancount", "report Text", "report Ledger", "report Html", "show register", "accttext"}
var apiNames = []string{"SplitBy", "FilterByAccount", "FilterTransaction", "MapTransaction", "MapAmount", "MapAccount", "RegexCCY"}

func genHist(t *rapid.T) HistCase {
	c := HistCase{}
	if chance(t, 40, "rich") {
		c.L = genRichLedger(t)
	} else {
		c.L = genPlainCase(t)
	}
	var accts, ccys []string
	dates := []int{20200101}
	for _, p := range c.L.Want.Posts {
		if !has(accts, p.Acct) {
			accts = append(accts, p.Acct)
		}
		if !has(ccys, p.CCY) {
			ccys = append(ccys, p.CCY)
		}
		dates = append(dates, p.Date)
	}
	if len(accts) == 0 {
		accts, ccys = []string{"Asset"}, []string{"USD"}
	}
	books := 1
	deps := 0
	var names nameLen
	for i, n := 0, intn(t, 2, 9, "steps"); i < n; i++ {
		s := HStep{Kind: pick(t, []string{"query", "query", "query", "op", "op", "api", "dup", "dup", "with"}, "kind"), On: intn(t, 0, books-1, "on"), With: intn(t, 0, books-1, "with")}
		s.D = pick(t, dates, "date")
		s.A, s.B = genAcctRe(t, accts), pick(t, ccys, "ccy")
		s.F = chance(t, 50, "flag")
		switch s.Kind {
		case "op":
			o := genOp(t, c.L.Want)
			if names.tooLong(c.L.Want, &o) {
				continue
			}
			if o.Kind == "depreciate" {
				months, _ := strconv.Atoi(o.Num)
				if deps++; deps > 1 || months*len(c.L.Want.Posts) > 1500 || maxDate(c.L.Want) > 98000101 {
					continue
				}
			}
			s.Op = &o
		case "api":
			s.Name = pick(t, apiNames, "api")
			if s.Name == "SplitBy" {
				s.A = pick(t, []string{"yearly", "quarterly", "monthly", "none"}, "by")
			}
			if s.Name == "MapAccount" {
				s.A = pick(t, accts, "acct")
			}
		case "with":
			s.Name = pick(t, []string{"dedup", "reclass"}, "withop")
			s.A = pick(t, accts, "acct")
		case "dup":
			if books > 4 {
				continue
			}
			books++
		case "query":
			s.Name = pick(t, queryNames, "query")
			if s.Name == "price" {
				s.A = pick(t, ccys, "unit")
			}
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// histBook is a book with how it came about.
type histBook struct {
	b    *book.Book
	made []func(*book.Book) *book.Book
	want string // dump of a book made the same way with nothing in between

	kept     []book.Transaction // its transactions, taken after the last operation on it
	keptText string
}

func (h *histBook) keep() {
	h.kept = h.b.Transactions()
	h.keptText = dumpTrans(h.kept)
}

func dumpBook(b *book.Book) string {
	var sb strings.Builder
	for _, t := range b.Transactions() {
		fmt.Fprintf(&sb, "T %v %q %q\n", t.GetDate(), t.GetPayee(), t.GetTransactionNote())
		for _, p := range t {
			fmt.Fprintf(&sb, " %v %q %q %q %s %q %q bal %s level %d term %q\n", p.GetDate(), p.GetPayee(), p.GetTransactionNote(), p.GetAccount(), ratText(p.GetAmount()), p.GetCCY(), p.GetPostNote(), ratText(p.GetBalance()), p.GetAccountLevel(), p.GetAccountTerm())
		}
	}
	var ps []string
	for _, pair := range b.GetPricePairs() {
		for _, p := range b.GetPriceList(pair.Unit, pair.CCY) {
			ps = append(ps, fmt.Sprintf("P %v %q %q %s\n", p.GetDate(), pair.Unit, pair.CCY, ratText(p.GetPrice())))
		}
	}
	sort.Strings(ps)
	d := b.GetCCYDecimals()
	var cs []string
	for c, n := range d {
		cs = append(cs, fmt.Sprintf("C %q %d\n", c, n))
	}
	sort.Strings(cs)
	return sb.String() + strings.Join(ps, "") + strings.Join(cs, "")
}

func ratText(r *big.Rat) string {
	if r == nil {
		return "nil"
	}
	return r.RatString()
}

func dumpTrans(ts []book.Transaction) string {
	var sb strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&sb, "T %v %q\n", t.GetDate(), t.GetPayee())
		for _, p := range t {
			fmt.Fprintf(&sb, " %q %s %q bal %s level %d term %q\n", p.GetAccount(), ratText(p.GetAmount()), p.GetCCY(), ratText(p.GetBalance()), p.GetAccountLevel(), p.GetAccountTerm())
		}
	}
	return sb.String()
}

// query runs a read-only query and gives its result as text.
func (s HStep) query(b *book.Book) string {
	re := regexp.MustCompile(s.A)
	bp := func() (*app.BookPrinter, *strings.Builder) {
		sb := &strings.Builder{}
		a := &app.App{Lang: "en", Divider: ":", Output: sb, Colour: s.F}
		return a.NewBookPrinter(b.GetCCYDecimals()), sb
	}
	acc := func() []book.Transaction {
		if s.F {
			return b.Accumulate(s.B, ":", re, "")
		}
		return b.Accumulate(s.B, ":", nil, s.A)
	}
	printed := func(f func(*app.BookPrinter) error) string {
		p, sb := bp()
		extra, err := captureStdout(func() error { return f(p) })
		return fmt.Sprintf("%s%s %v", extra, sb.String(), err)
	}
	switch s.Name {
	case "transactions":
		return dumpTrans(b.Transactions())
	case "accounts":
		return fmt.Sprintf("%q", b.Accounts(s.A, s.F))
	case "price":
		if s.A == s.B {
			return ""
		}
		r, ty := b.GetPrice(book.Date(s.D), s.A, s.B)
		return fmt.Sprint(ratText(r), ty)
	case "pairs":
		return fmt.Sprint(b.GetPricePairs())
	case "prices":
		o := ""
		for _, p := range b.GetPricePairs() {
			l := b.GetPriceList(p.Unit, p.CCY)
			it := l.GetIterator()
			r, ty := it.GetPrice(book.Date(s.D))
			o += fmt.Sprint(p, ratText(r), ty)
			r, ty = l.GetPrice(book.Date(s.D))
			o += fmt.Sprint(p, ratText(r), ty, "\n")
		}
		return o
	case "decimals":
		return fmt.Sprint(b.GetCCYDecimals())
	case "accumulate":
		return dumpTrans(acc())
	case "register":
		o := ""
		rep := b.ExtractRegister(s.B, re, s.F)
		for _, r := range rep {
			o += fmt.Sprintf("%v %q %q %q %s %q %s %q %q %q %s %s\n", r.Date, r.Account, r.Payee, r.CounterAccount, ratText(r.Amount), r.CCY, ratText(r.Balance), r.Note, r.TNote, r.BaseCCY, ratText(r.BaseAmount), ratText(r.BaseBalance))
		}
		return o
	case "json":
		j, err := json.Marshal(append([]book.Transaction{}, b.Transactions()...))
		return fmt.Sprint(string(j), err)
	case "rates":
		o := ""
		for _, t := range b.Transactions() {
			o += fmt.Sprint(ratText(t.InferRate(s.B, "EUR")), t.MaxAccountTerm(2), "\n")
		}
		return o
	case "export Ledger":
		return printed(func(p *app.BookPrinter) error { return export.ShowLedger(p, b) })
	case "export CSV":
		return printed(func(p *app.BookPrinter) error { return export.ShowCSV(p, b) })
	case "export Beancount":
		return printed(func(p *app.BookPrinter) error { return export.ShowBeancount(p, b, s.B) })
	case "report Text":
		return printed(func(p *app.BookPrinter) error { return reports.ShowTransactions(p, acc()) })
	case "report Ledger":
		return printed(func(p *app.BookPrinter) error { return reports.ShowLedger(p, b.Transactions()) })
	case "report Html":
		return printed(func(p *app.BookPrinter) error { return reports.ShowHTMLTransactions(p, acc(), "") })
	case "show register":
		return printed(func(p *app.BookPrinter) error {
			return regcmd.ShowReport(p, b.ExtractRegister(s.B, re, s.F), []string{"Text", "JSON", "CSV"}[s.D%3], 100, s.F, true, s.F)
		})
	case "accttext":
		o := ""
		for _, t := range b.Transactions() {
			for _, p := range t {
				o += p.String() + "\n"
				j, err := json.Marshal(p)
				o += fmt.Sprint(string(j), err)
			}
		}
		return o
	}
	harness("query %q", s.Name)
	return ""
}

// apply gives the function that performs an operation step.
func (s HStep) apply() func(*book.Book) *book.Book {
	return func(b *book.Book) *book.Book {
		if s.Op != nil {
			if err := applyReal(b, nil, s.Op.String()); err != nil {
				panic(err)
			}
			return b
		}
		re := regexp.MustCompile(s.A)
		switch s.Name {
		case "SplitBy":
			b.SplitBy(s.A)
		case "FilterByAccount":
			b.FilterByAccount(s.A)
		case "FilterTransaction":
			b.FilterTransaction(func(d book.Date, payee string, posts book.Transaction) bool { return int(d) < s.D || s.F })
		case "MapTransaction":
			b.MapTransaction(func(d book.Date, payee string) (book.Date, string) {
				if s.F {
					return book.Date(s.D), payee
				}
				return d, "P"
			})
		case "MapAmount":
			two := big.NewRat(3, 2)
			b.MapAmount(func(d book.Date, ccy string) (*big.Rat, string) {
				if s.F {
					return two, s.B
				}
				return two, ccy
			})
		case "MapAccount":
			b.MapAccount(func(a string) string {
				if s.F {
					return s.A
				}
				return re.ReplaceAllString(a, "X:$0")
			})
		case "RegexCCY":
			b.RegexCCY("^(.)", "$1")
		}
		return b
	}
}

func withOp(s HStep, other func() *book.Book) func(*book.Book) *book.Book {
	return func(b *book.Book) *book.Book {
		if s.Name == "dedup" {
			b.RemoveDuplicatesOf(other())
		} else {
			b.ReclassifyByAccount(other(), s.A, func(a, b string) float64 {
				if a == b {
					return 1
				}
				return 0.5
			})
		}
		return b
	}
}

func checkHist(c HistCase, x *Ctx) error {
	d := x.WriteFiles(c.L.Files)
	load := func() *book.Book {
		b, err := loadFile(filepath.Join(d, c.L.Main))
		if err != nil {
			harness("%v", err)
		}
		return b
	}
	fresh := func(h *histBook) *book.Book {
		b := load()
		for _, f := range h.made {
			b = f(b)
		}
		return b
	}
	if _, err := loadFile(filepath.Join(d, c.L.Main)); err != nil {
		return viol("%v\n%s", err, filesText(c.L.Files))
	}
	first := &histBook{b: load()}
	first.want = dumpBook(load())
	pool := []*histBook{first}
	first.keep()
	verify := func(step int, s HStep) error {
		for i, h := range pool {
			if h.kept == nil {
				continue
			}
			if got := dumpTrans(h.kept); got != h.keptText {
				return viol("step %d (%s) changes the transactions taken from book %d before, from\n%s\nto\n%s\nsteps %s\n%s", step+1, s.text(), i, cut(h.keptText, 1500), cut(got, 1500), c.text(), filesText(c.L.Files))
			}
		}
		for i, h := range pool {
			if got := dumpBook(h.b); got != h.want {
				return viol("after step %d (%s) book %d is\n%s\nexpected (the same operations on a fresh book)\n%s\nsteps %s\n%s", step+1, s.text(), i, cut(got, 1500), cut(h.want, 1500), c.text(), filesText(c.L.Files))
			}
		}
		return nil
	}
	for i, s := range c.Steps {
		if s.On >= len(pool) || s.With >= len(pool) {
			continue
		}
		h := pool[s.On]
		switch s.Kind {
		case "dup":
			n := &histBook{b: h.b.Duplicate(), made: append([]func(*book.Book) *book.Book{}, h.made...), want: h.want}
			pool = append(pool, n)
			if s.F {
				n.keep()
			}
			x.Label("duplicate")
		case "query":
			x.Label("%s", s.Name)
			want := s.query(fresh(h))
			got := s.query(h.b)
			again := s.query(h.b)
			if got != want {
				return viol("step %d (%s) on book %d gives\n%s\non a fresh book with the same operations it gives\n%s\nsteps %s\n%s", i+1, s.text(), s.On, cut(got, 1500), cut(want, 1500), c.text(), filesText(c.L.Files))
			}
			if got != again {
				return viol("step %d (%s) on book %d gives first\n%s\nthen\n%s\nsteps %s\n%s", i+1, s.text(), s.On, cut(got, 1500), cut(again, 1500), c.text(), filesText(c.L.Files))
			}
			if len(pool) > 1 || len(h.made) > 0 {
				x.NT()
			}
			if h.kept == nil && s.D%2 == 0 {
				h.keep()
			}
		case "op", "api":
			f := s.apply()
			h.kept = nil
			h.b = f(h.b)
			h.made = append(h.made, f)
			h.want = dumpBook(fresh(h))
			if len(pool) > 1 {
				x.NT()
				x.Label("operation on a book with duplicates")
			}
		case "with":
			if s.On == s.With {
				continue
			}
			o := pool[s.With]
			frozen := fresh(o)
			h.kept = nil
			h.b = withOp(s, func() *book.Book { return o.b })(h.b)
			h.made = append(h.made, withOp(s, func() *book.Book { return frozen }))
			h.want = dumpBook(fresh(h))
			x.NT()
			x.Label("%s", s.Name)
		}
		if err := verify(i, s); err != nil {
			return err
		}
	}
	return nil
}

func (s HStep) text() string {
	switch s.Kind {
	case "op":
		return fmt.Sprintf("%s on %d", s.Op, s.On)
	case "dup":
		return fmt.Sprintf("duplicate of %d", s.On)
	case "with":
		return fmt.Sprintf("%s on %d with %d", s.Name, s.On, s.With)
	}
	return fmt.Sprintf("%s(%q, %q, %d, %v) on %d", s.Name, s.A, s.B, s.D, s.F, s.On)
}

func (c HistCase) text() string {
	var o []string
	for _, s := range c.Steps {
		o = append(o, s.text())
	}
	return strings.Join(o, "; ")
}

// ---- repeated commands --------------------------------------------------------

// CmdCase is a command line on a ledger.
type CmdCase struct {
	L    LCase
	Cfg  CmdCfg
	Args []string
	Bin  bool
}

// CmdCfg is the configuration part of a command case.
type CmdCfg struct {
	Base    string
	Divider string
	All     bool
	Macros  map[string][]string
}

var reportSplits = []string{"none", "yearly", "quarterly", "monthly", "skip", "Monthly", "YEARLY"}

// genCmdArgs makes the arguments of a valid command (without the ledger).
func genCmdArgs(t *rapid.T, l LCase, re string, ops []string) []string {
	flag := func(pct int, f string) []string {
		if chance(t, pct, "flag"+f) {
			return []string{f}
		}
		return nil
	}
	switch pick(t, []string{"export", "report", "report", "register", "register", "accts", "ccy"}, "cmd") {
	case "export":
		return args("export", "--type="+pick(t, []string{"Ledger", "Json", "CSV", "Beancount", "csv", "ledger"}, "etype"), flag(20, "--jsonpretty"), "--", ops)
	case "report":
		a := args("report", "--type="+pick(t, []string{"Text", "Ledger", "Json", "HTML", "Beancount", "text"}, "rtype"), "--splitby="+pick(t, reportSplits, "split"))
		if chance(t, 60, "sum") {
			a = append(a, "--sum="+pick(t, []string{"true", "false"}, "sumv"))
		}
		if chance(t, 30, "conv") {
			a = append(a, "--convert")
		}
		if chance(t, 40, "credit") {
			a = append(a, "--credit="+re)
		}
		if chance(t, 25, "hidden") {
			a = append(a, "--hidden="+pick(t, []string{"Equity", "Asset"}, "hid"))
		}
		return args(a, "--", ops)
	case "register":
		a := args("register", "--type="+pick(t, []string{"Text", "Json", "CSV"}, "regtype"), flag(40, "--split"), flag(30, "--combined"), flag(25, "--convert"), "--asc="+pick(t, []string{"true", "false"}, "asc"), "--count="+fmt.Sprint(pick(t, []int{0, 1, 5, -3, 100, -100}, "count")))
		if chance(t, 25, "begin") {
			a = append(a, "--begin="+pick(t, []string{"2020", "2020-06-01", "1999/01/02"}, "begind"))
		}
		return args(a, "--", re, ops)
	case "accts":
		return args("accts", flag(40, "--all"), "--", re)
	}
	return args("ccy")
}

func genCmd(t *rapid.T) CmdCase {
	c := CmdCase{}
	if chance(t, 50, "rich") {
		c.L = genRichLedger(t)
	} else {
		c.L = genPlainCase(t)
	}
	var accts, ccys []string
	for _, p := range c.L.Want.Posts {
		if !has(accts, p.Acct) {
			accts = append(accts, p.Acct)
		}
		if !has(ccys, p.CCY) {
			ccys = append(ccys, p.CCY)
		}
	}
	if len(accts) == 0 {
		accts, ccys = []string{"Asset"}, []string{"USD"}
	}
	var ops []string
	if chance(t, 50, "ops") {
		ops = opTexts(genOps(t, c.L.Want, intn(t, 1, 2, "nops")))
	}
	c.Cfg.Base = pick(t, append([]string{""}, ccys...), "base")
	c.Cfg.Divider = pick(t, []string{":", ":", "_", "-"}, "divider")
	c.Cfg.All = chance(t, 20, "all")
	c.Args = genCmdArgs(t, c.L, genAcctRe(t, accts), ops)
	c.Bin = chance(t, 8, "bin")
	return c
}

func checkRepeat(c CmdCase, x *Ctx) error {
	d := x.WriteFiles(c.L.Files)
	before := snapshot(d)
	x.Label("%s", c.Args[0])
	n := 5
	if c.Bin {
		n = 3
		x.Label("binary")
	}
	var out0, err0 string
	for i := 0; i < n; i++ {
		var out, es string
		if c.Bin {
			conf := benignConf
			a := args("-l", filepath.Join(d, c.L.Main))
			if c.Cfg.Base != "" {
				a = append(a, "--ccy="+c.Cfg.Base)
			}
			r := x.goledger(d, conf, nil, args(a, "--divider="+c.Cfg.Divider, c.Args)...)
			if err := r.crash(); err != nil {
				return viol("%q: %v\n%s", c.Args, err, filesText(c.L.Files))
			}
			out, es = r.Out, fmt.Sprint(r.Code, r.Err)
		} else {
			o, err := cli(Cfg{Ledger: filepath.Join(d, c.L.Main), Base: c.Cfg.Base, Divider: c.Cfg.Divider, All: c.Cfg.All}, c.Args...)
			out, es = o, fmt.Sprint(err)
		}
		if i == 0 {
			out0, err0 = out, es
			if strings.Count(out, "\n") > 3 {
				x.NT()
			}
			continue
		}
		if out != out0 || es != err0 {
			return viol("%q: run 1 prints\n%s(%s)\nrun %d prints\n%s(%s)\n%s", c.Args, cut(out0, 1500), cut(err0, 300), i+1, cut(out, 1500), cut(es, 300), filesText(c.L.Files))
		}
	}
	return sameTree(before, snapshot(d), func(p string) bool { return filepath.Base(p) == "vt-conf.toml" })
}

// ImpRepeat repeats imports and generations.
func checkImportRepeat(c ImportCase, x *Ctx) error {
	x.WriteFiles(c.L.Files)
	files := c.files(x)
	run := func() (string, error) { return c.run(x, false, c.L.Main, c.code(nil), files, "") }
	out0, err0 := run()
	if err0 == nil && strings.Count(out0, "\n") > 3 {
		x.NT()
	}
	for i := 0; i < 4; i++ {
		out, err := run()
		if out != out0 || fmt.Sprint(err) != fmt.Sprint(err0) {
			return viol("the import prints first\n%s(%v)\nthen\n%s(%v)", cut(out0, 1500), err0, cut(out, 1500), err)
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C22",
		Rule: "histories on a pool of up to five books (a loaded one and duplicates of each other): valid operations, mutators, deduplication and reclassification against another book of the pool, duplication, and twenty kinds of read-only queries; after every step every book must equal one made afresh by only its own operations, and every query must answer as it does there, twice. Separately, random commands (export, report, register, accts, ccy, import) repeated on the same files, which must print the same and leave the files alone. Non-trivial = a query on a changed or duplicated book, an operation while there are duplicates, a repeated command that prints several lines",
		Facets: []*Facet{
			facet("history", 12000, 100000, genHist, checkHist),
			facet("repeat", 2500, 50000, genCmd, checkRepeat),
			facet("import", 600, 10000, genImportCase, checkImportRepeat),
		},
	})
}
