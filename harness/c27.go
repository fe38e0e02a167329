package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode"

	"github.com/mescanne/goledger/book"
	"pgregory.net/rapid"
)

// C27: conversion to the base currency.

type ConvCase struct {
	L     LCase
	Ops   []Op
	Base  string
	Split string
	Lang  string
}

// genPricedLedger: ledgers with a history of prices between their currencies.
func genPricedLedger(t *rapid.T, base string) LCase {
	s := genSpec(t)
	s.Accts = genAccts(t, 6)
	s.CCYs = genCCYs(t, 4, true)
	if !has(s.CCYs, base) && chance(t, 85, "hasbase") {
		s.CCYs = append(s.CCYs, base)
	}
	s.Trans = intn(t, 1, 9, "ntrans")
	s.Big = chance(t, 15, "big")
	s.Prices = pick(t, []int{0, 1, 3, 6, 10, 16, 25}, "npr")
	for i, p := range s.Payees {
		if strings.Contains(p, `"`) {
			s.Payees[i] = "Aldi"
		}
	}
	return genLedger(t, s, chance(t, 60, "plain"))
}

func genConv(t *rapid.T) ConvCase {
	c := ConvCase{Base: pick(t, []string{"USD", "EUR", "£", "A B"}, "base"), Lang: "en"}
	c.L = genPricedLedger(t, c.Base)
	if chance(t, 35, "ops") {
		c.Ops = genOps(t, c.L.Want, intn(t, 1, 2, "nops"), "map", "move", "asof", "since", "mapccy", "combine")
	}
	c.Split = pick(t, append([]string{"skip", "skip", "none"}, floors...), "split")
	return c
}

var floors = []string{"monthly", "quarterly", "yearly"}

func (c ConvCase) String() string {
	return fmt.Sprintf("%q base %q\n%s", c.args("X"), c.Base, filesText(c.L.Files))
}

func (c ConvCase) args(typ string) []string {
	return append(args("report", "--convert", "--sum=false", "--type="+typ, "--splitby="+c.Split, "--"), opTexts(c.Ops)...)
}

func (c ConvCase) want(x *Ctx) MBook {
	m := applyModel(c.L.Want, c.Ops)
	if c.Split != "skip" {
		m = m.combine(c.Split)
	}
	m = m.norm()
	for _, p := range m.Posts {
		if p.CCY == c.Base {
			continue
		}
		_, how := m.rate(p.Date, p.CCY, c.Base)
		x.Label("rate %s", how)
		if _, _, direct := m.rateDirect(p.Date, p.CCY, c.Base); !direct && how != "None" {
			x.Label("reciprocal")
		}
		if how != "None" {
			x.NT()
		}
	}
	n := len(m.Posts)
	m = m.convert(c.Base).norm()
	if len(m.Posts) < n {
		x.Label("postings added up")
	}
	return m
}

func pricesOf(b *book.Book) string {
	var out []string
	for _, pair := range b.GetPricePairs() {
		for _, p := range b.GetPriceList(pair.Unit, pair.CCY) {
			out = append(out, fmt.Sprintf("%s %s %s %s", p.GetDate(), pair.Unit, pair.CCY, p.GetPrice().RatString()))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func (c ConvCase) checkBook(x *Ctx) error {
	x.WriteFiles(c.L.Files)
	b, err := loadFile(filepath.Join(x.Tmp(), c.L.Main))
	if err != nil {
		return viol("%v\n%s", err, c)
	}
	if err := applyReal(b, nil, opTexts(c.Ops)...); err != nil {
		return viol("%v\n%s", err, c)
	}
	if c.Split != "skip" {
		b.SplitBy(c.Split)
	}
	before, decs := pricesOf(b), fmt.Sprint(b.GetCCYDecimals())
	conv := func() {
		b.MapAmount(func(d book.Date, ccy string) (*big.Rat, string) {
			r, _ := b.GetPrice(d, ccy, c.Base)
			return r, c.Base
		})
	}
	conv()
	want := c.want(x)
	for i, round := range []string{"converted", "converted again"} {
		if i > 0 {
			conv()
		}
		if err := diffPosts(noBal(observe(b).Posts), want.Posts, true); err != nil {
			return viol("%s: %v\n%s", round, err, c)
		}
		if p := pricesOf(b); p != before {
			return viol("%s: prices are now\n%s\nthey were\n%s\n%s", round, p, before, c)
		}
		if d := fmt.Sprint(b.GetCCYDecimals()); d != decs {
			return viol("%s: decimals are now %s, they were %s\n%s", round, d, decs, c)
		}
	}
	return nil
}

func (c ConvCase) diffJSON(out string, want MBook) error {
	ts, err := parseJSONTrans(out)
	if err != nil {
		return err
	}
	wt := want.trans()
	if len(ts) != len(wt) {
		return viol("%d transactions, expected %d", len(ts), len(wt))
	}
	for i, t := range ts {
		w := wt[i]
		d, err := jsonDate(t.Date)
		if err != nil {
			return err
		}
		if d != w[0].Date || t.Payee != w[0].Payee || !has(w[0].TNotes, t.Note) || len(t.Posts) != len(w) {
			return viol("transaction %d: %s %q note %q with %d postings, expected %s %q %q with %d", i, t.Date, t.Payee, t.Note, len(t.Posts), dateText(w[0].Date), w[0].Payee, w[0].TNotes, len(w))
		}
		for j, p := range t.Posts {
			if p.CCY != c.Base {
				return viol("transaction %d: %+v isn't in %s", i, p, c.Base)
			}
			if p.Account != w[j].Acct || !has(w[j].Notes, p.Note) || !sameFloat(p.Amount, w[j].Val) {
				return viol("transaction %d: posting %+v, expected %s %s %q", i, p, w[j].Acct, w[j].Val.RatString(), w[j].Notes)
			}
		}
	}
	return nil
}

var reNumEnd = regexp.MustCompile(`-?[0-9]+(\.[0-9]+)?$`)

// diffLedger compares the printed ledger line by line; amounts may be rounded to the shown decimals.
func diffLedger(out string, want MBook, dec map[string]int) error {
	lines := strings.Split(out, "\n")
	k := 0
	next := func() string {
		if k < len(lines) {
			k++
			return lines[k-1]
		}
		return "<end>"
	}
	for i, t := range want.trans() {
		if l := next(); !strings.HasPrefix(l, dateText(t[0].Date)+" ") || !strings.Contains(l, strings.ReplaceAll(t[0].Payee, `"`, "'")) && !strings.Contains(l, t[0].Payee) {
			return viol("transaction %d: line %q, expected %s %q", i, l, dateText(t[0].Date), t[0].Payee)
		}
		for _, p := range t {
			l := next()
			ok := false
			sym := p.CCY
			if needQuote(sym) {
				sym = `"` + sym + `"`
			}
			for _, n := range p.Notes {
				s := l
				if n != "" {
					if !strings.HasSuffix(s, "  ; "+n) {
						continue
					}
					s = strings.TrimSuffix(s, "  ; "+n)
				}
				head := "  " + p.Acct + "  " + sym
				num := reNumEnd.FindString(s)
				if num == "" || strings.TrimRight(strings.TrimSuffix(s, num), " ") != head {
					continue
				}
				g := ratStr(num)
				d := 0
				if j := strings.IndexByte(num, '.'); j >= 0 {
					d = len(num) - j - 1
				}
				if want, ok := dec[p.CCY]; d < 2 && !ok || ok && d < want {
					return viol("transaction %d: line %q, %s should have %d decimals (or 2 if that is not known)", i, l, p.CCY, want)
				}
				half := big.NewRat(1, 2)
				half.Quo(half, new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(d)), nil)))
				if diff := rsub(g, p.Val); diff.Abs(diff).Cmp(half) <= 0 || rounds(t) && closeIn(g, p.Val, len(t)) {
					ok = true // the last amount without finite decimals makes up for the others
				}
			}
			if !ok {
				return viol("transaction %d: line %q, expected %s %s %s %q", i, l, p.Acct, p.CCY, p.Val.RatString(), p.Notes)
			}
		}
		if l := next(); l != "" {
			return viol("transaction %d: line %q after its postings", i, l)
		}
	}
	if rest := strings.TrimSpace(strings.Join(lines[k:], "\n")); rest != "" {
		return viol("printed after everything: %q", cut(rest, 200))
	}
	return nil
}

func (c ConvCase) report(x *Ctx, typ string, binary bool) error {
	x.WriteFiles(c.L.Files)
	want := c.want(x)
	a := c.args(typ)
	out, err := "", error(nil)
	if binary {
		r := x.goledger(x.Tmp(), "", nil, append([]string{"-l", c.L.Main, "--ccy=" + c.Base}, a...)...)
		if r.Code != 0 {
			err = fmt.Errorf("exit %d %s", r.Code, r.Err)
		}
		out = r.Out
	} else {
		out, err = cli(Cfg{Ledger: filepath.Join(x.Tmp(), c.L.Main), Base: c.Base}, a...)
	}
	if err != nil {
		return viol("%q: %v\n%s", a, err, c)
	}
	if typ == "Json" {
		err = c.diffJSON(out, want)
	} else {
		err = diffLedger(out, want, ExportCase{L: c.L, Ops: c.Ops}.decimals())
	}
	if err != nil {
		return viol("%q base %q: %v\nprinted\n%s\nexpected\n%s\n%s", a, c.Base, err, cut(out, 3000), dumpPosts(want.Posts), filesText(c.L.Files))
	}
	for name, text := range c.L.Files {
		if got, err := os.ReadFile(filepath.Join(x.Tmp(), name)); err != nil || string(got) != text {
			return viol("the ledger file %s has been changed (%v)\n%s", name, err, c)
		}
	}
	return nil
}

func genRegConv(t *rapid.T) RegCase {
	c := genRegCase(t)
	if chance(t, 80, "priced") {
		c.L = genPricedLedger(t, c.Base)
		c.Ops = nil
		if chance(t, 30, "ops2") {
			c.Ops = genOps(t, c.L.Want, 1, "map", "move", "asof", "since", "combine")
		}
		c.Arg = pick(t, []string{".", "^Asset", "^(Asset|Expense)", "A", ""}, "arg2")
		c.Begin, c.End = "", ""
	}
	c.Convert = true
	return c
}

func dumpPosts(ps []MPost) string {
	s := ""
	for _, p := range ps {
		s += fmt.Sprintf("  %s %q %s %s %q\n", dateText(p.Date), p.Payee, p.Acct, p.Val.RatString(), p.CCY)
	}
	return cut(s, 3000)
}

// Conversion without a base currency.
type NoBase struct {
	L    LCase
	Args []string
}

func genNoBase(t *rapid.T) NoBase {
	c := NoBase{L: genPricedLedger(t, "USD")}
	if chance(t, 50, "register") {
		c.Args = append(args("register", "--convert", "--type="+pick(t, []string{"Text", "CSV", "JSON"}, "rt")), pick(t, []string{".", "Asset"}, "re"))
		if chance(t, 50, "comb") {
			c.Args = append(c.Args, "--combined")
		}
	} else {
		c.Args = args("report", "--convert", "--type="+pick(t, []string{"Text", "Ledger", "Json", "HTML"}, "ty"), "--splitby="+pick(t, append([]string{"skip", "none"}, floors...), "split"), fmt.Sprintf("--sum=%v", chance(t, 30, "sum")))
	}
	return c
}

func checkNoBase(c NoBase, x *Ctx) error {
	x.WriteFiles(c.L.Files)
	x.NT()
	x.Label("%s", c.Args[0])
	out, err := cli(Cfg{Ledger: filepath.Join(x.Tmp(), c.L.Main)}, c.Args...)
	if err == nil {
		return viol("%q without a base currency succeeded and printed\n%s", c.Args, cut(out, 500))
	}
	if i := strings.Index(out, "Usage:\n"); i >= 0 {
		out = out[:i]
	}
	if s := strings.TrimSpace(out); s != "" && !strings.HasPrefix(s, "Error:") {
		return viol("%q without a base currency printed\n%s", c.Args, cut(out, 500))
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C27",
		Rule: "random ledgers with up to 25 prices between their currencies (quoted either way round, on, between and outside the dates), after optional operations, for every period split; amounts after conversion compared exactly with amount times reference rate at the combined date, in the book (once and repeated), the JSON and ledger reports and the register; non-trivial = some amount is converted by a recorded price (registers: more than one entry)",
		Assumptions: []string{
			"the rate itself is the one C04 describes; without any price it is 1",
			"one price per pair and date, one direction per pair",
			"JSON amounts are the nearest 64-bit floating point numbers, ledger text is rounded to the decimals shown",
		},
		Facets: []*Facet{
			facet("book", 6000, 200000, genConv, func(c ConvCase, x *Ctx) error { return c.checkBook(x) }),
			facet("json", 4000, 120000, genConv, func(c ConvCase, x *Ctx) error { return c.report(x, "Json", false) }),
			facet("ledger", 3000, 100000, genConv, func(c ConvCase, x *Ctx) error { return c.report(x, "Ledger", false) }),
			facet("binary", 150, 4000, genConv, func(c ConvCase, x *Ctx) error { return c.report(x, "Json", true) }),
			facet("register", 2000, 80000, genRegConv, func(c RegCase, x *Ctx) error { return c.checkEntries(x) }),
			facet("registercsv", 2000, 80000, genRegConv, func(c RegCase, x *Ctx) error { return c.run(x, "CSV", false) }),
			facet("registerjson", 1500, 60000, genRegConv, func(c RegCase, x *Ctx) error { return c.run(x, "JSON", false) }),
			facet("registertext", 1000, 40000, genRegConv, func(c RegCase, x *Ctx) error { return c.run(x, "Text", false) }),
			facet("nobase", 600, 20000, genNoBase, checkNoBase),
		},
	})
}

// needQuote: the currency has to stand in quotes in a ledger.
func needQuote(ccy string) bool {
	return ccy == "" || strings.ContainsAny(ccy, ";@-.0123456789\n") || strings.IndexFunc(ccy, unicode.IsSpace) >= 0
}

// checkLedgerReport: the unsummarised report in ledger form.
func checkLedgerReport(c ExportCase, x *Ctx) error {
	want := c.begin(x)
	c.Report = true
	for _, p := range want.Posts {
		if strings.TrimSpace(p.CCY) != p.CCY || p.CCY == "" || p.Acct == "" {
			return nil // renamed to something that can't be told apart in text
		}
	}
	out, err := c.export(x, c.L.Main, "Ledger", false, true)
	if err != nil {
		return viol("%v\n%s", err, c)
	}
	if err := diffLedger(out, want, c.decimals()); err != nil {
		return viol("%v\n%s\n%s", err, cut(out, 3000), c)
	}
	return nil
}
