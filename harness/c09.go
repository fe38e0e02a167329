package main

import (
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/mescanne/goledger/book"
	"pgregory.net/rapid"
)

// An expected register entry.
type RegEntry struct {
	Date          int
	Payee         string
	Acct, Counter string
	CCY           string
	Amount, Bal   *big.Rat
	Notes, TNotes []string
	Rates         []*big.Rat // possible rates to the base currency, nil if not determined
	Whole         *big.Rat   // the posting this entry is a share of
	First         bool       // first share of its posting
}

// impliedRates: the rates a transaction itself gives from unit to base. ok is false if
// that is not clear-cut (an account with more than these two currencies).
func impliedRates(t MTrans, base, unit string) (rates []*big.Rat, ok bool) {
	byAcct := map[string]map[string]*big.Rat{}
	for _, p := range t {
		if byAcct[p.Acct] == nil {
			byAcct[p.Acct] = map[string]*big.Rat{}
		}
		byAcct[p.Acct][p.CCY] = p.Val
	}
	for _, m := range byAcct {
		b, u := m[base], m[unit]
		if b == nil || u == nil {
			continue
		}
		if len(m) != 2 {
			return nil, false
		}
		if b.Sign() == u.Sign() {
			continue
		}
		rates = append(rates, rneg(rquo(b, u)))
	}
	return rates, true
}

func (m MBook) register(base string, re *regexp.Regexp, split bool) []RegEntry {
	var out []RegEntry
	bal := map[string]*big.Rat{}
	for _, t := range m.trans() {
		for _, p := range t {
			if !re.MatchString(p.Acct) {
				continue
			}
			var names []string
			var amts []*big.Rat
			sum := new(big.Rat)
			for _, q := range t {
				if q.Acct != p.Acct && q.CCY == p.CCY && q.Val.Sign() == -p.Val.Sign() {
					names = append(names, q.Acct)
					amts = append(amts, q.Val)
					sum.Add(sum, q.Val)
				}
			}
			if len(names) == 0 {
				harness("posting without counteraccount: %v", p)
			}
			if !split {
				names = []string{strings.Join(names, ";")}
				amts = []*big.Rat{sum}
			}
			rates, clear := []*big.Rat{rat(1, 1)}, true
			if p.CCY != base {
				rates, clear = impliedRates(t, base, p.CCY)
				if clear && len(rates) == 0 {
					r, _ := m.rate(p.Date, p.CCY, base)
					rates = []*big.Rat{r}
				}
			}
			if !clear {
				rates = nil
			}
			for i, n := range names {
				share := rmul(p.Val, rquo(amts[i], sum))
				if bal[p.CCY] == nil {
					bal[p.CCY] = new(big.Rat)
				}
				bal[p.CCY] = radd(bal[p.CCY], share)
				out = append(out, RegEntry{Date: p.Date, Payee: p.Payee, Acct: p.Acct, Counter: n, CCY: p.CCY, Amount: share, Bal: bal[p.CCY], Notes: p.Notes, TNotes: p.TNotes, Rates: rates, Whole: p.Val, First: i == 0})
			}
		}
	}
	return out
}

type RegCase struct {
	L          LCase
	Ops        []Op
	Base       string
	Convert    bool
	Arg        string
	Combined   bool
	Split      bool
	All        bool
	Begin, End string
	BeginD     int
	EndD       int
	Count      int
	Desc       bool
	Lang       string
	Colour     bool
	NoType     bool   // the type is not given
	LangEnv    string // the language is given by the environment
}

func genRegCase(t *rapid.T) RegCase {
	c := RegCase{Base: pick(t, []string{"USD", "EUR", "£"}, "base"), Lang: "en"}
	c.L = genReportLedger(t, c.Base)
	if chance(t, 30, "ops") {
		c.Ops = genOps(t, c.L.Want, intn(t, 1, 2, "nops"), "map", "move", "asof", "since", "combine")
	}
	m := applyModel(c.L.Want, c.Ops)
	var accts []string
	dates := []int{20200101}
	for _, p := range m.Posts {
		if !has(accts, p.Acct) {
			accts = append(accts, p.Acct)
		}
		dates = append(dates, p.Date)
	}
	if len(accts) == 0 {
		accts = []string{"Asset"}
	}
	switch intn(t, 0, 4, "argk") {
	case 0, 1:
		c.Arg = "^" + regexp.QuoteMeta(pick(t, accts, "acct")) + "$"
	case 2:
		c.Arg = pick(t, []string{".", "^Asset", "Bank", "^(Asset|Expense)", "A", "", "nosuch"}, "argre")
	default:
		c.Arg = regexp.QuoteMeta(pick(t, accts, "acct"))
	}
	c.Combined = chance(t, 55, "combined")
	c.Split = chance(t, 50, "split")
	c.All = chance(t, 50, "all")
	c.Convert = chance(t, 20, "convert")
	cutDate := func(l string) (string, int) {
		d := pick(t, dates, l)
		switch intn(t, 0, 3, l+"k") {
		case 0:
			d = dateOf(dayNo(d) + 1)
		case 1:
			if dayNo(d) > 1 {
				d = dateOf(dayNo(d) - 1)
			}
		}
		return pick(t, dateSpellings(d), l+"s"), d
	}
	if chance(t, 35, "begin") {
		c.Begin, c.BeginD = cutDate("begind")
	}
	if chance(t, 35, "end") {
		c.End, c.EndD = cutDate("endd")
	}
	if chance(t, 40, "count") {
		c.Count = pick(t, []int{1, -1, 2, -2, 3, -3, 5, -5, 100, -100, math.MaxInt64, math.MinInt64}, "countn")
	}
	c.Desc = chance(t, 35, "desc")
	return c
}

func (c RegCase) String() string {
	return fmt.Sprintf("%q base %q\n%s", c.args("X"), c.Base, filesText(c.L.Files))
}

func (c RegCase) args(typ string) []string {
	a := args("register", "--type="+typ, fmt.Sprintf("--asc=%v", !c.Desc))
	if c.Combined {
		a = append(a, "--combined")
	}
	if c.Split {
		a = append(a, "--split")
	}
	if c.Convert {
		a = append(a, "--convert")
	}
	if c.Begin != "" {
		a = append(a, "--begin="+c.Begin)
	}
	if c.End != "" {
		a = append(a, "--asof="+c.End)
	}
	if c.Count != 0 {
		a = append(a, fmt.Sprintf("--count=%d", c.Count))
	}
	a = append(a, "--")
	a = append(a, opTexts(c.Ops)...)
	return append(a, c.Arg)
}

func (c RegCase) cfg(x *Ctx) Cfg {
	return Cfg{Ledger: filepath.Join(x.Tmp(), c.L.Main), Base: c.Base, Lang: c.Lang, Colour: c.Colour, All: c.All}
}

func (c RegCase) model() MBook {
	m := c.L.Want
	if c.Convert {
		m = m.convert(c.Base)
	}
	return applyModel(m, c.Ops).norm()
}

type RegPart struct {
	Acct    string // "" when combined
	Entries []RegEntry
}

// want is what is to be listed: one part per account, or one of all.
func (c RegCase) want(m MBook) []RegPart {
	sel := func(re *regexp.Regexp) []RegEntry {
		es := m.register(c.Base, re, c.Split)
		var out []RegEntry
		for _, e := range es {
			if (c.Begin == "" || e.Date >= c.BeginD) && (c.End == "" || e.Date < c.EndD) {
				out = append(out, e)
			}
		}
		if c.Count > 0 && len(out) > c.Count {
			out = out[:c.Count]
		}
		if c.Count < 0 && len(out)+c.Count > 0 {
			out = out[len(out)+c.Count:]
		}
		if c.Desc {
			r := []RegEntry{}
			for i := len(out) - 1; i >= 0; i-- {
				r = append(r, out[i])
			}
			out = r
		}
		return out
	}
	if c.Combined {
		return []RegPart{{"", sel(regexp.MustCompile(c.Arg))}}
	}
	var out []RegPart
	for _, a := range m.accounts(c.Arg, c.All) {
		out = append(out, RegPart{a, sel(regexp.MustCompile("^" + regexp.QuoteMeta(a) + "$"))})
	}
	return out
}

// accounts lists matching accounts (with a balance, or all).
func (m MBook) accounts(re string, all bool) []string {
	rx := regexp.MustCompile(re)
	bal := map[[2]string]*big.Rat{}
	var out []string
	for _, p := range m.Posts {
		k := [2]string{p.Acct, p.CCY}
		if bal[k] == nil {
			bal[k] = new(big.Rat)
		}
		bal[k] = radd(bal[k], p.Val)
	}
	for k, v := range bal {
		if rx.MatchString(k[0]) && (all || v.Sign() != 0) && !has(out, k[0]) {
			out = append(out, k[0])
		}
	}
	sortStrings(out)
	return out
}

func (c RegCase) label(x *Ctx, parts []RegPart) {
	n := 0
	for _, p := range parts {
		n += len(p.Entries)
		for _, e := range p.Entries {
			if strings.Contains(e.Counter, ";") {
				x.Label("several counteraccounts")
			}
			if !e.First {
				x.Label("split share")
			}
			if len(e.Rates) > 0 && e.CCY != c.Base {
				x.Label("converted amount")
			}
		}
	}
	if n > 1 {
		x.NT()
	}
	if c.Begin != "" || c.End != "" {
		x.Label("date limits")
	}
	if c.Count != 0 {
		x.Label("count")
	}
	if c.Desc {
		x.Label("descending")
	}
	if c.Combined {
		x.Label("combined")
	}
}

func in(r *big.Rat, l []*big.Rat) bool {
	for _, v := range l {
		if v.Cmp(r) == 0 {
			return true
		}
	}
	return false
}

func dumpEntries(es []RegEntry) string {
	s := ""
	for _, e := range es {
		s += fmt.Sprintf("  %s %q %q <- %q %s %q bal %s\n", dateText(e.Date), e.Payee, e.Acct, e.Counter, e.Amount.RatString(), e.CCY, e.Bal.RatString())
	}
	return cut(s, 3000)
}

// sameCounter: the list of counteraccounts, in any order.
func sameCounter(a, b string) bool {
	x, y := strings.Split(a, ";"), strings.Split(b, ";")
	sortStrings(x)
	sortStrings(y)
	return strings.Join(x, ";") == strings.Join(y, ";")
}

func (c RegCase) checkEntries(x *Ctx) error {
	x.WriteFiles(c.L.Files)
	b, err := loadFile(filepath.Join(x.Tmp(), c.L.Main))
	if err != nil {
		return viol("%v\n%s", err, filesText(c.L.Files))
	}
	if c.Convert {
		b.MapAmount(func(d book.Date, ccy string) (*big.Rat, string) {
			r, _ := b.GetPrice(d, ccy, c.Base)
			return r, c.Base
		})
	}
	if err := applyReal(b, nil, opTexts(c.Ops)...); err != nil {
		return viol("%v\n%s", err, c)
	}
	m := c.model()
	want := m.register(c.Base, regexp.MustCompile(c.Arg), c.Split)
	c.label(x, []RegPart{{"", want}})
	got := b.ExtractRegister(c.Base, regexp.MustCompile(c.Arg), c.Split)
	if len(got) != len(want) {
		return viol("%d entries observed, %d expected:\n%s%s", len(got), len(want), dumpEntries(want), c)
	}
	baseBal := []*big.Rat{new(big.Rat)}
	for i, g := range got {
		w := want[i]
		if int(g.Date) != w.Date || g.Payee != w.Payee || g.Account != w.Acct || !sameCounter(g.CounterAccount, w.Counter) || g.CCY != w.CCY || g.Amount.Cmp(w.Amount) != 0 || g.Balance.Cmp(w.Bal) != 0 || !has(w.Notes, g.Note) || !has(w.TNotes, g.TNote) {
			return viol("entry %d: observed %s %q %q <- %q %s %q bal %s notes %q %q, expected\n%s%s", i, g.Date, g.Payee, g.Account, g.CounterAccount, g.Amount.RatString(), g.CCY, g.Balance.RatString(), g.Note, g.TNote, dumpEntries(want[i:i+1]), c)
		}
		if g.BaseCCY != c.Base {
			return viol("entry %d: base currency %q, expected %q\n%s", i, g.BaseCCY, c.Base, c)
		}
		if w.Rates != nil {
			okv := false
			for _, r := range w.Rates {
				if g.BaseAmount.Cmp(rmul(r, w.Amount)) == 0 {
					okv = true
				}
			}
			if !okv {
				return viol("entry %d (%s %s): base amount %s, expected rate %v\n%s", i, w.Amount.RatString(), w.CCY, g.BaseAmount.RatString(), w.Rates, c)
			}
		}
		baseBal[0] = radd(baseBal[0], g.BaseAmount)
		if g.BaseBalance.Cmp(baseBal[0]) != 0 {
			return viol("entry %d: base balance %s is not the running total %s of the base amounts\n%s", i, g.BaseBalance.RatString(), baseBal[0].RatString(), c)
		}
	}
	// date limits only select
	got.FilterByDate(c.Begin, c.End)
	var lim []RegEntry
	for _, e := range want {
		if (c.Begin == "" || e.Date >= c.BeginD) && (c.End == "" || e.Date < c.EndD) {
			lim = append(lim, e)
		}
	}
	if len(got) != len(lim) {
		return viol("%d entries between %q and %q, expected %d\n%s%s", len(got), c.Begin, c.End, len(lim), dumpEntries(lim), c)
	}
	for i, g := range got {
		w := lim[i]
		if int(g.Date) != w.Date || g.Payee != w.Payee || g.Account != w.Acct || g.Amount.Cmp(w.Amount) != 0 || g.Balance.Cmp(w.Bal) != 0 || g.CCY != w.CCY {
			return viol("entry %d between %q and %q: observed %s %q %s bal %s, expected\n%s%s", i, c.Begin, c.End, g.Date, g.Payee, g.Amount.RatString(), g.Balance.RatString(), dumpEntries(lim[i:i+1]), c)
		}
	}
	return nil
}

// splitParts cuts the output at the account headings.
func splitParts(out string, parts []RegPart, c RegCase) ([]string, error) {
	if c.Combined {
		return []string{out}, nil
	}
	var secs []string
	rest := out
	for i, p := range parts {
		h := "\n" + p.Acct + "\n"
		if !strings.HasPrefix(rest, h) {
			return nil, viol("expected the heading of account %q, printed %q\n%s", p.Acct, cut(rest, 300), c)
		}
		rest = rest[len(h):]
		if i+1 < len(parts) {
			k := strings.Index(rest, "\n"+parts[i+1].Acct+"\n")
			// CSV and text parts end with a line end of their own
			if k < 0 {
				return nil, viol("no heading for account %q\n%s\n%s", parts[i+1].Acct, cut(out, 2000), c)
			}
			secs = append(secs, rest[:k])
			rest = rest[k:]
		} else {
			secs = append(secs, rest)
			rest = ""
		}
	}
	if rest != "" {
		return nil, viol("printed %q although no account is listed\n%s", cut(rest, 300), c)
	}
	return secs, nil
}

// closeTo: the text is the exact amount, or rounded to at least six decimals if it has no finite expansion.
func closeTo(s string, v *big.Rat) bool {
	g, ok := new(big.Rat).SetString(s)
	return ok && closeRat(g, v)
}

func closeRat(g, v *big.Rat) bool {
	if minDecimals(v) >= 0 {
		return g.Cmp(v) == 0
	}
	d := rsub(g, v)
	return new(big.Rat).Abs(d).Cmp(big.NewRat(1, 1000000)) <= 0
}

func (c RegCase) run(x *Ctx, typ string, binary bool) error {
	x.WriteFiles(c.L.Files)
	parts := c.want(c.model())
	c.label(x, parts)
	var out string
	a := c.args(typ)
	if binary {
		al := []string{"-l", c.L.Main, "--ccy=" + c.Base}
		var env []string
		if c.LangEnv != "" {
			env = []string{"LANG=" + c.LangEnv}
		} else {
			al = append(al, "--lang="+c.Lang)
		}
		if c.NoType {
			for i, s := range a {
				if strings.HasPrefix(s, "--type=") {
					a = append(append([]string{}, a[:i]...), a[i+1:]...)
					break
				}
			}
		}
		if c.All {
			al = append(al, "--all")
		}
		r := x.goledger(x.Tmp(), "", env, append(al, a...)...)
		if r.Code != 0 {
			return viol("%q: exit %d: %s\n%s", a, r.Code, cut(r.Err, 500), c)
		}
		out = reAnsi.ReplaceAllString(r.Out, "")
	} else {
		o, err := cli(c.cfg(x), a...)
		if err != nil {
			return viol("%q: %v\n%s", a, err, c)
		}
		out = o
	}
	switch typ {
	case "Text":
		var rows []string
		b, err := loadFile(filepath.Join(x.Tmp(), c.L.Main))
		if err != nil {
			return viol("%v", err)
		}
		dec := b.GetCCYDecimals()
		for _, p := range parts {
			if !c.Combined && squeeze(p.Acct) != "" {
				rows = append(rows, squeeze(p.Acct))
			}
			for _, l := range renderTable(c.regTable(p, dec)) {
				rows = append(rows, squeeze(l))
			}
		}
		var got []string
		for _, l := range tableLines(out) {
			got = append(got, squeeze(l))
		}
		if strings.Join(got, "\n") != strings.Join(rows, "\n") {
			return viol("%q printed\n%s\nexpected (spaces aside)\n%s\n%s", a, cut(out, 2500), cut(strings.Join(rows, "\n"), 2500), c)
		}
		return nil
	}
	secs, err := splitParts(out, parts, c)
	if err != nil {
		return err
	}
	for i, s := range secs {
		var err error
		if typ == "CSV" {
			err = diffRegCSV(s, parts[i].Entries)
		} else {
			err = diffRegJSON(s, parts[i].Entries, c.Base)
		}
		if err != nil {
			return viol("%q account %q: %v\nprinted\n%s\nexpected\n%s%s", a, parts[i].Acct, err, cut(s, 2000), dumpEntries(parts[i].Entries), c)
		}
	}
	return nil
}

func (c RegCase) regTable(p RegPart, dec map[string]int) [][]cell {
	head := []cell{textCell("Date"), textCell("Payee")}
	if c.Combined {
		head = append(head, textCell("Account"))
	}
	head = append(head, textCell("Counteraccount"), rightCell("Amount"), rightCell("Balance"))
	rows := [][]cell{head}
	for _, e := range p.Entries {
		r := []cell{textCell(dateText(e.Date)), textCell(e.Payee)}
		if c.Combined {
			r = append(r, textCell(e.Acct))
		}
		r = append(r, textCell(e.Counter), money(c.Lang, dec, e.CCY, e.Amount), money(c.Lang, dec, e.CCY, e.Bal))
		rows = append(rows, r)
	}
	return rows
}

func diffRegCSV(s string, want []RegEntry) error {
	rows, err := csv.NewReader(strings.NewReader(s)).ReadAll()
	if err != nil {
		return viol("not CSV: %v", err)
	}
	if len(rows) == 0 || strings.Join(rows[0], ",") != "date,payee,account,counterAccount,ccy,amount,balance" {
		return viol("no CSV header")
	}
	rows = rows[1:]
	if len(rows) != len(want) {
		return viol("%d entries, expected %d", len(rows), len(want))
	}
	for i, r := range rows {
		w := want[i]
		if r[0] != dateText(w.Date) || r[1] != w.Payee || r[2] != w.Acct || !sameCounter(r[3], w.Counter) || r[4] != w.CCY || !closeTo(r[5], w.Amount) || !closeTo(r[6], w.Bal) {
			return viol("entry %d is %q", i, r)
		}
	}
	return nil
}

func diffRegJSON(s string, want []RegEntry, base string) error {
	var es []struct {
		Date           string      `json:"date"`
		Account        string      `json:"account"`
		Payee          string      `json:"payee"`
		CounterAccount string      `json:"counterAccount"`
		Amount         json.Number `json:"amount"`
		CCY            string      `json:"ccy"`
		Balance        json.Number `json:"balance"`
		Note           string      `json:"note"`
		TNote          string      `json:"tnote"`
		BaseCCY        string
		BaseAmount     json.Number
	}
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	if err := d.Decode(&es); err != nil {
		return viol("not JSON: %v", err)
	}
	if d.More() {
		return viol("text after the JSON value")
	}
	if len(es) != len(want) {
		return viol("%d entries, expected %d", len(es), len(want))
	}
	for i, e := range es {
		w := want[i]
		d, err := jsonDate(e.Date)
		if err != nil {
			return err
		}
		if d != w.Date || e.Payee != w.Payee || e.Account != w.Acct || !sameCounter(e.CounterAccount, w.Counter) || e.CCY != w.CCY || !sameFloat(e.Amount, w.Amount) || !sameFloat(e.Balance, w.Bal) || !has(w.Notes, e.Note) || !has(w.TNotes, e.TNote) || e.BaseCCY != base {
			return viol("entry %d is %+v", i, e)
		}
		if w.Rates != nil {
			okv := false
			for _, r := range w.Rates {
				if sameFloat(e.BaseAmount, rmul(r, w.Amount)) {
					okv = true
				}
			}
			if !okv {
				return viol("entry %d: base amount %s, expected rate %v", i, e.BaseAmount, w.Rates)
			}
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C09",
		Rule: "random multi-currency ledgers with prices, optional operations, account expressions, split, combined, converted, date limits in every spelling, counts of both signs and both orders; compared with a reference register (exact in memory, then CSV, JSON and text); non-trivial = at least two entries",
		Assumptions: []string{
			"an implied rate is judged when an account of the transaction has exactly the two currencies in opposite directions; with more currencies in one account it is left open",
			"the counteraccounts of one entry may be named in any order",
			"JSON amounts are the nearest floating-point numbers",
		},
		Facets: []*Facet{
			facet("entries", 6000, 200000, genRegCase, RegCase.checkEntries),
			facet("csv", 2500, 80000, genRegCase, func(c RegCase, x *Ctx) error { return c.run(x, "CSV", false) }),
			facet("json", 2500, 80000, genRegCase, func(c RegCase, x *Ctx) error { return c.run(x, "JSON", false) }),
			facet("text", 2500, 80000, genRegCase, func(c RegCase, x *Ctx) error { return c.run(x, "Text", false) }),
			facet("binary", 150, 4000, genRegCase, func(c RegCase, x *Ctx) error { return c.run(x, "CSV", true) }),
		},
	})
}

var _ = in
