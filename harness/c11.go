package main

import (
	"fmt"
	"math/big"
	"path/filepath"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// C11: CSV, JSON and Beancount exports.

func genExport11(bean bool) func(*rapid.T) ExportCase {
	return func(t *rapid.T) ExportCase {
		var c ExportCase
		if chance(t, 70, "rich") {
			c.L = genRichLedger(t)
		} else {
			c.L = genPlainCase(t)
		}
		kinds := []string{"map", "map", "mapccy", "move", "asof", "since", "combine"}
		if !bean || chance(t, 30, "thirds") {
			kinds = append(kinds, "depreciate")
		}
		if chance(t, 50, "ops") {
			c.Ops = genOps(t, c.L.Want, intn(t, 1, 3, "nops"), kinds...)
		}
		c.Args = opTexts(c.Ops)
		c.Lang = pick(t, langs, "lang")
		c.Colour = chance(t, 40, "colour")
		c.Div = ":"
		return c
	}
}

func (c ExportCase) begin(x *Ctx) MBook {
	x.WriteFiles(c.L.Files)
	want := applyModel(c.L.Want, c.Ops).norm()
	if len(want.Posts) > 1 {
		x.NT()
	}
	for _, p := range want.Posts {
		if strings.ContainsAny(p.Payee+strings.Join(p.Notes, "")+strings.Join(p.TNotes, ""), "\",;\\<&") {
			x.Label("text needing quoting")
		}
		if minDecimals(p.Val) < 0 {
			x.Label("amount without finite decimals")
		}
	}
	if len(c.Ops) > 0 {
		x.Label("operations")
	}
	return want
}

func sameExported(got []MPost, want []MPost, eq func(i int) bool) error {
	if len(got) != len(want) {
		return viol("%d postings, expected %d\nexported:\n%sexpected:\n%s", len(got), len(want), dump(got), dump(want))
	}
	for i, g := range got {
		w := want[i]
		if g.Date != w.Date || g.Payee != w.Payee || g.Acct != w.Acct || g.CCY != w.CCY || !eq(i) || !has(w.TNotes, first(g.TNotes)) || !has(w.Notes, first(g.Notes)) {
			return viol("posting %d: exported %v (notes %q, %q), expected %v (notes %q, %q)", i, g, g.TNotes, g.Notes, w, w.TNotes, w.Notes)
		}
	}
	return nil
}

func (c ExportCase) checkCSV(x *Ctx, binary bool) error {
	want := c.begin(x)
	out, err := c.export(x, c.L.Main, "CSV", binary, true)
	if err != nil {
		return viol("%v\n%s", err, c)
	}
	got, err := parseCSVExport(out)
	if err != nil {
		return viol("%v\n%s", err, c)
	}
	eq := func(i int) bool { return closeRat(got[i].Val, want.Posts[i].Val) }
	if err := sameExported(got, want.Posts, eq); err != nil {
		return viol("%v\n%s\n%s", err, cut(out, 2500), c)
	}
	return nil
}

func (c ExportCase) checkJSON(x *Ctx, binary bool) error {
	want := c.begin(x)
	out, err := c.export(x, c.L.Main, "Json", binary, true)
	if err != nil {
		return viol("%v\n%s", err, c)
	}
	ts, err := parseJSONTrans(out)
	if err != nil {
		return viol("%v\n%s", err, c)
	}
	var got []MPost
	var nums []func(*big.Rat) bool
	for _, t := range ts {
		d, err := jsonDate(t.Date)
		if err != nil {
			return err
		}
		if len(t.Posts) == 0 {
			return viol("a transaction without postings\n%s\n%s", cut(out, 2500), c)
		}
		for _, p := range t.Posts {
			n := p.Amount
			got = append(got, MPost{Date: d, Payee: t.Payee, TNotes: []string{t.Note}, Acct: p.Account, CCY: p.CCY, Notes: []string{p.Note}, Val: new(big.Rat)})
			nums = append(nums, func(v *big.Rat) bool { return sameFloat(n, v) })
		}
	}
	if err := sameExported(got, want.Posts, func(i int) bool { return nums[i](want.Posts[i].Val) }); err != nil {
		return viol("%v\n%s\n%s", err, cut(out, 2500), c)
	}
	if len(ts) != len(want.trans()) {
		return viol("%d transactions, expected %d\n%s\n%s", len(ts), len(want.trans()), cut(out, 2500), c)
	}
	return nil
}

// ---- Beancount ----------------------------------------------------------------

type beanTrans struct {
	Date  int
	Payee string
	Note  string
	Posts []MPost
}

type beanFile struct {
	Trans []beanTrans
	Open  map[string][]int
	Close map[string][]int
}

var (
	reBeanHead = regexp.MustCompile(`^(\d{4})[-/](\d\d)[-/](\d\d)\s+\*\s+"((?:[^"\\]|\\.)*)"\s*(?:;(.*))?$`)
	reBeanOC   = regexp.MustCompile(`^(\d{4})[-/](\d\d)[-/](\d\d)\s+(open|close)\s+(\S+)\s*$`)
	reBeanPost = regexp.MustCompile(`^\s+(\S+)\s+(-?[0-9]+(?:\.[0-9]+)?)\s+([^\s;]\S*)\s*?(?:  ;(.*))?$`)
	reBeanSkip = regexp.MustCompile(`^(?:;.*|option ".*|P .*|\d{4}[-/]\d\d[-/]\d\d\s+price .*)?$`)
)

func parseBean(s string) (beanFile, error) {
	f := beanFile{Open: map[string][]int{}, Close: map[string][]int{}}
	in := false
	for i, l := range strings.Split(s, "\n") {
		if m := reBeanOC.FindStringSubmatch(l); m != nil {
			in = false
			if m[4] == "open" {
				f.Open[m[5]] = append(f.Open[m[5]], dateParts(m))
			} else {
				f.Close[m[5]] = append(f.Close[m[5]], dateParts(m))
			}
		} else if m := reBeanHead.FindStringSubmatch(l); m != nil {
			in = true
			p := regexp.MustCompile(`\\(.)`).ReplaceAllString(m[4], "$1")
			f.Trans = append(f.Trans, beanTrans{Date: dateParts(m), Payee: p, Note: strings.TrimPrefix(m[5], " ")})
		} else if m := reBeanPost.FindStringSubmatch(l); m != nil && in {
			t := &f.Trans[len(f.Trans)-1]
			t.Posts = append(t.Posts, MPost{Date: t.Date, Payee: t.Payee, TNotes: []string{t.Note}, Acct: m[1], CCY: m[3], Val: ratStr(m[2]), Notes: []string{strings.TrimPrefix(m[4], " ")}})
		} else if reBeanSkip.MatchString(l) {
			in = false
		} else {
			return f, viol("line %d is not understood: %q", i+1, l)
		}
	}
	return f, nil
}

// beanAcct: each word starts with a capital letter.
func beanAcct(s string) string { return strings.Title(s) }

func beanCCY(s string) string { return strings.ToUpper(strings.ReplaceAll(s, " ", "")) }

func (c ExportCase) checkBean(x *Ctx, binary bool) error {
	want := c.begin(x)
	for _, p := range want.Posts {
		// names that a Beancount file could not tell apart are left out
		if p.Acct == "" || strings.ContainsAny(p.CCY, ";\"") || strings.TrimSpace(p.CCY) == "" || strings.Contains(p.Acct, " ") {
			return nil
		}
	}
	out, err := c.export(x, c.L.Main, "Beancount", binary, true)
	if err != nil {
		return viol("%v\n%s", err, c)
	}
	f, err := parseBean(out)
	if err != nil {
		return viol("%v\n%s\n%s", err, cut(out, 3000), c)
	}
	fail := func(format string, a ...any) error {
		return viol("%s\n%s\n%s", fmt.Sprintf(format, a...), cut(out, 3000), c)
	}
	trans := want.trans()
	if len(f.Trans) != len(trans) {
		return fail("%d transactions, expected %d", len(f.Trans), len(trans))
	}
	type use struct {
		first, last int
		bal         map[string]*big.Rat
	}
	uses := map[string]*use{}
	for i, g := range f.Trans {
		var w []MPost
		for _, p := range trans[i] {
			p.Acct, p.CCY = beanAcct(p.Acct), beanCCY(p.CCY)
			w = append(w, p)
		}
		if g.Date != w[0].Date || g.Payee != w[0].Payee || !has(w[0].TNotes, g.Note) {
			return fail("transaction %d is %s %q ; %q, expected %s %q ; %q", i, dateText(g.Date), g.Payee, g.Note, dateText(w[0].Date), w[0].Payee, w[0].TNotes)
		}
		if err := sameExported(g.Posts, w, func(j int) bool { return closeIn(g.Posts[j].Val, w[j].Val, len(w)) }); err != nil {
			return fail("transaction %d: %v", i, err)
		}
		if err := checkBalanced(g.Posts); err != nil {
			return fail("transaction %d: %v", i, err)
		}
		for _, p := range w {
			u := uses[p.Acct]
			if u == nil {
				u = &use{p.Date, p.Date, map[string]*big.Rat{}}
				uses[p.Acct] = u
			}
			if p.Date < u.first {
				u.first = p.Date
			}
			if p.Date > u.last {
				u.last = p.Date
			}
			if u.bal[p.CCY] == nil {
				u.bal[p.CCY] = new(big.Rat)
			}
			u.bal[p.CCY].Add(u.bal[p.CCY], p.Val)
		}
	}
	for a, u := range uses {
		if len(f.Open[a]) != 1 || f.Open[a][0] > u.first {
			return fail("account %q, first used on %s, is opened on %v", a, dateText(u.first), f.Open[a])
		}
		zero := true
		for _, v := range u.bal {
			if v.Sign() != 0 {
				zero = false
			}
		}
		if zero {
			x.Label("closed account")
			if len(f.Close[a]) != 1 || f.Close[a][0] <= u.last {
				return fail("account %q, last used on %s and left at zero, is closed on %v", a, dateText(u.last), f.Close[a])
			}
		} else if len(f.Close[a]) != 0 {
			return fail("account %q has a balance and is closed", a)
		}
		if len(u.bal) > 1 {
			x.Label("account with several currencies")
		}
	}
	for _, l := range []map[string][]int{f.Open, f.Close} {
		for a := range l {
			if uses[a] == nil {
				return fail("account %q is opened or closed but never used", a)
			}
		}
	}
	return nil
}

var _ = filepath.Join

func init() {
	register(&Prop{
		ID:   "C11",
		Rule: "random ledgers over the whole accepted grammar (texts needing quoting included) and operations on them, exported as CSV, JSON and Beancount and parsed by independent readers; compared posting by posting with the reference model, Beancount open and close directives against the uses in the file; non-trivial = at least two postings",
		Assumptions: []string{
			"JSON amounts are the nearest floating-point numbers; amounts without finite decimal expansion are rounded to six decimals or more",
			"Beancount names are capitalised (accounts) or upper-cased without blanks (currencies); currencies with quotes or semicolons are left out there",
		},
		Facets: []*Facet{
			facet("csv", 4000, 150000, genExport11(false), func(c ExportCase, x *Ctx) error { return c.checkCSV(x, false) }),
			facet("json", 4000, 150000, genExport11(false), func(c ExportCase, x *Ctx) error { return c.checkJSON(x, false) }),
			facet("beancount", 5000, 200000, genExport11(true), func(c ExportCase, x *Ctx) error { return c.checkBean(x, false) }),
			facet("beancount report", 1500, 50000, genExport11(true), func(c ExportCase, x *Ctx) error { c.Report = true; return c.checkBean(x, false) }),
			facet("json report", 1000, 40000, genExport11(false), func(c ExportCase, x *Ctx) error { c.Report = true; return c.checkJSON(x, false) }),
			facet("csv binary", 80, 2000, genExport11(false), func(c ExportCase, x *Ctx) error { return c.checkCSV(x, true) }),
			facet("json binary", 80, 2000, genExport11(false), func(c ExportCase, x *Ctx) error { return c.checkJSON(x, true) }),
			facet("beancount binary", 80, 2000, genExport11(true), func(c ExportCase, x *Ctx) error { return c.checkBean(x, true) }),
		},
	})
}
