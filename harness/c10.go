package main

import (
	"fmt"
	"math/big"
	"path/filepath"
	"regexp"

	"pgregory.net/rapid"
)

// C10: the ledger export loads back as the same book.

type ExportCase struct {
	L      LCase
	Ops    []Op
	Macros map[string][]string
	Args   []string
	Lang   string
	Colour bool
	Div    string
	Type   string // as the export type is spelled
	Report bool   // the same form from the report command
}

func genExportCase(t *rapid.T) ExportCase {
	var c ExportCase
	if chance(t, 75, "rich") {
		c.L = genRichLedger(t)
	} else {
		c.L = genPlainCase(t)
	}
	kinds := []string{"map", "map", "mapccy", "move", "asof", "since", "combine"}
	if chance(t, 15, "thirds") {
		kinds = []string{"depreciate", "combine", "combine", "map", "mapccy", "move"}
	}
	if chance(t, 60, "ops") {
		c.Ops = genOps(t, c.L.Want, intn(t, 1, 3, "nops"), kinds...)
	}
	c.Args = opTexts(c.Ops)
	c.Lang = pick(t, langs, "lang")
	c.Colour = chance(t, 40, "colour")
	c.Type = pick(t, []string{"", "Ledger", "ledger", "LEDGER"}, "type")
	c.Div = pick(t, []string{":", ":", "_"}, "div")
	return c
}

func (c ExportCase) String() string {
	return fmt.Sprintf("operations %q, language %s, colour %v\n%s", c.Args, c.Lang, c.Colour, filesText(c.L.Files))
}

var reAcctName = regexp.MustCompile(`^[A-Za-z0-9&':_]+$`)

// unwritable: an account or currency was renamed to what no ledger can contain (left open).
func unwritable(m MBook) bool {
	for _, p := range m.Posts {
		if !reAcctName.MatchString(p.Acct) || p.CCY == "" {
			return true
		}
	}
	for _, p := range m.Prices {
		if p.Unit == "" || p.CCY == "" {
			return true
		}
	}
	return false
}

func (c ExportCase) export(x *Ctx, file, typ string, binary, ops bool) (string, error) {
	a := []string{"export"}
	if c.Report {
		a = args("report", "--splitby=skip", "--sum=false")
	}
	if typ != "" {
		a = append(a, "--type="+typ)
	}
	if ops {
		a = append(a, "--")
		a = append(a, c.Args...)
	}
	if binary {
		pre := []string{"-l", file, "--lang=" + c.Lang, fmt.Sprintf("--colour=%v", c.Colour)}
		r := x.goledger(x.Tmp(), benignConf+macroConf(c.Macros), nil, append(pre, a...)...)
		if r.Code != 0 {
			return "", viol("%q: exit %d: %s", a, r.Code, cut(r.Err, 600))
		}
		return r.Out, nil
	}
	out, err := cli(Cfg{Ledger: filepath.Join(x.Tmp(), file), Lang: c.Lang, Colour: c.Colour, Divider: c.Div, Macros: c.Macros}, a...)
	if err != nil {
		return "", viol("%q: %v", a, err)
	}
	return out, nil
}

// rounds: some amount has no finite decimal expansion.
func rounds(ps []MPost) bool {
	for _, p := range ps {
		if minDecimals(p.Val) < 0 {
			return true
		}
	}
	return false
}

// closeIn: the amount is exact, or one of a transaction with n postings that was
// rounded to six decimals or more and still balances.
func closeIn(g, v *big.Rat, n int) bool {
	if minDecimals(v) >= 0 {
		return g.Cmp(v) == 0
	}
	return rabs(rsub(g, v)).Cmp(rat(int64(n), 2000000)) <= 0
}

// diffNear compares transaction by transaction, amounts without finite decimal expansion rounded.
func diffNear(got, want MBook) error {
	fail := func(f string, a ...any) error {
		return viol("%s\nobserved:\n%sexpected:\n%s", fmt.Sprintf(f, a...), dump(got.Posts), dump(want.Posts))
	}
	wt := map[string]MTrans{}
	for _, t := range want.trans() {
		wt[fmt.Sprint(t[0].Date, t[0].Payee)] = t
	}
	for _, g := range got.trans() {
		k := fmt.Sprint(g[0].Date, g[0].Payee)
		w := wt[k]
		delete(wt, k)
		if w == nil {
			return fail("transaction %s %q was not there", dateText(g[0].Date), g[0].Payee)
		}
		if !has(w[0].TNotes, first(g[0].TNotes)) {
			return fail("transaction %s %q has note %q", dateText(g[0].Date), g[0].Payee, first(g[0].TNotes))
		}
		j := 0
		for _, p := range w {
			if j < len(g) && g[j].Acct == p.Acct && g[j].CCY == p.CCY && closeIn(g[j].Val, p.Val, len(w)) {
				if !has(p.Notes, first(g[j].Notes)) {
					return fail("%v has note %q", g[j], g[j].Notes)
				}
				j++
			} else if !closeIn(new(big.Rat), p.Val, len(w)) {
				return fail("no posting for %v", p)
			}
		}
		if j != len(g) {
			return fail("another posting %v", g[j])
		}
	}
	for _, w := range wt {
		for _, p := range w {
			if !closeIn(new(big.Rat), p.Val, len(w)) {
				return fail("no transaction %s %q", dateText(p.Date), p.Payee)
			}
		}
	}
	return diffPrices(got.Prices, want.Prices)
}

func (c ExportCase) roundTrip(x *Ctx, binary bool) error {
	x.WriteFiles(c.L.Files)
	want := applyModel(c.L.Want, c.Ops).norm()
	if unwritable(want) {
		return nil
	}
	c.L.label(x)
	out, err := c.export(x, c.L.Main, c.Type, binary, true)
	if err != nil {
		return viol("%v\n%s", err, c)
	}
	x.WriteFiles(map[string]string{"reload.ledger": out})
	b, err := loadFile(filepath.Join(x.Tmp(), "reload.ledger"))
	if err != nil {
		return viol("the export does not load: %v\n%s\n%s", err, cut(out, 3000), c)
	}
	if rounds(want.Posts) {
		x.Label("amount without finite decimals")
		if err := diffNear(observe(b), want); err != nil {
			return viol("the export loads as another book: %v\n%s\n%s", err, cut(out, 3000), c)
		}
		x.NT()
		return nil
	}
	if err := diffBooks(observe(b), want, true); err != nil {
		return viol("the export loads as another book: %v\n%s\n%s", err, cut(out, 3000), c)
	}
	if len(want.Posts) > 1 {
		x.NT()
	}
	if len(c.Ops) > 0 {
		x.Label("operations")
	}
	if c.Colour {
		x.Label("colour")
	}
	x.Label("language %s", c.Lang)
	again, err := c.export(x, "reload.ledger", c.Type, binary, false)
	if err != nil {
		return viol("%v\n%s", err, c)
	}
	// amounts are written with the decimals the whole ledger needs: where the export
	// needs as many, its own export is identical, and later ones always are
	if sameDec(c.decimals(), decimalsOf(want.Posts)) {
		x.Label("same decimals")
		if again != out {
			return viol("exporting the reloaded export gives another text\nfirst:\n%s\nsecond:\n%s\n%s", cut(out, 2500), cut(again, 2500), c)
		}
	} else {
		x.WriteFiles(map[string]string{"again.ledger": again})
		b, err := loadFile(filepath.Join(x.Tmp(), "again.ledger"))
		if err != nil {
			return viol("the second export does not load: %v\n%s\n%s", err, cut(again, 3000), c)
		}
		if err := diffBooks(observe(b), want, true); err != nil {
			return viol("the second export loads as another book: %v\n%s\n%s", err, cut(again, 3000), c)
		}
		third, err := c.export(x, "again.ledger", c.Type, binary, false)
		if err != nil {
			return viol("%v\n%s", err, c)
		}
		if third != again {
			return viol("exporting the export of an export gives another text\n%s\nthen\n%s\n%s", cut(again, 2500), cut(third, 2500), c)
		}
	}
	return nil
}

func (c ExportCase) decimals() map[string]int {
	dec := c.L.Dec
	for _, o := range c.Ops {
		dec = o.decOp(dec)
	}
	return dec
}

func sameDec(a, b map[string]int) bool {
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return len(a) == len(b)
}

func init() {
	register(&Prop{
		ID:   "C10",
		Rule: "random ledgers over the whole accepted grammar, operations on them, all languages and colour settings; the ledger export is loaded again and compared with the reference model of the operations, and exported a second time; non-trivial = at least two postings",
		Assumptions: []string{
			"accounts or currencies renamed to names that no ledger can contain are outside the domain; amounts without a finite decimal expansion (depreciation) are rounded to six decimals or more such that the file still loads",
			"when postings (or transactions) are merged their note is one of the merged ones",
		},
		Facets: []*Facet{
			facet("roundtrip", 6000, 200000, genExportCase, func(c ExportCase, x *Ctx) error { return c.roundTrip(x, false) }),
			facet("binary", 150, 4000, genExportCase, func(c ExportCase, x *Ctx) error { return c.roundTrip(x, true) }),
		},
	})
}
