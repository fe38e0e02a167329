package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// C24: the account list and the precision of currencies.

// AcctCase is a ledger in which many balances cancel, and a way to list accounts.
type AcctCase struct {
	L    LCase
	Re   string
	NoRe bool
	All  bool
	JSON bool
	Lang string
	Ops  []Op
	Bin  bool
}

// genCancelling makes a ledger with many balances that come to zero, in some currency or in all.
func genCancelling(t *rapid.T) LCase {
	accts, ccys, dates := genAccts(t, 5), genCCYs(t, 3, true), genDates(t, 4)
	vals := []*big.Rat{rat(1, 1), rat(2, 1), rat(1, 2), rat(-1, 1), rat(3, 1000), rat(12345, 100), genVal(t, true), genVal(t, false)}
	mb := newModelBuilder()
	sbs := []*strings.Builder{{}, {}}
	var prev [][]rawPost
	for i, n := 0, intn(t, 1, 8, "ntrans"); i < n; i++ {
		var ps []rawPost
		if len(prev) > 0 && chance(t, 45, "undo") {
			for _, p := range pick(t, prev, "which") {
				p.Val = rneg(p.Val)
				ps = append(ps, p)
			}
			if chance(t, 30, "partly") { // only one currency of it
				c := pick(t, ps, "ccyof").CCY
				var l []rawPost
				for _, p := range ps {
					if p.CCY == c {
						l = append(l, p)
					}
				}
				ps = l
			}
		} else {
			for k := intn(t, 1, 2, "pairs"); k > 0; k-- {
				c, v := pick(t, ccys, "ccy"), pick(t, vals, "val")
				a, b := pick(t, accts, "a"), pick(t, accts, "b")
				ps = append(ps, rawPost{a, c, v, ""}, rawPost{b, c, rneg(v), ""})
				if chance(t, 10, "swap") && len(ccys) > 1 { // an exchange: one account opposite amounts
					d := pick(t, ccys, "ccy2")
					ps = append(ps, rawPost{a, d, rneg(v), ""}, rawPost{b, d, v, ""})
				}
			}
			prev = append(prev, ps)
		}
		d := pick(t, dates, "date")
		mb.start(d, fmt.Sprintf("P%d", i), "")
		sb := sbs[intn(t, 0, 1, "file")]
		fmt.Fprintf(sb, "%s P%d\n", dateText(d), i)
		for _, p := range ps {
			mb.post(p.Acct, p.CCY, p.Val, "")
			fmt.Fprintf(sb, "  %s  %s\n", p.Acct, plainAmt(p.CCY, p.Val))
		}
	}
	c := LCase{Main: "main.ledger", Want: mb.m.norm(), Dec: decimalsOf(mb.m.Posts), Files: map[string]string{"main.ledger": sbs[0].String()}}
	if sbs[1].Len() > 0 {
		c.Files["sub/more.ledger"] = sbs[1].String()
		c.Files["main.ledger"] = "include sub/more.ledger\n" + c.Files["main.ledger"]
	}
	return c
}

func genAcctCase(t *rapid.T) AcctCase {
	c := AcctCase{}
	if chance(t, 70, "cancel") {
		c.L = genCancelling(t)
	} else {
		c.L = genRichLedger(t)
	}
	accts := []string{"Asset"}
	for _, p := range c.L.Want.Posts {
		accts = append(accts, p.Acct)
	}
	c.Re = genAcctRe(t, accts)
	c.NoRe = chance(t, 30, "nore")
	c.All = chance(t, 35, "all")
	c.JSON = chance(t, 40, "json")
	c.Lang = pick(t, langs, "lang")
	if chance(t, 30, "ops") {
		var names nameLen
		for i := intn(t, 1, 2, "nops"); i > 0; i-- {
			if o := genOp(t, c.L.Want, "map", "map", "mapccy", "move", "asof", "since", "combine"); !names.tooLong(c.L.Want, &o) {
				c.Ops = append(c.Ops, o)
			}
		}
	}
	c.Bin = chance(t, 5, "bin")
	return c
}

// accountList is what should be listed.
func (m MBook) accountList(re string, all bool) []string {
	r := regexp.MustCompile(re)
	bal := map[string]map[string]*big.Rat{}
	for _, p := range m.Posts {
		if !r.MatchString(p.Acct) {
			continue
		}
		if bal[p.Acct] == nil {
			bal[p.Acct] = map[string]*big.Rat{}
		}
		if bal[p.Acct][p.CCY] == nil {
			bal[p.Acct][p.CCY] = new(big.Rat)
		}
		bal[p.Acct][p.CCY].Add(bal[p.Acct][p.CCY], p.Val)
	}
	out := []string{}
	for a, m := range bal {
		keep := all
		for _, v := range m {
			keep = keep || v.Sign() != 0
		}
		if keep {
			out = append(out, a)
		}
	}
	sort.Strings(out)
	return out
}

func checkAccts(c AcctCase, x *Ctx) error {
	d := x.WriteFiles(c.L.Files)
	main := filepath.Join(d, c.L.Main)
	re := c.Re
	a := args("accts")
	if c.JSON {
		a = append(a, "--json")
	}
	if c.All {
		a = append(a, "--all")
	}
	if c.NoRe {
		re = ""
	} else {
		a = append(a, "--", c.Re)
	}
	var out string
	if c.Bin {
		r := x.goledger(d, benignConf, nil, args("-l", main, "--lang="+c.Lang, a)...)
		if r.Code != 0 {
			return viol("%q: %s\n%s", a, r.Err, filesText(c.L.Files))
		}
		out = r.Out
	} else {
		var err error
		if out, err = cli(Cfg{Ledger: main, Lang: c.Lang}, a...); err != nil {
			return viol("%q: %v\n%s", a, err, filesText(c.L.Files))
		}
	}
	want := c.L.Want.accountList(re, c.All)
	var got []string
	if c.JSON {
		if err := json.Unmarshal([]byte(out), &got); err != nil {
			return viol("%q: no JSON list: %v\n%s", a, err, out)
		}
	} else {
		lines := tableLines(out)
		if len(lines) == 0 || strings.TrimSpace(lines[0]) != "Account" {
			return viol("%q: no heading\n%s", a, out)
		}
		for _, l := range lines[1:] {
			got = append(got, strings.TrimSpace(l))
		}
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		return viol("%q lists %q, expected %q\n%s", a, got, want, filesText(c.L.Files))
	}
	full := c.L.Want.accountList(re, true)
	nz := c.L.Want.accountList(re, false)
	if len(full) != len(nz) && len(nz) > 0 {
		x.NT()
		x.Label("some accounts without balance")
	}
	if len(want) != len(c.L.Want.accountList("", true)) && len(want) > 0 {
		x.NT()
	}
	if len(c.Ops) == 0 {
		return nil
	}
	// after operations
	b, err := loadFile(main)
	if err != nil {
		harness("%v", err)
	}
	m, dec := c.L.Want, c.L.Dec
	for _, o := range c.Ops {
		if err := applyReal(b, nil, o.String()); err != nil {
			return viol("%s: %v", o, err)
		}
		m, dec = o.model(m), o.decOp(dec)
	}
	for _, all := range []bool{false, true} {
		want := m.accountList(c.Re, all)
		if got := b.Accounts(c.Re, !all); strings.Join(got, "\n") != strings.Join(want, "\n") {
			return viol("after %v the accounts matching %q (all: %v) are %q, expected %q\n%s", c.Ops, c.Re, all, got, want, filesText(c.L.Files))
		}
	}
	x.Label("after operations")
	return nil
}

// PrecCase is a ledger whose currencies' precision is asked for.
type PrecCase struct {
	L   LCase
	Bin bool
}

func genPrec(t *rapid.T) PrecCase {
	c := PrecCase{Bin: chance(t, 5, "bin")}
	switch intn(t, 0, 2, "kind") {
	case 0:
		c.L = genCancelling(t)
	case 1:
		c.L = genPlainCase(t)
	default:
		c.L = genRichLedger(t)
	}
	return c
}

func checkPrec(c PrecCase, x *Ctx) error {
	d := x.WriteFiles(c.L.Files)
	main := filepath.Join(d, c.L.Main)
	var out string
	if c.Bin {
		r := x.goledger(d, benignConf, nil, "-l", main, "ccy")
		if r.Code != 0 {
			return viol("%s\n%s", r.Err, filesText(c.L.Files))
		}
		out = r.Out
	} else {
		var err error
		if out, err = cli(Cfg{Ledger: main}, "ccy"); err != nil {
			return viol("%v\n%s", err, filesText(c.L.Files))
		}
	}
	want := ""
	kinds := map[int]bool{}
	for _, k := range sortedKeys(c.L.Dec) {
		want += fmt.Sprintf("%s => %d decimals\n", k, c.L.Dec[k])
		kinds[c.L.Dec[k]] = true
	}
	if out != want {
		return viol("ccy prints\n%s\nexpected\n%s\n%s", out, want, filesText(c.L.Files))
	}
	if len(kinds) > 1 {
		x.NT()
		x.Label("different precisions")
	}
	c.L.label(x)
	return nil
}

func init() {
	register(&Prop{
		ID:   "C24",
		Rule: "ledgers (in one or two files) where whole transactions or one currency of them are undone again, and ledgers over the whole grammar; the list of accounts as text and JSON, with and without expression and --all, and after operations; the precision of all currencies against the decimals of the amounts as written. Non-trivial = some but not all accounts are listed; currencies with different precision",
		Assumptions: []string{
			"accounts all of whose postings cancel within their transactions are not in the book",
			"the precision of a currency is that of the amounts written in the ledger, whether or not they are still there when postings have been merged; amounts in price lines don't count",
		},
		Facets: []*Facet{
			facet("accounts", 8000, 300000, genAcctCase, checkAccts),
			facet("precision", 6000, 200000, genPrec, checkPrec),
		},
	})
}
