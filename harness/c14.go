package main

import (
	"path/filepath"

	"pgregory.net/rapid"
)

// C14: reclassification through the API and through import.

// genReclassImport: an import whose counteraccounts are to be chosen from the ledger.
func genReclassImport(t *rapid.T) ImportCase {
	c := genImportCase(t)
	c.Reclass, c.Num = true, false
	c.Dedup = chance(t, 70, "dedup2")
	accts := genAccts(t, 5)
	var payees []string
	for i := intn(t, 1, 5, "np"); i > 0; i-- {
		payees = append(payees, pick(t, dupPayees, "payee"))
	}
	dates := genDates(t, 6)
	c.Acct = accts[0]
	c.CAcct = pick(t, append([]string{"Expense:Unknown"}, accts[1:]...), "cacct")
	// a ledger of two-posting transactions of the account
	s := BookSpec{Accts: accts, CCYs: []string{"USD", "EUR"}}
	g := genTransList(t, intn(t, 0, 16, "nref"), dates, payees, accts, s.CCYs, true)
	c.L = textLedger(g)
	c.Base = "USD"
	c.ImpCCY = ""
	pp := append([]string{}, payees...)
	for i := 0; i < 3; i++ {
		pp = append(pp, pick(t, dupPayees, "payee2"))
	}
	c.Files = nil
	for f := pick(t, []int{1, 1, 2}, "nf"); f > 0; f-- {
		var recs []ImpRec
		for i := intn(t, 1, 6, "nr"); i > 0; i-- {
			r := ImpRec{D: pick(t, append(dates, genDate(t)), "rd"), Desc: pick(t, pp, "rp"), Amt: genImpAmt(t, false)}
			r.Date = dateText(r.D)
			if chance(t, 15, "own") {
				r.Acct = pick(t, accts, "ra")
			}
			if chance(t, 15, "own2") {
				r.CAcct = pick(t, accts, "rca")
			}
			if chance(t, 15, "second") {
				r.Amt2, r.Acct2 = genImpAmt(t, false), pick(t, accts, "ra2")
			}
			recs = append(recs, r)
		}
		c.Files = append(c.Files, recs)
	}
	return c
}

// textLedger writes a normal-form book as a plain ledger.
func textLedger(m MBook) LCase {
	s := ""
	for _, t := range m.trans() {
		s += dateText(t[0].Date) + " " + t[0].Payee
		if n := first(t[0].TNotes); n != "" {
			s += "  ; " + n
		}
		s += "\n"
		for _, p := range t {
			s += "  " + p.Acct + "  " + plainAmt(p.CCY, p.Val)
			if n := first(p.Notes); n != "" {
				s += "  ; " + n
			}
			s += "\n"
		}
		s += "\n"
	}
	return LCase{Files: map[string]string{"main.ledger": s}, Main: "main.ledger", Want: m, Dec: decimalsOf(m.Posts)}
}

func checkReclassImport(c ImportCase, x *Ctx, binary bool) error {
	x.WriteFiles(c.L.Files)
	files := c.files(x)
	want, _ := c.printed()
	for _, p := range want.Posts {
		// exact amounts only, so that no posting is rounded away
		if rabs(p.Val).Cmp(halfUnit(c.L.Dec, p.CCY)) <= 0 {
			return nil
		}
	}
	out, err := c.run(x, binary, c.L.Main, c.code(nil), files, "")
	if err != nil {
		return viol("%v\n%s", err, c)
	}
	x.WriteFiles(map[string]string{"result.ledger": out})
	b, err := loadFile(filepath.Join(x.Tmp(), "result.ledger"))
	if err != nil {
		return viol("the printed result does not load: %v\n%s\n%s", err, cut(out, 3000), c)
	}
	got := observe(b)
	// amounts are rounded to the ledger's decimals: take over the expected ones if near
	gt, wt := got.trans(), want.trans()
	if len(gt) == len(wt) {
		for i := range gt {
			if len(gt[i]) != len(wt[i]) {
				continue
			}
			used := map[int]bool{}
			done := map[int]bool{}
			for _, same := range []bool{true, false} { // postings of the same account first
				for j, g := range gt[i] {
					for k, w := range wt[i] {
						if done[j] || used[k] || same && w.Acct != g.Acct || w.CCY != g.CCY || w.Val.Sign() != g.Val.Sign() {
							continue
						}
						if rabs(rsub(w.Val, g.Val)).Cmp(halfUnit(c.L.Dec, w.CCY)) <= 0 {
							gt[i][j].Val = w.Val
							used[k], done[j] = true, true
						}
					}
				}
			}
		}
		got.Posts = nil
		for _, t := range gt {
			got.Posts = append(got.Posts, t...)
		}
	}
	if err := diffReclass(got, want, c.L.Want.counters(c.Acct), c.Acct, similarity("jw", 0), x); err != nil {
		return viol("%v\nprinted\n%s\n%s", err, cut(out, 2500), c)
	}
	again, err := c.run(x, binary, c.L.Main, c.code(nil), files, "")
	if err != nil || again != out {
		return viol("the same import prints something else\n%s\nthen %v\n%s\n%s", cut(out, 2000), err, cut(again, 2000), c)
	}
	return nil
}

func init() {
	register(&Prop{
		ID:          "C14",
		Rule:        "random books of mostly two-posting transactions around one account, with few and near-equal payees, against several similarity functions (Jaro-Winkler as the import uses it, equality, random tables with ties, zeros and negative values), and the same through the import command; the chosen account must be among those a reference computes. Non-trivial = some transaction has a match",
		Assumptions: []string{"among equally similar payees and equally frequent accounts any one may be chosen, but always the same one"},
		Facets: []*Facet{
			facet("reclassify", 8000, 300000, genReclass, checkReclass),
			facet("import", 2500, 80000, genReclassImport, func(c ImportCase, x *Ctx) error { return checkReclassImport(c, x, false) }),
			facet("binary", 60, 2000, genReclassImport, func(c ImportCase, x *Ctx) error { return checkReclassImport(c, x, true) }),
		},
	})
}
