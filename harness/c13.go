package main

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/antzucaro/matchr"
	"github.com/mescanne/goledger/book"
	"pgregory.net/rapid"
)

// C13: removing duplicates. C14: reclassification.

type PairCase struct {
	Ref, New MBook
	RefOps   []Op
	Acct     string // reference account
	Dist     string // similarity: jw, equal, table
	Seed     int
}

var dupPayees = []string{"A", "B", "T", "Te", "Tes", "Tesco", "Tesco 2", "Tesco (2)", "Tesca", "Zoë", "a", "aldi", "Aldi", "!x", "日本", "Rent", "Rent Jan", "Rent Feb", ""}

// genTransList makes a normal-form book of n transactions over few dates and payees.
func genTransList(t *rapid.T, n int, dates []int, payees, accts, ccys []string, two bool) MBook {
	var m MBook
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		d, p := pick(t, dates, "d"), pick(t, payees, "p")
		k := fmt.Sprint(d, p)
		if seen[k] {
			continue
		}
		seen[k] = true
		note := genNote(t)
		add := func(a, c string, v *big.Rat) {
			m.Posts = append(m.Posts, MPost{Date: d, Payee: p, TNotes: []string{note}, Acct: a, CCY: c, Val: v, Notes: []string{""}})
		}
		if two && chance(t, 80, "two") {
			a, b := pick(t, accts, "a"), pick(t, accts, "b")
			if chance(t, 75, "refacct") {
				a = accts[0]
			}
			if a == b {
				continue
			}
			v := genDec(t, false).rat()
			if v.Sign() == 0 {
				v = rat(1, 1)
			}
			if chance(t, 50, "neg") {
				v = rneg(v)
			}
			c := pick(t, ccys, "c")
			add(a, c, v)
			add(b, c, rneg(v))
			continue
		}
		for _, r := range genBalanced(t, BookSpec{Accts: accts, CCYs: ccys}) {
			add(r.Acct, r.CCY, r.Val)
		}
	}
	return m.norm()
}

func genDupCase(t *rapid.T) PairCase {
	dates := genDates(t, 6)
	for i := range dates {
		if i > 0 && chance(t, 30, "next") {
			dates[i] = dateOf(dayNo(dates[i-1]) + 1)
		}
	}
	payees := []string{}
	for i := intn(t, 1, 6, "np"); i > 0; i-- {
		payees = append(payees, pick(t, dupPayees, "payee"))
	}
	accts, ccys := genAccts(t, 4), genCCYs(t, 2, true)
	ref := genTransList(t, intn(t, 0, 20, "nref"), dates, payees, accts, ccys, false)
	nw := genTransList(t, intn(t, 0, 20, "nnew"), dates, payees, genAccts(t, 4), ccys, false)
	c := PairCase{Ref: ref, New: nw}
	if chance(t, 30, "refops") {
		c.RefOps = genOps(t, ref, intn(t, 1, 2, "nops"), "map", "asof", "since", "mapccy", "combine")
	}
	return c
}

func (m MBook) keys() map[string]bool {
	out := map[string]bool{}
	for _, p := range m.Posts {
		out[fmt.Sprint(p.Date, "\x00", p.Payee)] = true
	}
	return out
}

func (m MBook) without(keys map[string]bool) MBook {
	return m.mapPosts(func(p MPost) []MPost {
		if keys[fmt.Sprint(p.Date, "\x00", p.Payee)] {
			return nil
		}
		return []MPost{p}
	}).norm()
}

func (c PairCase) String() string {
	return fmt.Sprintf("reference (operations %q):\n%sbook:\n%s", opTexts(c.RefOps), dump(c.Ref.Posts), dump(c.New.Posts))
}

func checkDup(c PairCase, x *Ctx) error {
	ref, nw := buildBook(c.Ref), buildBook(c.New)
	if err := applyReal(ref, nil, opTexts(c.RefOps)...); err != nil {
		return viol("%v\n%s", err, c)
	}
	refM := applyModel(c.Ref, c.RefOps).norm()
	want := c.New.without(refM.keys())
	nk, nw0 := len(want.keys()), len(c.New.keys())
	if nk < nw0 && nk > 0 {
		x.NT()
	}
	if nk == nw0 {
		x.Label("nothing removed")
	} else if nk == 0 {
		x.Label("all removed")
	}
	step := func(what string, b *book.Book, w MBook) error {
		if err := diffBooks(observe(b), w, false); err != nil {
			return viol("%s: %v\n%s", what, err, c)
		}
		return nil
	}
	nw.RemoveDuplicatesOf(ref)
	if err := step("removing duplicates", nw, want); err != nil {
		return err
	}
	if err := step("the reference afterwards", ref, refM); err != nil {
		return err
	}
	nw.RemoveDuplicatesOf(ref)
	if err := step("removing duplicates again", nw, want); err != nil {
		return err
	}
	empty := book.NewBookBuilder().Build()
	nw.RemoveDuplicatesOf(empty)
	if err := step("removing the duplicates of an empty book", nw, want); err != nil {
		return err
	}
	if len(observe(empty).Posts) != 0 {
		return viol("the empty reference has transactions afterwards\n%s", c)
	}
	empty.RemoveDuplicatesOf(nw)
	same := buildBook(c.New)
	same.RemoveDuplicatesOf(buildBook(c.New))
	if err := step("removing duplicates of itself", same, MBook{}); err != nil {
		return err
	}
	self := buildBook(c.New)
	self.RemoveDuplicatesOf(self)
	if err := step("removing duplicates of the very same book", self, MBook{}); err != nil {
		return err
	}
	return nil
}

// ---- reclassification -----------------------------------------------------------

func similarity(kind string, seed int) func(a, b string) float64 {
	switch kind {
	case "equal":
		return func(a, b string) float64 {
			if a == b {
				return 1
			}
			return 0
		}
	case "table":
		return func(a, b string) float64 {
			return []float64{0, 0, -1, 0.25, 0.5, 0.75, 0.9, 1}[hash64(fmt.Sprint(seed), a, b)%8]
		}
	case "small":
		return func(a, b string) float64 {
			return float64(hash64(fmt.Sprint(seed), a, b)%1000) / 1e6
		}
	}
	return func(a, b string) float64 {
		if d := matchr.JaroWinkler(a, b, true); d > 0.5 {
			return d
		}
		return 0
	}
}

func genReclass(t *rapid.T) PairCase {
	dates := genDates(t, 6)
	var payees, payees2 []string
	for i := intn(t, 1, 5, "np"); i > 0; i-- {
		payees = append(payees, pick(t, dupPayees, "payee"))
	}
	for i := intn(t, 1, 5, "np2"); i > 0; i-- {
		payees2 = append(payees2, pick(t, dupPayees, "payee"))
	}
	if chance(t, 50, "share") {
		payees2 = append(payees2, payees...)
	}
	accts, ccys := genAccts(t, 5), genCCYs(t, 2, true)
	c := PairCase{Acct: accts[0], Dist: pick(t, []string{"jw", "jw", "equal", "table", "table", "small"}, "dist"), Seed: intn(t, 0, 1000, "seed")}
	c.Ref = genTransList(t, intn(t, 0, 24, "nref"), dates, payees, accts, ccys, true)
	c.New = genTransList(t, intn(t, 1, 12, "nnew"), dates, payees2, append([]string{accts[0], "Unknown"}, accts...), ccys, true)
	return c
}

// counters: payee -> counteraccount -> uses, from two-posting transactions with acct.
func (m MBook) counters(acct string) map[string]map[string]int {
	out := map[string]map[string]int{}
	for _, t := range m.trans() {
		if len(t) != 2 {
			continue
		}
		o := ""
		switch acct {
		case t[0].Acct:
			o = t[1].Acct
		case t[1].Acct:
			o = t[0].Acct
		default:
			continue
		}
		if out[t[0].Payee] == nil {
			out[t[0].Payee] = map[string]int{}
		}
		out[t[0].Payee][o]++
	}
	return out
}

// choices: the accounts that reclassification may choose for a payee (none: unchanged).
func choices(cnt map[string]map[string]int, payee string, sim func(a, b string) float64) []string {
	best := 0.0
	var out []string
	for p, as := range cnt {
		d := sim(payee, p)
		if d <= 0 || d < best {
			continue
		}
		if d > best {
			best, out = d, nil
		}
		max := 0
		for _, n := range as {
			if n > max {
				max = n
			}
		}
		for a, n := range as {
			if n == max && !has(out, a) {
				out = append(out, a)
			}
		}
	}
	sort.Strings(out)
	return out
}

// diffReclass compares an observed book with the original and the allowed accounts.
func diffReclass(got, orig MBook, cnt map[string]map[string]int, acct string, sim func(a, b string) float64, x *Ctx) error {
	gt, ot := got.trans(), orig.trans()
	if len(gt) != len(ot) {
		return viol("%d transactions, expected %d\nobserved:\n%sexpected, accounts aside:\n%s", len(gt), len(ot), dump(got.Posts), dump(orig.Posts))
	}
	for i := range gt {
		o := append(MTrans{}, ot[i]...)
		k := -1
		if len(o) == 2 && o[0].Acct == acct {
			k = 1
		} else if len(o) == 2 && o[1].Acct == acct {
			k = 0
		}
		if k >= 0 {
			ch := choices(cnt, o[0].Payee, sim)
			if len(ch) > 0 {
				x.NT()
				if len(ch) > 1 {
					x.Label("tie")
				}
				// which one was chosen
				for _, g := range gt[i] {
					if g.Acct != acct {
						if !has(ch, g.Acct) {
							return viol("%s %q: counteraccount %q, expected one of %q (before: %q)", dateText(o[0].Date), o[0].Payee, g.Acct, ch, o[k].Acct)
						}
						if g.Acct != o[k].Acct {
							x.Label("account changed")
						}
						o[k].Acct = g.Acct
						break
					}
				}
			} else {
				x.Label("no match")
			}
		} else if len(o) != 2 {
			x.Label("not two postings")
		}
		w := MBook{Posts: append([]MPost{}, o...)}.norm()
		if err := diffPosts(noBal(gt[i]), noBal(w.Posts), true); err != nil {
			return err
		}
	}
	return nil
}

func checkReclass(c PairCase, x *Ctx) error {
	sim := similarity(c.Dist, c.Seed)
	x.Label("similarity %s", c.Dist)
	cnt := c.Ref.counters(c.Acct)
	var firstGot MBook
	for round := 0; round < 4; round++ {
		ref, nw := buildBook(c.Ref), buildBook(c.New)
		nw.ReclassifyByAccount(ref, c.Acct, sim)
		got := observe(nw)
		if err := diffReclass(got, c.New, cnt, c.Acct, sim, x); err != nil {
			return viol("%v\naccount %q, similarity %s/%d\n%s", err, c.Acct, c.Dist, c.Seed, c)
		}
		if err := checkBalanced(got.Posts); err != nil {
			return viol("%v\n%s", err, c)
		}
		if err := diffBooks(observe(ref), c.Ref, false); err != nil {
			return viol("the reference afterwards: %v\n%s", err, c)
		}
		if round == 0 {
			firstGot = got
		} else if err := diffPosts(got.Posts, firstGot.Posts, true); err != nil {
			return viol("the same reclassification gives another result: %v\naccount %q, similarity %s/%d\n%s", err, c.Acct, c.Dist, c.Seed, c)
		}
	}
	return nil
}

// genManyFiles: one import of several files that overlap with each other and with the ledger.
func genManyFiles(t *rapid.T) ImportCase {
	c := genImportCase(t)
	c.Num = false
	c.Dedup = chance(t, 60, "dedup3")
	var all []ImpRec
	for _, tr := range c.L.Want.trans() {
		if chance(t, 30, "fromledger") {
			all = append(all, ImpRec{D: tr[0].Date, Date: dateText(tr[0].Date), Desc: tr[0].Payee, Amt: genImpAmt(t, false)})
		}
	}
	dates, payees := genDates(t, 4), []string{"A", "B", "Tesco", "Tesco 2", "Te"}
	c.Files = nil
	for f := intn(t, 2, 5, "nf"); f > 0; f-- {
		var recs []ImpRec
		for i := intn(t, 0, 4, "nr"); i > 0; i-- {
			if len(all) > 0 && chance(t, 55, "again2") {
				r := pick(t, all, "same2")
				if chance(t, 30, "otheramt") {
					r.Amt = genImpAmt(t, false)
				}
				recs = append(recs, r)
				continue
			}
			r := ImpRec{D: pick(t, dates, "rd"), Desc: pick(t, payees, "rp"), Amt: genImpAmt(t, false)}
			r.Date = dateText(r.D)
			recs = append(recs, r)
		}
		all = append(all, recs...)
		c.Files = append(c.Files, recs)
	}
	return c
}

func init() {
	register(&Prop{
		ID:          "C13",
		Rule:        "pairs of random books over few dates and payees (near-equal names, numbered duplicates, days next to each other) with unrelated postings, the reference optionally after operations; compared with set difference by date and payee; imports of 2-5 files that repeat transactions of any earlier file and of the ledger; non-trivial = some but not all transactions are removed / the import has repeats",
		Assumptions: []string{"none beyond the books being balanced"},
		Facets: []*Facet{
			facet("dedup", 20000, 800000, genDupCase, checkDup),
			facet("files", 1000, 40000, genManyFiles, func(c ImportCase, x *Ctx) error { return c.check(x, false) }),
			facet("files binary", 40, 1500, genManyFiles, func(c ImportCase, x *Ctx) error { return c.check(x, true) }),
		},
	})
}
