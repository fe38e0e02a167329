package main

import (
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"
)

// Reference model: a book is a flat list of postings, brought to normal form
// (grouped, added up, zeros dropped, sorted) after every operation.

type MPost struct {
	Date   int
	Payee  string
	TNotes []string // possible transaction notes (several once transactions were merged)
	Acct   string
	CCY    string
	Val    *big.Rat
	Notes  []string // possible posting notes
	Bal    *big.Rat `json:",omitempty"`
}

type MPrice struct {
	Date      int
	Unit, CCY string
	Val       *big.Rat
}

type MBook struct {
	Posts  []MPost
	Prices []MPrice
}

type MTrans []MPost

func rat(n, d int64) *big.Rat     { return big.NewRat(n, d) }
func radd(a, b *big.Rat) *big.Rat { return new(big.Rat).Add(a, b) }
func rsub(a, b *big.Rat) *big.Rat { return new(big.Rat).Sub(a, b) }
func rmul(a, b *big.Rat) *big.Rat { return new(big.Rat).Mul(a, b) }
func rquo(a, b *big.Rat) *big.Rat { return new(big.Rat).Quo(a, b) }
func rneg(a *big.Rat) *big.Rat    { return new(big.Rat).Neg(a) }
func rcopy(a *big.Rat) *big.Rat   { return new(big.Rat).Set(a) }
func ratStr(s string) *big.Rat {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		harness("rat %q", s)
	}
	return r
}
func f64(a *big.Rat) float64 { f, _ := a.Float64(); return f }

func mergeNotes(a, b []string) []string {
	out := append([]string{}, a...)
	for _, s := range b {
		if !has(out, s) {
			out = append(out, s)
		}
	}
	return out
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (m MBook) clone() MBook {
	o := MBook{Prices: append([]MPrice{}, m.Prices...)}
	for _, p := range m.Posts {
		p.Val = rcopy(p.Val)
		p.Bal = nil
		o.Posts = append(o.Posts, p)
	}
	return o
}

// norm is the normal form: what a loaded book is expected to contain, with running balances.
func (m MBook) norm() MBook {
	type key struct {
		d       int
		p, a, c string
	}
	type tkey struct {
		d int
		p string
	}
	idx := map[key]int{}
	tn := map[tkey][]string{}
	var out []MPost
	for _, p := range m.Posts {
		tk := tkey{p.Date, p.Payee}
		tn[tk] = mergeNotes(tn[tk], p.TNotes)
		k := key{p.Date, p.Payee, p.Acct, p.CCY}
		if i, ok := idx[k]; ok {
			out[i].Val = radd(out[i].Val, p.Val)
			out[i].Notes = mergeNotes(out[i].Notes, p.Notes)
			continue
		}
		idx[k] = len(out)
		p.Val = rcopy(p.Val)
		out = append(out, p)
	}
	var res []MPost
	for _, p := range out {
		if p.Val.Sign() != 0 {
			p.TNotes = tn[tkey{p.Date, p.Payee}]
			res = append(res, p)
		}
	}
	sort.SliceStable(res, func(i, j int) bool {
		a, b := res[i], res[j]
		if a.Date != b.Date {
			return a.Date < b.Date
		}
		if a.Payee != b.Payee {
			return a.Payee < b.Payee
		}
		if a.Acct != b.Acct {
			return a.Acct < b.Acct
		}
		return a.CCY < b.CCY
	})
	bal := map[[2]string]*big.Rat{}
	for i := range res {
		k := [2]string{res[i].Acct, res[i].CCY}
		if bal[k] == nil {
			bal[k] = new(big.Rat)
		}
		bal[k] = radd(bal[k], res[i].Val)
		res[i].Bal = bal[k]
	}
	prices := append([]MPrice{}, m.Prices...)
	sort.SliceStable(prices, func(i, j int) bool {
		a, b := prices[i], prices[j]
		if a.Unit != b.Unit {
			return a.Unit < b.Unit
		}
		if a.CCY != b.CCY {
			return a.CCY < b.CCY
		}
		return a.Date < b.Date
	})
	return MBook{res, prices}
}

// trans splits a normal-form book into its transactions.
func (m MBook) trans() []MTrans {
	var out []MTrans
	for i, p := range m.Posts {
		if i == 0 || m.Posts[i-1].Date != p.Date || m.Posts[i-1].Payee != p.Payee {
			out = append(out, nil)
		}
		out[len(out)-1] = append(out[len(out)-1], p)
	}
	return out
}

func (p MPost) String() string {
	return fmt.Sprintf("%08d %q tn%q %q %q %s n%q bal %v", p.Date, p.Payee, p.TNotes, p.Acct, p.CCY, p.Val.RatString(), p.Notes, p.Bal)
}

// ---- operations -----------------------------------------------------------

func (m MBook) mapPosts(f func(p MPost) []MPost) MBook {
	var out []MPost
	for _, p := range m.Posts {
		out = append(out, f(p)...)
	}
	return MBook{out, m.Prices}.norm()
}

func (m MBook) mapAcct(search, replace, alt string) MBook {
	re := regexp.MustCompile(search)
	return m.mapPosts(func(p MPost) []MPost {
		if re.MatchString(p.Acct) {
			if replace != "" {
				p.Acct = re.ReplaceAllString(p.Acct, replace)
			}
		} else if alt != "" {
			p.Acct = alt
		}
		return []MPost{p}
	})
}

func (m MBook) mapCCY(search, replace string) MBook {
	re := regexp.MustCompile(search)
	ren := func(s string) string {
		if re.MatchString(s) {
			return re.ReplaceAllString(s, replace)
		}
		return s
	}
	o := m.mapPosts(func(p MPost) []MPost {
		p.CCY = ren(p.CCY)
		return []MPost{p}
	})
	o.Prices = nil
	for _, p := range m.Prices {
		p.Unit, p.CCY = ren(p.Unit), ren(p.CCY)
		o.Prices = append(o.Prices, p)
	}
	return o.norm()
}

func (m MBook) move(search, to string, factor *big.Rat) MBook {
	re := regexp.MustCompile(search)
	return m.mapPosts(func(p MPost) []MPost {
		if !re.MatchString(p.Acct) {
			return []MPost{p}
		}
		q, r := p, p
		part := rmul(p.Val, factor)
		q.Val = rneg(part)
		r.Val = part
		r.Acct = re.ReplaceAllString(p.Acct, to)
		return []MPost{p, q, r}
	})
}

func floorMonth(d, diff int) int {
	y, mo := d/10000, (d/100)%100-1
	n := y*12 + mo + diff
	return (n/12)*10000 + (n%12+1)*100 + 1
}

func (m MBook) depreciate(search, asset string, months int64) MBook {
	re := regexp.MustCompile(search)
	return m.mapPosts(func(p MPost) []MPost {
		if !re.MatchString(p.Acct) {
			return []MPost{p}
		}
		na := re.ReplaceAllString(p.Acct, asset)
		q, r := p, p
		q.Val = rneg(p.Val)
		r.Acct = na
		out := []MPost{p, q, r}
		d := p.Date
		part := rmul(p.Val, big.NewRat(1, months))
		for i := int64(0); i < months; i++ {
			a, b := p, p
			a.Date, b.Date = d, d
			a.Acct = na
			a.Val = rneg(part)
			b.Val = part
			out = append(out, a, b)
			d = floorMonth(d, 1)
		}
		return out
	})
}

func (m MBook) cut(keep func(d int) bool) MBook {
	var out []MPost
	for _, p := range m.Posts {
		if keep(p.Date) {
			out = append(out, p)
		}
	}
	return MBook{out, m.Prices}.norm()
}

func periodStart(by string, d int) int {
	y, mo := d/10000, (d/100)%100
	switch strings.ToLower(by) {
	case "yearly":
		return y*10000 + 101
	case "quarterly":
		return y*10000 + ((mo-1)/3*3+1)*100 + 1
	case "monthly":
		return y*10000 + mo*100 + 1
	}
	return d
}

func (m MBook) combine(by string) MBook {
	return m.mapPosts(func(p MPost) []MPost {
		p.Date = periodStart(by, p.Date)
		p.Payee = ""
		return []MPost{p}
	})
}

// convert is the conversion to a base currency at each posting's date.
func (m MBook) convert(base string) MBook {
	return m.mapPosts(func(p MPost) []MPost {
		r, _ := m.rate(p.Date, p.CCY, base)
		p.Val = rmul(p.Val, r)
		p.CCY = base
		return []MPost{p}
	})
}

// ---- calendar -------------------------------------------------------------

func leap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func mdays(y, m int) int {
	switch m {
	case 2:
		if leap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

func validDate(d int) bool {
	y, m, day := d/10000, (d/100)%100, d%100
	return d > 0 && y >= 1 && y <= 9999 && m >= 1 && m <= 12 && day >= 1 && day <= mdays(y, m)
}

// dayNo counts days since 0001/01/01 (civil-from-days algorithm, independent of goledger's).
func dayNo(d int) int {
	y, m, day := d/10000, (d/100)%100, d%100
	if m <= 2 {
		y--
	}
	era := y / 400
	if y < 0 {
		era = (y - 399) / 400
	}
	yoe := y - era*400
	mp := (m + 9) % 12
	doy := (153*mp+2)/5 + day - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 306
}

// dateOf is the inverse of dayNo.
func dateOf(n int) int {
	z := n + 306
	era := z / 146097
	if z < 0 {
		era = (z - 146096) / 146097
	}
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y := yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d := doy - (153*mp+2)/5 + 1
	m := mp + 3
	if m > 12 {
		m -= 12
	}
	if m <= 2 {
		y++
	}
	return y*10000 + m*100 + d
}

func dateText(d int) string { return fmt.Sprintf("%04d/%02d/%02d", d/10000, (d/100)%100, d%100) }

// ---- prices ---------------------------------------------------------------

// rate is the reference price lookup: rate and label (Exact, Inferred, OutOfRange, None).
// With several prices of a pair on one date the answer is any of them; pairs with
// conflicting prices on one date are kept out of the generators that use this.
func (m MBook) rate(date int, unit, ccy string) (*big.Rat, string) {
	if unit == ccy {
		return big.NewRat(1, 1), "Exact"
	}
	if r, l, ok := m.rateDirect(date, unit, ccy); ok {
		return r, l
	}
	if r, l, ok := m.rateDirect(date, ccy, unit); ok {
		if r.Sign() == 0 {
			return big.NewRat(1, 1), "None"
		}
		return new(big.Rat).Inv(r), l
	}
	return big.NewRat(1, 1), "None"
}

func (m MBook) rateDirect(date int, unit, ccy string) (*big.Rat, string, bool) {
	var before, after *MPrice
	seen := map[int]*MPrice{}
	for i := range m.Prices {
		if p := &m.Prices[i]; p.Unit == unit && p.CCY == ccy {
			if q := seen[p.Date]; q != nil && q.Val.Cmp(p.Val) != 0 {
				panic(outside{"two prices of a pair on a day"}) // currencies became one
			}
			seen[p.Date] = p
		}
	}
	for i := range m.Prices {
		p := &m.Prices[i]
		if p.Unit != unit || p.CCY != ccy {
			continue
		}
		if p.Date == date {
			return p.Val, "Exact", true
		}
		if p.Date < date && (before == nil || p.Date > before.Date) {
			before = p
		}
		if p.Date > date && (after == nil || p.Date < after.Date) {
			after = p
		}
	}
	switch {
	case before == nil && after == nil:
		return nil, "", false
	case before == nil:
		return after.Val, "OutOfRange", true
	case after == nil:
		return before.Val, "OutOfRange", true
	}
	f := big.NewRat(int64(dayNo(date)-dayNo(before.Date)), int64(dayNo(after.Date)-dayNo(before.Date)))
	return radd(before.Val, rmul(f, rsub(after.Val, before.Val))), "Inferred", true
}

// ---- decimals -------------------------------------------------------------

// minDecimals is the smallest number of decimals showing r exactly, -1 if none does.
func minDecimals(r *big.Rat) int {
	d := new(big.Int).Set(r.Denom())
	n2, n5 := 0, 0
	two, five, rem := big.NewInt(2), big.NewInt(5), new(big.Int)
	for {
		q := new(big.Int)
		if q.QuoRem(d, two, rem); rem.Sign() != 0 {
			break
		}
		d = q
		n2++
	}
	for {
		q := new(big.Int)
		if q.QuoRem(d, five, rem); rem.Sign() != 0 {
			break
		}
		d = q
		n5++
	}
	if d.Cmp(big.NewInt(1)) != 0 {
		return -1
	}
	if n2 > n5 {
		return n2
	}
	return n5
}

// ---- comparison -----------------------------------------------------------

// diffBooks compares an observed book with the expected one; notes of the observed
// posting must be among the expected candidates.
func diffBooks(got, want MBook, withPrices bool) error {
	if e := diffPosts(got.Posts, want.Posts, true); e != nil {
		return e
	}
	if withPrices {
		return diffPrices(got.Prices, want.Prices)
	}
	return nil
}

func dump(ps []MPost) string {
	var sb strings.Builder
	for i, p := range ps {
		if i == 40 {
			sb.WriteString("  ...\n")
			break
		}
		fmt.Fprintf(&sb, "  %v\n", p)
	}
	return sb.String()
}

func diffPosts(got, want []MPost, notes bool) error {
	fail := func(f string, a ...any) error {
		return viol("%s\nobserved:\n%sexpected:\n%s", fmt.Sprintf(f, a...), dump(got), dump(want))
	}
	n := len(got)
	if len(want) < n {
		n = len(want)
	}
	for i := 0; i < n; i++ {
		g, w := got[i], want[i]
		if g.Date != w.Date || g.Payee != w.Payee || g.Acct != w.Acct || g.CCY != w.CCY || g.Val.Cmp(w.Val) != 0 {
			return fail("posting %d differs: observed %v, expected %v", i, g, w)
		}
		if notes {
			for _, s := range g.TNotes {
				if !has(w.TNotes, s) {
					return fail("posting %d: transaction note %q, expected %q", i, s, w.TNotes)
				}
			}
			for _, s := range g.Notes {
				if !has(w.Notes, s) {
					return fail("posting %d: posting note %q, expected %q", i, s, w.Notes)
				}
			}
		}
		if g.Bal != nil && w.Bal != nil && g.Bal.Cmp(w.Bal) != 0 {
			return fail("posting %d: running balance %s, expected %s", i, g.Bal.RatString(), w.Bal.RatString())
		}
	}
	if len(got) != len(want) {
		return fail("%d postings observed, %d expected", len(got), len(want))
	}
	return nil
}

func diffPrices(got, want []MPrice) error {
	key := func(p MPrice) string {
		return fmt.Sprintf("%08d %q in %q = %s", p.Date, p.Unit, p.CCY, p.Val.RatString())
	}
	ks := func(l []MPrice) []string {
		var o []string
		for _, p := range l {
			o = append(o, key(p))
		}
		sort.Strings(o)
		return o
	}
	g, w := ks(got), ks(want)
	if strings.Join(g, "\n") != strings.Join(w, "\n") {
		return viol("prices differ:\nobserved:\n%s\nexpected:\n%s", strings.Join(g, "\n"), strings.Join(w, "\n"))
	}
	return nil
}

// checkBalanced: every transaction sums to zero in every currency.
func checkBalanced(ps []MPost) error {
	type k struct {
		d    int
		p, c string
	}
	sum := map[k]*big.Rat{}
	for _, p := range ps {
		kk := k{p.Date, p.Payee, p.CCY}
		if sum[kk] == nil {
			sum[kk] = new(big.Rat)
		}
		sum[kk].Add(sum[kk], p.Val)
	}
	for kk, v := range sum {
		if v.Sign() != 0 {
			return viol("transaction %d %q does not balance in %q: sum %s", kk.d, kk.p, kk.c, v.RatString())
		}
	}
	return nil
}
