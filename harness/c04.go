package main

import (
	"fmt"

	"github.com/mescanne/goledger/book"
	"pgregory.net/rapid"
)

// Prices of one pair, in order of recording, and queries.
type PriceCase struct {
	Prices  []MPrice
	Queries []PQuery
	Dates   []int // ascending, for the iterator
	Perm    []int
}

type PQuery struct {
	Date      int
	Unit, CCY string
}

func genPriceCase(t *rapid.T) PriceCase {
	var c PriceCase
	names := []string{"USD", "EUR", "GBP", "AAPL", "A B"}
	pairs := [][2]string{}
	usedDate := map[string]bool{}
	base := dayNo(genDate(t))
	for k := intn(t, 1, 3, "pairs"); k > 0; k-- {
		a, b := pick(t, names, "a"), pick(t, names, "b")
		bad := a == b
		for _, p := range pairs {
			if p == [2]string{a, b} || p == [2]string{b, a} && chance(t, 70, "onlyone") {
				bad = true
			}
		}
		if bad {
			continue
		}
		pairs = append(pairs, [2]string{a, b})
		n := pick(t, []int{1, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33}, "n")
		span := pick(t, []int{3, 40, 800, 40000}, "span")
		for i := 0; i < n; i++ {
			dn := base + intn(t, 0, span, "off")
			if dn > dayNo(99991231) {
				dn = dayNo(99991231)
			}
			d := dateOf(dn)
			if chance(t, 15, "month1") {
				d = periodStart("monthly", d)
			}
			k := fmt.Sprint(a, "|", b, d)
			if usedDate[k] {
				continue
			}
			usedDate[k] = true
			v := genDec(t, chance(t, 20, "bigp")).rat()
			if chance(t, 4, "negp") {
				v = rneg(v)
			}
			c.Prices = append(c.Prices, MPrice{d, a, b, v})
		}
	}
	if len(c.Prices) == 0 {
		c.Prices = []MPrice{{20200101, "USD", "EUR", rat(1, 2)}}
	}
	c.Perm = rapid.Permutation(seq(len(c.Prices))).Draw(t, "perm")
	for i := intn(t, 1, 12, "nq"); i > 0; i-- {
		q := PQuery{Unit: pick(t, names, "qa"), CCY: pick(t, names, "qb")}
		if chance(t, 85, "known") {
			p := pick(t, c.Prices, "qp")
			q.Unit, q.CCY = p.Unit, p.CCY
			if chance(t, 35, "rev") {
				q.Unit, q.CCY = q.CCY, q.Unit
			}
		}
		q.Date = genQueryDate(t, c.Prices)
		c.Queries = append(c.Queries, q)
	}
	for i := intn(t, 1, 12, "nd"); i > 0; i-- {
		c.Dates = append(c.Dates, genQueryDate(t, c.Prices))
	}
	for i := 1; i < len(c.Dates); i++ {
		for j := i; j > 0 && c.Dates[j] < c.Dates[j-1]; j-- {
			c.Dates[j], c.Dates[j-1] = c.Dates[j-1], c.Dates[j]
		}
	}
	return c
}

func seq(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	return o
}

func genQueryDate(t *rapid.T, ps []MPrice) int {
	a := dayNo(pick(t, ps, "qd").Date)
	switch intn(t, 0, 5, "qk") {
	case 0:
	case 1:
		a++
	case 2:
		a--
	case 3:
		b := dayNo(pick(t, ps, "qd2").Date)
		if a > b {
			a, b = b, a
		}
		a = intn(t, a, b, "between")
	default:
		a += intn(t, -500, 500, "near")
	}
	if a < 0 {
		a = 0
	}
	if a > dayNo(99991231) {
		a = dayNo(99991231)
	}
	return dateOf(a)
}

func init() {
	register(&Prop{
		ID:          "C04",
		Rule:        "random price histories of up to three pairs (1 to 33 dates, both directions at times) recorded in a random order, queried at, next to, between, before and after the recorded dates; non-trivial = some query is answered by interpolation, out of range or by the reciprocal",
		Assumptions: []string{"one price per pair and date; a price of zero has no reciprocal and counts as none"},
		Facets: []*Facet{
			facet("lookup", 6000, 250000, genPriceCase, checkPrices),
			facet("ledger", 1500, 40000, genPriceCase, func(c PriceCase, x *Ctx) error {
				// through ledger text, spread over the file
				s := "2020/01/01 x\n  A  USD 1\n  B  USD -1\n"
				for _, i := range c.Perm {
					p := c.Prices[i]
					u := p.Unit
					if ccyNeedsQuote(u) {
						u = `"` + u + `"`
					}
					s += fmt.Sprintf("P %s 00:00:00 %s %s\n", dateText(p.Date), u, plainAmt(p.CCY, p.Val))
				}
				d := x.WriteFiles(map[string]string{"m.ledger": s})
				b, err := loadFile(d + "/m.ledger")
				if err != nil {
					return viol("%v\n%s", err, s)
				}
				return queryPrices(b, c, x)
			}),
		},
	})
}

func checkPrices(c PriceCase, x *Ctx) error {
	bb := book.NewBookBuilder()
	for _, i := range c.Perm {
		p := c.Prices[i]
		bb.AddPrice(book.Date(p.Date), p.Unit, p.CCY, rcopy(p.Val))
	}
	return queryPrices(bb.Build(), c, x)
}

func queryPrices(b *book.Book, c PriceCase, x *Ctx) error {
	m := MBook{Prices: c.Prices}
	for round := 0; round < 2; round++ {
		for _, q := range c.Queries {
			want, wl := m.rate(q.Date, q.Unit, q.CCY)
			got, gl := b.GetPrice(book.Date(q.Date), q.Unit, q.CCY)
			if got == nil || got.Cmp(want) != 0 || gl.String() != wl {
				return viol("rate of %q in %q on %s: observed %v (%v), expected %v (%s)\nprices %v", q.Unit, q.CCY, dateText(q.Date), got, gl, want.RatString(), wl, fmtPrices(c.Prices))
			}
			if wl != "Exact" && wl != "None" {
				x.NT()
			}
			if _, _, direct := m.rateDirect(q.Date, q.Unit, q.CCY); !direct && wl != "None" && q.Unit != q.CCY {
				x.NT()
				x.Label("reciprocal")
			}
			x.Label("%s", wl)
		}
	}
	seen := map[string]bool{}
	for _, p := range c.Prices {
		k := p.Unit + "|" + p.CCY
		if seen[k] {
			continue
		}
		seen[k] = true
		l := b.GetPriceList(p.Unit, p.CCY)
		it := l.GetIterator()
		for _, d := range c.Dates {
			want, wl, _ := m.rateDirect(d, p.Unit, p.CCY)
			got, gl := it.GetPrice(book.Date(d))
			if got.Cmp(want) != 0 || gl.String() != wl {
				return viol("iterating %s on %s: observed %v (%v), expected %v (%s)\nprices %v", k, dateText(d), got, gl, want.RatString(), wl, fmtPrices(c.Prices))
			}
			r, rl := l.GetPrice(book.Date(d))
			if r.Cmp(want) != 0 || rl.String() != wl {
				return viol("list of %s on %s: observed %v (%v), expected %v (%s)\nprices %v", k, dateText(d), r, rl, want.RatString(), wl, fmtPrices(c.Prices))
			}
		}
	}
	// what is recorded is unchanged by the queries
	return diffPrices(observe(b).Prices, c.Prices)
}

func fmtPrices(ps []MPrice) string {
	s := ""
	for _, p := range ps {
		s += fmt.Sprintf("\n  P %s %s %s %s", dateText(p.Date), p.Unit, p.CCY, p.Val.RatString())
	}
	return s
}
