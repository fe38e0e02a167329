package main

import (
	"fmt"
	"math"

	"github.com/mescanne/goledger/book"
	"pgregory.net/rapid"
)

// C25: internal rate of return.

// IRRCase is an investment whose returns were made by one rate.
type IRRCase struct {
	Start int       // date of the outflow
	Days  []int     // of the returns, after it
	Flows []float64 // the returns
	Rate  float64
	Perm  []int
	Scale float64
	Shift int // 400-year periods
}

func genIRR(t *rapid.T) IRRCase {
	c := IRRCase{Start: genDate(t)}
	c.Start = c.Start%10000 + 10000*intn(t, 1201, 2800, "year")
	if !validDate(c.Start) {
		c.Start = c.Start - 1
	}
	span := pick(t, []int{3, 31, 365, 366, 1461, 3652, 11000, 36525}, "span")
	for i := pick(t, []int{1, 1, 2, 2, 3, 4, 5, 8, 12, 40}, "n"); i > 0; i-- {
		c.Days = append(c.Days, intn(t, 1, span, "day"))
		f := float64(intn(t, 1, 1000000, "flow"))
		switch intn(t, 0, 5, "size") {
		case 0:
			f /= 1e6
		case 1:
			f *= 1e6
		case 2:
			f = 100
		}
		c.Flows = append(c.Flows, f)
	}
	c.Rate = float64(pick(t, []int{-500, -300, -100, -50, -10, -1, 0, 1, 10, 25, 50, 75, 99, 100, 101, 200, 500, 900, 1000, intn(t, -500, 1000, "r")}, "rate")) / 1000
	var id []int
	for i := range c.Days {
		id = append(id, i)
	}
	c.Perm = rapid.Permutation(id).Draw(t, "perm")
	c.Scale = pick(t, []float64{1, -1, 10, 0.01, 1e-9, 1e9, 3.7, -250, 1e30, 1e-30}, "scale")
	c.Shift = pick(t, []int{-3, -2, -1, 1, 2, 5, 10, 17}, "shift")
	return c
}

// yearsAt is the number of years since year 1, with the part of the current one.
func yearsAt(d int) float64 {
	y := d / 10000
	n := dayNo(d) - dayNo(y*10000+101)
	len := 365
	if leap(y) {
		len = 366
	}
	return float64(y-1) + float64(n)/float64(len)
}

func checkIRR(c IRRCase, x *Ctx) error {
	dates := []int{c.Start}
	flows := []float64{0}
	pv, dur := 0.0, 0.0
	for i, d := range c.Days {
		dt := dateOf(dayNo(c.Start) + d)
		dates = append(dates, dt)
		flows = append(flows, c.Flows[i])
		yr := yearsAt(dt) - yearsAt(c.Start)
		v := c.Flows[i] / math.Pow(1+c.Rate, yr)
		pv += v
		dur += v * yr
	}
	flows[0] = -pv
	if math.IsInf(pv, 0) || pv < 1e-200 {
		return nil
	}
	text := fmt.Sprintf("flows %v on %v, made with a rate of %v", flows, dates, c.Rate)
	conv := func(l []int, shift int) []book.Date {
		var o []book.Date
		for _, d := range l {
			o = append(o, book.Date(d+shift*4000000))
		}
		return o
	}
	bd := conv(dates, 0)
	in := append([]float64{}, flows...)
	got := book.CalculateIRR(bd, in)
	if !(math.Abs(got-c.Rate) <= 0.001) {
		return viol("rate %v for %s", got, text)
	}
	for i := range flows {
		if in[i] != flows[i] || bd[i] != book.Date(dates[i]) {
			return viol("the flows have been changed: %s, now %v on %v", text, in, bd)
		}
	}
	same := func(what string, g float64) error {
		if !(math.Abs(g-got) <= 1e-5) {
			return viol("rate %v, and %s %v: %s", got, what, g, text)
		}
		return nil
	}
	pd, pf := []int{dates[0]}, []float64{flows[0]}
	for _, i := range c.Perm {
		pd, pf = append(pd, dates[i+1]), append(pf, flows[i+1])
	}
	if err := same("in another order", book.CalculateIRR(conv(pd, 0), pf)); err != nil {
		return err
	}
	var sf []float64
	for _, f := range flows {
		sf = append(sf, f*c.Scale)
	}
	if err := same(fmt.Sprintf("times %v", c.Scale), book.CalculateIRR(conv(dates, 0), sf)); err != nil {
		return err
	}
	for _, s := range []int{c.Shift} {
		ok := true
		for _, d := range dates {
			y := d/10000 + 400*s
			ok = ok && y >= 1 && y <= 9999
		}
		if ok {
			x.Label("shifted")
			if err := same(fmt.Sprintf("%d years later", 400*s), book.CalculateIRR(conv(dates, s), append([]float64{}, flows...))); err != nil {
				return err
			}
		}
	}
	if len(c.Days) > 1 || c.Rate < 0 {
		x.NT()
	}
	x.Label("%d to %d returns", len(c.Days)/5*5, len(c.Days)/5*5+4)
	if c.Rate < 0 {
		x.Label("negative rate")
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C25",
		Rule: "an outflow and one to forty later returns of very different size, over days to a century, made with a rate of -50% to 100%; the rate found must be that rate to 0.001, and to 1e-5 the same for the returns in any order, for all flows times a factor (also negative) and for all dates moved by multiples of 400 years. Non-trivial = several returns or a negative rate",
		Assumptions: []string{
			"the reference for fractions of years is the one of C16",
			"date shifts are whole multiples of 400 years, after which the calendar repeats exactly",
		},
		Facets: []*Facet{facet("rate", 200000, 15000000, genIRR, checkIRR)},
	})
}
