package main

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/mescanne/goledger/book"
	"pgregory.net/rapid"
)

// C16: calendar arithmetic. C17: spellings.

// CalCase is a date with day and period offsets.
type CalCase struct {
	D    int // a valid date yyyymmdd
	Days int // added
	E    int // another valid date
	Per  int // period offset
}

// edgeDate: dates around what calendars get wrong, over the whole range.
func edgeDate(t *rapid.T) int {
	switch intn(t, 0, 5, "edge") {
	case 0:
		return dateOf(intn(t, 0, dayNo(99991231), "any"))
	case 1: // around 1 January and around the end of February, near multiples of 4, 100, 400
		y := pick(t, []int{4, 100, 400, 1000}, "unit")
		y = y*intn(t, 0, 9999/y, "mult") + intn(t, -1, 1, "off")
		if y < 1 {
			y = 1
		}
		if y > 9999 {
			y = 9999
		}
		d := dayNo(y*10000+pick(t, []int{101, 228, 301, 1231, 630, 1001}, "md")) + intn(t, -2, 2, "dd")
		return clampDay(d)
	case 2:
		y := intn(t, 1, 9999, "y")
		m := intn(t, 1, 12, "m")
		return y*10000 + m*100 + pick(t, []int{1, mdays(y, m)}, "end")
	case 3:
		return clampDay(pick(t, []int{0, 1, 365, 366, dayNo(99991231), dayNo(99991231) - 1}, "lim"))
	}
	y := intn(t, 1, 9999, "y")
	m := intn(t, 1, 12, "m")
	return y*10000 + m*100 + intn(t, 1, mdays(y, m), "d")
}

func clampDay(d int) int {
	if d < 0 {
		d = 0
	}
	if l := dayNo(99991231); d > l {
		d = l
	}
	return dateOf(d)
}

func genCal(t *rapid.T) CalCase {
	c := CalCase{D: edgeDate(t), E: edgeDate(t)}
	n, last := dayNo(c.D), dayNo(99991231)
	switch intn(t, 0, 3, "dk") {
	case 0:
		c.Days = intn(t, -n, last-n, "days")
	case 1:
		c.Days = intn(t, -800, 800, "days")
	case 2:
		c.Days = pick(t, []int{1, 28, 29, 30, 31, 59, 60, 365, 366, 730, 1460, 1461, 36524, 36525, 146096, 146097}, "days") * pick(t, []int{1, -1}, "sg")
	case 3: // to another edge
		c.Days = dayNo(edgeDate(t)) - n
	}
	if n+c.Days < 0 || n+c.Days > last {
		c.Days = -c.Days
	}
	if n+c.Days < 0 || n+c.Days > last {
		c.Days = 0
	}
	c.Per = pick(t, []int{0, 0, 1, -1, intn(t, -40, 40, "per"), intn(t, -20000, 20000, "per2")}, "perk")
	return c
}

// refFloor is the first day of the period of d shifted by per periods; ok if within years 1 to 9999.
func refFloor(d, months, per int) (int, bool) {
	idx := d/10000*12 + (d/100)%100 - 1
	idx = idx - idx%months + per*months
	y := idx / 12
	if idx < 12 || y > 9999 {
		return 0, false
	}
	return y*10000 + (idx%12+1)*100 + 1, true
}

func checkCal(c CalCase, x *Ctx) error {
	d, e := book.Date(c.D), book.Date(c.E)
	n, m := dayNo(c.D), dayNo(c.E)
	if c.D != c.E {
		x.NT()
	}
	if g := d.AsDays(); g != n {
		return viol("%d is day %d, expected %d", c.D, g, n)
	}
	if g := book.GetDateFromDays(n); int(g) != c.D {
		return viol("day %d is %d, expected %d", n, int(g), c.D)
	}
	if g := d.DaysSince(e); g != n-m {
		return viol("from %d to %d: %d days, expected %d", c.E, c.D, g, n-m)
	}
	if (d.AsDays() < e.AsDays()) != (c.D < c.E) {
		return viol("the day numbers of %d and %d are ordered otherwise", c.D, c.E)
	}
	if g, w := d.AddDays(c.Days), dateOf(n+c.Days); int(g) != w {
		return viol("%d plus %d days is %d, expected %d", c.D, c.Days, int(g), w)
	}
	if g := d.AddDays(c.Days).AddDays(-c.Days); int(g) != c.D {
		return viol("%d plus and minus %d days is %d", c.D, c.Days, int(g))
	}
	for _, f := range []struct {
		by     string
		months int
		fn     func(book.Date, int) book.Date
	}{{"monthly", 1, book.Date.FloorMonth}, {"quarterly", 3, book.Date.FloorQuarter}, {"yearly", 12, book.Date.FloorYear}} {
		if w, ok := refFloor(c.D, f.months, c.Per); ok {
			if g := f.fn(d, c.Per); int(g) != w {
				return viol("%d floored %s with offset %d is %d, expected %d", c.D, f.by, c.Per, int(g), w)
			}
			if g := d.FloorDiff(f.by, c.Per); int(g) != w {
				return viol("%d FloorDiff %s with offset %d is %d, expected %d", c.D, f.by, c.Per, int(g), w)
			}
			if c.Per != 0 {
				x.Label("%s with offset", f.by)
			}
		}
		w, _ := refFloor(c.D, f.months, 0)
		if g := d.Floor(f.by); int(g) != w {
			return viol("%d floored %s is %d, expected %d", c.D, f.by, int(g), w)
		}
	}
	if g := d.Floor("none"); g != d {
		return viol("%d floored none is %d", c.D, int(g))
	}
	// fractions of a year
	y := c.D / 10000
	len := 365
	if leap(y) {
		len++
		x.Label("leap year")
	}
	doy := n - dayNo(y*10000+101)
	got := d.AsYears()
	w, _ := new(big.Rat).SetFrac64(int64((y-1)*len+doy), int64(len)).Float64()
	if diff := got - w; diff > 1e-9 || diff < -1e-9 {
		return viol("%d is %.12f years, expected %.12f", c.D, got, w)
	}
	if int(got) != y-1 {
		return viol("%d is %.17g years: whole part %d, expected %d", c.D, got, int(got), y-1)
	}
	if g := e.AsYears(); (got < g) != (c.D < c.E) || (got > g) != (c.D > c.E) {
		return viol("the years of %d and %d, %.12f and %.12f, are ordered otherwise", c.D, c.E, got, g)
	}
	if n > 0 {
		if p := book.Date(dateOf(n - 1)).AsYears(); p >= got {
			return viol("the years do not grow from %d (%.12f) to %d (%.12f)", dateOf(n-1), p, c.D, got)
		}
	}
	if t := d.GetTime(); t.Year() != y || int(t.Month()) != c.D/100%100 || t.Day() != c.D%100 {
		return viol("the time of %d is %v", c.D, t)
	}
	if !calendarValid(d) {
		return viol("%d counts as invalid", c.D)
	}
	return nil
}

// calendarValid asks the code whether a date exists, or reads it back if there is
// nothing to ask.
func calendarValid(d book.Date) bool {
	if v, ok := any(d).(interface{ IsValid() bool }); ok {
		return v.IsValid()
	}
	return book.DateFromString(fmt.Sprintf("%04d-%02d-%02d", int(d)/10000, int(d)/100%100, int(d)%100)) == d
}

// YearSweep checks every single day of a run of years: steps of one day, periods and validity.
type YearSweep struct{ From, Years int }

func checkSweep(c YearSweep, x *Ctx) error {
	x.NT()
	n := dayNo(c.From*10000 + 101)
	for y := c.From; y < c.From+c.Years && y <= 9999; y++ {
		for m := 0; m <= 14; m++ {
			for d := 0; d <= 33; d++ {
				id := y*10000 + m*100 + d
				if validDate(id) != calendarValid(book.Date(id)) {
					return viol("%d: validity %v, expected %v", id, !validDate(id), validDate(id))
				}
				if !validDate(id) {
					continue
				}
				if err := checkCal(CalCase{D: id, E: dateOf(n), Days: 0, Per: 0}, x); err != nil {
					return err
				}
				if book.Date(id).AsDays() != n {
					return viol("%d is day %d, expected %d", id, book.Date(id).AsDays(), n)
				}
				n++
			}
		}
	}
	return nil
}

// PeriodCase: the periods of dates seen through the combine operation and split reports.
type PeriodCase struct {
	Dates []int
	By    string
}

func checkPeriod(c PeriodCase, x *Ctx) error {
	months := map[string]int{"monthly": 1, "quarterly": 3, "yearly": 12}[c.By]
	b := book.NewBookBuilder()
	for i, d := range c.Dates {
		b.NewTransaction(book.Date(d), "p"+string(rune('a'+i)), "")
		b.AddPosting("A", "USD", big.NewRat(int64(i+1), 1), "")
		b.AddPosting("B", "USD", big.NewRat(int64(-i-1), 1), "")
	}
	bk := finishBuild(b)
	bk.SplitBy(c.By)
	want := map[int]int{}
	for i, d := range c.Dates {
		f, _ := refFloor(d, months, 0)
		want[f] += i + 1
	}
	if len(want) > 1 && len(want) < len(c.Dates) {
		x.NT()
	}
	got := map[int]int{}
	var order []int
	for _, t := range bk.Transactions() {
		for _, p := range t {
			if p.GetAccount() == "A" {
				v, _ := p.GetAmount().Float64()
				got[int(p.GetDate())] += int(v)
				order = append(order, int(p.GetDate()))
			}
		}
	}
	if !sort.IntsAreSorted(order) {
		return viol("combined transactions out of date order: %v", order)
	}
	for f, v := range want {
		if got[f] != v {
			return viol("period %d: total %d, expected %d (%v)", f, got[f], v, c)
		}
	}
	if len(got) != len(want) {
		return viol("periods %v, expected %v", got, want)
	}
	return nil
}

func init() {
	register(&Prop{
		ID:          "C16",
		Rule:        "dates of years 1 to 9999 (uniform, month ends, around 1 January, end of February and period boundaries of years near multiples of 4, 100, 400 and 1000, the limits), day offsets to anywhere in range, period offsets in range; plus sweeps over every day of a whole century (any of the hundred) and every invalid day and month of it; the reference calendar uses the era-based civil-from-days algorithm. Non-trivial = two different dates",
		Assumptions: []string{"day 0 is 1 January of year 1; the fraction-of-year value counts full years since year 1"},
		Facets: []*Facet{
			facet("dates", 400000, 8000000, genCal, checkCal),
			facet("sweep", 300, 2000, func(t *rapid.T) YearSweep {
				return YearSweep{From: intn(t, 0, 99, "c")*100 + 1, Years: 100}
			}, checkSweep),
			facet("periods", 15000, 100000, func(t *rapid.T) PeriodCase {
				c := PeriodCase{By: pick(t, []string{"monthly", "quarterly", "yearly"}, "by")}
				base := dayNo(edgeDate(t))
				for i := intn(t, 1, 8, "n"); i > 0; i-- {
					c.Dates = append(c.Dates, clampDay(base+pick(t, []int{intn(t, -3, 3, "near"), intn(t, -40, 40, "mid"), intn(t, -500, 500, "far")}, "kk")))
				}
				return c
			}, checkPeriod),
		},
	})
}
