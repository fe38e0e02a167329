package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
	"pgregory.net/rapid"
)

// Book operations: as text for the command line, and their effect on the model.

type Op struct {
	Kind        string // map mapccy move depreciate asof since combine
	Re, To, Alt string
	Num         string // factor or months as written
	Date        int
	Text        string // date or period as written
}

func (o Op) String() string {
	switch o.Kind {
	case "map":
		s := "map=/" + o.Re + "/" + o.To + "/"
		if o.Alt != "" {
			s += o.Alt + "/"
		}
		return s
	case "mapccy":
		return "mapccy=/" + o.Re + "/" + o.To + "/"
	case "move", "depreciate":
		return o.Kind + "=/" + o.Re + "/" + o.To + "/" + o.Num + "/"
	}
	return o.Kind + "=" + o.Text
}

func (o Op) model(m MBook) MBook {
	switch o.Kind {
	case "map":
		return m.mapAcct(o.Re, o.To, o.Alt)
	case "mapccy":
		return m.mapCCY(o.Re, o.To)
	case "move":
		return m.move(o.Re, o.To, ratStr(o.Num))
	case "depreciate":
		var n int64
		fmt.Sscan(o.Num, &n)
		return m.depreciate(o.Re, o.To, n)
	case "asof":
		return m.cut(func(d int) bool { return d < o.Date })
	case "since":
		return m.cut(func(d int) bool { return d >= o.Date })
	case "combine":
		return m.combine(o.Text)
	}
	harness("op %q", o.Kind)
	return m
}

// decOp is the effect on the decimals of the currencies.
func (o Op) decOp(dec map[string]int) map[string]int {
	if o.Kind != "mapccy" {
		return dec
	}
	re := regexp.MustCompile(o.Re)
	out := map[string]int{}
	for c, d := range dec {
		if re.MatchString(c) {
			c = re.ReplaceAllString(c, o.To)
		}
		if d >= out[c] {
			out[c] = d
		}
	}
	return out
}

func decimalsOf(ps []MPost) map[string]int {
	out := map[string]int{}
	for _, p := range ps {
		if d := minDecimals(p.Val); d >= out[p.CCY] {
			out[p.CCY] = d
		}
	}
	return out
}

// changed says whether the operation touches anything at all in the model.
func (o Op) changes(m MBook) bool {
	return diffBooks(o.model(m), m.norm(), true) != nil
}

var acctRes = []string{".*", "^Asset", "^Expense:.*", "^(Asset|Expense):(.*)$", "^([^:]+):([^:]+)", "Bank", "Bank$", "^Asset:[^:]*$", "a", "o", ":", "(?i)bank", "[A-C]", "^(.)", "(.)$", "^Income|^Equity", "^Asset$", "^[^:]+$", "(.*):([^:]*)$", "x*"}
var acctTos = []string{"Equity", "$1", "Top:$1", "${1}x", "$2:$1", "$0", "New:Acct", "Asset:Bank", "Z", "$1:X", "Income:$0", "Asset", "A:B:C", "$9", "$$"}
var ccyRes = []string{".*", "^USD$", "^(USD|EUR)$", "U", "^(.)", "[A-Z]+", "^£$", "S", "R$", "^A", "(.)(.)", "^[^A-Z]", "€|£", "kr"}
var ccyTos = []string{"USD", "EUR", "$1", "X", "$0", "${1}Q", "U$0", "AAPL", "$2$1", "£", "GBP"}

func genAcctRe(t *rapid.T, accts []string) string {
	switch intn(t, 0, 9, "rek") {
	case 0, 1:
		return "^" + regexp.QuoteMeta(pick(t, accts, "rea")) + "$"
	case 2:
		return "^" + regexp.QuoteMeta(pick(t, accts, "rea"))
	case 3:
		a := pick(t, accts, "rea")
		if i := strings.LastIndexByte(a, ':'); i > 0 {
			return "^" + regexp.QuoteMeta(a[:i]) + "(.*)$"
		}
		return a
	}
	return pick(t, acctRes, "re")
}

func genAcctTo(t *rapid.T, accts []string) string {
	if chance(t, 35, "toacct") {
		return pick(t, accts, "to")
	}
	return pick(t, acctTos, "tor")
}

// dateSpellings: every documented way to write the date.
func dateSpellings(d int) []string {
	y, m, dd := d/10000, (d/100)%100, d%100
	var out []string
	for _, s := range []string{"-", "/", ".", ""} {
		out = append(out, fmt.Sprintf("%04d%s%02d%s%02d", y, s, m, s, dd))
		if s != "" {
			out = append(out, fmt.Sprintf("%02d%s%02d%s%04d", dd, s, m, s, y), fmt.Sprintf("%d%s%d%s%04d", dd, s, m, s, y), fmt.Sprintf("%04d%s%d%s%d", y, s, m, s, dd))
		}
		if dd == 1 {
			out = append(out, fmt.Sprintf("%04d%s%02d", y, s, m))
			if s != "" {
				out = append(out, fmt.Sprintf("%04d%s%d", y, s, m))
			}
		}
	}
	if d%10000 == 101 {
		out = append(out, fmt.Sprintf("%04d", y))
	}
	return out
}

func genFactor(t *rapid.T) string {
	return pick(t, []string{"0.5", "0.2", "1", "2", "0.1", "0.333", "0.07", "1.0", ".25", "3.14159", "0.000001", "10", "0", "0.30000000000000000000000000000000001", "00.5", "5.", "0.7"}, "factor")
}

// genOp makes one valid operation for a book like m.
func genOp(t *rapid.T, m MBook, kinds ...string) Op {
	accts := []string{"Asset", "Expense"}
	ccys := []string{"USD"}
	dates := []int{20200101}
	for _, p := range m.Posts {
		if !has(accts, p.Acct) && p.Acct != "" && !strings.Contains(p.Acct, "/") {
			accts = append(accts, p.Acct)
		}
		if !has(ccys, p.CCY) && p.CCY != "" && !strings.Contains(p.CCY, "/") {
			ccys = append(ccys, p.CCY)
		}
		dates = append(dates, p.Date)
	}
	if len(kinds) == 0 {
		kinds = []string{"map", "map", "mapccy", "move", "move", "depreciate", "asof", "since", "combine"}
	}
	k := pick(t, kinds, "opkind")
	o := Op{Kind: k}
	switch k {
	case "map":
		o.Re, o.To = genAcctRe(t, accts), genAcctTo(t, accts)
		if chance(t, 30, "alt") {
			o.Alt = pick(t, append([]string{"Other", "Equity:Rest", "$1", "Asset"}, accts...), "altv")
		}
	case "mapccy":
		o.Re, o.To = pick(t, ccyRes, "cre"), pick(t, ccyTos, "cto")
		if chance(t, 50, "own") {
			o.Re = "^" + regexp.QuoteMeta(pick(t, ccys, "crec")) + "$"
			if chance(t, 50, "ownto") {
				o.To = pick(t, ccys, "ctoc")
			}
		}
		o.To = strings.ReplaceAll(o.To, "/", "")
	case "move":
		o.Re, o.To, o.Num = genAcctRe(t, accts), genAcctTo(t, accts), genFactor(t)
	case "depreciate":
		o.Re, o.To, o.Num = genAcctRe(t, accts), genAcctTo(t, accts), fmt.Sprint(pick(t, []int{1, 2, 3, 4, 6, 12, 13, 24, 36, 60}, "months"))
		if len(m.Posts) < 15 && chance(t, 3, "long") {
			o.Num = fmt.Sprint(intn(t, 61, 1300, "longm"))
		}
	case "asof", "since":
		d := pick(t, dates, "cutd")
		switch intn(t, 0, 4, "cutk") {
		case 0:
			d = dateOf(dayNo(d) + 1)
		case 1:
			if dayNo(d) > 1 {
				d = dateOf(dayNo(d) - 1)
			}
		case 2:
			d = genDate(t)
		case 3:
			d = periodStart(pick(t, []string{"yearly", "monthly"}, "cutp"), d)
		}
		if d > 99991231 {
			d = 99991231
		}
		o.Date = d
		o.Text = pick(t, dateSpellings(d), "spelling")
	case "combine":
		o.Text = pick(t, []string{"yearly", "quarterly", "monthly", "none", "YEARLY", "Monthly", "quarterLY", "None"}, "period")
	}
	return o
}

// genOps makes a sequence of operations.
func genOps(t *rapid.T, m MBook, n int, kinds ...string) []Op {
	var out []Op
	dep := 0
	for i := 0; i < n; i++ {
		o := genOp(t, m, kinds...)
		if o.Kind == "depreciate" {
			dep++
			months, _ := strconv.Atoi(o.Num)
			if dep > 2 || len(m.Posts) > 150 || len(m.Posts) > 15 && months > 60 {
				continue
			}
		}
		if o.Kind == "depreciate" && maxDate(m) > 98000101 {
			continue
		}
		m2 := o.model(m)
		if o.Kind == "map" && longestAcct(m2) > 400 {
			// each "x*" multiplies the length of names
			continue
		}
		out = append(out, o)
		m = m2
	}
	return out
}

// nameLen estimates the longest account name after a history of operations, which each may
// multiply its length.
type nameLen int

func (n *nameLen) tooLong(m MBook, o *Op) bool {
	if *n == 0 {
		*n = nameLen(longestAcct(m))
	}
	if o.Kind != "map" {
		return false
	}
	l := int(*n)
	switch o.Re {
	case "x*":
		l = (l + 1) * (len(o.To) + 1)
	case "a", "o", ":", "[A-C]", "(?i)bank", "Bank":
		l += l / 3 * len(o.To)
	default:
		l += 3 * len(o.To)
	}
	if l > 8000 {
		return true
	}
	*n = nameLen(l)
	return false
}

func longestAcct(m MBook) int {
	n := 0
	for _, p := range m.Posts {
		n = max(n, len(p.Acct))
	}
	return n
}

func maxDate(m MBook) int {
	d := 0
	for _, p := range m.Posts {
		if p.Date > d {
			d = p.Date
		}
	}
	return d
}

func opTexts(ops []Op) []string {
	out := []string{}
	for _, o := range ops {
		out = append(out, o.String())
	}
	return out
}

func applyModel(m MBook, ops []Op) MBook {
	for _, o := range ops {
		m = o.model(m)
	}
	return m
}

// applyReal applies the operations as command-line arguments would be.
func applyReal(b *book.Book, macros map[string][]string, ops ...string) error {
	a := app.App{Divider: ":", Lang: "en", Macros: macros}
	return a.BookOps(b, ops...)
}

// genPlainCase: a book by plain ledger text, in small sizes, with features for operations.
func genPlainCase(t *rapid.T) LCase {
	s := genSpec(t)
	s.Big = chance(t, 20, "big")
	for i, p := range s.Payees {
		if strings.Contains(p, `"`) {
			s.Payees[i] = "Aldi"
		}
	}
	return genLedger(t, s, true)
}

var _ = big.NewRat
