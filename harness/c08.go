package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/mescanne/goledger/book"
	"pgregory.net/rapid"
)

// One line of a summary.
type SumRow struct {
	Acct, Term, CCY string
	Level           int
	Val             *big.Rat
}

type SumCol struct {
	Date  int
	Payee string
	Rows  []SumRow
}

func (r SumRow) key() string { return fmt.Sprintf("%q/%q/%q/%d", r.Acct, r.Term, r.CCY, r.Level) }

func lcp(a, b []string) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}

// summarise is the reference for a summary: rows per column in no particular order.
func (m MBook) summarise(base, div string) ([]SumCol, map[string]bool) {
	parents := map[string]bool{}
	type ac struct{ a, c string }
	seen := map[ac]bool{}
	var terms []ac
	var accts []string
	for _, p := range m.Posts {
		if p.CCY != base {
			parents[p.Acct] = true
		}
		if !seen[ac{p.Acct, p.CCY}] {
			seen[ac{p.Acct, p.CCY}] = true
			terms = append(terms, ac{p.Acct, p.CCY})
		}
		if !has(accts, p.Acct) {
			accts = append(accts, p.Acct)
		}
	}
	for i, a := range accts {
		for _, b := range accts[:i] {
			pa, pb := strings.Split(a, div), strings.Split(b, div)
			if k := strings.Join(pa[:lcp(pa, pb)], div); k != "" {
				parents[k] = true
			}
		}
	}
	// level and label: the parent lines above the account
	place := func(acct string, self bool) (int, string) {
		lvl, last := 0, ""
		found := false
		for k := range parents {
			if strings.HasPrefix(acct, k+div) || (self && k == acct) {
				lvl++
				if !found || len(k) > len(last) {
					last = k
				}
				found = true
			}
		}
		if !found {
			return 0, acct
		}
		if last == acct {
			return lvl, ""
		}
		return lvl, acct[len(last)+len(div):]
	}
	var out []SumCol
	for _, t := range m.trans() {
		col := SumCol{Date: t[0].Date, Payee: t[0].Payee}
		val := map[ac]*big.Rat{}
		for _, p := range t {
			val[ac{p.Acct, p.CCY}] = p.Val
		}
		for _, x := range terms {
			v := val[x]
			if v == nil {
				v = new(big.Rat)
			}
			l, term := place(x.a, true)
			col.Rows = append(col.Rows, SumRow{x.a, term, x.c, l, rcopy(v)})
		}
		for k := range parents {
			v := new(big.Rat)
			for _, p := range t {
				if p.Acct == k || strings.HasPrefix(p.Acct, k+div) {
					r, _ := m.rate(t[0].Date, p.CCY, base)
					v.Add(v, rmul(p.Val, r))
				}
			}
			l, term := place(k, false)
			col.Rows = append(col.Rows, SumRow{k, term, base, l, v})
		}
		sort.Slice(col.Rows, func(i, j int) bool { return col.Rows[i].key() < col.Rows[j].key() })
		out = append(out, col)
	}
	return out, parents
}

// checkTree: the sequence of rows is a tree with siblings by descending value.
func checkTree(rows []SumRow, parents map[string]bool, div string) error {
	type open struct {
		acct string
		last *big.Rat // value of the last child
	}
	var stack []open
	var rootLast *big.Rat
	done := map[string]bool{} // parent lines whose part is over
	for i, r := range rows {
		above := 0
		for k := range parents {
			if strings.HasPrefix(r.Acct, k+div) {
				above++
			}
		}
		isParent := parents[r.Acct] && r.Level == above
		term := parents[r.Acct] && !isParent // terminal line of a parent account
		// close what does not contain this row
		for len(stack) > 0 {
			top := stack[len(stack)-1].acct
			if strings.HasPrefix(r.Acct, top+div) || (term && r.Acct == top) {
				break
			}
			done[top] = true
			stack = stack[:len(stack)-1]
		}
		if r.Level != len(stack) {
			return viol("line %d %s stands under %d parent lines, its depth is %d", i+1, r.key(), len(stack), r.Level)
		}
		// nearest parent is open
		for k := range parents {
			if done[k] && (strings.HasPrefix(r.Acct, k+div) || term && r.Acct == k) {
				return viol("line %d %s is not together with the others below %q", i+1, r.key(), k)
			}
		}
		if !term {
			last := &rootLast
			if len(stack) > 0 {
				last = &stack[len(stack)-1].last
			}
			if *last != nil && (*last).Cmp(r.Val) < 0 {
				return viol("line %d %s of value %s comes after a sibling of value %s", i+1, r.key(), r.Val.RatString(), (*last).RatString())
			}
			*last = r.Val
		} else if len(stack) > 0 && stack[len(stack)-1].last != nil {
			return viol("line %d %s is not directly beneath its parent line", i+1, r.key())
		}
		if isParent {
			stack = append(stack, open{acct: r.Acct})
		}
	}
	return nil
}

// noName: an account was renamed to nothing.
func noName(rows []SumRow) bool {
	for _, r := range rows {
		if r.Acct == "" {
			return true
		}
	}
	return false
}

func observeSum(trans []book.Transaction) []SumCol {
	var out []SumCol
	for _, t := range trans {
		c := SumCol{Date: int(t.GetDate()), Payee: t.GetPayee()}
		for _, p := range t {
			c.Rows = append(c.Rows, SumRow{p.GetAccount(), p.GetAccountTerm(), p.GetCCY(), p.GetAccountLevel(), rcopy(p.GetAmount())})
		}
		out = append(out, c)
	}
	return out
}

func dumpCols(cs []SumCol) string {
	s := ""
	for _, c := range cs {
		s += fmt.Sprintf(" %s %q\n", dateText(c.Date), c.Payee)
		for _, r := range c.Rows {
			s += fmt.Sprintf("   %s%s = %s\n", strings.Repeat("  ", r.Level), r.key(), r.Val.RatString())
		}
	}
	return cut(s, 4000)
}

// diffSum compares the observed summary with the reference, ignoring the order of rows.
func diffSum(got, want []SumCol) error {
	fail := func(f string, a ...any) error {
		return viol("%s\nobserved:\n%sexpected (any order):\n%s", fmt.Sprintf(f, a...), dumpCols(got), dumpCols(want))
	}
	if len(got) != len(want) {
		return fail("%d columns observed, %d expected", len(got), len(want))
	}
	for i := range got {
		g, w := got[i], want[i]
		if g.Date != w.Date || g.Payee != w.Payee {
			return fail("column %d is %s %q, expected %s %q", i, dateText(g.Date), g.Payee, dateText(w.Date), w.Payee)
		}
		rs := append([]SumRow{}, g.Rows...)
		sort.SliceStable(rs, func(a, b int) bool { return rs[a].key() < rs[b].key() })
		if len(rs) != len(w.Rows) {
			return fail("column %d has %d lines, expected %d", i, len(rs), len(w.Rows))
		}
		for j := range rs {
			if rs[j].key() != w.Rows[j].key() || rs[j].Val.Cmp(w.Rows[j].Val) != 0 {
				return fail("column %d: line %s = %s, expected %s = %s", i, rs[j].key(), rs[j].Val.RatString(), w.Rows[j].key(), w.Rows[j].Val.RatString())
			}
		}
	}
	return nil
}

// A ledger and how to report it.
type SumCase struct {
	L       LCase
	Ops     []Op
	Base    string
	Div     string
	Split   string
	Convert bool
	Credit  string
	Hidden  string
	Lang    string
	Colour  bool
}

// genReportLedger: ledgers without payees that repeat in odd ways, with prices to the base.
func genReportLedger(t *rapid.T, base string) LCase {
	s := genSpec(t)
	s.Accts = genAccts(t, 8)
	s.Trans = intn(t, 1, 10, "ntrans")
	s.Big = chance(t, 15, "big")
	if chance(t, 70, "hasbase") && !has(s.CCYs, base) {
		s.CCYs = append(s.CCYs, base)
	}
	s.Prices = intn(t, 0, 8, "npr")
	for i, p := range s.Payees {
		if strings.Contains(p, `"`) {
			s.Payees[i] = "Aldi"
		}
	}
	return genLedger(t, s, chance(t, 70, "plain"))
}

func genSumCase(t *rapid.T) SumCase {
	c := SumCase{Base: pick(t, []string{"USD", "EUR", "£", "A B"}, "base"), Div: ":", Lang: "en"}
	c.L = genReportLedger(t, c.Base)
	if chance(t, 40, "ops") {
		c.Ops = genOps(t, c.L.Want, intn(t, 1, 2, "nops"), "map", "map", "move", "asof", "since")
	}
	if chance(t, 12, "otherdiv") {
		c.Div = pick(t, []string{"_", "::"}, "div")
		if c.Div == "::" {
			// accounts with : as well as ::, or with :::
			c.Ops = append(c.Ops, pick(t, []Op{{Kind: "map", Re: ":", To: "::"}, {Kind: "map", Re: ":(B|A)", To: "::$1"}, {Kind: "map", Re: ":", To: ":::"}, {Kind: "map", Re: "(^[^:]*):", To: "$1:::"}}, "divop"))
		}
	}
	c.Split = pick(t, []string{"none", "monthly", "quarterly", "yearly", "skip", "yearly", "monthly"}, "split")
	c.Convert = chance(t, 25, "convert")
	accts := []string{"Asset"}
	for _, p := range c.L.Want.Posts {
		if !has(accts, p.Acct) {
			accts = append(accts, p.Acct)
		}
		if i := strings.IndexByte(p.Acct, ':'); i > 0 && !has(accts, p.Acct[:i]) {
			accts = append(accts, p.Acct[:i])
		}
	}
	if chance(t, 40, "credit") {
		c.Credit = pick(t, []string{"^Income", "^(Income|Liability|Equity)", "Bank", ".", "^Asset$", "X|Y"}, "creditre")
	}
	if chance(t, 40, "hidden") {
		c.Hidden = pick(t, accts, "hiddenacct")
	}
	if c.Div == "::" {
		// what is below "A:" is ambiguous: "A:::B" is either ":B" below "A" or "B" below "A:"
		_, parents := c.model().summarise(c.Base, c.Div)
		for k := range parents {
			if strings.HasSuffix(k, ":") {
				c.Div = ":"
			}
		}
	}
	return c
}

func (c SumCase) model() MBook {
	m := applyModel(c.L.Want, c.Ops)
	if c.Split != "skip" {
		m = m.combine(c.Split)
	}
	if c.Convert {
		m = m.convert(c.Base)
	}
	return m.norm()
}

// observed loads and accumulates through the package.
func (c SumCase) observed(x *Ctx, credit *regexp.Regexp, hidden string) (*book.Book, []SumCol, error) {
	b, err := loadFile(filepath.Join(x.Tmp(), c.L.Main))
	if err != nil {
		return nil, nil, viol("%v\n%s", err, filesText(c.L.Files))
	}
	if err := applyReal(b, nil, opTexts(c.Ops)...); err != nil {
		return nil, nil, viol("%v", err)
	}
	if c.Split != "skip" {
		b.SplitBy(c.Split)
	}
	if c.Convert {
		b.MapAmount(func(d book.Date, ccy string) (*big.Rat, string) {
			r, _ := b.GetPrice(d, ccy, c.Base)
			return r, c.Base
		})
	}
	return b, observeSum(b.Accumulate(c.Base, c.Div, credit, hidden)), nil
}

func (c SumCase) String() string {
	return fmt.Sprintf("ops %v base %q divider %q splitby %s convert %v credit %q hidden %q\n%s", c.Ops, c.Base, c.Div, c.Split, c.Convert, c.Credit, c.Hidden, filesText(c.L.Files))
}

func (c SumCase) label(x *Ctx, want []SumCol, parents map[string]bool) {
	if len(want) > 1 {
		x.Label("several periods")
	}
	deep := false
	for k := range parents {
		for p := range parents {
			if strings.HasPrefix(k, p+c.Div) {
				deep = true
			}
		}
	}
	if deep {
		x.Label("nested parent lines")
	}
	if len(parents) > 0 {
		x.NT()
	}
	if len(c.L.Want.Prices) > 0 {
		x.Label("prices")
	}
	if c.Credit != "" {
		x.Label("credit")
	}
	if c.Hidden != "" {
		x.Label("hidden")
	}
}

// shown applies credit and hidden to the rows of the plain summary.
func (c SumCase) shown(cols []SumCol) []SumCol {
	var re *regexp.Regexp
	if c.Credit != "" {
		re = regexp.MustCompile(c.Credit)
	}
	var out []SumCol
	for _, col := range cols {
		n := SumCol{Date: col.Date, Payee: col.Payee}
		for _, r := range col.Rows {
			if c.Hidden != "" && r.Acct == c.Hidden {
				continue
			}
			if re != nil && re.MatchString(r.Acct) {
				r.Val = rneg(r.Val)
			}
			n.Rows = append(n.Rows, r)
		}
		if len(n.Rows) > 0 {
			out = append(out, n)
		}
	}
	return out
}

func sameSeq(got, want []SumCol) error {
	if len(got) != len(want) {
		return viol("%d columns observed, %d expected\nobserved:\n%sexpected:\n%s", len(got), len(want), dumpCols(got), dumpCols(want))
	}
	for i := range got {
		if len(got[i].Rows) != len(want[i].Rows) {
			return viol("column %d: %d lines, expected %d\nobserved:\n%sexpected:\n%s", i, len(got[i].Rows), len(want[i].Rows), dumpCols(got), dumpCols(want))
		}
		for j, g := range got[i].Rows {
			w := want[i].Rows[j]
			if g.key() != w.key() || g.Val.Cmp(w.Val) != 0 {
				return viol("column %d line %d: %s = %s, expected %s = %s\nobserved:\n%sexpected:\n%s", i, j, g.key(), g.Val.RatString(), w.key(), w.Val.RatString(), dumpCols(got), dumpCols(want))
			}
		}
	}
	return nil
}

// checkAccumulate: values, labels, depths, order; then credit and hidden.
func (c SumCase) checkAccumulate(x *Ctx) ([]SumCol, *book.Book, error) {
	x.WriteFiles(c.L.Files)
	want, parents := c.model().summarise(c.Base, c.Div)
	c.label(x, want, parents)
	b, plain, err := c.observed(x, nil, "")
	if err != nil {
		return nil, nil, err
	}
	if err := diffSum(plain, want); err != nil {
		return nil, nil, viol("%v\n%s", err, c)
	}
	for _, col := range plain {
		if noName(col.Rows) {
			x.Label("account without a name: order not judged")
			continue
		}
		if err := checkTree(col.Rows, parents, c.Div); err != nil {
			return nil, nil, viol("order of lines: %v\n%s%s", err, dumpCols([]SumCol{col}), c)
		}
	}
	exp := c.shown(plain)
	if c.Credit != "" || c.Hidden != "" {
		var re *regexp.Regexp
		if c.Credit != "" {
			re = regexp.MustCompile(c.Credit)
		}
		_, got, err := c.observed(x, re, c.Hidden)
		if err != nil {
			return nil, nil, err
		}
		if err := sameSeq(got, exp); err != nil {
			return nil, nil, viol("with credit and hidden: %v\n%s", err, c)
		}
	}
	return exp, b, nil
}

func (c SumCase) args(typ string) []string {
	a := args("report", "--sum", "--type="+typ, "--splitby="+c.Split)
	if c.Convert {
		a = append(a, "--convert")
	}
	if c.Credit != "" {
		a = append(a, "--credit="+c.Credit)
	}
	if c.Hidden != "" {
		a = append(a, "--hidden="+c.Hidden)
	}
	return append(append(a, "--"), opTexts(c.Ops)...)
}

func (c SumCase) cfg(x *Ctx) Cfg {
	return Cfg{Ledger: filepath.Join(x.Tmp(), c.L.Main), Base: c.Base, Divider: c.Div, Lang: c.Lang, Colour: c.Colour}
}

// sumTable is the expected text of the report.
func (c SumCase) sumTable(cols []SumCol, dec map[string]int) [][]cell {
	head := []cell{textCell("Account")}
	for _, col := range cols {
		head = append(head, rightCell(dateText(col.Date)))
	}
	rows := [][]cell{head}
	if len(cols) == 0 {
		return rows
	}
	type k struct {
		a, t, c string
		l       int
	}
	for _, r := range cols[len(cols)-1].Rows {
		line := []cell{textCell(strings.Repeat("  ", r.Level) + r.Term)}
		for _, col := range cols {
			for _, q := range col.Rows {
				if (k{q.Acct, q.Term, q.CCY, q.Level}) == (k{r.Acct, r.Term, r.CCY, r.Level}) {
					line = append(line, money(c.Lang, dec, q.CCY, q.Val))
				}
			}
		}
		rows = append(rows, line)
	}
	return rows
}

type jsonTrans struct {
	Date  string `json:"date"`
	Payee string `json:"payee"`
	Note  string `json:"note"`
	Posts []struct {
		Account string      `json:"account"`
		CCY     string      `json:"ccy"`
		Amount  json.Number `json:"amount"`
		Note    string      `json:"note"`
	} `json:"posts"`
}

func parseJSONTrans(s string) ([]jsonTrans, error) {
	var out []jsonTrans
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	if err := d.Decode(&out); err != nil {
		return nil, viol("not JSON: %v\n%s", err, cut(s, 500))
	}
	if d.More() {
		return nil, viol("text after the JSON value\n%s", cut(s, 500))
	}
	return out, nil
}

// jsonDate reads the date of JSON output (RFC 3339, midnight).
func jsonDate(s string) (int, error) {
	m := regexp.MustCompile(`^(\d{4})-(\d\d)-(\d\d)T00:00:00(Z|[+-]\d\d:\d\d)$`).FindStringSubmatch(s)
	if m == nil {
		return 0, viol("JSON date %q", s)
	}
	return dateParts(m), nil
}

func sameFloat(n json.Number, v *big.Rat) bool {
	g, err := n.Float64()
	w, _ := v.Float64()
	return err == nil && (g == w)
}

func init() {
	register(&Prop{
		ID:   "C08",
		Rule: "random ledgers with accounts sharing prefixes (and names that are beginnings of each other), several currencies and prices, after optional operations, for every split, conversion, divider, credit and hidden option; compared with a reference summary; non-trivial = there is at least one parent line",
		Assumptions: []string{
			"siblings of equal value may stand in any order",
			"one price per pair and date, one direction per pair",
		},
		Facets: []*Facet{
			facet("accumulate", 5000, 200000, genSumCase, func(c SumCase, x *Ctx) error {
				_, _, err := c.checkAccumulate(x)
				return err
			}),
			facet("text", 2500, 80000, genSumCase, func(c SumCase, x *Ctx) error {
				cols, b, err := c.checkAccumulate(x)
				if err != nil {
					return err
				}
				out, err := cli(c.cfg(x), c.args("Text")...)
				if err != nil {
					return viol("%v: %v\n%s", c.args("Text"), err, c)
				}
				if err := diffTable(out, c.sumTable(cols, b.GetCCYDecimals()), false); err != nil {
					return viol("%v: %v\n%s", c.args("Text"), err, c)
				}
				// indentation shows the depth
				i := 0
				if len(cols) > 0 {
					for _, l := range strings.Split(out, "\n")[1:] {
						if strings.TrimSpace(l) == "" && l == "" {
							continue
						}
						r := cols[len(cols)-1].Rows[i]
						if want := strings.Repeat("  ", r.Level) + r.Term; !strings.HasPrefix(l, want) {
							return viol("line %q, expected to start with %q\n%s\n%s", l, want, out, c)
						}
						i++
					}
				}
				return nil
			}),
			facet("json", 2000, 60000, genSumCase, func(c SumCase, x *Ctx) error {
				cols, _, err := c.checkAccumulate(x)
				if err != nil {
					return err
				}
				out, err := cli(c.cfg(x), c.args("Json")...)
				if err != nil {
					return viol("%v: %v\n%s", c.args("Json"), err, c)
				}
				return diffSumJSON(out, cols, c)
			}),
			facet("binary", 150, 4000, genSumCase, func(c SumCase, x *Ctx) error {
				cols, _, err := c.checkAccumulate(x)
				if err != nil {
					return err
				}
				r := x.goledger(x.Tmp(), "divider = "+tomlStr(c.Div)+"\n", nil, append([]string{"-l", c.L.Main, "--ccy=" + c.Base}, c.args("Json")...)...)
				if r.Code != 0 {
					return viol("%v: exit %d %s\n%s", c.args("Json"), r.Code, r.Err, c)
				}
				return diffSumJSON(r.Out, cols, c)
			}),
		},
	})
}

func diffSumJSON(out string, cols []SumCol, c SumCase) error {
	ts, err := parseJSONTrans(out)
	if err != nil {
		return viol("%v\n%s", err, c)
	}
	if len(ts) != len(cols) {
		return viol("JSON has %d columns, expected %d\n%s\n%s%s", len(ts), len(cols), cut(out, 1500), dumpCols(cols), c)
	}
	notes := map[string][]string{}
	for _, p := range c.model().Posts {
		k := fmt.Sprint(p.Date, " ", p.Payee)
		notes[k] = append(notes[k], p.TNotes...)
	}
	for i, t := range ts {
		d, err := jsonDate(t.Date)
		if err != nil {
			return err
		}
		if n := notes[fmt.Sprint(d, " ", t.Payee)]; n != nil && !has(n, t.Note) {
			return viol("JSON column %d (%s %q) has note %q, its transaction %q\n%s", i, t.Date, t.Payee, t.Note, n, c)
		}
		if d != cols[i].Date || t.Payee != cols[i].Payee || len(t.Posts) != len(cols[i].Rows) {
			return viol("JSON column %d: %s %q with %d lines, expected\n%s%s", i, t.Date, t.Payee, len(t.Posts), dumpCols(cols[i:i+1]), c)
		}
		for j, p := range t.Posts {
			w := cols[i].Rows[j]
			if p.Account != w.Acct || p.CCY != w.CCY || !sameFloat(p.Amount, w.Val) {
				return viol("JSON column %d line %d: %+v, expected %s = %s\n%s", i, j, p, w.key(), w.Val.RatString(), c)
			}
		}
	}
	return nil
}
