package main

import (
	"bytes"
	"fmt"
	"math/big"
	"path/filepath"
	"strings"
	"unicode"

	"github.com/mescanne/goledger/cmd/app"
	"pgregory.net/rapid"
)

// C18: text output.

var wildWords = []string{"Zoë", "日本語", "naïve café", "Ελλάδα", "x", "A\tB", "tab\t\tend", "…", "«»", "₿ 12", "½", "mmm", "[0;31m", "a  b", "ſtraße", "\u00a0nbsp", "e\u0301", "🙂", "very long payee that is wider than anything else here", "-5.00", "1,234"}

var wildAccts = []string{"Ä:ßé", "日:本", "Asset:Ünï", "Expense:a b c", "X:🙂", "Asset:" + "0123456789012345678901234567890123456789"}

// PadCase pads a text to a width.
type PadCase struct {
	Parts []string // colour codes and text in turn
	Max   int
	Left  bool
}

var ansiCodes = []string{"\x1b[0;34m", "\x1b[0m", "\x1b[4m", "\x1b[0;31m", "\x1b[4;30m", "\x1b[m", "\x1b[1;38;5;200m"}

func genPad(t *rapid.T) PadCase {
	c := PadCase{Left: chance(t, 50, "left")}
	for i := intn(t, 0, 5, "n"); i > 0; i-- {
		switch intn(t, 0, 4, "k") {
		case 0, 1:
			c.Parts = append(c.Parts, pick(t, ansiCodes, "code"))
		case 2:
			c.Parts = append(c.Parts, pick(t, wildWords, "word"))
		case 3:
			c.Parts = append(c.Parts, strings.ReplaceAll(rapid.StringN(0, 8, -1).Draw(t, "any"), "\x1b", "e"))
		default:
			c.Parts = append(c.Parts, rapid.StringOfN(rapid.SampledFrom([]rune("m [0;31\t\u0007\u200b\u00ad\u0301\ue000ab日\n")), 0, 6, -1).Draw(t, "odd"))
		}
	}
	n := len([]rune(visible(strings.Join(c.Parts, ""))))
	c.Max = pick(t, []int{n, n, n + 1, n + intn(t, 0, 30, "more"), intn(t, 0, n+1, "less"), 0}, "max")
	return c
}

// onlyCodes are the colour codes of a text.
func onlyCodes(s string) string { return strings.Join(reAnsi.FindAllString(s, -1), "") }

func checkPad(c PadCase, x *Ctx) error {
	s := strings.Join(c.Parts, "")
	if strings.Contains(reAnsi.ReplaceAllString(s, ""), "\x1b") {
		return nil
	}
	vis := []rune(visible(s))
	if len(vis) > 0 && len(vis) != len(s) {
		x.NT()
	}
	if g := app.Length(s); g != len(vis) {
		return viol("%q has %d visible characters, Length gives %d", s, len(vis), g)
	}
	out := app.PadString(s, c.Max, c.Left)
	want := string(vis)
	if len(vis) > c.Max {
		want = string(vis[:c.Max])
		x.Label("cut")
	} else {
		pad := strings.Repeat(" ", c.Max-len(vis))
		if c.Left {
			want += pad
		} else {
			want = pad + want
		}
	}
	plain := reAnsi.ReplaceAllString(out, "")
	if plain != want {
		return viol("%q padded to %d (left %v) is %q, expected %q", s, c.Max, c.Left, plain, want)
	}
	if onlyCodes(out) != onlyCodes(s) {
		return viol("%q padded to %d has colour codes %q", s, c.Max, out)
	}
	if c.Max >= len(vis) {
		if g := app.Length(out); g != c.Max {
			return viol("%q padded to %d is %d wide", s, c.Max, g)
		}
	}
	return nil
}

// NumCase prints an amount.
type NumCase struct {
	CCY    string
	Dec    int // -1: unknown currency
	Num    string
	Lang   string
	Colour bool
	Width  int
}

func genNum(t *rapid.T) NumCase {
	c := NumCase{CCY: pick(t, append(append([]string{}, ccyPlain...), ccyQuoted...), "ccy"), Dec: pick(t, []int{2, 2, 0, 1, 3, 4, 8, 15, -1}, "dec"), Lang: pick(t, langs, "lang"), Colour: chance(t, 50, "colour")}
	v := genVal(t, true)
	switch intn(t, 0, 5, "k") {
	case 0: // near a rounding boundary
		d := max(c.Dec, 0)
		v = new(big.Rat).SetFrac(big.NewInt(int64(intn(t, -2000000, 2000000, "half"))*2+1), new(big.Int).Mul(big.NewInt(2), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(d)), nil)))
		if chance(t, 50, "off") {
			v.Add(v, big.NewRat(int64(pick(t, []int{1, -1}, "sg")), 1000000000000000))
		}
	case 1: // no finite decimal
		v.Quo(v, big.NewRat(int64(pick(t, []int{3, 7, 12, 365}, "den")), 1))
	case 2: // around thousands
		v = new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(intn(t, 0, 24, "exp"))), nil))
		v.Add(v, big.NewRat(int64(intn(t, -1, 1, "d")), int64(pick(t, []int{1, 100, 1000}, "dd"))))
		if chance(t, 50, "neg") {
			v.Neg(v)
		}
	}
	c.Num = v.RatString()
	c.Width = intn(t, 0, 30, "width")
	return c
}

func checkNum(c NumCase, x *Ctx) error {
	v, _ := new(big.Rat).SetString(c.Num)
	decs := map[string]int{"other": 5}
	dec := 2
	if c.Dec >= 0 {
		decs[c.CCY], dec = c.Dec, c.Dec
	}
	var buf bytes.Buffer
	a := app.App{Lang: c.Lang, Colour: c.Colour, Divider: ":", Output: &buf}
	bp := a.NewBookPrinter(decs)
	want := fmtNum(c.Lang, dec, v)
	if len(want) > 4 {
		x.NT()
	}
	x.Label("%s", c.Lang)
	same := func(what, got, want string) error {
		if normSpace(reAnsi.ReplaceAllString(got, "")) != normSpace(want) {
			return viol("%s of %s %s (%d decimals, %s): %q, expected %q", what, c.CCY, c.Num, dec, c.Lang, got, want)
		}
		if !c.Colour && strings.Contains(got, "\x1b") {
			return viol("%s: colour codes without being asked: %q", what, got)
		}
		return nil
	}
	if err := same("number", bp.FormatNumber(c.CCY, v), want); err != nil {
		return err
	}
	if err := same("money", bp.FormatSimpleMoney(c.CCY, v), fmtSym(c.CCY)+want); err != nil {
		return err
	}
	n := len([]rune(fmtSym(c.CCY) + want))
	w := max(c.Width, n)
	if err := same("padded money", bp.FormatMoney(c.CCY, v, w), fmtSym(c.CCY)+strings.Repeat(" ", w-n)+want); err != nil {
		return err
	}
	cm := bp.GetColumnMoney(c.CCY, v)
	if cm.Length() != n {
		return viol("money cell of %s %s: length %d, expected %d", c.CCY, c.Num, cm.Length(), n)
	}
	return same("money cell", cm.Pad(w), fmtSym(c.CCY)+strings.Repeat(" ", w-n)+want)
}

// TableCase prints rows of cells.
type TableCase struct {
	Rows   [][]TCell // nil row: a blank line
	Lang   string
	Colour bool
	Dec    int
}

type TCell struct {
	Kind string // text right money
	Text string
	CCY  string
	Num  string
}

func genTable(t *rapid.T) TableCase {
	c := TableCase{Lang: pick(t, langs, "lang"), Colour: chance(t, 50, "colour"), Dec: intn(t, 0, 5, "dec")}
	cols := intn(t, 1, 5, "cols")
	kinds := make([]string, cols)
	for i := range kinds {
		kinds[i] = pick(t, []string{"text", "right", "money"}, "kind")
	}
	for i := intn(t, 1, 7, "rows"); i > 0; i-- {
		if len(c.Rows) > 0 && chance(t, 10, "blank") {
			c.Rows = append(c.Rows, nil)
		}
		var r []TCell
		for j := range kinds {
			k := TCell{Kind: kinds[j]}
			if len(c.Rows) == 0 && k.Kind == "money" {
				k.Kind = "right"
			}
			if k.Kind == "money" {
				k.CCY = pick(t, append(append([]string{}, ccyPlain...), ccyQuoted...), "ccy")
				k.Num = genVal(t, chance(t, 20, "big")).RatString()
			} else {
				k.Text = pick(t, append([]string{""}, wildWords...), "word")
				if chance(t, 30, "code") {
					k.Text = pick(t, ansiCodes, "ansi") + k.Text + "\x1b[0m"
				}
			}
			r = append(r, k)
		}
		c.Rows = append(c.Rows, r)
	}
	return c
}

func checkTable(c TableCase, x *Ctx) error {
	var buf bytes.Buffer
	decs := map[string]int{}
	var want [][]cell
	var lines []bool
	for _, r := range c.Rows {
		for _, k := range r {
			if k.CCY != "" {
				decs[k.CCY] = c.Dec
			}
		}
	}
	a := app.App{Lang: c.Lang, Colour: c.Colour, Divider: ":", Output: &buf}
	bp := a.NewBookPrinter(decs)
	var rows [][]app.ColumnValue
	for _, r := range c.Rows {
		lines = append(lines, r != nil)
		if r == nil {
			rows = append(rows, nil)
			continue
		}
		var row []app.ColumnValue
		var w []cell
		for _, k := range r {
			switch k.Kind {
			case "money":
				v, _ := new(big.Rat).SetString(k.Num)
				row = append(row, bp.GetColumnMoney(k.CCY, v))
				w = append(w, money(c.Lang, decs, k.CCY, v))
			case "right":
				row = append(row, app.ColumnRightString(k.Text))
				w = append(w, rightCell(k.Text))
			default:
				row = append(row, app.ColumnString(k.Text))
				w = append(w, textCell(k.Text))
			}
		}
		rows = append(rows, row)
		want = append(want, w)
	}
	if len(c.Rows) > 1 {
		x.NT()
	}
	bp.PrintColumns(rows, make([]bool, len(rows[0])))
	got := strings.Split(strings.TrimSuffix(buf.String(), "\n"), "\n")
	exp := renderTable(want)
	if len(got) != len(lines) {
		return viol("%d lines for %d rows: %q", len(got), len(lines), buf.String())
	}
	i := 0
	for j, l := range got {
		w := ""
		if lines[j] {
			w = exp[i]
			i++
		}
		if g := normSpace(reAnsi.ReplaceAllString(l, "")); g != normSpace(w) {
			return viol("line %d: %q, expected %q\n%s", j, g, w, cut(buf.String(), 2000))
		}
		if !c.Colour && onlyCodes(l) != cellCodes(c.Rows[j]) {
			return viol("line %d: colour codes %q, expected those of the cells %q", j, l, cellCodes(c.Rows[j]))
		}
	}
	return nil
}

func cellCodes(r []TCell) string {
	s := ""
	for _, k := range r {
		s += onlyCodes(k.Text)
	}
	return s
}

// wildLedger: report ledgers with payees of every script and wide numbers.
func wildLedger(t *rapid.T, l LCase, base string) LCase {
	s := genSpec(t)
	s.Trans = intn(t, 1, 6, "wtrans")
	s.Big = chance(t, 50, "wbig")
	s.Accts = genAccts(t, 5)
	if !has(s.CCYs, base) {
		s.CCYs = append(s.CCYs, base)
	}
	s.Payees = nil
	for i := intn(t, 1, 4, "wp"); i > 0; i-- {
		w := pick(t, wildWords, "ww")
		if w == strings.TrimFunc(w, unicode.IsSpace) {
			s.Payees = append(s.Payees, w)
		} else {
			s.Payees = append(s.Payees, "Plain")
		}
	}
	return genLedger(t, s, true)
}

func genTextReg(t *rapid.T) RegCase {
	c := genRegCase(t)
	if chance(t, 70, "wild") {
		c.L = wildLedger(t, c.L, c.Base)
		c.Ops = nil
		c.Begin, c.End = "", ""
		c.Arg = pick(t, []string{".", "Asset", "", "Bank|Cash", "E"}, "warg")
		if chance(t, 50, "wacct") {
			c.Ops = []Op{{Kind: "map", Re: "^" + pick(t, acctTops, "top") + "(:Bank|:A|)", To: pick(t, wildAccts, "wto")}}
		}
	}
	c.Lang, c.Colour = pick(t, langs, "lang"), chance(t, 50, "colour")
	return c
}

// genBinReg leaves out what the environment or the defaults settle as well.
func genBinReg(t *rapid.T) RegCase {
	c := genTextReg(t)
	c.NoType = chance(t, 30, "notype")
	if chance(t, 40, "langenv") {
		country := map[string]string{"en": "_GB", "nl": "_NL", "de": "_DE", "fr": "_FR"}[c.Lang]
		c.LangEnv = c.Lang + pick(t, []string{"", country, country + ".UTF-8", country + ".utf8", country + "@euro", country + ".ISO-8859-15@euro"}, "locale")
	}
	return c
}

func genTextSum(t *rapid.T) SumCase {
	c := genSumCase(t)
	if chance(t, 60, "wild") {
		c.L = wildLedger(t, c.L, c.Base)
		c.Ops = nil
		if chance(t, 60, "wacct") {
			c.Ops = []Op{{Kind: "map", Re: "^" + pick(t, acctTops, "top") + "(:Bank|:A|)", To: pick(t, wildAccts, "wto")}}
		}
		if c.Div == "::" {
			c.Div = ":"
		}
	}
	c.Lang, c.Colour = pick(t, langs, "lang"), chance(t, 50, "colour")
	return c
}

func checkTextReg(c RegCase, x *Ctx) error {
	x.WriteFiles(c.L.Files)
	parts := c.want(c.model())
	out, err := cli(c.cfg(x), c.args("Text")...)
	if err != nil {
		return viol("%q: %v\n%s", c.args("Text"), err, c)
	}
	if err := colourOnly(out, c.Colour, c.args("Text"), func(col bool) (string, error) {
		k := c
		k.Colour = col
		return cli(k.cfg(x), c.args("Text")...)
	}); err != nil {
		return viol("%v\n%s", err, c)
	}
	b, err := loadFile(filepath.Join(x.Tmp(), c.L.Main))
	if err != nil {
		return viol("%v", err)
	}
	dec := b.GetCCYDecimals()
	var want []string
	for _, p := range parts {
		if !c.Combined && strings.TrimSpace(p.Acct) != "" {
			want = append(want, "#"+squeeze(p.Acct))
		}
		if len(p.Entries) > 1 {
			x.NT()
		}
		want = append(want, renderTable(c.regTable(p, dec))...)
	}
	got := tableLines(out)
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		if strings.HasPrefix(want[i], "#") {
			ok = squeeze(got[i]) == want[i][1:]
		} else {
			ok = normSpace(got[i]) == normSpace(want[i])
		}
	}
	if !ok {
		return viol("%q (%s) printed\n%s\nexpected\n%s\n%s", c.args("Text"), c.Lang, cut(strings.Join(got, "\n"), 3000), cut(strings.Join(want, "\n"), 3000), c)
	}
	return nil
}

// colourOnly: with and without colours the text is the same, and colours only appear when asked for.
func colourOnly(out string, colour bool, a []string, run func(bool) (string, error)) error {
	o2, err := run(!colour)
	if err != nil {
		return viol("%q with colour %v: %v", a, !colour, err)
	}
	plain, col := out, o2
	if colour {
		plain, col = o2, out
	}
	if strings.Contains(plain, "\x1b") {
		return viol("%q prints colour codes without being asked\n%q", a, cut(plain, 800))
	}
	if reAnsi.ReplaceAllString(col, "") != plain {
		return viol("%q prints another text with colours\n%s\nwithout\n%s", a, cut(reAnsi.ReplaceAllString(col, ""), 1500), cut(plain, 1500))
	}
	return nil
}

func checkTextSum(c SumCase, x *Ctx) error {
	cols, b, err := c.checkAccumulate(x)
	if err != nil {
		return err
	}
	out, err := cli(c.cfg(x), c.args("Text")...)
	if err != nil {
		return viol("%v: %v\n%s", c.args("Text"), err, c)
	}
	if err := colourOnly(out, c.Colour, c.args("Text"), func(col bool) (string, error) {
		k := c
		k.Colour = col
		return cli(k.cfg(x), c.args("Text")...)
	}); err != nil {
		return viol("%v\n%s", err, c)
	}
	if len(cols) > 1 {
		x.Label("several columns")
	}
	if err := diffTable(out, c.sumTable(cols, b.GetCCYDecimals()), true); err != nil {
		return viol("%v (%s): %v\n%s", c.args("Text"), c.Lang, err, c)
	}
	return nil
}

// ListCase: account and currency listings.
type ListCase struct {
	L      LCase
	All    bool
	Lang   string
	Colour bool
}

func checkLists(c ListCase, x *Ctx) error {
	x.WriteFiles(c.L.Files)
	cfg := Cfg{Ledger: filepath.Join(x.Tmp(), c.L.Main), Lang: c.Lang, Colour: c.Colour, All: c.All}
	a := []string{"accts", "."}
	out, err := cli(cfg, a...)
	if err != nil {
		return viol("%q: %v", a, err)
	}
	rows := [][]cell{{textCell("Account")}}
	for _, n := range c.L.Want.norm().accounts(".", c.All) {
		rows = append(rows, []cell{textCell(n)})
	}
	if len(rows) > 2 {
		x.NT()
	}
	if err := diffTable(out, rows, true); err != nil {
		return viol("%q: %v\n%s", a, err, filesText(c.L.Files))
	}
	return colourOnly(out, c.Colour, a, func(col bool) (string, error) {
		k := cfg
		k.Colour = col
		return cli(k, a...)
	})
}

func init() {
	register(&Prop{
		ID:   "C18",
		Rule: "texts mixing any Unicode, tabs, unprintable characters and colour codes, padded to any width; amounts of every size, sign and number of decimals (rounding boundaries, thousands boundaries, no finite decimal) in en, nl, de and fr; tables of such cells; and the report, register and account commands on ledgers with payees and accounts of many scripts, compared character by character with reference tables, with and without colour. Non-trivial = text with something besides plain characters, numbers over four characters, tables of several rows",
		Assumptions: []string{
			"a visible character is a graphic Unicode character or a tab (shown as a blank); combining and wide characters count as one",
			"a terminal narrower than the table shortens payee and account columns by design: then only those, and to the terminal's width where that is possible",
			"amounts half-way between two roundings go away from zero; no-break and narrow no-break spaces both count as the French grouping mark",
		},
		Facets: []*Facet{
			facet("pad", 80000, 2000000, genPad, checkPad),
			facet("numbers", 40000, 1000000, genNum, checkNum),
			facet("tables", 8000, 250000, genTable, checkTable),
			facet("register", 3000, 100000, genTextReg, checkTextReg),
			facet("report", 2500, 80000, genTextSum, checkTextSum),
			facet("accounts", 1500, 40000, func(t *rapid.T) ListCase {
				c := ListCase{L: wildLedger(t, LCase{}, "USD"), All: chance(t, 50, "all"), Lang: pick(t, langs, "lang"), Colour: chance(t, 50, "colour")}
				return c
			}, checkLists),
			facet("ledger report", 2000, 60000, genExport11(false), checkLedgerReport),
			facet("terminal", 150, 4000, genTermCase, checkTerm),
			facet("terminal-binary", 200, 4000, genScreen, checkScreen),
			facet("binary", 150, 4000, genBinReg, func(c RegCase, x *Ctx) error { return c.run(x, "Text", true) }),
		},
	})
}

var _ = fmt.Sprint
