package main

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/mescanne/goledger/cmd/importer"
	"github.com/mescanne/goledger/cmd/utils"
	"pgregory.net/rapid"
)

// C12: import.

type ImpRec struct {
	Date        string // as written
	D           int
	Desc        string
	Amt         string
	Denom       int // 0: left out
	CCY         string
	Acct, CAcct string
	Note, LNote string
	Amt2        string // "": no second amount
	CCY2, Acct2 string
	Denom2      int
}

type ImportCase struct {
	L        LCase // main ledger
	Files    [][]ImpRec
	JSON     bool
	Header   bool
	Delim    string
	CRLF     bool
	Cols     []int // order of the CSV columns
	Num      bool  // amounts as numbers rather than strings
	Nulls    bool  // JSON: left-out values are null rather than absent
	Prints   bool  // the script prints as well
	FileNote bool  // the name of the file is the note of those without one
	CodeFile bool
	Pos      bool // positional arguments
	Acct     string
	CAcct    string
	Base     string
	ImpCCY   string // currency of a configured import
	Conf     bool   // configured import instead of flags
	Dedup    bool
	Reclass  bool
	Stdin    bool // binary: first file from standard input
}

var impCols = []string{"date", "desc", "amt", "denom", "ccy", "account", "caccount", "note", "lnote", "amt2", "ccy2", "account2", "denom2"}

func (r ImpRec) field(col string) string {
	n := func(i int) string {
		if i == 0 {
			return ""
		}
		return fmt.Sprint(i)
	}
	switch col {
	case "date":
		return r.Date
	case "desc":
		return r.Desc
	case "amt":
		return r.Amt
	case "denom":
		return n(r.Denom)
	case "ccy":
		return r.CCY
	case "account":
		return r.Acct
	case "caccount":
		return r.CAcct
	case "note":
		return r.Note
	case "lnote":
		return r.LNote
	case "amt2":
		return r.Amt2
	case "ccy2":
		return r.CCY2
	case "account2":
		return r.Acct2
	case "denom2":
		return n(r.Denom2)
	}
	return "extra"
}

func genImpAmt(t *rapid.T, num bool) string {
	d := genDec(t, !num && chance(t, 30, "big"))
	if num && len(d.U.String()) > 12 {
		d = Dec{big.NewInt(int64(intn(t, 1, 99999999, "u"))), 2}
	}
	s := exactText(d.rat())
	if chance(t, 20, "pad") && !num && strings.Contains(s, ".") {
		s += "00"
	}
	if chance(t, 50, "neg") {
		s = "-" + s
	} else if chance(t, 5, "plus") && !num {
		s = "+" + s
	}
	return s
}

var impNotes = append([]string{" lead and trail ", "two\nlines", "x;y", "\"q\"", "# h", "50%", "tab\there", "é\u00a0", "[x]", "a,b;c|d"}, notes...)

func genImpDesc(t *rapid.T, payees []string) string {
	p := pick(t, payees, "desc")
	switch intn(t, 0, 16, "desck") {
	case 5:
		p = pick(t, []string{"", "", "  ", "#1", "# x", "(2)"}, "descr")
	case 0:
		p = " " + p + "  "
	case 1:
		p = p + "\n" + pick(t, payees, "desc2")
	case 2:
		p = `"` + p + `" & co`
	case 3:
		p = p + "; and \"more\""
	case 4:
		p = p + pick(t, []string{", Ltd", "|x", " 'q'", "\\n", "%", "  two", " = 3"}, "descx")
	}
	return p
}

func genImpRec(t *rapid.T, num bool, dates []int, payees, accts, ccys []string) ImpRec {
	r := ImpRec{D: pick(t, dates, "d"), Desc: genImpDesc(t, payees), Amt: genImpAmt(t, num)}
	r.Date = pick(t, dateSpellings(r.D), "ds")
	opt := func(l string, v string) string {
		if chance(t, 30, l) {
			return v
		}
		return ""
	}
	den := func(l string) int {
		if chance(t, 30, l) {
			return pick(t, []int{1, 100, 100, 1000, 10, -1, -100, 2, 4, 3, 7, 10000000000}, l+"v")
		}
		return 0
	}
	r.Denom = den("denom")
	r.CCY = opt("ccy", pick(t, ccys, "ccyv"))
	r.Acct = opt("acct", pick(t, accts, "acctv"))
	r.CAcct = opt("cacct", pick(t, accts, "cacctv"))
	r.Note = opt("note", pick(t, impNotes, "notev"))
	r.LNote = opt("lnote", pick(t, impNotes, "lnotev"))
	if chance(t, 25, "second") {
		r.Amt2 = genImpAmt(t, num)
		r.Acct2 = pick(t, accts, "acct2v")
		r.CCY2 = opt("ccy2", pick(t, ccys, "ccy2v"))
		r.Denom2 = den("denom2")
		if chance(t, 25, "parts") { // shares that round differently from their sum
			r.Denom = pick(t, []int{3, 6, 7, 9, 16, 300}, "partsn")
			r.Denom2, r.CCY2 = r.Denom, r.CCY
		}
	}
	return r
}

func genImportCase(t *rapid.T) ImportCase {
	var c ImportCase
	s := genSpec(t)
	if len(s.CCYs) < 2 {
		s.CCYs = append(s.CCYs, "SEK")
	}
	c.L = genLedger(t, s, chance(t, 60, "plain"))
	accts := append([]string{"Asset:Imp", "Expense:Unknown"}, s.Accts...)
	ccys := append([]string{"NOK", "1 X"}, s.CCYs...)
	payees := append([]string{"New Shop", "Tesco", "Aldi"}, s.Payees...)
	for _, p := range c.L.Want.Posts {
		payees = append(payees, p.Payee)
	}
	dates := append(genDates(t, 3), s.Dates...)
	c.JSON = chance(t, 50, "json")
	c.Header = chance(t, 50, "header")
	c.Delim = pick(t, []string{"", "", ";", "\t", "|", ":", "§", "=", "#"}, "delim")
	c.CRLF = chance(t, 20, "crlf")
	for i := range impCols {
		c.Cols = append(c.Cols, i)
	}
	if chance(t, 50, "shuffle") {
		c.Cols = rapid.Permutation(c.Cols).Draw(t, "cols")
	}
	c.Num = chance(t, 35, "num")
	c.Nulls = chance(t, 30, "nulls")
	c.Prints = chance(t, 30, "prints")
	c.CodeFile = chance(t, 25, "codefile")
	c.Pos = chance(t, 30, "pos")
	c.Acct, c.CAcct = "Asset:Imp", "Expense:Unknown"
	if chance(t, 40, "ownacct") {
		c.Acct = pick(t, s.Accts, "iacct")
	}
	c.Base = pick(t, ccys, "base")
	if chance(t, 40, "conf") {
		c.Conf = true
		if chance(t, 50, "impccy") {
			c.ImpCCY = pick(t, ccys, "impccyv")
		}
	}
	c.Dedup = chance(t, 65, "dedup")
	var all []ImpRec
	for f := pick(t, []int{1, 1, 1, 2, 2, 3}, "nfiles"); f > 0; f-- {
		var recs []ImpRec
		for i := intn(t, 0, 7, "nrec"); i > 0; i-- {
			if len(all) > 0 && chance(t, 30, "again") {
				recs = append(recs, pick(t, all, "same"))
				continue
			}
			recs = append(recs, genImpRec(t, c.Num, dates, payees, accts, ccys))
		}
		all = append(all, recs...)
		c.Files = append(c.Files, recs)
	}
	c.Stdin = chance(t, 30, "stdin")
	if chance(t, 20, "filenote") {
		c.FileNote, c.Stdin = true, false
	}
	return c
}

func (c ImportCase) ccy() string {
	if c.Conf && c.ImpCCY != "" {
		return c.ImpCCY
	}
	return c.Base
}

func cleanNote(s string) string { return strings.TrimSpace(strings.ReplaceAll(s, "\n", " ")) }

func cleanDesc(s string) string {
	s = cleanNote(s)
	if strings.Contains(s, ";") || strings.HasPrefix(s, `"`) {
		s = strings.ReplaceAll(s, `"`, "'")
	}
	return s
}

// book is what one file means.
func (c ImportCase) book(recs []ImpRec) MBook {
	mb := newModelBuilder()
	for _, r := range recs {
		or := func(a, b string) string {
			if a == "" {
				return b
			}
			return a
		}
		amt := func(s string, den int) *big.Rat {
			v := ratStr(strings.TrimPrefix(s, "+"))
			if den != 0 {
				v = rquo(v, rat(int64(den), 1))
			}
			return v
		}
		ccy, acct, cacct := or(r.CCY, c.ccy()), or(r.Acct, c.Acct), or(r.CAcct, c.CAcct)
		mb.start(r.D, cleanDesc(r.Desc), cleanNote(r.Note))
		v := amt(r.Amt, r.Denom)
		mb.post(acct, ccy, v, cleanNote(r.LNote))
		mb.post(cacct, ccy, rneg(v), "")
		if r.Amt2 != "" {
			v := amt(r.Amt2, r.Denom2)
			ccy2 := or(r.CCY2, c.ccy())
			mb.post(r.Acct2, ccy2, v, "")
			mb.post(cacct, ccy2, rneg(v), "")
		}
	}
	return mb.m.norm()
}

// data is the file's text.
func (c ImportCase) data(recs []ImpRec) string {
	if c.JSON {
		var out []map[string]any
		for _, r := range recs {
			m := map[string]any{"id": []any{1, "x", nil, true, map[string]any{"k": 1.5}}}
			for _, k := range impCols {
				s := r.field(k)
				switch {
				case s == "" && k == "desc":
					m[k] = s
				case s == "" && c.Nulls:
					m[k] = nil
				case s == "":
				case strings.HasPrefix(k, "denom") || (c.Num && strings.HasPrefix(k, "amt")):
					m[k] = json.Number(s)
				default:
					m[k] = s
				}
			}
			out = append(out, m)
		}
		if out == nil {
			return "[]"
		}
		var b bytes.Buffer
		e := json.NewEncoder(&b)
		e.SetEscapeHTML(false)
		if err := e.Encode(out); err != nil {
			harness("%v", err)
		}
		return b.String()
	}
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	if c.Delim != "" {
		w.Comma = []rune(c.Delim)[0]
	}
	w.UseCRLF = c.CRLF
	row := func(f func(string) string) {
		var l []string
		for _, i := range c.Cols {
			l = append(l, f(impCols[i]))
		}
		l = append(l, f("other"))
		if err := w.Write(l); err != nil {
			harness("%v", err)
		}
	}
	if c.Header {
		row(func(s string) string { return s })
	}
	for _, r := range recs {
		row(r.field)
	}
	w.Flush()
	return b.String()
}

func (c ImportCase) code(at map[int]string) string {
	var b strings.Builder
	b.WriteString("def val(k, v):\n")
	if c.JSON {
		b.WriteString("  return int(v) if k.startswith('denom') else v\n")
	} else {
		b.WriteString("  if k.startswith('denom'):\n    return int(v)\n")
		if c.Num {
			b.WriteString("  if k.startswith('amt'):\n    return float(v) if '.' in v else int(v)\n")
		}
		b.WriteString("  return v\n")
	}
	b.WriteString("def rec(r):\n  kw = {}\n")
	if c.JSON {
		b.WriteString("  for k in " + starList(impCols) + ":\n    if k in r:\n      kw[k] = val(k, r[k])\n")
	} else if c.Header {
		b.WriteString("  for k in " + starList(impCols) + ":\n    if r[k] != '' or k == 'desc':\n      kw[k] = val(k, r[k])\n")
	} else {
		var names []string
		for _, i := range c.Cols {
			names = append(names, impCols[i])
		}
		b.WriteString("  names = " + starList(names) + "\n  for i in range(len(names)):\n    if r[i] != '' or names[i] == 'desc':\n      kw[names[i]] = val(names[i], r[i])\n")
	}
	b.WriteString("  return kw\n")
	b.WriteString("n = 0\nfor r in data:\n  kw = rec(r)\n")
	for i, s := range at {
		fmt.Fprintf(&b, "  if n == %d:\n    %s\n", i, s)
	}
	if c.FileNote {
		b.WriteString("  if not kw.get('note'):\n    kw['note'] = file.split('/')[-1]\n")
	}
	if c.Prints {
		b.WriteString("  print('2020/01/01 no transaction\\n  of\\n\\n2020/01/02 nor this\\n  A  1', n)\n")
	}
	if c.Pos {
		b.WriteString("  add(kw.pop('date'), kw.pop('desc'), kw.pop('amt'), **kw)\n")
	} else {
		b.WriteString("  add(**kw)\n")
	}
	b.WriteString("  n = n + 1\n")
	return b.String()
}

func starList(l []string) string { return jsonText(l) }

func (c ImportCase) format() string {
	if c.JSON {
		return "json"
	}
	var p []string
	if c.Header {
		p = append(p, "header=true")
	}
	if c.Delim != "" {
		p = append(p, "delim="+c.Delim)
	}
	if len(p) == 0 {
		return "csv"
	}
	return "csv:" + strings.Join(p, ",")
}

func (c ImportCase) String() string {
	s := ""
	for i, f := range c.Files {
		s += fmt.Sprintf("--- import file %d\n%s\n", i+1, c.data(f))
	}
	return fmt.Sprintf("import --format %s --acct %s --cacct %s --dedup=%v, base %q, configured %v %q\n%s%s", c.format(), c.Acct, c.CAcct, c.Dedup, c.Base, c.Conf, c.ImpCCY, cut(s, 3000), filesText(c.L.Files))
}

// run imports the files; main is the ledger file.
func (c ImportCase) run(x *Ctx, binary bool, main, code string, files []string, fmtArg string) (string, error) {
	if c.CodeFile {
		x.WriteFiles(map[string]string{"code.star": code})
		code = "file:" + filepath.Join(x.Tmp(), "code.star")
	}
	if fmtArg == "" {
		fmtArg = c.format()
	}
	flags := []string{fmt.Sprintf("--dedup=%v", c.Dedup), fmt.Sprintf("--reclassify=%v", c.Reclass)}
	a := []string{"import"}
	conf := benignConf
	def := &importer.ImportDef{}
	if c.Conf {
		def = &importer.ImportDef{Description: "d", Account: c.Acct, CounterAccount: c.CAcct, CCY: c.ImpCCY, Code: code, Dedup: c.Dedup, Reclassify: c.Reclass}
		var cc utils.CLIConfig
		if err := cc.Set(fmtArg); err != nil {
			return "", err
		}
		def.CLIConfig = cc
		a = append(a, "my-bank")
		conf += fmt.Sprintf("[importdefs.my-bank]\ndescription = \"d\"\nconfigtype = %s\naccount = %s\ncounteraccount = %s\nccy = %s\ncode = %s\ndedup = %v\nreclassify = %v\n", tomlStr(cc.ConfigType), tomlStr(c.Acct), tomlStr(c.CAcct), tomlStr(c.ImpCCY), tomlStr(code), c.Dedup, c.Reclass)
		if len(cc.Params) > 0 {
			conf += "[importdefs.my-bank.params]\n"
			for k, v := range cc.Params {
				conf += fmt.Sprintf("%s = %s\n", k, tomlStr(v))
			}
		}
	} else {
		a = append(a, flags...)
		a = append(a, "--format", fmtArg, "--acct", c.Acct, "--cacct", c.CAcct, "--code", code)
	}
	if binary {
		pre := []string{"-l", main}
		if c.Base != "" {
			pre = append(pre, "--ccy="+c.Base)
		}
		var stdin []byte
		fs := append([]string{}, files...)
		if c.Stdin && len(fs) > 0 {
			b, err := os.ReadFile(filepath.Join(x.Tmp(), fs[0]))
			if err == nil {
				stdin = append([]byte{}, b...)
				fs[0] = "-"
			}
		}
		dir := x.Tmp()
		cf := filepath.Join(dir, "vt-conf.toml")
		x.WriteFiles(map[string]string{"vt-conf.toml": conf})
		env := []string{"GOLEDGER_CONF=" + cf, "HOME=" + dir, "LANG=en", "PATH=" + os.Getenv("PATH")}
		r := runBinary(os.Getenv("VT_GOLEDGER"), dir, env, stdin, append(append(pre, a...), fs...)...)
		if e := r.crash(); e != nil {
			return r.Out, crashErr{e.Error()}
		}
		if r.Code != 0 {
			return r.Out, viol("exit %d: %s", r.Code, cut(r.Err, 600))
		}
		return r.Out, nil
	}
	for _, f := range files {
		a = append(a, filepath.Join(x.Tmp(), f))
	}
	cfg := Cfg{Ledger: filepath.Join(x.Tmp(), main), Base: c.Base}
	if c.Conf {
		cfg.Imports = map[string]*importer.ImportDef{"my-bank": def}
	}
	return cli(cfg, a...)
}

type crashErr struct{ s string }

func (e crashErr) Error() string { return e.s }

func (c ImportCase) files(x *Ctx) []string {
	var names []string
	for i, f := range c.Files {
		n := fmt.Sprintf("import-%d.dat", i+1)
		x.WriteFiles(map[string]string{n: c.data(f)})
		names = append(names, n)
	}
	return names
}

// printed: what is to be printed, over all files.
func (c ImportCase) printed() (MBook, []MBook) {
	var all MBook
	var each []MBook
	prev := map[string]bool{}
	if c.Dedup {
		prev = c.L.Want.keys()
	}
	for i, f := range c.Files {
		if c.FileNote {
			f = append([]ImpRec{}, f...)
			for j := range f {
				if f[j].Note == "" {
					f[j].Note = fmt.Sprintf("import-%d.dat", i+1)
				}
			}
		}
		b := c.book(f).without(prev)
		for k := range b.keys() {
			prev[k] = true
		}
		all.Posts = append(all.Posts, b.Posts...)
		each = append(each, b)
	}
	return all.norm(), each
}

func halfUnit(dec map[string]int, ccy string) *big.Rat {
	d, ok := dec[ccy]
	if !ok {
		d = 2
	}
	return new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Mul(big.NewInt(2), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(d)), nil)))
}

func rabs(v *big.Rat) *big.Rat { return new(big.Rat).Abs(v) }

// diffRounded compares transactions whose amounts were rounded to the given decimals.
func diffRounded(got, want MBook, dec map[string]int) error {
	fail := func(f string, a ...any) error {
		return viol("%s\nobserved:\n%sexpected (amounts to the ledger's decimals %v):\n%s", fmt.Sprintf(f, a...), dump(got.Posts), dec, dump(want.Posts))
	}
	gt, wt := got.trans(), want.trans()
	for i := 0; i < len(gt) || i < len(wt); i++ {
		if i >= len(gt) || i >= len(wt) || gt[i][0].Date != wt[i][0].Date || gt[i][0].Payee != wt[i][0].Payee {
			return fail("transaction %d differs", i)
		}
		if !has(wt[i][0].TNotes, first(gt[i][0].TNotes)) {
			return fail("transaction %d has note %q, expected %q", i, gt[i][0].TNotes, wt[i][0].TNotes)
		}
		j := 0
		spread := int64(1)
		if rounds(wt[i]) { // what is rounded may have to be made up for by the others
			spread = int64(len(wt[i]))
		}
		for _, w := range wt[i] {
			h := rmul(rat(spread, 1), halfUnit(dec, w.CCY))
			if j < len(gt[i]) && gt[i][j].Acct == w.Acct && gt[i][j].CCY == w.CCY {
				g := gt[i][j]
				if rabs(rsub(g.Val, w.Val)).Cmp(h) > 0 {
					return fail("transaction %d: %v is not %s", i, g, w.Val.RatString())
				}
				if !has(w.Notes, first(g.Notes)) {
					return fail("transaction %d: %v has note %q, expected %q", i, g, g.Notes, w.Notes)
				}
				j++
				// amounts of no more decimals than the ledger's are exact
				if m := rmul(w.Val, rquo(rat(1, 2), halfUnit(dec, w.CCY))); m.IsInt() && g.Val.Cmp(w.Val) != 0 {
					return fail("transaction %d: %v is not exactly %s", i, g, w.Val.RatString())
				}
			} else if rabs(w.Val).Cmp(h) > 0 {
				return fail("transaction %d: no posting for %v", i, w)
			}
		}
		if j != len(gt[i]) {
			return fail("transaction %d has another posting %v", i, gt[i][j])
		}
	}
	return nil
}

// vanishes: some transaction would be rounded to nothing (left out).
func vanishes(m MBook, dec map[string]int) bool {
	for _, t := range m.trans() {
		all := true
		for _, p := range t {
			if rabs(p.Val).Cmp(halfUnit(dec, p.CCY)) > 0 {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return false
}

var reTransLine = regexp.MustCompile(`(?m)^\d`)

func (c ImportCase) check(x *Ctx, binary bool) error {
	x.WriteFiles(c.L.Files)
	files := c.files(x)
	want, each := c.printed()
	if vanishes(want, c.L.Dec) {
		return nil
	}
	c.label(x, want)
	out, err := c.run(x, binary, c.L.Main, c.code(nil), files, "")
	if err != nil {
		return viol("%v\n%s", err, c)
	}
	x.WriteFiles(map[string]string{"result.ledger": out})
	b, err := loadFile(filepath.Join(x.Tmp(), "result.ledger"))
	if err != nil {
		return viol("the printed result does not load: %v\n%s\n%s", err, cut(out, 3000), c)
	}
	if err := diffRounded(observe(b), want, c.L.Dec); err != nil {
		return viol("%v\nprinted\n%s\n%s", err, cut(out, 3000), c)
	}
	_ = each
	if !c.Dedup || c.L.Void {
		return nil
	}
	// again, after adding the result to the ledger
	x.WriteFiles(map[string]string{"all.ledger": "include " + c.L.Main + "\ninclude result.ledger\n"})
	out2, err := c.run(x, binary, "all.ledger", c.code(nil), files, "")
	if err != nil {
		return viol("importing again: %v\n%s\n%s", err, cut(out, 2000), c)
	}
	if reTransLine.MatchString(out2) {
		return viol("importing again prints\n%s\nalthough the first result\n%s\nis in the ledger\n%s", cut(out2, 2000), cut(out, 2000), c)
	}
	return nil
}

func (c ImportCase) label(x *Ctx, want MBook) {
	if len(want.Posts) > 0 {
		x.NT()
	}
	n := 0
	for _, f := range c.Files {
		for _, r := range f {
			if r.Amt2 != "" {
				x.Label("second amount")
			}
			if r.Denom != 0 {
				x.Label("denominator")
			}
		}
		n += len(c.book(f).trans())
	}
	if n > len(want.trans()) {
		x.Label("duplicates removed")
	}
	if c.JSON {
		x.Label("json")
	} else if c.Header {
		x.Label("csv with header")
	} else {
		x.Label("csv without header")
	}
	if c.Conf {
		x.Label("configured import")
	}
	if len(c.Files) > 1 {
		x.Label("several files")
	}
}

// ---- failing imports --------------------------------------------------------------

type BadImportCase struct {
	C     ImportCase
	Fault string
	At    int // record
	Val   string
}

func genBadImport(t *rapid.T) BadImportCase {
	c := genImportCase(t)
	for len(c.Files[len(c.Files)-1]) == 0 {
		c.Files[len(c.Files)-1] = append(c.Files[len(c.Files)-1], genImpRec(t, c.Num, []int{20200102}, []string{"Tesco"}, []string{"Asset:X"}, []string{"USD"}))
	}
	if len(c.Files) > 2 {
		c.Files = c.Files[1:]
	}
	last := c.Files[len(c.Files)-1]
	b := BadImportCase{C: c, At: intn(t, 0, len(last)-1, "at")}
	kinds := []string{"date", "date", "amt", "amt", "amt2", "denom", "denom2", "no amt", "no acct2", "no amt2", "error", "runtime", "syntax", "data", "missing file", "format", "no ccy", "none", "codefile"}
	b.Fault = pick(t, kinds, "fault")
	switch b.Fault {
	case "date":
		b.Val = pick(t, []string{"2020-02-30", "2021/02/29", "2020-13-01", "2020-00-10", "2020-01-00", "20201301", "31/02/2020", "yesterday", "2020/1", "x", "2020-01-01x", "1.1.20", "2020-01-01 10:00", "00/00/0000", "0000-01-01"}, "bad")
		if b.Val == "2020/1" {
			b.Val = "2020/1/"
		}
	case "amt", "amt2":
		b.Val = pick(t, []string{"abc", "1,000.00", "1.2.3", "--1", "1 000", "$5", "5-", "NaN", "Inf", "1/0", "0x", "."}, "bad")
		b.C.Num = false
	case "no acct2", "no amt2", "denom2":
		last[b.At].Amt2 = "1.00"
		last[b.At].Acct2 = "Asset:Z"
	case "no ccy":
		b.C.Base, b.C.ImpCCY = "", ""
		last[b.At].CCY = ""
		if last[b.At].Amt2 != "" && last[b.At].CCY2 == "" {
			last[b.At].CCY2 = "USD"
		}
	case "data":
		b.Val = pick(t, []string{"truncated", "trailing", "columns", "quote", "bare quote", "inner quote", "open quote"}, "datak")
	case "format":
		b.Val = pick(t, []string{"xml", "csv:header=maybe", "csv:delim=ab", "csv:delim=", "", "CSV", "csv:delim=;,delim=|", "json2", "csv:header=true,foo=1", "csv:x=y,delim=;", "json:header=true"}, "fmt")
	}
	return b
}

func checkBadImport(b BadImportCase, x *Ctx) error { return b.check(x, false) }

func (b BadImportCase) check(x *Ctx, binary bool) error {
	c := b.C
	if len(c.Files) > 1 && c.Num {
		c.Num = false
	}
	x.WriteFiles(c.L.Files)
	files := c.files(x)
	lastName := files[len(files)-1]
	recs := append([]ImpRec{}, c.Files[len(c.Files)-1]...)
	r := &recs[b.At]
	at := map[int]string{}
	code, fmtArg := "", ""
	pre, _ := c.printed()
	_ = pre
	switch b.Fault {
	case "date":
		r.Date = b.Val
	case "amt":
		r.Amt = b.Val
	case "amt2":
		r.Amt2 = b.Val
		if r.Acct2 == "" {
			r.Acct2 = "Asset:Z"
		}
	case "denom":
		at[b.At] = "kw['denom'] = 0"
	case "denom2":
		at[b.At] = "kw['denom2'] = 0"
	case "no amt":
		r.Amt = ""
	case "none":
		at[b.At] = "kw['amt'] = None"
	case "no acct2":
		r.Acct2 = ""
	case "no amt2":
		r.Amt2 = ""
	case "error":
		at[b.At] = "error(msg='stop here')"
	case "runtime":
		at[b.At] = pick0([]string{"kw['nokey']['x']", "kw = data[1000000]", "add()", "add(date='2020-01-01')", "fail('x')", "nofunc(1)", "1 // 0"}, int(hash64(fmt.Sprint(b.At, c.Acct, len(recs)))%6))
		if strings.Contains(at[b.At], "nofunc") {
			at[b.At] = "kw.nofunc(1)"
		}
	case "syntax":
		code = c.code(nil) + "\ndef broken(:\n  pass\n"
	case "codefile":
		c.CodeFile = false
		code = "file:" + filepath.Join(x.Tmp(), "no-such.star")
	case "format":
		fmtArg = b.Val
		if b.Val == "" {
			fmtArg = ":header"
		}
	case "missing file":
		os.Remove(filepath.Join(x.Tmp(), lastName))
	}
	quoted := ""
	if b.Fault == "data" && !c.JSON {
		quoted = map[string]string{"bare quote": `a"b`, "inner quote": `"a"b"`, "open quote": `"a b`}[b.Val]
	}
	if quoted != "" {
		if b.Val == "open quote" {
			recs = recs[:b.At+1] // up to the end of the file
		}
		r.Desc = "Qzq"
	}
	data := c.data(recs)
	if quoted != "" {
		data = strings.Replace(data, "Qzq", quoted, 1)
	}
	if b.Fault == "data" && quoted == "" {
		switch {
		case c.JSON && b.Val == "trailing":
			data += "]"
		case c.JSON:
			data = data[:len(data)-3-int(hash64(data)%uint64(len(data)/2))]
			if strings.TrimSpace(data) == "" {
				data = "["
			}
		case b.Val == "quote":
			d := c.Delim
			if d == "" {
				d = ","
			}
			data += "a\"b" + d + "c\n"
		case b.Val == "truncated":
			data += "\"unfinished"
		default:
			d := c.Delim
			if d == "" {
				d = ","
			}
			data += "one" + d + "two\n"
		}
	}
	if b.Fault != "missing file" {
		x.WriteFiles(map[string]string{lastName: data})
	}
	if code == "" {
		code = c.code(at)
	}
	if c.Conf && b.Fault == "format" && (b.Val == "" || strings.HasPrefix(b.Val, "csv:delim=;,")) {
		return nil
	}
	x.Label("%s", b.Fault)
	x.NT()
	out, err := c.run(x, binary, c.L.Main, code, files, fmtArg)
	if e, ok := err.(crashErr); ok {
		return viol("%s %q: %s\n%s", b.Fault, b.Val, e.s, c)
	}
	if err == nil {
		return viol("%s %q at record %d of the last file: no error\nprinted\n%s\nlast file\n%s\n%s", b.Fault, b.Val, b.At, cut(out, 1500), cut(data, 1500), c)
	}
	// only earlier files' transactions may have been printed
	if i := strings.Index(out, "Usage:\n"); i >= 0 {
		out = out[:i]
	}
	x.WriteFiles(map[string]string{"result.ledger": out})
	bk, lerr := loadFile(filepath.Join(x.Tmp(), "result.ledger"))
	if lerr != nil {
		if reTransLine.MatchString(out) {
			return viol("%s: the output before the error does not load: %v\n%s\n%s", b.Fault, lerr, cut(out, 2000), c)
		}
		return nil
	}
	c.Files = c.Files[:len(c.Files)-1]
	allowed, _ := c.printed()
	got := observe(bk)
	keys := allowed.keys()
	for k := range got.keys() {
		if !keys[k] {
			return viol("%s %q: transaction %q is printed in spite of the error %v\n%s\n%s", b.Fault, b.Val, k, err, cut(out, 2000), c)
		}
	}
	return nil
}

func pick0[T any](l []T, i int) T { return l[i%len(l)] }

func init() {
	register(&Prop{
		ID:   "C12",
		Rule: "random main ledgers and one to three import files (CSV with every delimiter and column order, with and without header, or JSON) of records with every combination of add() arguments, overlapping with each other and the ledger; printed results are loaded and compared with the reference transactions, added to the ledger and imported again; and the same with one fault put in. Non-trivial = something is to be printed, or a fault",
		Assumptions: []string{
			"descriptions and notes are put on one line and trimmed; double quotes become single ones where the payee has to be quoted",
			"transactions that round to nothing at the ledger's decimals are left out",
			"importing again is judged when every transaction of the ledger has a posting that is not zero",
			"transactions of earlier files may have been printed before a later file's error",
		},
		Facets: []*Facet{
			facet("import", 4000, 150000, genImportCase, func(c ImportCase, x *Ctx) error { return c.check(x, false) }),
			facet("fault", 3000, 100000, genBadImport, checkBadImport),
			facet("binary", 100, 3000, genImportCase, func(c ImportCase, x *Ctx) error { return c.check(x, true) }),
			facet("fault binary", 60, 2000, genBadImport, func(b BadImportCase, x *Ctx) error { return b.check(x, true) }),
		},
	})
}
