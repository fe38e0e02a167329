package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/mescanne/goledger/cmd/generate"
	"pgregory.net/rapid"
)

// C15: generating scripts.

type ViewOp struct {
	Kind    string // since asof map
	Date    string
	D       int
	From    string
	To, Alt string
	Kw      bool
}

func (v ViewOp) code() string {
	q := func(s string) string { return jsonText(s) }
	switch v.Kind {
	case "map":
		if v.Kw {
			s := "data.map(to=" + q(v.To)
			if v.Alt != "" {
				s += ", alt=" + q(v.Alt)
			}
			return s + ", **{'from': " + q(v.From) + "})"
		}
		s := "data.map(" + q(v.From) + ", " + q(v.To)
		if v.Alt != "" {
			s += ", " + q(v.Alt)
		}
		return s + ")"
	}
	if v.Kw {
		return "data." + v.Kind + "(date=" + q(v.Date) + ")"
	}
	return "data." + v.Kind + "(" + q(v.Date) + ")"
}

func (v ViewOp) op() Op {
	if v.Kind == "map" {
		return Op{Kind: "map", Re: v.From, To: v.To, Alt: v.Alt}
	}
	return Op{Kind: v.Kind, Date: v.D}
}

type GenCase struct {
	L        LCase
	Views    []ViewOp
	Adds     []ImpRec
	Conf     bool
	CodeFile bool
	Dedup    bool
	Lang     string
	Fault    string
	At       int
}

func genGenerate(t *rapid.T) GenCase {
	c := GenCase{}
	s := genSpec(t)
	s.Big = chance(t, 20, "big")
	c.L = genLedger(t, s, chance(t, 50, "plain"))
	for _, o := range genOps(t, c.L.Want, intn(t, 0, 3, "nops"), "map", "asof", "since") {
		c.Views = append(c.Views, ViewOp{Kind: o.Kind, Date: o.Text, D: o.Date, From: o.Re, To: o.To, Alt: o.Alt, Kw: chance(t, 30, "kw")})
	}
	accts := append([]string{"Asset:Gen", "Expense:Gen"}, s.Accts...)
	ccys := append([]string{"NOK", "1 X"}, s.CCYs...)
	payees := append([]string{"Generated"}, s.Payees...)
	dates := append(genDates(t, 2), s.Dates...)
	for _, p := range c.L.Want.Posts {
		payees = append(payees, p.Payee)
	}
	for i := intn(t, 0, 5, "nadd"); i > 0; i-- {
		r := genImpRec(t, false, dates, payees, accts, ccys)
		if r.CCY == "" {
			r.CCY = pick(t, ccys, "ccy")
		}
		if r.Acct == "" {
			r.Acct = pick(t, accts, "acct")
		}
		if r.CAcct == "" {
			r.CAcct = pick(t, accts, "cacct")
		}
		if r.Amt2 != "" && r.CCY2 == "" {
			r.CCY2 = pick(t, ccys, "ccy2")
		}
		c.Adds = append(c.Adds, r)
	}
	c.Conf = chance(t, 50, "conf")
	c.CodeFile = chance(t, 25, "codefile")
	c.Dedup = chance(t, 60, "dedup")
	c.Lang = pick(t, langs, "lang")
	return c
}

func genBadGenerate(t *rapid.T) GenCase {
	c := genGenerate(t)
	if len(c.Adds) == 0 {
		c.Adds = []ImpRec{{Date: "2020-01-02", D: 20200102, Desc: "X", Amt: "1", CCY: "USD", Acct: "A", CAcct: "B"}}
	}
	c.Fault = pick(t, []string{"error(msg='no')", "fail('no')", "data.map('(', 'x')", "data.since('nodate')", "data.asof('2020-13-01')", "data.asof()", "data.map('x')", "data.frobnicate()", "add('2020-01-01', 'x')", "add('2020-02-30', 'x', 1)", "add('2020-01-01', 'x', 'abc')", "add('2020-01-01', 'x', 1, denom=0)", "1//0", "nosuchname", "def (", "add('2020-01-01', 'x', 1, amt2=3)", "add('2020-01-01', 'x', None)", "[t.transactions for t in [1]]", "file:"}, "fault")
	c.At = intn(t, 0, len(c.Adds), "at")
	return c
}

const genPrelude = `
def enc(s):
  return ' '.join([str(c) for c in s.codepoint_ords()])
def dump(tag):
  ts = data.transactions
  print('BOOK', tag, len(ts))
  i = 0
  for t in ts:
    if ts[i].payee != t.payee or len(t) != len([p for p in t]):
      print('MISMATCH')
    i = i + 1
    print('T|' + enc(t.date) + '|' + enc(t.payee) + '|' + enc(t.transaction_note) + '|' + str(len(t)))
    for p in t:
      print('P|' + '|'.join([enc(p.date), enc(p.payee), enc(p.transaction_note), enc(p.account), enc(p.ccy), str(p.amount), str(p.balance), enc(p.posting_note)]))
`

func (c GenCase) code() string {
	var b strings.Builder
	b.WriteString(genPrelude)
	b.WriteString("dump(0)\n")
	for i, v := range c.Views {
		b.WriteString(v.code() + "\n")
		fmt.Fprintf(&b, "dump(%d)\n", i+1)
	}
	for i, r := range c.Adds {
		if i == c.At && c.Fault != "" {
			b.WriteString(c.Fault + "\n")
		}
		var kw []string
		for _, k := range impCols {
			if v := r.field(k); v != "" || k == "desc" {
				if strings.HasPrefix(k, "denom") {
					kw = append(kw, k+"="+v)
				} else {
					kw = append(kw, k+"="+jsonText(v))
				}
			}
		}
		b.WriteString("add(" + strings.Join(kw, ", ") + ")\n")
	}
	if c.Fault != "" && c.At >= len(c.Adds) {
		b.WriteString(c.Fault + "\n")
	}
	return b.String()
}

func (c GenCase) String() string {
	s := c.code()
	return fmt.Sprintf("dedup=%v configured %v script:\n%s\n%s", c.Dedup, c.Conf, strings.TrimPrefix(s, genPrelude), filesText(c.L.Files))
}

func (c GenCase) run(x *Ctx, binary bool) (string, error) {
	code := c.code()
	if c.Fault == "file:" {
		code = "file:" + filepath.Join(x.Tmp(), "missing.star")
	} else if c.CodeFile {
		x.WriteFiles(map[string]string{"gen.star": code})
		code = "file:" + filepath.Join(x.Tmp(), "gen.star")
	}
	a := []string{"generate"}
	conf := benignConf
	cfg := Cfg{Ledger: filepath.Join(x.Tmp(), c.L.Main), Lang: c.Lang}
	if c.Conf {
		a = append(a, "my-gen")
		cfg.Gens = map[string]*generate.Generate{"my-gen": {Description: "d", Code: code, Dedup: c.Dedup}}
		conf += fmt.Sprintf("[generate.my-gen]\ndescription = \"d\"\ncode = %s\ndedup = %v\n", tomlStr(code), c.Dedup)
	} else {
		a = append(a, fmt.Sprintf("--dedup=%v", c.Dedup), "--code", code)
	}
	if !binary {
		return cli(cfg, a...)
	}
	r := x.goledger(x.Tmp(), conf, nil, append([]string{"-l", c.L.Main, "--lang=" + c.Lang}, a...)...)
	if e := r.crash(); e != nil {
		return r.Out, crashErr{e.Error()}
	}
	if r.Code != 0 {
		return r.Out, viol("exit %d: %s", r.Code, cut(r.Err, 600))
	}
	return r.Out, nil
}

func decOrds(s string) (string, error) {
	var sb strings.Builder
	for _, f := range strings.Fields(s) {
		n, err := strconv.Atoi(f)
		if err != nil {
			return "", err
		}
		sb.WriteRune(rune(n))
	}
	return sb.String(), nil
}

func nearFloat(s string, want float64) bool {
	g, err := strconv.ParseFloat(s, 64)
	return err == nil && math.Abs(g-want) <= 1e-12*math.Abs(want)
}

// diffView compares one dump of the script with the model.
func diffView(lines []string, m MBook) error {
	i := 0
	next := func() []string {
		if i >= len(lines) {
			return nil
		}
		i++
		return strings.Split(lines[i-1], "|")
	}
	ts := m.trans()
	bal := map[[2]string]float64{}
	_ = bal
	for _, t := range ts {
		l := next()
		if len(l) != 5 || l[0] != "T" {
			return viol("the script saw %q where transaction %s %q is", l, dateText(t[0].Date), t[0].Payee)
		}
		d, _ := decOrds(l[1])
		p, _ := decOrds(l[2])
		n, _ := decOrds(l[3])
		if d != dateText(t[0].Date) || p != t[0].Payee || !has(t[0].TNotes, n) || l[4] != fmt.Sprint(len(t)) {
			return viol("the script saw transaction %s %q ; %q with %s postings, expected %s %q ; %q with %d", d, p, n, l[4], dateText(t[0].Date), t[0].Payee, t[0].TNotes, len(t))
		}
		for _, w := range t {
			l := next()
			if len(l) != 9 || l[0] != "P" {
				return viol("the script saw %q where posting %v is", l, w)
			}
			var f [9]string
			for _, k := range []int{1, 2, 3, 4, 5, 8} {
				f[k], _ = decOrds(l[k])
			}
			if f[1] != dateText(w.Date) || f[2] != w.Payee || !has(w.TNotes, f[3]) || f[4] != w.Acct || f[5] != w.CCY || !nearFloat(l[6], f64(w.Val)) || !nearFloat(l[7], f64(w.Bal)) || !has(w.Notes, f[8]) {
				return viol("the script saw posting %q amount %s balance %s, expected %v notes %q %q", f, l[6], l[7], w, w.TNotes, w.Notes)
			}
		}
	}
	if i != len(lines) {
		return viol("the script saw more than there is: %q", lines[i])
	}
	return nil
}

var reBookLine = regexp.MustCompile(`^BOOK (\d+) (\d+)$`)

// splitGen separates what the script printed (as comments) from the generated ledger.
func splitGen(out string) (views [][]string, rest string, err error) {
	var ls []string
	for _, l := range strings.Split(out, "\n") {
		switch {
		case reBookLine.MatchString(strings.TrimPrefix(l, "; ")) && strings.HasPrefix(l, "; "):
			views = append(views, nil)
		case strings.HasPrefix(l, "; T|"), strings.HasPrefix(l, "; P|"):
			if len(views) == 0 {
				return nil, "", viol("unexpected line %q", l)
			}
			views[len(views)-1] = append(views[len(views)-1], l[2:])
		case strings.HasPrefix(l, "; MISMATCH"):
			return nil, "", viol("iterating, indexing and len() of the transactions disagree")
		default:
			ls = append(ls, l)
		}
	}
	return views, strings.Join(ls, "\n"), nil
}

func (c GenCase) check(x *Ctx, binary bool) error {
	x.WriteFiles(c.L.Files)
	want := ImportCase{}.book(c.Adds)
	if c.Dedup {
		n := len(want.keys())
		want = want.without(c.L.Want.keys())
		if len(want.keys()) < n {
			x.Label("duplicates removed")
		}
	}
	if vanishes(want, c.L.Dec) {
		return nil
	}
	if len(c.L.Want.Posts) > 0 || len(want.Posts) > 0 {
		x.NT()
	}
	if len(c.Views) > 0 {
		x.Label("view restricted or renamed")
	}
	out, err := c.run(x, binary)
	if err != nil {
		return viol("%v\n%s", err, c)
	}
	views, rest, err := splitGen(out)
	if err != nil {
		return viol("%v\n%s\n%s", err, cut(out, 2500), c)
	}
	if len(views) != len(c.Views)+1 {
		return viol("the script printed %d views, expected %d\n%s\n%s", len(views), len(c.Views)+1, cut(out, 2500), c)
	}
	m := c.L.Want
	for i := range views {
		if i > 0 {
			m = c.Views[i-1].op().model(m)
		}
		if err := diffView(views[i], m.norm()); err != nil {
			return viol("after %d view operations: %v\n%s", i, err, c)
		}
	}
	x.WriteFiles(map[string]string{"result.ledger": out})
	b, err := loadFile(filepath.Join(x.Tmp(), "result.ledger"))
	if err != nil {
		return viol("the printed result does not load: %v\n%s\n%s", err, cut(rest, 3000), c)
	}
	if err := diffRounded(observe(b), want, c.L.Dec); err != nil {
		return viol("%v\nprinted\n%s\n%s", err, cut(rest, 3000), c)
	}
	return nil
}

func (c GenCase) checkFault(x *Ctx, binary bool) error {
	x.WriteFiles(c.L.Files)
	x.NT()
	x.Label("%s", c.Fault)
	out, err := c.run(x, binary)
	if e, ok := err.(crashErr); ok {
		return viol("%q: %s\n%s", c.Fault, e.s, c)
	}
	if err == nil {
		return viol("%q gives no error\n%s", c.Fault, c)
	}
	if reTransLine.MatchString(out) {
		return viol("%q: transactions are printed in spite of the error %v\n%s\n%s", c.Fault, err, cut(out, 1500), c)
	}
	return nil
}

var _ = os.Getenv

func init() {
	register(&Prop{
		ID:   "C15",
		Rule: "random ledgers and scripts that print everything they see before and after each since, asof and map call and add transactions with every combination of arguments (some already in the ledger); the views are compared with the reference operations, the printed result is loaded and compared with what was added; and the same with one script error. Non-trivial = the ledger or the result has a transaction, or a fault",
		Assumptions: []string{
			"amounts and balances are floating-point numbers in scripts",
			"added texts are put on one line and trimmed, amounts rounded to the ledger's decimals (two for an unknown currency); transactions that round to nothing are left out",
		},
		Facets: []*Facet{
			facet("generate", 3000, 100000, genGenerate, func(c GenCase, x *Ctx) error { return c.check(x, false) }),
			facet("fault", 1500, 50000, genBadGenerate, func(c GenCase, x *Ctx) error { return c.checkFault(x, false) }),
			facet("binary", 80, 2500, genGenerate, func(c GenCase, x *Ctx) error { return c.check(x, true) }),
			facet("fault binary", 60, 2000, genBadGenerate, func(c GenCase, x *Ctx) error { return c.checkFault(x, true) }),
		},
	})
}
