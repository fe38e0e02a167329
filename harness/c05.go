package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// A ledger and operations on it, as they would be given on the command line.
type OpsCase struct {
	L      LCase
	Ops    []Op                // what is applied, in order
	Macros map[string][]string // macros in the configuration
	Args   []string            // the arguments: operations and macro names
}

func genOpsCase(kinds ...string) func(t *rapid.T) OpsCase {
	return func(t *rapid.T) OpsCase {
		var l LCase
		if chance(t, 25, "rich") {
			l = genRichLedger(t)
		} else {
			l = genPlainCase(t)
		}
		n := pick(t, []int{1, 1, 1, 1, 2, 2, 3, 4}, "nops")
		ops := genOps(t, l.Want, n, kinds...)
		return OpsCase{L: l, Ops: ops, Args: opTexts(ops)}
	}
}

// runOps applies the arguments and compares with the model, decimals included.
func (c OpsCase) run(x *Ctx) error {
	d := x.WriteFiles(c.L.Files)
	b, err := loadFile(filepath.Join(d, c.L.Main))
	if err != nil {
		return viol("%v\n%s", err, filesText(c.L.Files))
	}
	if err := applyReal(b, c.Macros, c.Args...); err != nil {
		return viol("%q: %v\n%s", c.Args, err, filesText(c.L.Files))
	}
	want := applyModel(c.L.Want, c.Ops)
	c.labels(x)
	if err := diffBooks(observe(b), want.norm(), true); err != nil {
		return viol("%q: %v\n%s", c.Args, err, filesText(c.L.Files))
	}
	dec := c.L.Dec
	for _, o := range c.Ops {
		dec = o.decOp(dec)
	}
	if err := diffDec(b.GetCCYDecimals(), dec); err != nil {
		return viol("%q: %v\n%s", c.Args, err, filesText(c.L.Files))
	}
	return nil
}

func (c OpsCase) labels(x *Ctx) {
	m := c.L.Want
	for _, o := range c.Ops {
		n := o.model(m)
		if diffBooks(n, m.norm(), true) != nil {
			x.NT()
			x.Label("%s takes effect", o.Kind)
			if len(n.Posts) < len(m.Posts) {
				x.Label("%s merges postings", o.Kind)
			}
		} else {
			x.Label("%s without effect", o.Kind)
		}
		if o.Alt != "" {
			x.Label("alternative account")
		}
		m = n
	}
	if len(c.Macros) > 0 {
		x.Label("macros")
	}
}

func diffDec(got, want map[string]int) error {
	if len(got) != len(want) {
		return viol("decimals: observed %v, expected %v", got, want)
	}
	for k, v := range want {
		g, ok := got[k]
		if !ok || g != v {
			return viol("decimals of %q: observed %v, expected %v", k, got, want)
		}
	}
	return nil
}

// runCLI runs export (CSV and the price lines of the ledger format) with the operations in the given way.
func (c OpsCase) runCLI(x *Ctx, binary bool) error {
	d := x.WriteFiles(c.L.Files)
	want := applyModel(c.L.Want, c.Ops).norm()
	exact := true
	for _, p := range want.Posts {
		if minDecimals(p.Val) < 0 {
			exact = false
		}
	}
	if !exact {
		x.Label("repeating decimals: not compared in print")
		return nil
	}
	c.labels(x)
	var out string
	if binary {
		r := x.goledger(d, benignConf+macroConf(c.Macros), nil, args("-l", c.L.Main, "export", "--type=CSV", "--", c.Args)...)
		if r.Code != 0 {
			return viol("%q: exit %d: %s\n%s", c.Args, r.Code, cut(r.Err, 800), filesText(c.L.Files))
		}
		out = r.Out
	} else {
		o, err := cli(Cfg{Ledger: filepath.Join(d, c.L.Main), Macros: c.Macros}, args("export", "--type=CSV", "--", c.Args)...)
		if err != nil {
			return viol("%q: %v\n%s", c.Args, err, filesText(c.L.Files))
		}
		out = o
	}
	got, err := parseCSVExport(out)
	if err != nil {
		return err
	}
	if err := diffPosts(got, noBal(want.Posts), true); err != nil {
		return viol("%q: %v\n%s", c.Args, err, filesText(c.L.Files))
	}
	return nil
}

func tomlStr(s string) string { return jsonText(s) }

// jsonText is JSON (and also a TOML or Starlark literal) with no more escapes than needed.
func jsonText(v any) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		harness("%v", err)
	}
	return strings.TrimSpace(b.String())
}

func tomlList(l []string) string {
	var o []string
	for _, s := range l {
		o = append(o, tomlStr(s))
	}
	return "[" + strings.Join(o, ", ") + "]"
}

func macroConf(m map[string][]string) string {
	if len(m) == 0 {
		return ""
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := "\n[macros]\n"
	for _, k := range ks {
		s += fmt.Sprintf("%s = %s\n", tomlStr(k), tomlList(m[k]))
	}
	return s
}

var opsAssume = []string{"applied operations are what the command line accepts; amounts with repeating decimals (after depreciation) are compared exactly in memory only"}

func init() {
	register(&Prop{
		ID:          "C05",
		Rule:        "random ledgers and sequences of map=/mapccy= operations (regular expressions built from the book's own names and general ones, groups, alternative accounts, renames that merge) compared with a reference model, prices and decimals included; non-trivial = some operation changes the book",
		Assumptions: opsAssume,
		Facets: []*Facet{
			facet("map", 5000, 200000, genOpsCase("map"), OpsCase.run),
			facet("mapccy", 5000, 200000, genOpsCase("mapccy"), OpsCase.run),
			facet("mixed", 2500, 100000, genOpsCase("map", "mapccy"), OpsCase.run),
			facet("cli", 1200, 30000, genOpsCase("map", "mapccy"), func(c OpsCase, x *Ctx) error { return c.runCLI(x, false) }),
			facet("binary", 100, 3000, genOpsCase("map", "mapccy"), func(c OpsCase, x *Ctx) error { return c.runCLI(x, true) }),
		},
	})
	register(&Prop{
		ID:          "C06",
		Rule:        "random ledgers and sequences of move= (factors of up to 35 digits) and depreciate= (1 to 60 months, now and then up to 1300) operations compared with a reference model; non-trivial = some operation changes the book",
		Assumptions: opsAssume,
		Facets: []*Facet{
			facet("move", 5000, 200000, genOpsCase("move"), OpsCase.run),
			facet("depreciate", 5000, 200000, genOpsCase("depreciate"), OpsCase.run),
			facet("mixed", 2500, 100000, genOpsCase("move", "depreciate", "map"), OpsCase.run),
			facet("totals", 3000, 100000, genOpsCase("move", "depreciate"), checkTotals),
			facet("cli", 1200, 30000, genOpsCase("move", "move", "depreciate"), func(c OpsCase, x *Ctx) error { return c.runCLI(x, false) }),
			facet("binary", 100, 3000, genOpsCase("move", "move", "depreciate"), func(c OpsCase, x *Ctx) error { return c.runCLI(x, true) }),
		},
	})
	register(&Prop{
		ID:          "C07",
		Rule:        "random ledgers with since=/asof= at, next to and between their dates, combine= for every period in any letter case, sequences of all operations, and the same sequences folded into nested macros; compared with a reference model and, for cut-offs, with each other; non-trivial = some operation changes the book",
		Assumptions: opsAssume,
		Facets: []*Facet{
			facet("cut", 3000, 100000, genOpsCase("asof", "since"), OpsCase.run),
			facet("partition", 3000, 100000, genOpsCase("asof"), checkPartition),
			facet("combine", 5000, 200000, genOpsCase("combine", "combine", "combine", "asof", "since"), OpsCase.run),
			facet("period totals", 3000, 100000, genOpsCase("combine"), checkPeriodTotals),
			facet("sequence", 5000, 200000, genOpsCase(), OpsCase.run),
			facet("macros", 3000, 100000, genMacroCase, OpsCase.run),
			facet("cli", 1200, 30000, genMacroCase, func(c OpsCase, x *Ctx) error { return c.runCLI(x, false) }),
			facet("binary", 150, 4000, genMacroCase, func(c OpsCase, x *Ctx) error { return c.runCLI(x, true) }),
		},
	})
}

// genMacroCase folds a sequence of operations into (nested) macros.
func genMacroCase(t *rapid.T) OpsCase {
	l := genPlainCase(t)
	ops := genOps(t, l.Want, intn(t, 1, 6, "nops"))
	if chance(t, 40, "again") { // an operation twice, one after the other or apart
		i := intn(t, 0, len(ops)-1, "which")
		j := i
		if chance(t, 40, "apart") {
			j = intn(t, 0, len(ops), "where")
		}
		if ops[i].Kind != "depreciate" {
			ops = append(ops[:j:j], append([]Op{ops[i]}, ops[j:]...)...)
		}
	}
	c := OpsCase{L: l, Ops: ops, Args: opTexts(ops), Macros: map[string][]string{}}
	names := pick(t, [][]string{{"m", "clean", "q1", "by_year"}, {"Macro-2", "a b", "x", "zz"}, {"m", "M", "net", "NET"}, {"Net", "net", "x", "X"}}, "names")
	for i := intn(t, 0, 4, "nmacros"); i > 0; i-- {
		name := names[0]
		names = names[1:]
		a := intn(t, 0, len(c.Args), "from")
		b := intn(t, a, len(c.Args), "to")
		c.Macros[name] = append([]string{}, c.Args[a:b]...)
		out := append([]string{}, c.Args[:a]...)
		out = append(out, name)
		for rest := c.Args[b:]; ; {
			if n := len(c.Macros[name]); n > 0 && n <= len(rest) && slices.Equal(rest[:n], c.Macros[name]) && chance(t, 60, "reuse") {
				out, rest = append(out, name), rest[n:]
			} else if len(rest) == 0 {
				break
			} else {
				out, rest = append(out, rest[0]), rest[1:]
			}
		}
		c.Args = out
	}
	return c
}

// checkPartition: asof and since with one date split the book in two.
func checkPartition(c OpsCase, x *Ctx) error {
	if len(c.Ops) == 0 {
		return nil
	}
	d := x.WriteFiles(c.L.Files)
	op := c.Ops[0]
	var parts [2]MBook
	for i, k := range []string{"asof=", "since="} {
		b, err := loadFile(filepath.Join(d, c.L.Main))
		if err != nil {
			return viol("%v", err)
		}
		if err := applyReal(b, nil, k+op.Text); err != nil {
			return viol("%s%s: %v", k, op.Text, err)
		}
		parts[i] = observe(b)
		for _, p := range parts[i].Posts {
			if i == 0 && p.Date >= op.Date || i == 1 && p.Date < op.Date {
				return viol("%s%s keeps a posting of %s", k, op.Text, dateText(p.Date))
			}
		}
	}
	b, err := loadFile(filepath.Join(d, c.L.Main))
	if err != nil {
		return viol("%v", err)
	}
	all := observe(b)
	if len(parts[0].Posts) > 0 && len(parts[1].Posts) > 0 {
		x.NT()
	}
	union := append(append([]MPost{}, parts[0].Posts...), parts[1].Posts...)
	if err := diffPosts(noBal(union), noBal(all.Posts), true); err != nil {
		return viol("asof=%[1]s and since=%[1]s together: %[2]v\n%[3]s", op.Text, err, filesText(c.L.Files))
	}
	return nil
}

type acctTotals map[string]string

// totals sums postings under a key.
func totals(ps []MPost, key func(MPost) string) map[string]string {
	m := MBook{}
	for _, p := range ps {
		m.Posts = append(m.Posts, MPost{Acct: key(p), Val: p.Val})
	}
	o := map[string]string{}
	for _, p := range m.norm().Posts {
		o[p.Acct] = p.Val.RatString()
	}
	return o
}

func diffMap(got, want map[string]string) string {
	ks := map[string]bool{}
	for k := range got {
		ks[k] = true
	}
	for k := range want {
		ks[k] = true
	}
	s := ""
	for k := range ks {
		if got[k] != want[k] {
			s += fmt.Sprintf("%s: observed %q, expected %q\n", k, got[k], want[k])
		}
	}
	return s
}

// checkPeriodTotals: combining keeps each account's total per currency and period.
func checkPeriodTotals(c OpsCase, x *Ctx) error {
	if len(c.Ops) == 0 {
		return nil
	}
	d := x.WriteFiles(c.L.Files)
	by := c.Ops[0].Text
	b, err := loadFile(filepath.Join(d, c.L.Main))
	if err != nil {
		return viol("%v", err)
	}
	key := func(p MPost) string { return fmt.Sprint(periodStart(by, p.Date), " ", p.Acct, " ", p.CCY) }
	before := observe(b)
	if err := applyReal(b, nil, "combine="+by); err != nil {
		return viol("combine=%s: %v", by, err)
	}
	after := observe(b)
	if len(after.Posts) < len(before.Posts) {
		x.NT()
	}
	if s := diffMap(totals(after.Posts, key), totals(before.Posts, key)); s != "" {
		return viol("combine=%s changes totals:\n%s%s", by, s, filesText(c.L.Files))
	}
	for _, p := range after.Posts {
		if p.Date != periodStart(by, p.Date) {
			return viol("combine=%s leaves a posting on %s", by, dateText(p.Date))
		}
	}
	return nil
}

// checkTotals: a move conserves each transaction, depreciation each account.
func checkTotals(c OpsCase, x *Ctx) error {
	d := x.WriteFiles(c.L.Files)
	b, err := loadFile(filepath.Join(d, c.L.Main))
	if err != nil {
		return viol("%v", err)
	}
	for _, o := range c.Ops {
		before := observe(b)
		if err := applyReal(b, nil, o.String()); err != nil {
			return viol("%s: %v", o, err)
		}
		after := observe(b)
		if diffPosts(after.Posts, before.Posts, true) != nil {
			x.NT()
		}
		key := func(p MPost) string { return fmt.Sprint(p.Acct, " ", p.CCY) }
		if o.Kind == "move" {
			// what does not match keeps its amounts, unless moved into
			key = func(p MPost) string { return fmt.Sprint(p.Date, " ", p.Payee, " ", p.CCY) }
			for _, p := range after.Posts {
				if !inDates(before.Posts, p) {
					return viol("%s makes a transaction on %s %q", o, dateText(p.Date), p.Payee)
				}
			}
		}
		if s := diffMap(totals(after.Posts, key), totals(before.Posts, key)); s != "" {
			return viol("%s changes totals:\n%s%s", o, s, filesText(c.L.Files))
		}
	}
	return nil
}

func inDates(ps []MPost, q MPost) bool {
	for _, p := range ps {
		if p.Date == q.Date && p.Payee == q.Payee {
			return true
		}
	}
	return false
}
