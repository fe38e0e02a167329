package main

import (
	"encoding/csv"
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/mescanne/goledger/book"
	"pgregory.net/rapid"
)

// C17: date spellings.

var (
	reY    = regexp.MustCompile(`^(\d{4})$`)
	reYM   = regexp.MustCompile(`^(?:(\d{4})[-/.](\d{1,2})|(\d{4})(\d{2}))$`)
	reYMD  = regexp.MustCompile(`^(?:(\d{4})(?:-(\d{1,2})-|/(\d{1,2})/|\.(\d{1,2})\.)(\d{1,2}))$`)
	reDMY  = regexp.MustCompile(`^(?:(\d{1,2})(?:-(\d{1,2})-|/(\d{1,2})/|\.(\d{1,2})\.)(\d{4}))$`)
	re8    = regexp.MustCompile(`^\d{8}$`)
	reLike = regexp.MustCompile(`^\d{1,4}[-/.]?\d{1,2}(?:[-/.]?\d{1,4})?$`)
	reRel  = regexp.MustCompile(`^(this|last|next)[._ \t]+(month|year|quarter)$`)
	reRelL = regexp.MustCompile(`(?i)^(this|last|next)[^a-z]*(month|year|quarter)$`)
)

func num(parts ...string) int {
	n, _ := strconv.Atoi(strings.Join(parts, ""))
	return n
}

// readDate says which day a text denotes (0 = no date). ok is false where nothing is documented.
func readDate(s string, today int) (d int, ok bool) {
	valid := func(y, m, d int) (int, bool) {
		if n := y*10000 + m*100 + d; m <= 12 && d <= 31 && validDate(n) {
			return n, true
		}
		return 0, true
	}
	if g := reY.FindStringSubmatch(s); g != nil {
		return valid(num(g[1]), 1, 1)
	}
	if g := reYM.FindStringSubmatch(s); g != nil {
		return valid(num(g[1], g[3]), num(g[2], g[4]), 1)
	}
	if g := reYMD.FindStringSubmatch(s); g != nil {
		return valid(num(g[1]), num(g[2], g[3], g[4]), num(g[5]))
	}
	if g := reDMY.FindStringSubmatch(s); g != nil {
		return valid(num(g[5]), num(g[2], g[3], g[4]), num(g[1]))
	}
	if re8.MatchString(s) {
		a, _ := valid(num(s[:4]), num(s[4:6]), num(s[6:]))
		b, _ := valid(num(s[4:]), num(s[2:4]), num(s[:2]))
		if a != 0 && b != 0 && a != b {
			return 0, false
		}
		return a + b - a*b/max(a, b, 1), true
	}
	if g := reRel.FindStringSubmatch(s); g != nil {
		per := map[string]int{"this": 0, "last": -1, "next": 1}[g[1]]
		return refFloor(today, map[string]int{"month": 1, "quarter": 3, "year": 12}[g[2]], per)
	}
	if reLike.MatchString(s) || reRelL.MatchString(s) {
		return 0, false
	}
	return 0, true
}

// SpellCase is a text read on a given day.
type SpellCase struct {
	Text  string
	Today int
	D     int // what it was made for, or 0
}

var relWords = [][]string{{"this", "last", "next"}, {" ", " ", ".", "_", "\t", "  "}, {"month", "year", "quarter"}}

func spellDate(t *rapid.T, d int) string {
	y, m, day := d/10000, d/100%100, d%100
	sep := pick(t, []string{"-", "/", "."}, "sep")
	n := func(v int) string {
		if chance(t, 50, "pad") {
			return fmt.Sprintf("%02d", v)
		}
		return strconv.Itoa(v)
	}
	switch intn(t, 0, 7, "form") {
	case 0:
		if m == 1 && day == 1 {
			return fmt.Sprintf("%04d", y)
		}
	case 1:
		if day == 1 {
			return fmt.Sprintf("%04d%s%s", y, sep, n(m))
		}
	case 2:
		if day == 1 {
			return fmt.Sprintf("%04d%02d", y, m)
		}
	case 3:
		return fmt.Sprintf("%04d%02d%02d", y, m, day)
	case 4:
		if y >= 1300 {
			return fmt.Sprintf("%02d%02d%04d", day, m, y)
		}
	case 5, 6:
		return fmt.Sprintf("%s%s%s%s%04d", n(day), sep, n(m), sep, y)
	}
	return fmt.Sprintf("%04d%s%s%s%s", y, sep, n(m), sep, n(day))
}

func genSpell(t *rapid.T) SpellCase {
	c := SpellCase{Today: edgeDate(t)}
	if c.Today > 99980000 || c.Today < 20000 {
		c.Today = 20240131
	}
	switch k := intn(t, 0, 9, "kind"); {
	case k <= 3:
		c.D = edgeDate(t)
		if chance(t, 40, "first") {
			c.D = c.D - c.D%100 + 1
		}
		if chance(t, 20, "jan") {
			c.D = c.D - c.D%10000 + 101
		}
		c.Text = spellDate(t, c.D)
	case k == 4: // relative
		c.Text = pick(t, relWords[0], "w0") + pick(t, relWords[1], "w1") + pick(t, relWords[2], "w2")
	case k == 5: // no such day
		y, m, d := intn(t, 0, 9999, "y"), intn(t, 0, 13, "m"), pick(t, []int{0, 28, 29, 30, 31, 32, 99, intn(t, 0, 40, "dd")}, "d")
		sep := pick(t, []string{"-", "/", ".", ""}, "sep")
		if chance(t, 50, "dmy") {
			c.Text = fmt.Sprintf("%02d%s%02d%s%04d", d, sep, m, sep, y)
		} else {
			c.Text = fmt.Sprintf("%04d%s%02d%s%02d", y, sep, m, sep, d)
		}
	case k <= 7: // one edit of a spelling
		s := spellDate(t, edgeDate(t))
		if chance(t, 20, "rel") {
			s = pick(t, relWords[0], "w0") + " " + pick(t, relWords[2], "w2")
		}
		r := []rune(s)
		i := intn(t, 0, len(r), "at")
		ins := []rune(pick(t, []string{"0", "1", "9", "-", "/", ".", " ", "\t", "\n", "a", "T", "+", ",", ":", "٣", "０", "\x00", "é"}, "ins"))
		switch op := intn(t, 0, 2, "op"); {
		case op == 0 && i < len(r):
			r = append(append([]rune{}, r[:i]...), r[i+1:]...)
		case op == 1 && i < len(r):
			r = append(append(append([]rune{}, r[:i]...), ins...), r[i+1:]...)
		default:
			r = append(append(append([]rune{}, r[:i]...), ins...), r[i:]...)
		}
		c.Text = string(r)
	case k == 8:
		c.Text = rapid.StringMatching(`[-0-9/. ]{0,12}|(this|last|next|)[ ._a-z]{0,3}(month|year|quarter|week|)`).Draw(t, "text")
	default:
		c.Text = pick(t, []string{rapid.String().Draw(t, "any"), "today", "now", "yesterday", "", " ", "0", "0000", "00000000", "99999999", "2024-W01", "2024-01-01T00:00:00Z", "Jan 2024", "1/1/24", "last week", "this", "month", "THIS YEAR", "12", "-2024", "+2024", "2024-1-1-1", "20240101123000"}, "odd")
	}
	return c
}

// onDay runs f as if it were noon of the given day where the program runs.
func onDay(d int, f func()) {
	old := time.Local
	defer func() { time.Local = old }()
	y, m, day := d/10000, d/100%100, d%100
	noon := time.Date(y, time.Month(m), day, 12, 0, 0, 0, time.UTC)
	time.Local = time.FixedZone("sim", int(noon.Unix()-time.Now().Unix()))
	f()
}

func checkSpell(c SpellCase, x *Ctx) error {
	want, ok := readDate(c.Text, c.Today)
	if c.D != 0 && ok && want != c.D {
		harness("%q is %d (%v) to the reference, made for %d", c.Text, want, ok, c.D)
	}
	if ok {
		x.NT()
	}
	var got book.Date
	var err error
	onDay(c.Today, func() {
		if t := book.GetToday(); int(t) != c.Today {
			err = viol("today is %d, not %d", int(t), c.Today)
			return
		}
		got = book.DateFromString(c.Text)
		var d book.Date
		if e := d.Set(c.Text); (e != nil) != (got == 0) || d != got {
			err = viol("%q read as an option gives %d (%v), otherwise %d", c.Text, int(d), e, int(got))
		}
	})
	if err != nil {
		return err
	}
	if got != 0 && !validDate(int(got)) {
		return viol("%q is read as %d, which is no date", c.Text, int(got))
	}
	if ok && int(got) != want {
		return viol("%q (today %d) is read as %d, expected %d", c.Text, c.Today, int(got), want)
	}
	if got != 0 {
		x.Label("a date")
		if s := got.String(); s != dateText(int(got)) || book.DateFromString(s) != got {
			return viol("%d prints as %q and reads back as %d", int(got), s, int(book.DateFromString(s)))
		}
		js, err := json.Marshal(got)
		if err != nil {
			return viol("%d: %v", int(got), err)
		}
		if g, err := jsonDate(strings.Trim(string(js), `"`)); err != nil || g != int(got) {
			return viol("%d is %s in JSON", int(got), js)
		}
	} else if ok {
		x.Label("no date")
	}
	return nil
}

// DateOpCase reads a text as the date of operations, options and script calls.
type DateOpCase struct {
	S     SpellCase
	Dates []int
	How   string
}

func genDateOp(t *rapid.T) DateOpCase {
	c := DateOpCase{S: genSpell(t), How: pick(t, []string{"asof", "since", "begin", "end", "script since", "script asof", "add", "import"}, "how")}
	for !plainText(c.S.Text) {
		c.S.Text = "20 24"
	}
	w, _ := readDate(c.S.Text, c.S.Today)
	n := dayNo(edgeDate(t))
	if w != 0 {
		n = dayNo(w)
	}
	for i := intn(t, 1, 6, "n"); i > 0; i-- {
		c.Dates = append(c.Dates, clampDay(n+pick(t, []int{0, -1, 1, intn(t, -40, 40, "near"), intn(t, -4000, 4000, "far")}, "k")))
	}
	return c
}

func plainText(s string) bool {
	for _, r := range s {
		if r < ' ' && r != '\t' || r == 0x7f || r == 0xfffd || r == '\\' || r == '"' {
			return false
		}
	}
	return true
}

var reOrds = regexp.MustCompile(`(?m)^(?:# *|; *|// *)?@([0-9/]+)`)

// run gives the dates of the transactions that remain, and the error.
func (c DateOpCase) run(x *Ctx) (got []int, out string, err error) {
	var led strings.Builder
	for i, d := range c.Dates {
		fmt.Fprintf(&led, "%s p%d\n  A  USD 1\n  B  USD -1\n\n", dateText(d), i)
	}
	x.WriteFiles(map[string]string{"main.ledger": led.String(), "in.json": `[{"d": ` + jsonText(c.S.Text) + `}]`})
	cfg := Cfg{Ledger: x.Tmp() + "/main.ledger"}
	s := c.S.Text
	view := "print('\\n'.join(['@' + t.date for t in data.transactions]))"
	onDay(c.S.Today, func() {
		switch c.How {
		case "asof", "since":
			out, err = cli(cfg, "export", "--type", "csv", c.How+"="+s)
		case "begin":
			out, err = cli(cfg, "register", "--type", "csv", "--combined", "--begin="+s, "A")
		case "end":
			out, err = cli(cfg, "register", "--type", "csv", "--combined", "--asof="+s, "A")
		case "script since", "script asof":
			out, err = cli(cfg, "generate", "--code", "data."+strings.TrimPrefix(c.How, "script ")+"("+jsonText(s)+")\n"+view)
		case "add":
			out, err = cli(cfg, "generate", "--dedup=false", "--code", "add(date="+jsonText(s)+", desc='x', amt='1', account='A', caccount='B', ccy='USD')")
		case "import":
			out, err = cli(cfg, "import", "--dedup=false", "--format", "json", "--acct=A", "--cacct=B", "--ccy=USD", "--code", "[add(r['d'], 'x', 1) for r in data]", x.Tmp()+"/in.json")
		}
	})
	if err != nil {
		return nil, out, err
	}
	switch c.How {
	case "add", "import":
		x.WriteFiles(map[string]string{"got.ledger": out})
		b, e := loadFile(x.Tmp() + "/got.ledger")
		if e != nil {
			return nil, out, viol("the printed ledger does not load: %v", e)
		}
		for _, t := range b.Transactions() {
			got = append(got, int(t.GetDate()))
		}
	case "script since", "script asof":
		for _, m := range reOrds.FindAllStringSubmatch(out, -1) {
			got = append(got, textDay(m[1]))
		}
	default:
		recs, e := csv.NewReader(strings.NewReader(out)).ReadAll()
		if e != nil {
			return nil, out, viol("%v\n%s", e, out)
		}
		for i, r := range recs {
			d := 0
			for _, f := range r {
				if d = textDay(f); d != 0 {
					break
				}
			}
			if i > 0 && d != 0 {
				got = append(got, d)
			}
		}
	}
	return got, out, nil
}

// textDay reads a printed date, 0 if it is not one.
func textDay(s string) int {
	if len(s) != 10 {
		return 0
	}
	d, ok := readDate(s, 20240101)
	if !ok {
		return 0
	}
	return d
}

func checkDateOp(c DateOpCase, x *Ctx) error {
	want, ok := readDate(c.S.Text, c.S.Today)
	got, out, err := c.run(x)
	limit := c.How == "begin" || c.How == "end"
	if limit && c.S.Text == "" {
		return nil // no limit
	}
	if !ok {
		return nil
	}
	x.NT()
	if want == 0 {
		x.Label("%s refused", c.How)
		if err == nil {
			return viol("%s: %q is accepted as a date (today %d)\n%s", c.How, c.S.Text, c.S.Today, cut(out, 800))
		}
		return nil
	}
	if err != nil {
		return viol("%s: %q (today %d) is refused: %v", c.How, c.S.Text, c.S.Today, err)
	}
	x.Label("%s", c.How)
	var exp []int
	switch c.How {
	case "add", "import":
		exp = []int{want}
	default:
		before := strings.HasSuffix(c.How, "asof") || c.How == "end"
		for _, d := range sortedInts(c.Dates) {
			if (d < want) == before {
				exp = append(exp, d)
			}
		}
	}
	seen := map[int]int{}
	for _, d := range got {
		seen[d]++
	}
	exps := map[int]int{}
	for _, d := range exp {
		exps[d]++
	}
	k := 1
	if c.How == "asof" || c.How == "since" {
		k = 2 // two postings each
	}
	same := len(seen) == len(exps)
	for d, n := range exps {
		same = same && seen[d] == n*k
	}
	if !same {
		return viol("%s %q (%d, today %d) of %v leaves %v, expected %v\n%s", c.How, c.S.Text, want, c.S.Today, c.Dates, got, exp, cut(out, 1500))
	}
	return nil
}

func sortedInts(a []int) []int {
	o := append([]int{}, a...)
	sort.Ints(o)
	return o
}

// PrintCase: every output prints the dates of a book so that they read back.
type PrintCase struct{ Dates []int }

var reAnyDate = regexp.MustCompile(`\b\d{4}([-/.])\d{2}[-/.]\d{2}(?:\b|T)`)

func checkPrint(c PrintCase, x *Ctx) error {
	var led strings.Builder
	for i, d := range c.Dates {
		fmt.Fprintf(&led, "%s p%d\n  A  USD 1\n  B  USD -1\n\n", dateText(d), i)
	}
	x.WriteFiles(map[string]string{"main.ledger": led.String()})
	cfg := Cfg{Ledger: x.Tmp() + "/main.ledger"}
	if len(c.Dates) > 1 {
		x.NT()
	}
	want := fmt.Sprint(sortedInts(c.Dates))
	for _, a := range [][]string{
		{"1", "export", "--type", "ledger"}, {"2", "export", "--type", "csv"}, {"2", "export", "--type", "json"},
		{"1", "export", "--type", "beancount"}, {"1", "register", "--type", "text", "A"}, {"1", "register", "--type", "csv", "A"},
		{"1", "register", "--type", "json", "A"},
	} {
		out, err := cli(cfg, a[1:]...)
		if err != nil {
			return viol("%v: %v", a[1:], err)
		}
		var got []int
		for _, m := range strings.Split(out, "\n") {
			if strings.Contains(m, " open ") || strings.Contains(m, " close ") {
				continue
			}
			for _, s := range reAnyDate.FindAllString(m, -1) {
				s = strings.TrimSuffix(s, "T")
				d := int(book.DateFromString(s))
				if w := textDay(s); d != w {
					return viol("%v: printed date %q reads back as %d", a[1:], s, d)
				}
				got = append(got, d)
			}
		}
		got = sortedInts(got)
		if a[0] == "2" { // one for each posting
			var g []int
			for i := 0; i+1 < len(got); i += 2 {
				if got[i] == got[i+1] {
					g = append(g, got[i])
				}
			}
			if len(got) == 2*len(g) {
				got = g
			}
		}
		if fmt.Sprint(got) != want {
			// json may give the date of a transaction and of its postings
			if s := fmt.Sprint(uniqInts(got)); s != fmt.Sprint(uniqInts(sortedInts(c.Dates))) {
				return viol("%v prints dates %v, expected %v\n%s", a[1:], got, want, cut(out, 2000))
			}
		}
	}
	return nil
}

func uniqInts(a []int) []int {
	var o []int
	for i, v := range a {
		if i == 0 || v != a[i-1] {
			o = append(o, v)
		}
	}
	return o
}

func init() {
	register(&Prop{
		ID:          "C17",
		Rule:        "every documented spelling of dates from years 1 to 9999, relative dates on simulated days (the program's time zone is shifted so that it is any day), impossible days, spellings with one character changed, and arbitrary text, read by a reference reader and by the API, by asof=/since=, register --begin/--asof, script calls, added and imported records; printed dates of every export and of the register read back. Non-trivial = the documentation says what the text denotes (or that it is no date)",
		Assumptions: []string{"not documented, so only required to be some valid date or refused: mixed separators, six- and seven-digit runs of other shapes, relative dates in another letter case or with other separators, eight digits valid as both year-first and day-first"},
		Facets: []*Facet{
			facet("spellings", 200000, 5000000, genSpell, checkSpell),
			facet("uses", 5000, 150000, genDateOp, checkDateOp),
			facet("printed", 1200, 30000, func(t *rapid.T) PrintCase {
				var c PrintCase
				for i := intn(t, 1, 5, "n"); i > 0; i-- {
					c.Dates = append(c.Dates, edgeDate(t))
				}
				return c
			}, checkPrint),
		},
	})
}
