package main

import (
	"fmt"
	"math/big"
	"strings"

	"pgregory.net/rapid"
)

// ---- small draws ------------------------------------------------------------

func intn(t *rapid.T, lo, hi int, l string) int { return rapid.IntRange(lo, hi).Draw(t, l) }
func chance(t *rapid.T, pct int, l string) bool { return rapid.IntRange(0, 99).Draw(t, l) >= 100-pct }
func pick[T any](t *rapid.T, xs []T, l string) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, l)]
}

var acctParts = []string{"A", "B", "Bank", "Bank2", "Bank0", "Ban", "X", "Y", "Cash", "a_b", "O'n", "R&D", "x1", "A0", "Zeta", "azA0", "Zz9"}
var acctTops = []string{"Asset", "Expense", "Income", "Liability", "Equity"}

// acctGen makes hierarchical account names sharing many prefixes.
func genAcct(t *rapid.T) string {
	s := pick(t, acctTops, "top")
	for i := intn(t, 0, 3, "parts"); i > 0; i-- {
		s += ":" + pick(t, acctParts, "part")
	}
	return s
}

// Account pool of one case: few names, so that they recur.
func genAccts(t *rapid.T, n int) []string {
	k := intn(t, 2, n, "naccts")
	out := []string{}
	if n > 7 && chance(t, 4, "chain") { // each is the parent of the next
		a := pick(t, acctTops, "top")
		for i := intn(t, 13, 17, "nchain"); i > 0; i-- {
			out = append(out, a)
			a += ":" + pick(t, acctParts, "part")
		}
		return out
	}
	for i := 0; i < k; i++ {
		a := genAcct(t)
		if !has(out, a) {
			out = append(out, a)
		}
	}
	if chance(t, 3, "deepacct") {
		out[0] += strings.Repeat(":"+pick(t, acctParts, "deeppart"), intn(t, 8, 17, "depth"))
	}
	if len(out) < 2 {
		if out[0] == "Asset" {
			out = append(out, "Expense")
		} else {
			out = append(out, "Asset")
		}
	}
	return out
}

var ccyPlain = []string{"USD", "EUR", "GBP", "£", "$", "€", "AAPL", "kr", "C$", "x_y", "AB"}
var ccyQuoted = []string{"A B", "X1", "US-D", "S.P", "a;b", "m@il", "2026", "026", "VAN 500-X"}

func genCCYs(t *rapid.T, n int, quoted bool) []string {
	pool := ccyPlain
	if quoted {
		pool = append(append([]string{}, ccyPlain...), ccyQuoted...)
	}
	k := intn(t, 1, n, "nccys")
	out := []string{}
	for i := 0; i < k; i++ {
		c := pick(t, pool, "ccy")
		if !has(out, c) {
			out = append(out, c)
		}
	}
	return out
}

// genDate: a valid date of the years 1..9900, mostly recent and clustered.
func genDate(t *rapid.T) int {
	y := 2020 + intn(t, 0, 2, "y")
	switch intn(t, 0, 19, "era") {
	case 19:
		y = intn(t, 1, 9900, "yy")
	case 18:
		y = pick(t, []int{1, 4, 99, 100, 400, 1582, 1900, 1999, 2000, 2096, 2100, 2400, 9900}, "yb")
	}
	m := intn(t, 1, 12, "m")
	d := 0
	switch intn(t, 0, 5, "dk") {
	case 0:
		d = 1
	case 1:
		d = mdays(y, m)
	default:
		d = intn(t, 1, mdays(y, m), "d")
	}
	return y*10000 + m*100 + d
}

// genDates is a pool of dates for one case, so that several things fall on one day.
func genDates(t *rapid.T, n int) []int {
	k := intn(t, 1, n, "ndates")
	out := make([]int, k)
	for i := range out {
		out[i] = genDate(t)
	}
	return out
}

// Dec is an exact decimal number.
type Dec struct {
	U *big.Int // unscaled
	S int      // decimals
}

func (d Dec) rat() *big.Rat {
	return new(big.Rat).SetFrac(d.U, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(d.S)), nil))
}

// genDec: a non-negative decimal of every size.
func genDec(t *rapid.T, big_ bool) Dec {
	s := pick(t, []int{0, 2, 2, 2, 1, 3, 4, 8}, "scale")
	digits := intn(t, 1, 7, "digits")
	if big_ {
		switch intn(t, 0, 9, "sz") {
		case 9:
			digits = intn(t, 8, 30, "digitsb")
		case 8:
			s = intn(t, 5, 15, "scaleb")
		case 7:
			digits = intn(t, 17, 21, "digitsc")
		}
	}
	n := new(big.Int)
	ten := big.NewInt(10)
	for i := 0; i < digits; i++ {
		n.Mul(n, ten)
		n.Add(n, big.NewInt(int64(intn(t, 0, 9, "dg"))))
	}
	return Dec{n, s}
}

func genVal(t *rapid.T, big_ bool) *big.Rat {
	v := genDec(t, big_).rat()
	if chance(t, 45, "neg") {
		v.Neg(v)
	}
	return v
}

// exactText renders a rational with a terminating decimal expansion.
func exactText(r *big.Rat) string {
	d := minDecimals(r)
	if d < 0 {
		harness("no finite decimal: %s", r)
	}
	return r.FloatString(d)
}

func ccyNeedsQuote(c string) bool {
	if c == "" {
		return true
	}
	for _, r := range c {
		if strings.ContainsRune(";@-.0123456789 \t\n\",", r) {
			return true
		}
	}
	return false
}

// spell writes a non-zero or zero amount of a currency in one of the accepted spellings.
func spell(t *rapid.T, ccy string, v *big.Rat) string {
	neg := v.Sign() < 0
	txt := exactText(new(big.Rat).Abs(v))
	ip, fp := txt, ""
	if i := strings.IndexByte(txt, '.'); i >= 0 {
		ip, fp = txt[:i], txt[i+1:]
	}
	if chance(t, 30, "zeros") {
		fp += strings.Repeat("0", intn(t, 1, 4, "nz"))
	}
	if chance(t, 25, "commas") && len(ip) > 3 {
		var sb strings.Builder
		for i, c := range ip {
			if i > 0 && (len(ip)-i)%3 == 0 {
				sb.WriteByte(',')
			}
			sb.WriteRune(c)
		}
		ip = sb.String()
	} else if chance(t, 10, "lead0") {
		ip = "00" + ip
	} else if ip == "0" && fp != "" && chance(t, 40, "noint") {
		ip = ""
	}
	num := ip
	if fp != "" {
		num += "." + fp
	} else if chance(t, 8, "dot") {
		num += "."
	}
	c := ccy
	if ccyNeedsQuote(ccy) || chance(t, 15, "quote") {
		c = `"` + ccy + `"`
	}
	sp := func(l string) string { return strings.Repeat(" ", pick(t, []int{0, 1, 1, 2}, l)) }
	sign := ""
	if neg {
		sign = "-"
	}
	if chance(t, 60, "ccyfirst") {
		if neg && chance(t, 50, "signfirst") {
			return "-" + c + sp("s1") + num
		}
		return c + sp("s2") + sign + num
	}
	return sign + num + sp("s3") + c
}

var payeeWords = []string{"Tesco", "Rent", "Aldi", "ACME Inc.", "Zoë", "a-b", "x / y", "50% off", "Joe's", "T", "Tes", "Tesco 2", "(2)", "日本", "A\tB", `say "hi"`, "*star", "a;b", "= x", "1st", ""}

func genPayee(t *rapid.T) string {
	p := pick(t, payeeWords, "payee")
	if chance(t, 15, "p2") {
		p += " " + pick(t, payeeWords, "payee2")
	}
	return strings.TrimSpace(p)
}

var notes = []string{"", "", "", "note", "a; b", "x  y", `q"uote`, "café", "123", "12 USD", "@ 3", "<b>&amp;", "a, b", "trailing.", "* star", "\\back %s %d"}

func genNote(t *rapid.T) string { return pick(t, notes, "note") }

// ---- balanced transactions (no text) ----------------------------------------

// BookSpec says what random books look like.
type BookSpec struct {
	Accts, CCYs []string
	Dates       []int
	Trans       int
	Prices      int
	Big         bool
	Notes       bool
	Payees      []string
}

func genSpec(t *rapid.T) BookSpec {
	s := BookSpec{Accts: genAccts(t, 6), CCYs: genCCYs(t, 4, true), Dates: genDates(t, 5), Trans: intn(t, 1, 8, "ntrans"), Prices: intn(t, 0, 5, "nprices"), Notes: true}
	k := intn(t, 1, 4, "npayees")
	for i := 0; i < k; i++ {
		s.Payees = append(s.Payees, genPayee(t))
	}
	if chance(t, 3, "manysame") { // so that they are numbered beyond ten
		s.Dates, s.Payees, s.Trans = s.Dates[:1], s.Payees[:1], intn(t, 10, 14, "nmany")
	}
	return s
}

type rawPost struct {
	Acct, CCY string
	Val       *big.Rat
	Note      string
}

// genBalanced makes the postings of one balanced transaction.
func genBalanced(t *rapid.T, s BookSpec) []rawPost {
	var ps []rawPost
	n := pick(t, []int{1, 1, 1, 2, 2, 3, 4}, "nposts")
	open := map[string]*big.Rat{}
	var order []string
	note := func() string {
		if s.Notes {
			return genNote(t)
		}
		return ""
	}
	all := len(s.CCYs) > 2 && chance(t, 12, "allccys")
	chain := len(s.Accts) > 12 // (all accounts in one transaction)
	for i := 0; i < n || all && i < len(s.CCYs) || chain && i < len(s.Accts); i++ {
		p := rawPost{pick(t, s.Accts, "acct"), pick(t, s.CCYs, "pccy"), genVal(t, s.Big), note()}
		if all && i < len(s.CCYs) {
			p.CCY = s.CCYs[i]
		}
		if chain && i < len(s.Accts) {
			p.Acct = s.Accts[i]
		}
		ps = append(ps, p)
		if open[p.CCY] == nil {
			open[p.CCY] = new(big.Rat)
			order = append(order, p.CCY)
		}
		open[p.CCY].Add(open[p.CCY], p.Val)
	}
	for _, c := range order {
		if open[c].Sign() != 0 {
			ps = append(ps, rawPost{pick(t, s.Accts, "bacct"), c, rneg(open[c]), note()})
		}
	}
	return ps
}

// ModelBuilder mirrors what loading does to payees.
type ModelBuilder struct {
	m    MBook
	prev map[string]bool
	d    int
	p, n string
}

func newModelBuilder() *ModelBuilder { return &ModelBuilder{prev: map[string]bool{}} }

func (b *ModelBuilder) start(d int, payee, note string) {
	b.d, b.n, b.p = d, note, payee
	for i := 2; b.prev[fmt.Sprint(d, " ", b.p)]; i++ {
		b.p = strings.TrimSpace(fmt.Sprintf("%s (%d)", payee, i))
	}
	b.prev[fmt.Sprint(d, " ", b.p)] = true
}

func (b *ModelBuilder) post(acct, ccy string, v *big.Rat, note string) {
	b.m.Posts = append(b.m.Posts, MPost{Date: b.d, Payee: b.p, TNotes: []string{b.n}, Acct: acct, CCY: ccy, Val: rcopy(v), Notes: []string{note}})
}

// genPrices makes prices with at most one per pair and date, never both directions of a pair.
func genPrices(t *rapid.T, ccys []string, dates []int, n int) []MPrice {
	var out []MPrice
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		a, b := pick(t, ccys, "unit"), pick(t, ccys, "in")
		d := pick(t, dates, "pdate")
		if chance(t, 40, "otherdate") {
			d = genDate(t)
		}
		v := genDec(t, false).rat()
		if a == b || v.Sign() == 0 || seen[b+"\x00"+a] {
			continue
		}
		k := fmt.Sprint(a, "\x00", b, d)
		if seen[k] {
			continue
		}
		seen[k] = true
		seen[a+"\x00"+b] = true
		out = append(out, MPrice{d, a, b, v})
	}
	return out
}

// ---- ledger text --------------------------------------------------------------

// LCase is a ledger (with included files) and what loading it must give.
type LCase struct {
	Files map[string]string
	Main  string
	Want  MBook
	Feat  []string       // what the text contains, for classification
	Dec   map[string]int // decimals needed by each currency's amounts as written
	Void  bool           // some transaction has no surviving posting
}

type ledgerGen struct {
	t     *rapid.T
	s     BookSpec
	mb    *ModelBuilder
	files map[string]string
	nfile int
	left  int // transactions still to write
	feat  map[string]bool
	plain bool
	seenP map[string]bool
}

// genLedger makes a random ledger; plain ledgers use one spelling and one file.
func genLedger(t *rapid.T, s BookSpec, plain bool) LCase {
	g := &ledgerGen{t: t, s: s, mb: newModelBuilder(), files: map[string]string{}, left: s.Trans, feat: map[string]bool{}, plain: plain, seenP: map[string]bool{}}
	g.file("main.ledger", map[string]string{}, 0)
	c := LCase{Files: g.files, Main: "main.ledger", Want: g.mb.m.norm()}
	c.Dec = decimalsOf(g.mb.m.Posts)
	c.Void = len(g.mb.prev) != len(c.Want.keys())
	for f := range g.feat {
		c.Feat = append(c.Feat, f)
	}
	sortStrings(c.Feat)
	return c
}

func (g *ledgerGen) file(name string, alias map[string]string, depth int) {
	t := g.t
	al := map[string]string{}
	for k, v := range alias {
		al[k] = v
	}
	var sb strings.Builder
	prices := genPrices(t, g.s.CCYs, g.s.Dates, g.s.Prices)
	if depth > 0 {
		prices = nil
	}
	for {
		if g.left == 0 && len(prices) == 0 {
			break
		}
		k := intn(t, 0, 99, "item")
		switch {
		case g.plain || k < 50 || (g.left == 0 && len(prices) == 0):
			if g.left > 0 {
				g.left--
				g.transaction(&sb, al)
			} else if len(prices) > 0 {
				g.price(&sb, prices[0])
				prices = prices[1:]
			}
		case k < 62:
			if len(prices) > 0 {
				g.price(&sb, prices[0])
				prices = prices[1:]
			}
		case k < 68:
			sb.WriteString(pick(t, []string{"; a comment\n", ";\n", "   ; indented comment\n", "; 2020/01/01 not a transaction\n", ";P 2020/01/01\n"}, "comment"))
			g.feat["comment"] = true
		case k < 74:
			sb.WriteString(pick(t, []string{"\n", "   \n", "\t\n", "\n\n"}, "blank"))
		case k < 78:
			sb.WriteString(pick(t, []string{"D 1,000.00 USD\n", "= /Expense/\n", "=\n", "D\n"}, "ignored"))
			g.feat["ignored"] = true
		case k < 90:
			long := pick(t, g.s.Accts, "aliaslong")
			short := pick(t, []string{"a1", "cash", "X", "Bank", "Asset", "Expense"}, "aliasshort")
			if has(g.s.Accts, long) {
				al[short] = long
				fmt.Fprintf(&sb, "%s %s%s=%s%s\n", pick(t, []string{"alias", "ALIAS", "Alias"}, "akw"), short, pick(t, []string{"", " ", "  "}, "as1"), pick(t, []string{"", " "}, "as2"), long)
				g.feat["alias"] = true
			}
		default:
			if depth < 2 && g.nfile < 4 {
				g.nfile++
				sub := fmt.Sprintf("inc%d.ledger", g.nfile)
				rel := sub
				switch intn(t, 0, 2, "dir") {
				case 1:
					rel = "sub/" + sub
				case 2:
					rel = "sub dir/" + sub
				}
				dir := ""
				if i := strings.LastIndexByte(name, '/'); i >= 0 {
					dir = name[:i+1]
				}
				if chance(t, 40, "incq") {
					fmt.Fprintf(&sb, "include \"%s\"\n", rel)
				} else {
					fmt.Fprintf(&sb, "%s %s\n", pick(t, []string{"include", "INCLUDE"}, "ikw"), rel)
				}
				g.feat["include"] = true
				if chance(t, 25, "incempty") {
					g.files[dir+rel] = ""
				} else {
					g.file(dir+rel, al, depth+1)
				}
			}
		}
		if depth > 0 && chance(t, 30, "endfile") {
			break
		}
	}
	out := sb.String()
	if !g.plain && chance(t, 20, "noeol") {
		out = strings.TrimSuffix(out, "\n")
		g.feat["no final newline"] = true
	}
	g.files[name] = out
}

func (g *ledgerGen) date(d int) string {
	y, m, dd := d/10000, (d/100)%100, d%100
	if g.plain || chance(g.t, 70, "datepad") {
		return fmt.Sprintf("%04d/%02d/%02d", y, m, dd)
	}
	return fmt.Sprintf("%d/%d/%d", y, m, dd)
}

func (g *ledgerGen) price(sb *strings.Builder, p MPrice) {
	t := g.t
	unit := p.Unit
	if ccyNeedsQuote(unit) {
		unit = `"` + unit + `"`
	}
	amt := ""
	if g.plain {
		amt = plainAmt(p.CCY, p.Val)
	} else {
		amt = spell(t, p.CCY, p.Val)
	}
	end := ""
	if !g.plain {
		end = pick(t, []string{"", "", "  ", "  ; price note"}, "pend")
	}
	fmt.Fprintf(sb, "P %s %s %s %s%s\n", g.date(p.Date), pick(t, []string{"00:00:00", "1:2:3", "23:59:59"}, "time"), unit, amt, end)
	g.mb.m.Prices = append(g.mb.m.Prices, p)
	g.feat["price"] = true
}

func plainAmt(ccy string, v *big.Rat) string {
	c := ccy
	if ccyNeedsQuote(c) {
		c = `"` + c + `"`
	}
	return c + " " + exactText(v)
}

// payeeText writes a payee in a header after the date.
func (g *ledgerGen) payeeText(p string) string {
	canPlain := !strings.ContainsAny(p, ";") && !strings.HasPrefix(p, `"`)
	canQuote := !strings.Contains(p, `"`)
	star := ""
	if strings.HasPrefix(p, "*") || (!g.plain && chance(g.t, 20, "star")) {
		star = "* "
	}
	if canQuote && (!canPlain || (!g.plain && chance(g.t, 20, "pq"))) {
		g.feat["quoted payee"] = true
		return star + `"` + p + `"`
	}
	return star + p
}

func (g *ledgerGen) transaction(sb *strings.Builder, al map[string]string) {
	t := g.t
	d := pick(t, g.s.Dates, "tdate")
	payee := pick(t, g.s.Payees, "tpayee")
	if strings.ContainsAny(payee, ";") && strings.Contains(payee, `"`) {
		payee = "Tesco"
	}
	tnote := ""
	if g.s.Notes {
		tnote = genNote(t)
	}
	g.mb.start(d, payee, tnote)
	if g.mb.p != payee {
		g.feat["repeated payee"] = true
	}
	sb.WriteString(g.date(d) + " " + g.payeeText(payee))
	if tnote != "" {
		sb.WriteString(pick(t, []string{" ; ", "  ;", ";"}, "nsep") + tnote)
	}
	sb.WriteString("\n")

	// The written account for a target account (reverse alias, if any stands for it).
	var ps []rawPost
	if !g.plain && chance(t, 8, "zerotrans") {
		a := pick(t, g.s.Accts, "za")
		v := genVal(t, g.s.Big)
		c := pick(t, g.s.CCYs, "zc")
		ps = []rawPost{{a, c, v, ""}, {a, c, rneg(v), ""}}
		g.feat["vanishing transaction"] = true
	} else {
		ps = genBalanced(t, g.s)
	}
	if !g.plain && len(ps) > 1 && chance(t, 30, "perm") {
		ps = rapid.Permutation(ps).Draw(t, "order")
	}
	// Implicit postings: replace a suffix of balancing postings, or put one in between.
	implicit := -1
	if !g.plain && chance(t, 45, "implicit") {
		implicit = intn(t, 1, len(ps), "implat")
	}
	open := map[string]*big.Rat{}
	emit := func(p rawPost, amt string) {
		acct := p.Acct
		for s, l := range al {
			_ = s
			_ = l
		}
		shorts := []string{}
		for s, l := range al {
			if l == p.Acct {
				shorts = append(shorts, s)
			}
		}
		if len(shorts) > 0 {
			sortStrings(shorts)
			if chance(t, 60, "usealias") {
				acct = pick(t, shorts, "short")
				g.feat["alias used"] = true
			}
		}
		if l, ok := al[acct]; ok && l != p.Acct {
			// the plain name is itself an alias of another account
			p.Acct = l
			g.feat["alias shadows account"] = true
		}
		if !g.plain {
			switch intn(t, 0, 11, "wrap") {
			case 10:
				acct = "!" + acct
			case 11:
				acct = "[" + acct + "]"
			}
		}
		ind := "  "
		if !g.plain {
			ind = pick(t, []string{"  ", "    ", "\t", " "}, "indent")
		}
		sb.WriteString(ind + acct)
		if amt != "" {
			sb.WriteString(pick(t, []string{"  ", " ", "\t", "        "}, "gap") + amt)
			if !g.plain && chance(t, 10, "at") {
				sb.WriteString(pick(t, []string{" @ ", " @ ", "@ ", " @", "@"}, "ats") + spell(t, pick(t, g.s.CCYs, "atc"), genDec(t, false).rat()))
				g.feat["@ price"] = true
			}
		} else if !g.plain && chance(t, 30, "trail") {
			sb.WriteString("  ")
		}
		if p.Note != "" {
			sb.WriteString(pick(t, []string{"  ; ", ";", " ;"}, "psep") + p.Note)
		} else if !g.plain && chance(t, 10, "trail2") {
			sb.WriteString("  ")
		}
		sb.WriteString("\n")
		if amt == "" {
			cs := []string{}
			for c, v := range open {
				if v.Sign() != 0 {
					cs = append(cs, c)
				}
			}
			sortStrings(cs)
			if len(cs) > 1 {
				g.feat["implicit over several currencies"] = true
			}
			for _, c := range cs {
				g.mb.post(p.Acct, c, rneg(open[c]), p.Note)
				open[c] = new(big.Rat)
			}
			g.feat["implicit"] = true
			return
		}
		g.mb.post(p.Acct, p.CCY, p.Val, p.Note)
		if open[p.CCY] == nil {
			open[p.CCY] = new(big.Rat)
		}
		open[p.CCY] = radd(open[p.CCY], p.Val)
	}
	amt := func(p rawPost) string {
		if g.plain {
			return plainAmt(p.CCY, p.Val)
		}
		return spell(t, p.CCY, p.Val)
	}
	for i, p := range ps {
		if i == implicit {
			emit(rawPost{pick(t, g.s.Accts, "ia"), "", nil, genNoteIf(t, g.s.Notes)}, "")
			// The rest must balance by itself: an implicit posting closes it.
			for _, q := range ps[i:] {
				if chance(t, 50, "more") {
					emit(q, amt(q))
				}
			}
			break
		}
		emit(p, amt(p))
	}
	for _, v := range open {
		if v.Sign() != 0 {
			emit(rawPost{pick(t, g.s.Accts, "ic"), "", nil, genNoteIf(t, g.s.Notes)}, "")
			break
		}
	}
	if !g.plain && chance(t, 50, "gapline") {
		sb.WriteString("\n")
	}
}

func genNoteIf(t *rapid.T, on bool) string {
	if on {
		return genNote(t)
	}
	return ""
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
