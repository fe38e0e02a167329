package main

import (
	"math/big"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// An independent, line-by-line reading of ledger text: what is certainly valid (and what
// it means), what is certainly invalid (and on which line), and what is left open.

type refVerdict int

const (
	refOK refVerdict = iota
	refBad
	refOpen
)

type refResult struct {
	V      refVerdict
	File   string // of the error
	Line   int    // of the error, 0 if it has none of its own
	Why    string
	M      MBook
	Header bool // the error is an imbalance
}

type refParser struct {
	files   map[string]string
	mb      *ModelBuilder
	open    map[string]*big.Rat
	started bool
	res     refResult
	steps   int
}

const (
	rxDate  = `(\d{1,4})/(\d{1,2})/(\d{1,2})`
	rxAcct  = `(?:!|\[)?([A-Za-z0-9&':_]+)\]?`
	rxCcyS  = `(?:"[^"\n]+"|[^;@\s\-.0-9",\x00-\x1f]+)`
	rxNumS  = `(?:(?:\d{1,3}(?:,\d{3})+|\d+)(?:\.\d*)?|\.\d+)`
	rxAmtS  = `(?:-?` + rxCcyS + `[ \t]*` + rxNumS + `|` + rxCcyS + `[ \t]*-` + rxNumS + `|-?` + rxNumS + `[ \t]*` + rxCcyS + `)`
	rxCcyL  = `(?:"[^"]*"|[^;@\s\-.0-9]+)`
	rxNumL  = `(?:[0-9,]*\.?[0-9,]*)`
	rxAmtL  = `(?:` + rxCcyL + `\s*-?\s*` + rxNumL + `|-?\s*` + rxNumL + `\s*` + rxCcyL + `)`
	rxNoteS = `(?:[ \t]*;(.*))?[ \t]*`
)

var (
	reHeadStart = regexp.MustCompile(`^` + rxDate + `(?:[^0-9]|$)`)
	reHeadS     = regexp.MustCompile(`^` + rxDate + `[ \t]+(?:\*[ \t]*)?("[^"]*"|[^;"*\s][^;]*?)[ \t]*(?:;(.*))?$`)
	reHeadQuote = regexp.MustCompile(`^` + rxDate + `[ \t]+(?:\*[ \t]*)?"(?:[^"]*$|[^"]*"[ \t]*[^; \t])`)
	rePriceS    = regexp.MustCompile(`^P[ \t]+` + rxDate + `[ \t]+\d{1,2}:\d{1,2}:\d{1,2}[ \t]+(` + rxCcyS + `)[ \t]+(` + rxAmtS + `)` + rxNoteS + `$`)
	rePriceL    = regexp.MustCompile(`^P\s*` + rxDate + `\s*\d{1,2}:\d{1,2}:\d{1,2}\s*` + rxCcyL + `\s*` + rxAmtL + `\s*(?:;.*)?$`)
	rePriceD    = regexp.MustCompile(`^P\s*` + rxDate)
	rePostS     = regexp.MustCompile(`^[ \t]+` + rxAcct + `(?:[ \t]+(` + rxAmtS + `)(?:[ \t]*@[ \t]*` + rxAmtS + `)?)?` + rxNoteS + `$`)
	rePostL     = regexp.MustCompile(`^\s+` + rxAcct + `\s*(?:-?\s*` + rxAmtL + `\s*(?:@\s*` + rxAmtL + `)?)?\s*(?:;.*)?$`)
	reAliasS    = regexp.MustCompile(`^(?i:alias)[ \t]+([A-Za-z0-9&':_]+)[ \t]*=[ \t]*([A-Za-z0-9&':_]+)` + rxNoteS + `$`)
	reAliasL    = regexp.MustCompile(`^(?i:alias)\s*` + rxAcct + `\s*=\s*` + rxAcct + `\s*(?:;.*)?$`)
	reInclS     = regexp.MustCompile(`^(?i:include)[ \t]+(?:"([^"]+)"|([^"\s](?:[^"]*[^"\s])?))$`)
	reInclL     = regexp.MustCompile(`^(?i:include)(?:\s|")+\S`)
	reNum       = regexp.MustCompile(rxNumS)
)

func dateParts(m []string) int {
	y, _ := strconv.Atoi(m[1])
	mo, _ := strconv.Atoi(m[2])
	d, _ := strconv.Atoi(m[3])
	return y*10000 + mo*100 + d
}

// refAmt reads a strictly spelled amount.
func refAmt(s string) (string, *big.Rat) {
	ccy := ""
	rest := s
	if i := strings.IndexByte(s, '"'); i >= 0 {
		j := i + 1 + strings.IndexByte(s[i+1:], '"')
		ccy = s[i+1 : j]
		rest = s[:i] + s[j+1:]
	}
	num := reNum.FindString(rest)
	if ccy == "" {
		i := strings.Index(rest, num)
		ccy = strings.TrimSpace(strings.TrimLeft(strings.TrimRight(strings.TrimSpace(rest[:i]), "-"), "-")) + strings.TrimSpace(rest[i+len(num):])
	}
	n := strings.ReplaceAll(num, ",", "")
	if strings.HasPrefix(n, ".") {
		n = "0" + n
	}
	v := ratStr(strings.TrimSuffix(n, "."))
	// a sign stands before the number or before the currency, never inside a quoted currency
	if strings.Contains(strings.Replace(rest, num, "", 1), "-") {
		v = rneg(v)
	}
	return ccy, v
}

func refParse(files map[string]string, main string) refResult {
	p := &refParser{files: files, mb: newModelBuilder(), open: map[string]*big.Rat{}}
	for _, s := range files {
		if !utf8.ValidString(s) {
			return refResult{V: refOpen, Why: "not UTF-8"}
		}
		for _, r := range s {
			if r != ' ' && r != '\t' && r != '\n' && unicode.IsSpace(r) {
				return refResult{V: refOpen, Why: "unusual white space"}
			}
		}
	}
	if p.file(main, map[string]string{}, nil) && !p.balanced() {
		p.fail(main, 0, "last transaction does not balance")
	}
	if p.res.V == refOK {
		p.res.M = p.mb.m.norm()
	}
	return p.res
}

func (p *refParser) fail(f string, l int, why string) bool {
	p.res = refResult{V: refBad, File: f, Line: l, Why: why}
	return false
}

func (p *refParser) openq(why string) bool {
	p.res = refResult{V: refOpen, Why: why}
	return false
}

func (p *refParser) balanced() bool {
	for _, v := range p.open {
		if v.Sign() != 0 {
			return false
		}
	}
	return true
}

func (p *refParser) file(name string, alias map[string]string, parents []string) bool {
	if has(parents, name) {
		return p.fail(name, 0, "include cycle")
	}
	text, ok := p.files[name]
	if !ok {
		return p.fail(name, 0, "missing file")
	}
	parents = append(append([]string{}, parents...), name)
	al := map[string]string{}
	for k, v := range alias {
		al[k] = v
	}
	for i, line := range strings.Split(text, "\n") {
		if p.steps++; p.steps > 20000 {
			return p.openq("too long")
		}
		if !p.line(name, i+1, line, al, parents) {
			return false
		}
	}
	return true
}

func (p *refParser) line(name string, n int, line string, al map[string]string, parents []string) bool {
	trim := strings.TrimLeft(line, " \t")
	if trim == "" || trim[0] == ';' {
		return true
	}
	if trim != line { // indented
		if !p.started {
			return p.fail(name, n, "posting outside of any transaction")
		}
		m := rePostS.FindStringSubmatch(line)
		if m == nil {
			if !rePostL.MatchString(line) {
				return p.fail(name, n, "not a posting")
			}
			return p.openq("posting spelling")
		}
		acct, amt, note := m[1], m[2], strings.TrimLeft(m[3], " \t")
		if l, ok := al[acct]; ok {
			acct = l
		}
		if m[3] == "" {
			note = ""
		} else {
			// the note keeps its trailing white space
			k := strings.Index(line, ";")
			if q := strings.IndexByte(line, '"'); q >= 0 && q < k {
				return p.openq("note after a quoted currency")
			}
			note = strings.TrimLeft(line[k+1:], " \t")
		}
		if amt == "" {
			cs := []string{}
			for c, v := range p.open {
				if v.Sign() != 0 {
					cs = append(cs, c)
				}
			}
			sortStrings(cs)
			for _, c := range cs {
				p.mb.post(acct, c, rneg(p.open[c]), note)
				p.open[c] = new(big.Rat)
			}
			return true
		}
		ccy, v := refAmt(amt)
		p.mb.post(acct, ccy, v, note)
		if p.open[ccy] == nil {
			p.open[ccy] = new(big.Rat)
		}
		p.open[ccy] = radd(p.open[ccy], v)
		return true
	}
	c := line[0]
	switch {
	case c == '=':
		return true
	case c == 'D':
		if line == "D" || strings.HasPrefix(line, "D ") {
			return true
		}
		return p.openq("D directive")
	case c == 'P':
		m := rePriceS.FindStringSubmatch(line)
		if m == nil || !validDate(dateParts(m)) {
			if d := rePriceD.FindStringSubmatch(line); d == nil || !validDate(dateParts(d)) || !rePriceL.MatchString(line) {
				return p.fail(name, n, "not a price")
			}
			return p.openq("price spelling")
		}
		if a := strings.TrimLeft(m[5], " \t"); len(a) > 1 && a[0] == '-' && !strings.ContainsRune("0123456789.", rune(a[1])) {
			return p.openq("sign before the currency of a price")
		}
		ccy, v := refAmt(m[5])
		p.mb.m.Prices = append(p.mb.m.Prices, MPrice{dateParts(m), strings.Trim(m[4], `"`), ccy, v})
		return true
	case c >= '0' && c <= '9':
		d := reHeadStart.FindStringSubmatch(line)
		if d == nil || !validDate(dateParts(d)) {
			return p.fail(name, n, "not a date")
		}
		if reHeadQuote.MatchString(line) {
			return p.fail(name, n, "quoted payee")
		}
		m := reHeadS.FindStringSubmatch(line)
		if m == nil {
			return p.openq("header spelling")
		}
		if !p.balanced() {
			p.fail(name, 0, "transaction does not balance")
			p.res.Header = true
			return false
		}
		payee := m[4]
		if strings.HasPrefix(payee, `"`) {
			payee = strings.Trim(payee, `"`)
		}
		note := strings.TrimLeft(m[5], " \t")
		p.mb.start(dateParts(m), strings.TrimSpace(payee), note)
		p.started = true
		return true
	}
	low := strings.ToLower(line)
	switch {
	case strings.HasPrefix(low, "include"):
		m := reInclS.FindStringSubmatch(line)
		if m == nil {
			if !reInclL.MatchString(line) {
				if low == "include" || strings.TrimSpace(low) == "include" {
					return p.fail(name, n, "include without file")
				}
				return p.openq("include spelling")
			}
			return p.openq("include spelling")
		}
		sub := filepath.Join(filepath.Dir(name), m[1]+m[2])
		return p.file(sub, al, parents)
	case strings.HasPrefix(low, "alias"):
		m := reAliasS.FindStringSubmatch(line)
		if m == nil {
			if !reAliasL.MatchString(line) {
				return p.fail(name, n, "not an alias")
			}
			return p.openq("alias spelling")
		}
		al[m[1]] = m[2]
		return true
	}
	return p.fail(name, n, "unknown directive")
}
