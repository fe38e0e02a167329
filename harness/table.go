package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"
	"unicode"
)

// Expected text output: numbers in each language, and aligned tables.

var langs = []string{"en", "nl", "de", "fr", "en", "nl", "de", "fr", "en-GB", "en-IN", "en-ZA", "de-AT", "de-CH", "nl-BE", "fr-CA", "fr-CH", "sv", "en-u-nu-deva", "fr-u-nu-thai"}

// normSpace makes the two no-break spaces used for grouping one and the same.
func normSpace(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\u202f", "\u00a0"), "\u2212", "-")
}

// fmtNum is the amount rounded to dec decimals in the language.
func fmtNum(lang string, dec int, v *big.Rat) string {
	s := v.FloatString(dec)
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	ip, fp := s, ""
	if i := strings.IndexByte(s, '.'); i >= 0 {
		ip, fp = s[:i], s[i+1:]
	}
	group, mark, zero, lakh := ",", ".", '0', false
	switch lang {
	case "nl", "nl-BE", "de":
		group, mark = ".", ","
	case "fr", "fr-CA", "fr-CH", "fr-u-nu-thai", "de-AT", "en-ZA":
		group, mark = "\u00a0", ","
	case "de-CH":
		group = "’"
	case "en-IN":
		lakh = true
	}
	switch {
	case strings.HasSuffix(lang, "-deva"):
		zero = '०'
	case strings.HasSuffix(lang, "-thai"):
		zero = '๐'
	}
	var sb strings.Builder
	if neg {
		sb.WriteByte('-')
	}
	for i, c := range ip {
		left := len(ip) - i
		if i > 0 && (!lakh && left%3 == 0 || lakh && (left == 3 || left > 3 && left%2 == 1)) {
			sb.WriteString(group)
		}
		sb.WriteRune(zero + c - '0')
	}
	if fp != "" {
		sb.WriteString(mark)
		for _, c := range fp {
			sb.WriteRune(zero + c - '0')
		}
	}
	return sb.String()
}

// fmtSym is how a currency is written before a number.
func fmtSym(c string) string {
	r := []rune(c)
	if len(r) > 0 && (unicode.IsLetter(r[len(r)-1]) || r[len(r)-1] == '"') {
		return c + " "
	}
	return c
}

// visible is the text without colour codes, tabs as blanks, unprintable characters left out.
var reAnsi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func visible(s string) string {
	s = reAnsi.ReplaceAllString(s, "")
	var sb strings.Builder
	for _, r := range s {
		if r == '\t' {
			sb.WriteByte(' ')
		} else if unicode.IsGraphic(r) {
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

type cell struct {
	text  string
	right bool
	sym   string // money: symbol at the left, number at the right
}

func textCell(s string) cell  { return cell{text: s} }
func rightCell(s string) cell { return cell{text: s, right: true} }

func money(lang string, dec map[string]int, ccy string, v *big.Rat) cell {
	d, ok := dec[ccy]
	if !ok {
		d = 2
	}
	return cell{text: fmtNum(lang, d, v), right: true, sym: fmtSym(ccy)}
}

// squeeze brings table lines to a form without alignment: the blanks around columns do not count.
func squeeze(s string) string {
	s = reAnsi.ReplaceAllString(normSpace(s), "")
	var sb strings.Builder
	for _, r := range s {
		if r == '\t' {
			r = ' '
		}
		if unicode.IsGraphic(r) {
			sb.WriteRune(r)
		}
	}
	return strings.Join(strings.Fields(sb.String()), " ")
}

// renderTable is the aligned table: each column as wide as its widest cell.
func renderTable(rows [][]cell) []string {
	if len(rows) == 0 {
		return nil
	}
	w := make([]int, len(rows[0]))
	vis := func(s string) string { return visible(s) }
	for _, r := range rows {
		for j, c := range r {
			if n := len([]rune(vis(c.sym))) + len([]rune(vis(c.text))); n > w[j] {
				w[j] = n
			}
		}
	}
	var out []string
	for _, r := range rows {
		var parts []string
		for j, c := range r {
			pad := strings.Repeat(" ", w[j]-len([]rune(vis(c.sym)))-len([]rune(vis(c.text))))
			if c.right {
				parts = append(parts, vis(c.sym)+pad+vis(c.text))
			} else {
				parts = append(parts, vis(c.sym)+vis(c.text)+pad)
			}
		}
		out = append(out, strings.Join(parts, " "))
	}
	return out
}

// tableLines are the printed lines without colour codes and blank lines.
func tableLines(s string) []string {
	var out []string
	for _, l := range strings.Split(reAnsi.ReplaceAllString(s, ""), "\n") {
		if l != "" {
			out = append(out, l)
		}
	}
	return out
}

// diffTable compares printed lines with the expected table; with align unset only the content counts.
func diffTable(got string, rows [][]cell, align bool) error {
	g, w := tableLines(got), renderTable(rows)
	show := func() string {
		return fmt.Sprintf("printed:\n%s\nexpected:\n%s", cut(reAnsi.ReplaceAllString(got, ""), 2500), cut(strings.Join(w, "\n"), 2500))
	}
	if len(g) != len(w) {
		return viol("%d lines printed, %d expected\n%s", len(g), len(w), show())
	}
	for i := range g {
		a, b := normSpace(g[i]), normSpace(w[i])
		if !align {
			a, b = squeeze(a), squeeze(b)
		}
		if a != b {
			return viol("line %d: printed %q, expected %q\n%s", i+1, a, b, show())
		}
	}
	return nil
}
