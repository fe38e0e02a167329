package main

import (
	"encoding/csv"
	"math/big"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

func genRichLedger(t *rapid.T) LCase {
	s := genSpec(t)
	s.Big = chance(t, 40, "big")
	return genLedger(t, s, false)
}

// loadCase writes a ledger case and loads it.
func loadCase(c LCase, x *Ctx) (MBook, error) {
	d := x.WriteFiles(c.Files)
	b, err := loadFile(filepath.Join(d, c.Main))
	if err != nil {
		return MBook{}, viol("loading a valid ledger failed: %v\n%s", err, filesText(c.Files))
	}
	return observe(b), nil
}

func filesText(f map[string]string) string {
	var sb strings.Builder
	names := []string{}
	for n := range f {
		names = append(names, n)
	}
	sortStrings(names)
	for _, n := range names {
		sb.WriteString("--- " + n + "\n" + f[n] + "\n")
	}
	return sb.String()
}

func (c LCase) label(x *Ctx) {
	for _, f := range c.Feat {
		x.Label("%s", f)
	}
}

func init() {
	register(&Prop{
		ID:   "C01",
		Rule: "random ledgers over the whole accepted grammar, generated together with the book they mean; non-trivial = at least one surviving posting and a spelling feature beyond the plain one",
		Assumptions: []string{
			"the accepted grammar is the one the parser implements; CR line ends, alias chains, include cycles and text after a complete line are outside the generated domain",
			"when postings (or transactions) are merged their note is one of the merged ones",
		},
		Facets: []*Facet{
			facet("load", 6000, 200000, genRichLedger, func(c LCase, x *Ctx) error {
				got, err := loadCase(c, x)
				if err != nil {
					return err
				}
				c.label(x)
				if len(c.Want.Posts) > 0 && len(c.Feat) > 0 {
					x.NT()
				}
				if err := diffBooks(got, c.Want, true); err != nil {
					return viol("%v\n%s", err, filesText(c.Files))
				}
				return nil
			}),
			facet("binary", 250, 4000, genRichLedger, func(c LCase, x *Ctx) error {
				d := x.WriteFiles(c.Files)
				r := x.goledger(d, "", nil, "-l", c.Main, "export", "--type=CSV")
				if r.Code != 0 {
					return viol("exit %d: %s\n%s", r.Code, r.Err, filesText(c.Files))
				}
				if len(c.Want.Posts) > 0 {
					x.NT()
				}
				got, err := parseCSVExport(r.Out)
				if err != nil {
					return err
				}
				return diffPosts(got, noBal(c.Want.Posts), true)
			}),
		},
	})
}

// parseCSVExport reads the CSV export back into postings.
func parseCSVExport(s string) ([]MPost, error) {
	rd := csv.NewReader(strings.NewReader(s))
	rows, err := rd.ReadAll()
	if err != nil {
		return nil, viol("CSV export is not well formed: %v\n%s", err, cut(s, 1000))
	}
	if len(rows) == 0 || strings.Join(rows[0], ",") != "date,payee,transaction_note,account,currency,amount,post_note" {
		return nil, viol("CSV export without the header: %s", cut(s, 300))
	}
	var out []MPost
	for _, r := range rows[1:] {
		d, err := parseSlashDate(r[0])
		if err != nil {
			return nil, err
		}
		v, ok := new(big.Rat).SetString(r[5])
		if !ok {
			return nil, viol("CSV amount %q", r[5])
		}
		out = append(out, MPost{Date: d, Payee: r[1], TNotes: []string{r[2]}, Acct: r[3], CCY: r[4], Val: v, Notes: []string{r[6]}})
	}
	return out, nil
}

func parseSlashDate(s string) (int, error) {
	if len(s) != 10 || s[4] != '/' || s[7] != '/' {
		return 0, viol("date %q is not YYYY/MM/DD", s)
	}
	n := 0
	for i, c := range s {
		if i == 4 || i == 7 {
			continue
		}
		if c < '0' || c > '9' {
			return 0, viol("date %q is not YYYY/MM/DD", s)
		}
		n = n*10 + int(c-'0')
	}
	return n, nil
}
