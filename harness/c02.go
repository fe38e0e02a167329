package main

import (
	"fmt"
	"math/big"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/mescanne/goledger/book"
	"pgregory.net/rapid"
)

// A ledger in which exactly one transaction does not balance.
type UnbalCase struct {
	Head, Bad, Tail string // text before, of and after the bad transaction
	InInclude       bool
	Where           string
	Diff            string
	CCY             string
	Pair            bool // Bad is two transactions that cancel
}

func genUnbal(t *rapid.T) UnbalCase {
	s := genSpec(t)
	s.Trans = intn(t, 0, 4, "before")
	s.Big = chance(t, 40, "big")
	head := genLedger(t, s, chance(t, 50, "plainhead"))
	// only the main file's text is used; drop includes
	var keep []string
	for _, l := range strings.Split(head.Files[head.Main], "\n") {
		if !strings.HasPrefix(strings.ToLower(l), "include") {
			keep = append(keep, l)
		}
	}
	h := strings.TrimRight(strings.Join(keep, "\n"), "\n")
	if h != "" {
		h += "\n"
	}
	ps := genBalanced(t, s)
	// change one amount, or drop a posting, or add one
	how := intn(t, 0, 2, "how")
	c := UnbalCase{Head: h}
	ps0 := append([]rawPost{}, ps...)
	i := intn(t, 0, len(ps)-1, "which")
	switch how {
	case 0:
		d := genDec(t, s.Big).rat()
		if chance(t, 30, "tiny") {
			d = new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(intn(t, 1, 25, "tinye"))), nil))
		}
		if d.Sign() == 0 {
			d = rat(1, 100)
		}
		ps[i].Val = radd(ps[i].Val, d)
	case 1:
		if ps[i].Val.Sign() == 0 {
			ps[i].Val = rat(1, 1)
		} else {
			ps = append(ps[:i], ps[i+1:]...)
		}
	default:
		v := genVal(t, s.Big)
		if v.Sign() == 0 {
			v = rat(3, 1)
		}
		ps = append(ps, rawPost{pick(t, s.Accts, "extra"), pick(t, s.CCYs, "extrac"), v, ""})
	}
	if len(ps) == 0 {
		ps = []rawPost{{s.Accts[0], s.CCYs[0], rat(5, 1), ""}}
	}
	sums := map[string]*big.Rat{}
	for _, p := range ps {
		if sums[p.CCY] == nil {
			sums[p.CCY] = new(big.Rat)
		}
		sums[p.CCY].Add(sums[p.CCY], p.Val)
	}
	bad := ""
	for _, p := range ps {
		if sums[p.CCY].Sign() != 0 {
			bad = p.CCY
		}
	}
	if bad == "" {
		ps = append(ps0, rawPost{s.Accts[0], s.CCYs[0], rat(1, 1000), ""})
		bad = s.CCYs[0]
	}
	c.CCY = bad
	var sb strings.Builder
	date, payee := dateText(pick(t, s.Dates, "bd")), "Bad one"
	fmt.Fprintf(&sb, "%s %s\n", date, payee)
	for _, p := range ps {
		fmt.Fprintf(&sb, "  %s  %s\n", p.Acct, plainAmt(p.CCY, p.Val))
	}
	if chance(t, 25, "again") {
		// a second bad transaction makes up for the first: their sum is nothing
		c.Pair = true
		sb.WriteString(pick(t, []string{"", "", "\n", "; comment\n", "P 2020/01/01 00:00:00 USD EUR 2\n", "2020/01/02 Good\n  A  1 USD\n  B  -1 USD\n", "include other.ledger\n"}, "between"))
		switch intn(t, 0, 3, "header") {
		case 0:
			payee = "Another"
		case 1:
			date = dateText(pick(t, s.Dates, "bd2"))
		}
		fmt.Fprintf(&sb, "%s %s\n", date, payee)
		for _, p := range ps {
			fmt.Fprintf(&sb, "  %s  %s\n", p.Acct, plainAmt(p.CCY, rneg(p.Val)))
		}
	}
	c.Bad = sb.String()
	switch intn(t, 0, 3, "tail") {
	case 0:
		c.Where = "last"
	case 1:
		c.Where = "last, blank lines follow"
		c.Tail = "\n; the end\n\n"
	case 2:
		c.Where = "last, prices follow"
		c.Tail = "P 2020/01/01 00:00:00 USD EUR 2\n"
	default:
		c.Where = "followed by transactions"
		s2 := s
		s2.Trans = intn(t, 1, 3, "after")
		s2.Prices = 0
		tl := genLedger(t, s2, true)
		c.Tail = tl.Files[tl.Main]
	}
	c.InInclude = chance(t, 25, "inc")
	return c
}

// balOps: operation sequences, dedup and reclassification, always balanced.
type BalOpsCase struct {
	L, Other LCase
	Steps    []BalStep
}

type BalStep struct {
	Op   *Op
	What string // dedup, reclassify, dup
	Acct string
}

func genBalOps(t *rapid.T) BalOpsCase {
	s := genSpec(t)
	c := BalOpsCase{L: genLedger(t, s, chance(t, 60, "plain"))}
	s2 := s
	s2.Trans = intn(t, 0, 5, "otrans")
	c.Other = genLedger(t, s2, true)
	dep := 0
	var names nameLen
	for i := intn(t, 1, 6, "steps"); i > 0; i-- {
		switch intn(t, 0, 9, "sk") {
		case 0:
			c.Steps = append(c.Steps, BalStep{What: "dedup"})
		case 1:
			c.Steps = append(c.Steps, BalStep{What: "reclassify", Acct: pick(t, s.Accts, "racct")})
		case 2:
			c.Steps = append(c.Steps, BalStep{What: "dup"})
		default:
			o := genOp(t, c.L.Want)
			if names.tooLong(c.L.Want, &o) {
				continue
			}
			if o.Kind == "depreciate" {
				dep++
				months, _ := strconv.Atoi(o.Num)
				if dep > 2 || dep > 1 && months > 24 || months*len(c.L.Want.Posts) > 6000 || maxDate(c.L.Want) > 98000101 {
					continue
				}
			}
			c.Steps = append(c.Steps, BalStep{Op: &o})
		}
	}
	return c
}

func init() {
	register(&Prop{
		ID:          "C02",
		Rule:        "ledgers with exactly one unbalanced transaction (or two that cancel each other) at a random position (first, middle, last, in an included file) by a random amount down to 1e-25; and random sequences of operations, de-duplication and reclassification on balanced books; non-trivial = the imbalance is real and the file otherwise valid / some operation changed the book",
		Assumptions: []string{"the rejecting load may report any error message, but it must not return a book"},
		Facets: []*Facet{
			facet("reject", 4000, 120000, genUnbal, func(c UnbalCase, x *Ctx) error {
				files := map[string]string{"other.ledger": "2020/01/03 Other\n  A  1 USD\n  B  -1 USD\n"}
				if c.Pair {
					x.Label("two that cancel")
				}
				if c.InInclude {
					files["main.ledger"] = c.Head + "include inc.ledger\n" + c.Tail
					files["inc.ledger"] = c.Bad
				} else {
					files["main.ledger"] = c.Head + c.Bad + c.Tail
				}
				d := x.WriteFiles(files)
				// the rest is a valid ledger of its own
				good := map[string]string{"good.ledger": c.Head + c.Tail}
				x.WriteFiles(good)
				if _, err := loadFile(filepath.Join(d, "good.ledger")); err != nil {
					return viol("valid part refused: %v\n%s", err, good["good.ledger"])
				}
				x.NT()
				x.Label("bad transaction %s", c.Where)
				if c.InInclude {
					x.Label("in an included file")
				}
				b, err := loadFile(filepath.Join(d, "main.ledger"))
				if err == nil {
					return viol("a ledger with an unbalanced transaction (%s) was accepted, it gave\n%s\n%s", c.CCY, dump(observe(b).Posts), filesText(files))
				}
				return nil
			}),
			facet("binary", 60, 1200, genUnbal, func(c UnbalCase, x *Ctx) error {
				d := x.WriteFiles(map[string]string{"main.ledger": c.Head + c.Bad + c.Tail, "other.ledger": "; nothing\n"})
				x.NT()
				r := x.goledger(d, "", nil, "-l", "main.ledger", "export", "--type=CSV")
				if err := r.crash(); err != nil {
					return err
				}
				if r.Code == 0 || r.Out != "" {
					return viol("unbalanced ledger: exit %d, stdout %q\n%s", r.Code, cut(r.Out, 500), c.Head+c.Bad+c.Tail)
				}
				return nil
			}),
			facet("script", 600, 15000, genUnbal, func(c UnbalCase, x *Ctx) error {
				// the builder that scripts use
				b := book.NewBookBuilder()
				var perr any
				func() {
					defer func() { perr = recover() }()
					for _, l := range strings.Split(strings.TrimSpace(c.Bad), "\n") {
						if l == "" || strings.ContainsAny(l[:1], ";Pi") {
							continue
						}
						if l[0] != ' ' {
							dt, payee, _ := strings.Cut(l, " ")
							n, _ := strconv.Atoi(strings.ReplaceAll(dt, "/", ""))
							b.NewTransaction(book.Date(n), payee, "")
							continue
						}
						f := strings.Fields(l)
						v := ratStr(f[len(f)-1])
						b.AddPosting(f[0], strings.Join(f[1:len(f)-1], " "), v, "")
					}
					if c.Where == "followed by transactions" {
						b.NewTransaction(book.Date(20200102), "x", "")
					}
					b.Build()
				}()
				x.NT()
				if perr == nil {
					return viol("the builder accepted an unbalanced transaction:\n%s", c.Bad)
				}
				return nil
			}),
			facet("operations", 3000, 100000, genBalOps, func(c BalOpsCase, x *Ctx) error {
				m, err := loadCase(c.L, x)
				if err != nil {
					return err
				}
				if err := checkBalanced(m.Posts); err != nil {
					return err
				}
				b, err := loadFile(filepath.Join(x.Tmp(), c.L.Main))
				if err != nil {
					return viol("%v", err)
				}
				other := buildOther(c.Other, x)
				for i, s := range c.Steps {
					before := observe(b)
					switch s.What {
					case "dedup":
						b.RemoveDuplicatesOf(other)
					case "reclassify":
						b.ReclassifyByAccount(other, s.Acct, func(a, bb string) float64 {
							if a == "" || bb == "" {
								return 0.1
							}
							if a[0] == bb[0] {
								return 1
							}
							return 0
						})
					case "dup":
						b = b.Duplicate()
					default:
						if err := applyReal(b, nil, s.Op.String()); err != nil {
							return viol("step %d %s: %v", i, s.Op, err)
						}
						x.Label("%s", s.Op.Kind)
					}
					if s.What != "" {
						x.Label("%s", s.What)
					}
					after := observe(b)
					if diffPosts(after.Posts, before.Posts, true) != nil {
						x.NT()
					}
					if err := checkBalanced(after.Posts); err != nil {
						return viol("after step %d (%v %s): %v\nbefore:\n%s", i, s.Op, s.What, err, dump(before.Posts))
					}
				}
				return nil
			}),
		},
	})
}

func buildOther(c LCase, x *Ctx) *book.Book {
	for n, s := range c.Files {
		x.WriteFiles(map[string]string{"other-" + n: s})
	}
	b, err := loadFile(filepath.Join(x.Tmp(), "other-"+c.Main))
	if err != nil {
		harness("other book: %v", err)
	}
	return b
}
