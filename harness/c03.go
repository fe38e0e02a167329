package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Lines that are invalid wherever a line may stand.
var badLines = []string{
	"2020/13/01 x", "2020/02/30 x", "2021/02/29 x", "1900/02/29 Leap", "2020/04/31 x", "2020/00/10 x", "2020/01/00 x", "2020-01-01 x", "2020/1 x", "20200101 x", "12345/01/01 x", "2020/01/011 x", "2020.01.01 x", "2020/01 x", "2020/ x", "0/01/01 x", "2020/01/32",
	`2020/01/01 "Tesco`, `2020/01/01 * "Tesco ; note`, `2020/01/01 "Tesco" x`,
	"P 2020/01/01 USD EUR 2", "P 2020/01/01 00:00 USD EUR 2", "P 2020/01/01 00:00:00 USD", "P 2020/02/30 00:00:00 USD EUR 2", "P 2020/01/01 00:00:00 USD EUR", "P 2020/01/01 00:00:00 USD EUR x", "P 2020/01/01 00:00:00 USD EUR 2 more", "P 2020/01/01 00:00:00 EUR 2", "P", "P 2020/01/01", "P 2020/01/01 00:00:00", `P 2020/01/01 00:00:00 "USD EUR 2`, "P 2020/13/01 00:00:00 USD EUR 2", "Price", "P x", "P 2020/01/01 00:00:00 USD 2", "P 2020/01/01 00:00:00 USD EUR -",
	"  Asset  USD", "  Asset  12", "  Asset  USD abc", "  Asset  12.50.1 USD", `  Asset  "USD 12`, `  Asset  12 "USD`, "  Asset  USD 12 @", "  Asset  USD 12 @ EUR", "  Asset  USD 12 @ 5", "  Asset  USD 12 garbage", "  USD", "  Asset  USD 1 EUR 2", "  Asset  USD -", "  Asset  USD --5", "  \"Asset\"  USD 5", "  Asset.X  USD 5", "  Asset-X  USD 5", "  Ässet  USD 5", "  Asset USD 12 USD", "  Asset  @ USD 2", "  (Asset)  USD 1", "  *  USD 1", "\tAsset\tUSD", "  Asset  .", "  Asset  USD .", "  Asset  USD ,", "  Asset  $", "  Asset  1e5",
	"foo bar", "account Asset:X", "tag x", "alias foo", "alias = x", "alias foo bar", "alias foo =", "alias", "alias foo = x y", "include", "includ x.ledger", "#comment", "*", "@", "x", "~ monthly", "!include x", "\"2020/01/01 x\"", "é", "comment", "end comment", "apply tag", "year 2020", "Y2020", "N $", "C 1 = 2", "\x00", "assert x", ">", "-", "_",
	"include nosuch.ledger", "include \"nosuch.ledger\"", "include sub", "include .",
}

// Validity of some of these depends on what is around them.
var ctxDependent = map[string]bool{"  USD": true, "  Asset USD 12 USD": false}

type BadLineCase struct {
	L    LCase
	File string
	At   int // line number (from 1) the bad line gets
	Bad  string
}

func genBadLine(t *rapid.T) BadLineCase {
	s := genSpec(t)
	s.Trans = intn(t, 0, 6, "ntr")
	c := BadLineCase{L: genLedger(t, s, chance(t, 20, "plain"))}
	names := []string{}
	for n := range c.L.Files {
		names = append(names, n)
	}
	sortStrings(names)
	c.File = pick(t, names, "file")
	for {
		c.Bad = pick(t, badLines, "badline")
		if !ctxDependent[c.Bad] {
			break
		}
	}
	lines := strings.Split(strings.TrimSuffix(c.L.Files[c.File], "\n"), "\n")
	c.At = intn(t, 1, len(lines)+1, "at")
	out := append([]string{}, lines[:c.At-1]...)
	out = append(out, c.Bad)
	out = append(out, lines[c.At-1:]...)
	files := map[string]string{}
	for n, x := range c.L.Files {
		files[n] = x
	}
	files[c.File] = strings.Join(out, "\n")
	if chance(t, 80, "eol") {
		files[c.File] += "\n"
	}
	c.L.Files = files
	return c
}

// orphan: a posting before any transaction.
type MutCase struct {
	Files map[string]string
	Main  string
	What  string
}

var mutTokens = []string{"\"", ";", "@", "-", ".", ",", "/", " ", "  ", "\t", "\n", "\n\n", "2020/01/01 x\n", "USD", "12", "=", "alias ", "include ", "P ", "D ", "*", "!", "[", "]", ":", "0", "9", "é", "\x00", "2", "Asset", "  Asset\n", "\n  Asset  USD 1\n"}

func genMut(t *rapid.T) MutCase {
	s := genSpec(t)
	s.Trans = intn(t, 0, 4, "ntr")
	c := genLedger(t, s, chance(t, 35, "plain"))
	names := []string{}
	for n := range c.Files {
		names = append(names, n)
	}
	sortStrings(names)
	f := pick(t, names, "file")
	b := []byte(c.Files[f])
	m := MutCase{Main: c.Main, Files: map[string]string{}}
	for n, x := range c.Files {
		m.Files[n] = x
	}
	pos := func() int { return intn(t, 0, len(b), "pos") }
	for k := pick(t, []int{1, 1, 1, 2, 3, 6}, "nmut"); k > 0; k-- {
		switch intn(t, 0, 7, "mk") {
		case 0, 1, 2:
			i := pos()
			ins := pick(t, mutTokens, "tok")
			b = append(b[:i:i], append([]byte(ins), b[i:]...)...)
		case 3, 4:
			if len(b) > 0 {
				i := pos()
				j := i + intn(t, 1, 8, "len")
				if j > len(b) {
					j = len(b)
				}
				b = append(b[:i:i], b[j:]...)
			}
		case 5:
			if len(b) > 0 {
				b = append([]byte{}, b...)
				b[intn(t, 0, len(b)-1, "bpos")] = byte(rapid.IntRange(0, 255).Draw(t, "byte"))
			}
		case 6:
			b = b[:pos()]
		default:
			i, j := pos(), pos()
			if i > j {
				i, j = j, i
			}
			if j-i > 200 {
				j = i + 200
			}
			seg := append([]byte{}, b[i:j]...)
			k := pos()
			b = append(b[:k:k], append(seg, b[k:]...)...)
		}
	}
	m.Files[f] = string(b)
	m.What = "mutated"
	return m
}

func genBytes(t *rapid.T) MutCase {
	m := MutCase{Main: "main.ledger", Files: map[string]string{}, What: "random"}
	var sb strings.Builder
	for i := intn(t, 0, 25, "nlines"); i > 0; i-- {
		switch intn(t, 0, 4, "lk") {
		case 0:
			sb.WriteString(pick(t, badLines, "bl"))
		case 1:
			sb.WriteString(pick(t, []string{"2020/01/01 x", "  A  USD 1", "  B  USD -1", "  B", "alias a = b", "include inc.ledger", "include main.ledger", "P 2020/01/01 1:1:1 USD EUR 1", "; c", "", "= x", "D x"}, "ok"))
		case 2:
			for k := intn(t, 1, 8, "nt"); k > 0; k-- {
				sb.WriteString(pick(t, mutTokens, "tok"))
			}
		case 3:
			sb.Write(rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes"))
		default:
			sb.WriteString(rapid.StringN(0, 20, 60).Draw(t, "str"))
		}
		if chance(t, 90, "nl") {
			sb.WriteString("\n")
		}
	}
	m.Files["main.ledger"] = sb.String()
	m.Files["inc.ledger"] = pick(t, []string{"", "  C  USD 0\n", "2020/01/01 y\n  A USD 1\n  B\n", "include main.ledger\n", "include inc.ledger\n", "x", "include sub/../inc.ledger\n"}, "inc")
	return m
}

// jsonable makes sure the case survives its JSON encoding (which needs valid UTF-8).
type RawCase struct {
	Files map[string][]byte
	Main  string
	What  string
}

func raw(m MutCase) RawCase {
	r := RawCase{Files: map[string][]byte{}, Main: m.Main, What: m.What}
	for n, s := range m.Files {
		r.Files[n] = []byte(s)
	}
	return r
}

func (r RawCase) files() map[string]string {
	o := map[string]string{}
	for n, b := range r.Files {
		o[n] = string(b)
	}
	return o
}

var reFirstInt = regexp.MustCompile(`[0-9]+`)

// namesLine: the error text names the file and then, as first number, the line.
func namesLine(msg, file string, line int) error {
	base := filepath.Base(file)
	i := strings.LastIndex(msg, base)
	if i < 0 {
		return viol("error does not name the file %s: %s", file, msg)
	}
	if line == 0 {
		return nil
	}
	n := reFirstInt.FindString(msg[i+len(base):])
	if n == "" {
		return viol("error does not name line %d of %s: %s", line, file, msg)
	}
	if got, _ := strconv.Atoi(n); got != line {
		return viol("error names line %s of %s, the invalid line is %d: %s", n, file, line, msg)
	}
	return nil
}

func checkAgainstRef(files map[string]string, main string, x *Ctx) error {
	d := x.WriteFiles(files)
	ref := refParse(files, main)
	b, err := loadFile(filepath.Join(d, main))
	if err != nil && strings.Contains(err.Error(), "runtime error") {
		x.Label("internal error reported")
	}
	switch ref.V {
	case refBad:
		x.NT()
		x.Label("refused: %s", ref.Why)
		if err == nil {
			return viol("accepted, but %s line %d is invalid (%s); it gave\n%s\n%s", ref.File, ref.Line, ref.Why, dump(observe(b).Posts), filesText(files))
		}
		if base := filepath.Base(ref.File); ref.Line > 0 || ref.Why == "missing file" && base != "." && base != ".." && base != "/" {
			if e := namesLine(err.Error(), ref.File, ref.Line); e != nil {
				return viol("%v\n%s", e, filesText(files))
			}
		}
	case refOK:
		x.Label("valid")
		if err != nil {
			return viol("a valid ledger was refused: %v\n%s", err, filesText(files))
		}
		if e := diffBooks(observe(b), ref.M, true); e != nil {
			return viol("%v\n%s", e, filesText(files))
		}
	default:
		x.Label("open: %s", ref.Why)
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C03",
		Rule: "valid ledgers (main file and includes) with one certainly invalid line inserted anywhere; mutated ledgers and arbitrary bytes, judged by an independent line-by-line reader as valid (then the content is compared), invalid (then the error must name file and line) or open (then only no crash, hang or partial output); non-trivial = something is certainly invalid",
		Assumptions: []string{
			"spellings that neither the documented format requires nor clearly excludes are judged only for crashes",
			"lines starting with D or = are directives that are ignored",
		},
		Facets: []*Facet{
			facet("badline", 6000, 200000, genBadLine, func(c BadLineCase, x *Ctx) error {
				d := x.WriteFiles(c.L.Files)
				if strings.HasPrefix(c.Bad, "include sub") {
					os.MkdirAll(filepath.Join(d, filepath.Dir(c.File), "sub"), 0755)
				}
				// an earlier error may come first (a file never reached, an unbalanced part)
				ref := refParse(c.L.Files, c.L.Main)
				b, err := loadFile(filepath.Join(d, c.L.Main))
				x.NT()
				if err == nil {
					return viol("accepted with the invalid line %q (%s line %d), it gave\n%s\n%s", c.Bad, c.File, c.At, dump(observe(b).Posts), filesText(c.L.Files))
				}
				x.Label("%s", strings.Fields(c.Bad + " .")[0][:1])
				if strings.HasPrefix(c.Bad, "include ") {
					return nil
				}
				if ref.V == refBad && ref.Line == 0 {
					x.Label("imbalance comes first")
					return nil
				}
				if e := namesLine(strings.ReplaceAll(err.Error(), d, ""), c.File, c.At); e != nil {
					return viol("%v\ninvalid line %q\n%s", e, c.Bad, filesText(c.L.Files))
				}
				return nil
			}),
			facet("mutated", 8000, 400000, func(t *rapid.T) RawCase { return raw(genMut(t)) }, func(c RawCase, x *Ctx) error {
				return checkAgainstRef(c.files(), c.Main, x)
			}),
			facet("bytes", 6000, 300000, func(t *rapid.T) RawCase { return raw(genBytes(t)) }, func(c RawCase, x *Ctx) error {
				return checkAgainstRef(c.files(), c.Main, x)
			}),
			facet("reference", 2500, 60000, genRichLedger, func(c LCase, x *Ctx) error {
				// the line-by-line reader itself against ledgers whose meaning is known
				ref := refParse(c.Files, c.Main)
				if ref.V == refBad {
					harness("reference reader refuses a valid ledger: %s:%d %s\n%s", ref.File, ref.Line, ref.Why, filesText(c.Files))
				}
				if ref.V == refOK {
					x.NT()
					if e := diffBooks(ref.M, c.Want, true); e != nil {
						harness("reference reader: %v\n%s", e, filesText(c.Files))
					}
				} else {
					x.Label("open: %s", ref.Why)
				}
				return nil
			}),
			facet("commands", 220, 4000, func(t *rapid.T) CmdMutCase {
				c := CmdMutCase{Args: pick(t, [][]string{{"export"}, {"report"}, {"report", "--sum", "--ccy=USD"}, {"register", "."}, {"accts"}, {"ccy"}, {"export", "--type=Beancount"}, {"report", "--type=Json"}, {"report", "--type=HTML"}, {"register", ".", "--type=CSV"}}, "cmd")}
				switch intn(t, 0, 4, "k") {
				case 0:
					c.RawCase = raw(genBytes(t))
				case 1:
					bl := genBadLine(t)
					c.RawCase = raw(MutCase{Files: bl.L.Files, Main: bl.L.Main, What: "bad line"})
				case 2:
					c.RawCase = RawCase{Main: pick(t, []string{"nosuch.ledger", "dir", "", "/dev/null/x"}, "missing"), Files: map[string][]byte{"dir/x": nil}, What: "unreadable"}
				default:
					c.RawCase = raw(genMut(t))
				}
				return c
			}, func(c CmdMutCase, x *Ctx) error {
				files := c.files()
				d := x.WriteFiles(files)
				a := append([]string{"-l", c.Main}, c.Args...)
				r := x.goledger(d, "", nil, a...)
				if err := r.crash(); err != nil {
					return viol("%v: %v\n%s", a, err, filesText(files))
				}
				x.Label("%s", c.What)
				bad := c.What == "unreadable" || c.What == "bad line"
				if !bad {
					bad = refParse(files, c.Main).V == refBad
				}
				if bad {
					x.NT()
					if r.Code == 0 {
						return viol("%v: exit status 0 for an invalid ledger\n%s", a, filesText(files))
					}
				}
				if r.Code != 0 && r.Out != "" && !strings.HasPrefix(r.Out, "error") {
					return viol("%v: failed (%s) but printed %q", a, cut(r.Err, 300), cut(r.Out, 500))
				}
				if r.Code != 0 && !strings.Contains(r.Err+r.Out, ":") {
					return viol("%v: no error message: %q", a, r.Err)
				}
				return nil
			}),
		},
	})
}

type CmdMutCase struct {
	RawCase
	Args []string
}

var _ = fmt.Sprint
