package main

import (
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// C23: what is not valid is refused with an error and without a result.

// badOp makes an operation that is not valid and says why. Some need macros.
func badOp(t *rapid.T, accts []string) (op, why string, macros map[string][]string) {
	re := pick(t, []string{"(", "[a", "a**", "\\", "(?P<x", "x{2,1}", "\\8", "a{1001}", "*", "+a", "(?i", "[z-a]", "(?<!x)", "\\p{Nope}", "a)"}, "badre")
	good := genAcctRe(t, accts)
	to := pick(t, []string{"Equity", "$1", "New:Acct"}, "to")
	switch intn(t, 0, 12, "badkind") {
	case 0:
		op := pick(t, []string{"", "Asset", "nomacro", "=x", "=", "1map=/a/b/", " map=/a/b/", "map /a/b/", "map", "/a/b/", "-", "2020", "as-of=2020", "map-ccy=/a/b/", "é=1", "mapccy"}, "notype")
		return op, "no operation type", nil
	case 1:
		return pick(t, []string{"mop", "until", "maps", "mapcc", "mapccyx", "filter", "sort", "depreciation", "combines", "as", "x1_y", "sinceasof"}, "type") + "=" + pick(t, []string{"/a/b/", "2020", "", "yearly", "/a/b/0.5/"}, "rest"), "unknown operation", nil
	case 2, 3:
		k := pick(t, []string{"map", "mapccy", "move", "depreciate"}, "k")
		n := map[string]string{"map": "", "mapccy": "", "move": "0.5/", "depreciate": "3/"}[k]
		body := pick(t, []string{"", "/", "//", "///", "////", "/a/", "/a//", "//b/", "a/b/", "/a/b", "/a/b/c", "/a/b/c/d", "/a/b/c/d/", "//b/c/", "/a//c/", "#a#b#", "/a/b/ ", " /a/b/", "/a/b//"}, "body")
		if n != "" && body != "" && chance(t, 50, "num") {
			body += n
		}
		s := k + "=" + body
		return s, "delimiters", nil
	case 4, 5:
		k := pick(t, []string{"map", "mapccy", "move", "depreciate"}, "k")
		s := k + "=/" + re + "/" + to + "/"
		switch k {
		case "map":
			if chance(t, 30, "alt") {
				s += "Alt/"
			}
		case "move":
			s += "0.5/"
		case "depreciate":
			s += "3/"
		}
		return s, "regular expression", nil
	case 6:
		return "move=/" + good + "/" + to + "/" + pick(t, []string{"x", "1.2.3", ".", "-1", "1e5", "..", "1,5", " 1", "1 ", "+1", "0x10", "1_0", "١", "½", "..5", "NaN", "Inf", "1;2", "%20"}, "factor") + "/", "factor", nil
	case 7:
		return "depreciate=/" + good + "/" + to + "/" + pick(t, []string{"0", "00", "0.5", "1.5", "2.", ".5", "x", "-1", "1e2", ".", "..", " 3", "99999999999999999999", "9223372036854775807", "4294967296", "1000000", "+3", "3m"}, "months") + "/", "months", nil
	case 8, 9:
		k := pick(t, []string{"asof", "since"}, "k")
		for {
			var s string
			if chance(t, 50, "made") {
				s = genSpell(t).Text
			} else {
				s = pick(t, []string{"", "abc", "2020-13-01", "2020-02-30", "2021-02-29", "2020-00-10", "2020-01-00", "1900-02-29", "99999-01-01", "2020-1-1-1", "this week", "next", "next years", "today", "yesterday", "Jan 2020", "2020-01-01T00:00:00", "2020-01-01 ", " 2020", "20", "-2020", "2020-01-32", "31-04-2020", "20200431", "2020/1//1", "last", "month", "this  day"}, "baddate")
			}
			if d, ok := readDate(s, 20240131); d == 0 && ok {
				return k + "=" + s, "date", nil
			}
		}
	case 10:
		return "combine=" + pick(t, []string{"", "weekly", "daily", "year", "month", "quarter", "yearly ", " monthly", "yearlymonthly", "skip", "yearly,monthly", "1", "=monthly", "yearl", "biannual"}, "by"), "combine type", nil
	case 11: // macros that never end
		n := intn(t, 1, 4, "cycle")
		m := map[string][]string{}
		for i := 0; i < n; i++ {
			l := []string{fmt.Sprintf("m%d", (i+1)%n)}
			if chance(t, 40, "pre") {
				l = append([]string{"asof=3000"}, l...)
			}
			if chance(t, 40, "post") {
				l = append(l, "since=1000")
			}
			if chance(t, 30, "twice") {
				l = append(l, l...)
			}
			m[fmt.Sprintf("m%d", i)] = l
		}
		return "m0", "endless macro", m
	}
	// a bad operation inside of macros
	for {
		in, why, m := badOp(t, accts)
		if m != nil {
			continue
		}
		l := []string{in}
		if chance(t, 50, "pre") {
			l = append([]string{"asof=3000"}, l...)
		}
		if chance(t, 50, "post") {
			l = append(l, "since=1000")
		}
		m = map[string][]string{"mac": l, "other": {"asof=3000"}}
		top := "mac"
		for i := intn(t, 0, 2, "nest"); i > 0; i-- {
			m["n"+top] = []string{"other", top}
			top = "n" + top
		}
		return top, "macro with " + why, m
	}
}

// BadOpCase is a valid command with one operation that is not.
type BadOpCase struct {
	C    CmdCase
	Ops  []string
	At   int
	Bad  string
	Why  string
	Head []string // before the operations
	Tail []string // after them
}

func genBadOp(t *rapid.T) BadOpCase {
	var c BadOpCase
	c.C.L = genPlainCase(t)
	var accts, ccys []string
	for _, p := range c.C.L.Want.Posts {
		accts = append(accts, p.Acct)
		ccys = append(ccys, p.CCY)
	}
	if len(accts) == 0 {
		accts, ccys = []string{"Asset"}, []string{"USD"}
	}
	c.C.Cfg.Base = pick(t, ccys, "base")
	for c.Head == nil {
		a := genCmdArgs(t, c.C.L, pick(t, acctRes, "re"), nil)
		if a[0] != "accts" && a[0] != "ccy" {
			c.Head = a
		}
	}
	if c.Head[0] == "register" { // the regular expression is last
		n := len(c.Head) - 1
		c.Head, c.Tail = c.Head[:n], c.Head[n:]
	}
	c.Ops = opTexts(genOps(t, c.C.L.Want, intn(t, 0, 3, "nops")))
	c.At = intn(t, 0, len(c.Ops), "at")
	c.Bad, c.Why, c.C.Cfg.Macros = badOp(t, accts)
	c.C.Bin = chance(t, 6, "bin")
	return c
}

func tomlMacros(m map[string][]string) string {
	if len(m) == 0 {
		return ""
	}
	s := "[macros]\n"
	for _, k := range sortedKeys(m) {
		var l []string
		for _, o := range m[k] {
			l = append(l, tomlStr(o))
		}
		s += tomlStr(k) + " = [" + strings.Join(l, ", ") + "]\n"
	}
	return s
}

// runCmd runs a command in process or with the binary: what it prints, the error message, "" if none.
func runCmd(x *Ctx, d string, l LCase, g CmdCfg, bin bool, a ...string) (out, errText string, err error) {
	main := filepath.Join(d, l.Main)
	if !bin {
		o, e := cli(Cfg{Ledger: main, Base: g.Base, Divider: g.Divider, All: g.All, Macros: g.Macros}, a...)
		if e == nil {
			return o, "", nil
		}
		if i := strings.Index(o, "Usage:\n"); i >= 0 {
			o = o[:i]
		}
		return o, "error: " + e.Error(), nil
	}
	all := []string{"-l", main, "--colour=false"}
	if g.Base != "" {
		all = append(all, "--ccy="+g.Base)
	}
	if g.Divider != "" {
		all = append(all, "--divider="+g.Divider)
	}
	r := x.goledger(d, benignConf+tomlMacros(g.Macros), nil, append(all, a...)...)
	if e := r.crash(); e != nil {
		return "", "", e
	}
	if r.Code == 0 {
		return r.Out, "", nil
	}
	if strings.TrimSpace(r.Err) == "" {
		return "", "", viol("exit status %d without an error message", r.Code)
	}
	return r.Out, "error: " + r.Err, nil
}

func checkBadOp(c BadOpCase, x *Ctx) error {
	d := x.WriteFiles(c.C.L.Files)
	with := append(append(append([]string{}, c.Ops[:c.At]...), c.Bad), c.Ops[c.At:]...)
	x.Label("%s", c.Why)
	a := args(c.Head, with, c.Tail)
	out, e, err := runCmd(x, d, c.C.L, c.C.Cfg, c.C.Bin, a...)
	if err != nil {
		return viol("%q (macros %q): %v\n%s", a, c.C.Cfg.Macros, err, filesText(c.C.L.Files))
	}
	if e == "" {
		return viol("%q is accepted although %q is not valid (%s); macros %q\n%s\n%s", a, c.Bad, c.Why, c.C.Cfg.Macros, cut(out, 1000), filesText(c.C.L.Files))
	}
	if strings.TrimSpace(out) != "" {
		return viol("%q fails (%s) and prints a result all the same\n%s\n%s", a, e, cut(out, 1000), filesText(c.C.L.Files))
	}
	if strings.TrimSpace(strings.TrimPrefix(e, "error:")) == "" {
		return viol("%q fails with an empty message", a)
	}
	// the same command without it
	_, e, err = runCmd(x, d, c.C.L, c.C.Cfg, false, args(c.Head, c.Ops, c.Tail)...)
	if err == nil && e == "" {
		x.NT()
	}
	return nil
}

// ---- operations changed at random ----------------------------------------------

// opValid says whether an operation text is valid; ok is false where that isn't documented.
func opValid(s string) (valid, ok bool) {
	i := strings.IndexByte(s, '=')
	if i < 0 {
		return false, true
	}
	kind, rest := s[:i], s[i+1:]
	parts := func(n ...int) []string { // the parts between slashes
		l := strings.Split(rest, "/")
		if len(l) < 4 || l[0] != "" || l[len(l)-1] != "" {
			return nil
		}
		l = l[1 : len(l)-1]
		for _, p := range l {
			if p == "" {
				return nil
			}
		}
		for _, k := range n {
			if len(l) == k {
				if _, err := regexp.Compile(l[0]); err != nil {
					return nil
				}
				return l
			}
		}
		return nil
	}
	switch kind {
	case "map":
		return parts(2, 3) != nil, true
	case "mapccy":
		return parts(2) != nil, true
	case "move":
		p := parts(3)
		return p != nil && regexp.MustCompile(`^([0-9]+\.?[0-9]*|\.[0-9]+)$`).MatchString(p[2]), true
	case "depreciate":
		p := parts(3)
		if p == nil || !regexp.MustCompile(`^0*[1-9][0-9]*$`).MatchString(p[2]) {
			return false, true
		}
		n := strings.TrimLeft(p[2], "0")
		return true, len(n) <= 3
	case "asof", "since":
		d, ok := readDate(rest, 20240131)
		if regexp.MustCompile("^(this|last|next)").MatchString(rest) {
			d = 1
		}
		return d != 0, ok
	case "combine":
		for _, b := range []string{"yearly", "quarterly", "monthly", "none"} {
			if strings.EqualFold(rest, b) {
				return true, true
			}
		}
		return false, !strings.EqualFold(rest, "today")
	}
	return false, true
}

// FuzzOpCase is a valid operation with some characters changed.
type FuzzOpCase struct {
	L   LCase
	Op  string
	Cmd string
}

var opBits = []string{"/", "//", "=", "(", ")", "[", "]", "\\", "$1", "${", "*", "+", "?", "|", "^", "$", ".", "0", "-", "1", " ", "a", ":", "é", "\n", "\t", "\x00", "\xff", "{", "}", "{2}", "9999", "map=", "e", ",", "'"}

func genFuzzOp(t *rapid.T) FuzzOpCase {
	c := FuzzOpCase{L: genPlainCase(t)}
	s := []rune(genOp(t, c.L.Want).String())
	for n := pick(t, []int{0, 1, 1, 1, 2, 3, 6}, "edits"); n > 0; n-- {
		i := intn(t, 0, len(s), "at")
		switch intn(t, 0, 3, "edit") {
		case 0:
			if i < len(s) {
				s = append(s[:i:i], s[i+1:]...)
			}
		case 1, 2:
			s = append(append(s[:i:i], []rune(pick(t, opBits, "bit"))...), s[i:]...)
		case 3:
			if i < len(s) {
				s = append(append(s[:i:i], []rune(pick(t, opBits, "bit"))...), s[i+1:]...)
			}
		}
	}
	c.Op = string(s)
	c.Cmd = pick(t, []string{"export", "report", "register"}, "cmd")
	return c
}

func checkFuzzOp(c FuzzOpCase, x *Ctx) error {
	d := x.WriteFiles(c.L.Files)
	a := args(c.Cmd, "--", c.Op)
	if c.Cmd == "report" { // text needs a summary for several periods
		a = args(c.Cmd, "--type=Ledger", "--", c.Op)
	}
	if c.Cmd == "register" {
		a = append(a, ".*")
	}
	valid, ok := opValid(c.Op)
	if i := strings.Index(c.Op, "depreciate="); i == 0 && valid && !ok {
		return nil // might run for long
	}
	out, e, _ := runCmd(x, d, c.L, CmdCfg{}, false, a...)
	switch {
	case !ok:
		x.Label("unspecified")
	case valid:
		x.Label("valid")
		x.NT()
		if e != "" {
			return viol("%q is refused: %s\n%s", a, e, filesText(c.L.Files))
		}
	default:
		x.Label("invalid")
		x.NT()
		if e == "" {
			return viol("%q is accepted\n%s\n%s", a, cut(out, 1000), filesText(c.L.Files))
		}
	}
	if e != "" && strings.TrimSpace(out) != "" {
		return viol("%q fails (%s) and prints a result all the same\n%s", a, e, cut(out, 1000))
	}
	return nil
}

// ---- options ----------------------------------------------------------------

// BadArgCase is a command with one argument or option that is not valid.
type BadArgCase struct {
	L    LCase
	Base string
	Good []string
	Bad  []string
	Conf string // configuration (binary only)
	Why  string
	Bin  bool
}

const impCode = "[add(r[0], r[1], r[2]) for r in data]"

func genBadArg(t *rapid.T) BadArgCase {
	c := BadArgCase{L: genPlainCase(t)}
	ccys := []string{"USD"}
	for _, p := range c.L.Want.Posts {
		ccys = append(ccys, p.CCY)
	}
	c.Base = pick(t, ccys, "base")
	bad := func(l ...string) string { return pick(t, l, "v") }
	badRe := func() string {
		return bad("(", "[a", "a**", "\\", "(?P<x", "x{2,1}", "\\8", "*", "+a", "a)", "[z-a]", "(?!x)")
	}
	badEnum := func(good ...string) string {
		v := bad("bogus", "", " ", "1", "xml", "Text,Json", "Tex", "texts", " text", "json ", "-", "ＴＥＸＴ")
		if chance(t, 40, "near") {
			g := pick(t, good, "near")
			switch intn(t, 0, 3, "how") {
			case 0:
				v = g + "x"
			case 1:
				v = g[:len(g)-1]
			case 2:
				v = g + " "
			case 3:
				v = g + g
			}
			for _, o := range good {
				if strings.EqualFold(o, v) {
					v = "bogus"
				}
			}
		}
		return v
	}
	badDate := func() string {
		for {
			s := genSpell(t).Text
			if chance(t, 50, "plain") {
				s = bad("abc", "2020-13-01", "2021-02-29", "2020-1-1-1", "this week", "next", "99999", "2020-01-01x", "0")
			}
			if d, ok := readDate(s, 20240131); d == 0 && ok && s != "" {
				return s
			}
		}
	}
	badBool := func() string { return bad("maybe", "yes", "2", "", "on", "TRUe") }
	badInt := func() string { return bad("x", "", "1.5", "1e3", "99999999999999999999", "--1", "5 ", "ten") }
	cmds := map[string][]string{
		"export": {"export"}, "report": {"report"}, "register": {"register", ".*"}, "accts": {"accts"}, "ccy": {"ccy"},
	}
	set := func(cmd string, why string, b ...string) {
		c.Why = cmd + " " + why
		c.Good = cmds[cmd]
		c.Bad = args(c.Good[0], b, c.Good[1:])
	}
	conf := func(cmd, why, text string) {
		set(cmd, "configured "+why)
		c.Bad = c.Good
		c.Conf = text
		c.Bin = true
	}
	anyCmd := func() string { return bad("export", "report", "register", "accts", "ccy") }
	k := intn(t, 0, 32, "k")
	if k >= 23 && chance(t, 70, "cheap") {
		k = intn(t, 0, 22, "k2") // the binary takes longer
	}
	switch k {
	case 0:
		set("export", "type", "--type="+badEnum("Ledger", "Json", "CSV", "Beancount"))
	case 1:
		set("report", "type", "--type="+badEnum("Text", "Ledger", "Json", "HTML", "Beancount"))
	case 2:
		set("register", "type", "--type="+badEnum("Text", "Json", "CSV"))
	case 3:
		set("report", "splitby", "--splitby="+badEnum("none", "yearly", "quarterly", "monthly", "skip", "today"))
	case 4:
		set("register", "begin", "--begin="+badDate())
	case 5:
		set("register", "asof", "--asof="+badDate())
	case 6:
		set("register", "count", "--count="+badInt())
	case 7:
		set("register", "bool", bad("--asc=", "--split=", "--combined=", "--convert=", "--zero=")+badBool())
	case 8:
		set("report", "bool", bad("--sum=", "--convert=", "--jsonpretty=")+badBool())
	case 9:
		set("report", "credit", "--sum", "--credit="+badRe())
	case 10:
		set("register", "regex")
		c.Bad = args("register", bad("--combined", "--split", "--asc"), "--", badRe())
	case 11:
		set("register", "missing regex")
		c.Bad = args("register")
	case 12:
		set("accts", "regex")
		c.Bad = args("accts", bad("--json", "--all", "--json=false"), "--", badRe())
	case 13:
		set("accts", "too many arguments")
		c.Bad = args("accts", ".*", bad("x", "map=/a/b/", "", ".*"))
	case 14:
		set("ccy", "arguments")
		c.Bad = args("ccy", bad("x", "map=/a/b/", "", ".*"))
	case 15:
		set(anyCmd(), "unknown flag", bad("--nope", "--typ=Text", "-z", "--Type=Text", "--all=2", "--colour=red", "--verbose=x", "---", "--=x"))
	case 16:
		set(anyCmd(), "missing ledger")
		c.Bad = args(c.Bad, "-l", bad("/nonexistent/x.ledger", "no-such.ledger", "", "/proc"))
	case 17:
		set("report", "conversion without base currency", bad("--convert", "--sum"))
		c.Base = ""
	case 18:
		set("register", "conversion without base currency", "--convert")
		c.Base = ""
	case 19:
		set("export", "unknown command")
		c.Bad = args(bad("bogus", "exports", "Export", "reports", "regist", "acct", "web"))
	case 20: // import options
		set("export", "import option")
		if chance(t, 20, "json") {
			c.Bad = args("import", "--acct=A", "--cacct=B", "--format="+bad("json:x=1", "json:header=true", "json:header=true,delim=;", "json:delim=,", "json:=1"), "--code=[add(*r) for r in data]", "JSON")
			break
		}
		f := bad("", "xml", "CSV", "csv:delim=", "csv:delim=ab", "csv:header=maybe", "csv:header=", "csv:delim=;,delim=,", "csv:foo=1", "json:x=1", "json:header=true", "csv:header=true,header", "csv:delim=\n", "csv:delim=\"", ":", "csv ", " csv", "csv:Header=true", "csv:header=true,", "csv,header=true")
		c.Bad = args("import", "--acct=A", "--cacct=B", "--format="+f, "--code="+impCode, "DATA")
	case 21:
		set("export", "import arguments")
		all := []string{"--acct=A", "--cacct=B", "--format=csv", "--code=" + impCode, "DATA"}
		i := intn(t, 0, 4, "left")
		c.Bad = args("import", all[:i], all[i+1:])
	case 22:
		set("export", "script")
		c.Bad = args("generate", "--code="+bad("x", "add(", "add('2020-01-01', 'p', 'x', '1')", "1/0", "error('x')", "file:/nonexistent/code", "book.nope()", "book.map('(', 'a')", "book.asof('2020-13-01')", "book.since('x')", "fail('x')", "add('2020-13-01', 'p', 1, account='A', caccount='B', ccy='USD')"))
		if chance(t, 40, "import") {
			c.Bad = args("import", "--acct=A", "--cacct=B", "--format=csv", "--code="+bad("x", "add(", "add()", "1/0", "error('x')", "file:/nonexistent/code", "fail('x')", "data[99999]", "add('2020-13-01', 'p', '1')", "add('2020-01-01', 'p', 'x1')", "add('2020-01-01', 'p', '1', nope=1)"), "DATA")
		}
	case 23:
		conf("export", "type", "[export]\ntype = "+tomlStr(bad("bogus", "Text", "html", "x"))+"\n")
	case 24:
		conf("report", "type", "[report]\ntype = "+tomlStr(bad("bogus", "csv", "x", "Text "))+"\n")
	case 25:
		conf("report", "combineby", "[report]\ncombineby = "+tomlStr(bad("bogus", "weekly", "x", "all"))+"\n")
	case 26:
		conf("register", "type", "[register]\ntype = "+tomlStr(bad("bogus", "html", "Ledger", "Text "))+"\n")
	case 27:
		conf("register", "date", "[register]\n"+bad("begindate", "enddate")+" = "+tomlStr(badDate())+"\n")
	case 28:
		conf("report", "credit", "[report]\nsum = true\ncredit = "+tomlStr(badRe())+"\n")
	case 29:
		conf("export", "import type", "[importdefs.b]\ndescription = \"b\"\naccount = \"A\"\ncounteraccount = \"B\"\ncode = "+tomlStr(impCode)+"\nconfigtype = "+tomlStr(bad("xml", "CSV", "x"))+"\n")
		c.Bad = args("import", "b", "DATA")
	case 30:
		conf("export", "import parameter", "[importdefs.b]\ndescription = \"b\"\naccount = \"A\"\ncounteraccount = \"B\"\ncode = "+tomlStr(impCode)+"\nconfigtype = \"csv\"\n[importdefs.b.params]\n"+bad("delim = \"\"", "delim = \"ab\"", "header = \"maybe\"", "foo = \"1\"", "header = \"true\"\nfoo = \"1\"", "delim = \",\"\nDelim = \";\"", "header = \"1\"")+"\n")
		c.Bad = args("import", "b", "DATA")
	case 31:
		set("export", "shell type")
		c.Bad = args("shell", "--type="+bad("fish", "", "BASH1", "sh"))
		if chance(t, 30, "none") {
			c.Bad = args("shell")
		}
		c.Bin = true
	case 32:
		set("export", "docs type")
		c.Bad = args("docs", "--type="+bad("html", "", "man", "x"))
		c.Bin = true
	}
	if chance(t, 5, "bin") {
		c.Bin = true
	}
	if chance(t, 5, "big") && c.Bad[0] == "import" {
		c.Bin = true
	}
	return c
}

func checkBadArg(c BadArgCase, x *Ctx) error {
	files := map[string]string{"data.csv": "2020-01-01,Shop,12.50\n2020-01-02,Bar,-3\n", "data.json": `[["2020-01-01", "Shop", 12.5]]`}
	for k, v := range c.L.Files {
		files[k] = v
	}
	d := x.WriteFiles(files)
	bad := append([]string{}, c.Bad...)
	for i, s := range bad {
		if s == "JSON" {
			bad[i] = filepath.Join(d, "data.json")
		}
		if s == "DATA" {
			bad[i] = filepath.Join(d, "data.csv")
		}
	}
	before := snapshot(d)
	x.Label("%s", c.Why)
	var out, e string
	if c.Bin {
		a := args("-l", filepath.Join(d, c.L.Main), "--colour=false")
		if c.Base != "" {
			a = append(a, "--ccy="+c.Base)
		}
		r := x.goledger(d, benignConf+c.Conf, nil, args(a, bad)...)
		if err := r.crash(); err != nil {
			return viol("%q (configuration %q): %v\n%s", bad, c.Conf, err, filesText(c.L.Files))
		}
		out = r.Out
		if r.Code != 0 {
			if strings.TrimSpace(r.Err) == "" {
				return viol("%q (configuration %q): exit status %d without an error message", bad, c.Conf, r.Code)
			}
			e = "error: " + r.Err
		}
		if i := strings.Index(out, "Usage:\n"); i >= 0 {
			out = out[:i]
		}
		x.Label("binary")
	} else {
		out, e, _ = runCmd(x, d, c.L, CmdCfg{Base: c.Base}, false, bad...)
	}
	if e == "" {
		return viol("%q (configuration %q; %s) is accepted\n%s\n%s", bad, c.Conf, c.Why, cut(out, 1000), filesText(c.L.Files))
	}
	if strings.TrimSpace(out) != "" {
		return viol("%q (configuration %q; %s) fails (%s) and prints a result all the same\n%s\n%s", bad, c.Conf, c.Why, cut(e, 300), cut(out, 1000), filesText(c.L.Files))
	}
	if err := sameTree(before, snapshot(d), func(p string) bool { return filepath.Base(p) == "vt-conf.toml" }); err != nil {
		return viol("%q fails and leaves %v", bad, err)
	}
	if o, e, _ := runCmd(x, d, c.L, CmdCfg{Base: "USD"}, false, c.Good...); e == "" && strings.Count(o, "\n") > 1 {
		x.NT()
	}
	return nil
}

// ---- letter case ----------------------------------------------------------------

// CaseCase is a command with an enumerated option in two spellings.
type CaseCase struct {
	L      LCase
	Base   string
	Args   []string
	Opt, A string
	B      string
	Ops    bool // combine=
	Conf   bool // from the configuration
	Bin    bool
}

func anyCase(t *rapid.T, s string) string {
	switch intn(t, 0, 3, "casek") {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	o := ""
	for _, r := range s {
		if chance(t, 50, "up") {
			o += strings.ToUpper(string(r))
		} else {
			o += strings.ToLower(string(r))
		}
	}
	return o
}

func genCase(t *rapid.T) CaseCase {
	c := CaseCase{L: genPlainCase(t), Base: "USD"}
	for _, p := range c.L.Want.Posts {
		if chance(t, 30, "base") {
			c.Base = p.CCY
		}
	}
	types := map[string][]string{"export": {"Ledger", "Json", "CSV", "Beancount"}, "report": {"Text", "Ledger", "Json", "HTML", "Beancount"}, "register": {"Text", "Json", "CSV"}}
	cmd := pick(t, []string{"export", "report", "report", "register"}, "cmd")
	c.Args = []string{cmd}
	c.Opt = "type"
	c.A = pick(t, types[cmd], "type")
	if cmd == "report" {
		if chance(t, 50, "split") {
			c.Args = append(c.Args, "--type="+pick(t, types[cmd], "other"))
			c.Opt = "splitby"
			c.A = pick(t, []string{"none", "yearly", "quarterly", "monthly", "skip"}, "split")
		} else {
			c.Args = append(c.Args, "--splitby="+pick(t, []string{"none", "yearly", "quarterly", "monthly", "skip"}, "split"))
		}
		if chance(t, 60, "sum") {
			c.Args = append(c.Args, "--sum", "--credit=^Income")
		}
	}
	if chance(t, 15, "ops") && cmd != "register" {
		c.Ops = true
		c.Opt = "combine"
		c.A = pick(t, []string{"yearly", "quarterly", "monthly", "none"}, "by")
	}
	c.B = anyCase(t, c.A)
	c.Conf = !c.Ops && chance(t, 30, "conf")
	c.Bin = chance(t, 5, "bin")
	return c
}

func checkCase(c CaseCase, x *Ctx) error {
	d := x.WriteFiles(c.L.Files)
	run := func(v string, conf bool) (string, error) {
		a := append([]string{}, c.Args...)
		g := Cfg{Ledger: filepath.Join(d, c.L.Main), Base: c.Base}
		toml := benignConf
		switch {
		case c.Ops:
			a = append(a, "combine="+v)
		case conf:
			key := c.Opt
			if key == "splitby" {
				key = "combineby"
			}
			toml += "[" + c.Args[0] + "]\n" + key + " = " + tomlStr(v) + "\n"
			if c.Args[0] == "register" {
				toml += "asc = true\n"
				g.Register.Asc = true
			}
			switch c.Args[0] + " " + c.Opt {
			case "export type":
				g.Export.Type = v
			case "report type":
				g.Report.Type = v
			case "report splitby":
				g.Report.Combineby = v
			case "register type":
				g.Register.Type = v
			}
		default:
			a = append(a, "--"+c.Opt+"="+v)
		}
		if c.Args[0] == "register" {
			a = append(a, ".*")
			if !conf {
				toml += "[register]\nasc = true\n"
			}
		}
		if !c.Bin {
			return cli(g, a...)
		}
		r := x.goledger(d, toml, nil, args("-l", g.Ledger, "--colour=false", "--ccy="+c.Base, a)...)
		if err := r.crash(); err != nil {
			return "", err
		}
		if r.Code != 0 {
			return "", viol("%s", r.Err)
		}
		return r.Out, nil
	}
	want, err := run(c.A, false)
	if err != nil && strings.Contains(err.Error(), "must summarise") {
		return nil
	}
	if err != nil {
		return viol("%q with %s %q: %v\n%s", c.Args, c.Opt, c.A, err, filesText(c.L.Files))
	}
	got, err := run(c.B, c.Conf)
	if err != nil {
		return viol("%q with %s %q (configured %v): %v\n%s", c.Args, c.Opt, c.B, c.Conf, err, filesText(c.L.Files))
	}
	if got != want {
		return viol("%q with %s %q (configured %v) prints\n%s\nwith %q\n%s\n%s", c.Args, c.Opt, c.B, c.Conf, cut(got, 1000), c.A, cut(want, 1000), filesText(c.L.Files))
	}
	x.Label("%s %s", c.Args[0], c.Opt)
	if c.A != c.B && strings.Count(got, "\n") > 1 {
		x.NT()
	}
	return nil
}

// ---- any arguments ----------------------------------------------------------------

// SoupCase is any arguments.
type SoupCase struct {
	L    LCase
	Base string
	Args []string
}

var soupBits = []string{"export", "report", "register", "accts", "ccy", "import", "generate", "ops", "macros", "format", "help", "--type=Text", "--type=json", "--type", "html", "CSV", "--splitby=monthly", "--splitby", "skip", "--sum", "--sum=false", "--convert", "--credit=^Income", "--credit", "(", ".*", "^Asset", "", "--hidden=Equity", "--hidden=", "--asc=false", "--count=-1", "--count=9223372036854775807", "--count=-9223372036854775808", "--begin=2020", "--asof=1999", "--begin=", "--combined", "--split", "--zero", "--json", "--all", "--jsonpretty", "--ccy=EUR", "--ccy=", "--ccy=\x00", "--lang=fr", "--lang=xx-invalid-", "--divider=", "--divider=::", "--divider=A", "--htmlcss=x", "--htmlcss=file:/nonexistent", "--colour", "--verbose", "-h", "--version", "asof=2020", "since=last year", "map=/.*/$0:x/", "map=/^/x/", "map=/:/_/", "map=/.*/ /", "map=/.*/$1/", "mapccy=/.*/USD/", "mapccy=/.*/$1/", "move=/.*/X/0.5/", "depreciate=/^A/X/3/", "combine=yearly", "combine=today", "combine=none", "mac", "--", "-", "\xff", "--format=csv", "--code=x=1", "--acct=A", "--cacct=B", "--dedup=false"}

func genSoup(t *rapid.T) SoupCase {
	c := SoupCase{L: genPlainCase(t), Base: pick(t, []string{"", "USD", "EUR"}, "base")}
	c.Args = append(c.Args, pick(t, []string{"export", "report", "report", "register", "register", "accts", "ccy", "import", "generate", "help"}, "cmd"))
	for n := intn(t, 0, 7, "n"); n > 0; n-- {
		c.Args = append(c.Args, pick(t, soupBits, "bit"))
	}
	return c
}

func checkSoup(c SoupCase, x *Ctx) error {
	d := x.WriteFiles(c.L.Files)
	before := snapshot(d)
	o, err := cli(Cfg{Ledger: filepath.Join(d, c.L.Main), Base: c.Base, Macros: map[string][]string{"mac": {"asof=2020-06", "combine=monthly"}}}, c.Args...)
	out := o
	if i := strings.Index(out, "Usage:\n"); i >= 0 {
		out = out[:i]
	}
	if err != nil {
		x.Label("%s refused", c.Args[0])
		if strings.TrimSpace(out) != "" {
			return viol("%q fails (%v) and prints a result all the same\n%s\n%s", c.Args, err, cut(out, 1000), filesText(c.L.Files))
		}
		if strings.TrimSpace(err.Error()) == "" {
			return viol("%q fails with an empty message", c.Args)
		}
	} else {
		x.Label("%s accepted", c.Args[0])
		x.NT()
	}
	if e := sameTree(before, snapshot(d), func(string) bool { return false }); e != nil {
		return viol("%q changes files: %v", c.Args, e)
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C23",
		Rule: "random ledgers; (ops) valid commands with one operation of thirteen kinds that is not valid among valid ones, directly, in macros or as endless macros; (fuzz) valid operations with random edits, judged by a separate reading of the documented grammar; (options) every option, argument and configured value of every command with a value that is not valid, or required ones left out; (case) enumerated options in any letter case by flag and by configuration; (any) random sequences of arguments, which must not crash, hang or print a result with an error. Non-trivial = the command without the invalid part succeeds; the edit is judged; the spelling differs; the arguments are accepted",
		Facets: []*Facet{
			facet("ops", 5000, 150000, genBadOp, checkBadOp),
			facet("fuzz", 8000, 300000, genFuzzOp, checkFuzzOp),
			facet("options", 3000, 80000, genBadArg, checkBadArg),
			facet("case", 2000, 50000, genCase, checkCase),
			facet("any", 6000, 200000, genSoup, checkSoup),
		},
	})
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
