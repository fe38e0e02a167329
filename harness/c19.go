package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/mescanne/goledger/cmd/importer"
	"github.com/mescanne/goledger/cmd/utils"
	"pgregory.net/rapid"
)

// C19: configuration files.

// A setting of the configuration, its flag ("" = none) and its effect.
type setting struct {
	key   string // as in the file, with its section
	flag  string
	typ   string // s b i
	vals  []string
	cmds  string // commands that have the flag
	apply func(*Cfg, string)
}

func isTrue(s string) bool { return s == "true" }

var settings = []setting{
	{"ledger", "--ledger", "s", []string{"a.ledger", "b.ledger", "c.ledger"}, "*", func(c *Cfg, v string) { c.Ledger = v }},
	{"baseccy", "--ccy", "s", []string{"USD", "EUR", "£"}, "*", func(c *Cfg, v string) { c.Base = v }},
	{"divider", "--divider", "s", []string{":", "_", "-"}, "*", func(c *Cfg, v string) { c.Divider = v }},
	{"lang", "--lang", "s", []string{"en", "nl", "de", "fr"}, "*", func(c *Cfg, v string) { c.Lang = v }},
	{"colour", "--colour", "b", []string{"true", "false"}, "*", func(c *Cfg, v string) { c.Colour = isTrue(v) }},
	{"all", "--all", "b", []string{"true", "false"}, "*", func(c *Cfg, v string) { c.All = isTrue(v) }},
	{"macros.mm", "", "l", []string{"map=/^Asset/Wealth/", "asof=2020-06", "since=2020-06"}, "", func(c *Cfg, v string) { c.Macros = map[string][]string{"mm": {v}} }},
	{"report.type", "--type", "s", []string{"Text", "Ledger", "Json", "html", "TEXT"}, "report", func(c *Cfg, v string) { c.Report.Type = v }},
	{"report.combineby", "--splitby", "s", []string{"yearly", "monthly", "none", "Quarterly", "skip"}, "report", func(c *Cfg, v string) { c.Report.Combineby = v }},
	{"report.sum", "--sum", "b", []string{"true", "false"}, "report", func(c *Cfg, v string) { c.Report.Sum = isTrue(v) }},
	{"report.convert", "--convert", "b", []string{"true", "false"}, "report", func(c *Cfg, v string) { c.Report.Convert = isTrue(v) }},
	{"report.credit", "--credit", "s", []string{"^Income", "Asset"}, "report", func(c *Cfg, v string) { c.Report.Credit = v }},
	{"report.hidden", "--hidden", "s", []string{"Equity", "Asset:Bank"}, "report", func(c *Cfg, v string) { c.Report.Hidden = v }},
	{"report.jsonpretty", "--jsonpretty", "b", []string{"true", "false"}, "report", func(c *Cfg, v string) { c.Report.JsonPretty = isTrue(v) }},
	{"report.htmlcss", "--htmlcss", "s", []string{"p { color: red; }", ""}, "report", func(c *Cfg, v string) { c.Report.HTMLCSS = v }},
	{"register.type", "--type", "s", []string{"Text", "JSON", "csv"}, "register", func(c *Cfg, v string) { c.Register.Type = v }},
	{"register.asc", "--asc", "b", []string{"true", "false"}, "register", func(c *Cfg, v string) { c.Register.Asc = isTrue(v) }},
	{"register.count", "--count", "i", []string{"1", "-1", "2", "0", "-100"}, "register", func(c *Cfg, v string) { c.Register.Count, _ = strconv.Atoi(v) }},
	{"register.combined", "--combined", "b", []string{"true", "false"}, "register", func(c *Cfg, v string) { c.Register.Combined = isTrue(v) }},
	{"register.zerostart", "--zero", "b", []string{"true", "false"}, "register", func(c *Cfg, v string) { c.Register.ZeroStart = isTrue(v) }},
	{"register.split", "--split", "b", []string{"true", "false"}, "register", func(c *Cfg, v string) { c.Register.Split = isTrue(v) }},
	{"register.convert", "--convert", "b", []string{"true", "false"}, "register", func(c *Cfg, v string) { c.Register.Convert = isTrue(v) }},
	{"register.begindate", "--begin", "s", []string{"2020-02-01", "2020"}, "register", func(c *Cfg, v string) { c.Register.BeginDate = v }},
	{"register.enddate", "--asof", "s", []string{"2020-08-01", "2021"}, "register", func(c *Cfg, v string) { c.Register.EndDate = v }},
	{"export.type", "--type", "s", []string{"Ledger", "Json", "csv", "Beancount"}, "export", func(c *Cfg, v string) { c.Export.Type = v }},
	{"export.jsonpretty", "--jsonpretty", "b", []string{"true", "false"}, "export", func(c *Cfg, v string) { c.Export.JsonPretty = isTrue(v) }},
	{"importdefs.bank.account", "--acct", "s", []string{"Asset:Bank", "Asset:Other"}, "import bank", func(c *Cfg, v string) { bank(c).Account = v }},
	{"importdefs.bank.counteraccount", "--cacct", "s", []string{"Expense:New", "Expense:Food"}, "import bank", func(c *Cfg, v string) { bank(c).CounterAccount = v }},
	{"importdefs.bank.ccy", "", "s", []string{"USD", "kr"}, "", func(c *Cfg, v string) { bank(c).CCY = v }},
	{"importdefs.bank.dedup", "--dedup", "b", []string{"true", "false"}, "import bank", func(c *Cfg, v string) { bank(c).Dedup = isTrue(v) }},
	{"importdefs.bank.reclassify", "--reclassify", "b", []string{"true", "false"}, "import bank", func(c *Cfg, v string) { bank(c).Reclassify = isTrue(v) }},
	{"generate.gen.dedup", "--dedup", "b", []string{"true", "false"}, "generate gen", func(c *Cfg, v string) {}},
}

const bankCode = "[add(r['d'], r['p'], r['a'], ccy=r['c']) if r['c'] else add(r['d'], r['p'], r['a']) for r in data]"

func bank(c *Cfg) *importer.ImportDef {
	if c.Imports == nil {
		c.Imports = map[string]*importer.ImportDef{}
	}
	if c.Imports["bank"] == nil {
		c.Imports["bank"] = &importer.ImportDef{Description: "bank", Code: bankCode, CLIConfig: utils.CLIConfig{ConfigType: "json"}}
	}
	return c.Imports["bank"]
}

// KV are settings by index into the table.
type KV struct {
	I int
	V string
}

func settingsTOML(kvs []KV) string {
	sec := map[string][]string{}
	var names []string
	for _, kv := range kvs {
		s := settings[kv.I]
		k, name := s.key, ""
		if i := strings.LastIndexByte(k, '.'); i >= 0 {
			name, k = k[:i], k[i+1:]
		}
		v := kv.V
		switch s.typ {
		case "s":
			v = tomlStr(v)
		case "l":
			v = "[" + tomlStr(v) + "]"
		}
		if sec[name] == nil {
			names = append(names, name)
			if name == "importdefs.bank" {
				sec[name] = []string{"description = \"bank\"", "configtype = \"json\"", "code = " + tomlStr(bankCode)}
			}
		}
		sec[name] = append(sec[name], k+" = "+v)
	}
	sort.Strings(names)
	out := ""
	for _, n := range names {
		if n != "" {
			out += "\n[" + n + "]\n"
		}
		out += strings.Join(sec[n], "\n") + "\n"
	}
	return out
}

// Place is one of the places a configuration is looked for.
type Place struct {
	Kind string // absent valid empty invalid unknown badtype dir dangling link
	S    []KV
	Bad  string
}

var placeNames = []string{"env", "cfgdir.toml", "cfgdir.cfg", "home.toml", "home.cfg", "home.dot.toml", "home.dot.cfg", "cwd.toml", "cwd.cfg"}

type ConfCase struct {
	Env    string // set unset empty
	XDG    string // set unset
	Home   bool
	Places []Place
	Flags  []KV
	Cmd    string // export, "export mm", report, register, accts, ccy, "import bank"
	LANG   string
}

func genKVs(t *rapid.T, pct int) []KV {
	var out []KV
	for i, s := range settings {
		p := pct
		if s.key == "baseccy" || s.key == "macros.mm" || s.key == "importdefs.bank.account" || s.key == "importdefs.bank.counteraccount" { // without which much is refused
			p = 75
		}
		if chance(t, p, "set") {
			out = append(out, KV{i, pick(t, s.vals, "val")})
		}
	}
	return out
}

func genConf(t *rapid.T) ConfCase {
	c := ConfCase{
		Env:  pick(t, []string{"set", "unset", "unset", "empty"}, "env"),
		XDG:  pick(t, []string{"unset", "unset", "set"}, "xdg"),
		Home: chance(t, 88, "home"),
		Cmd:  pick(t, []string{"export", "export", "export mm", "report", "report", "report mm", "register", "accts", "ccy", "import bank", "import bank"}, "cmd"),
		LANG: pick(t, []string{"en", "de", "", "-", "fr_FR.UTF-8"}, "LANG"),
	}
	density := pick(t, []int{15, 35, 60}, "density")
	for range placeNames {
		p := Place{Kind: pick(t, []string{"absent", "absent", "absent", "absent", "valid", "valid", "valid", "empty", "invalid", "unknown", "badtype", "dir", "dangling", "link"}, "kind")}
		switch p.Kind {
		case "valid", "link":
			p.S = genKVs(t, density)
		case "unknown":
			p.S = genKVs(t, density)
			p.Bad = pick(t, []string{"unknown = 1\n", "\n[report]\nnosuch = true\n", "\n[registers]\ncount = 1\n", "base_ccy = \"USD\"\n", "\n[export]\ntypes = \"CSV\"\n", "\n[importdefs.x]\nacct = \"A\"\n", "\n[generate.x]\nreclassify = true\n", "\n[web]\nport = 1\n"}, "bad")
		case "badtype":
			p.Bad = pick(t, []string{"ledger = 3\n", "colour = \"yes\"\n", "\n[register]\ncount = \"many\"\n", "macros = 1\n", "\n[macros]\nm = \"map=x\"\n", "\n[report]\nsum = 1\n", "report = true\n", "macros = true\n", "importdefs = \"x\"\n", "generate = 2\n", "[[macros]]\n", "\n[importdefs.x]\nparams = 1\n", "MACROS = 1\n", "Macros = true\n", "\n[ImportDefs.x]\nPARAMS = 1\n"}, "bad")
		case "invalid":
			p.Bad = pick(t, []string{"ledger = \n", "= 3", "[report\n", "ledger = \"a.ledger\nx", "divider = \":\"\ndivider = \":\"\n", "ledger = 'a", "\x00", "\xff\xfe", "{}", "[report]\n[report]\n"}, "bad")
		}
		c.Places = append(c.Places, p)
	}
	if chance(t, 20, "none") { // nothing anywhere
		for i := range c.Places {
			if c.Places[i].Kind != "dangling" {
				c.Places[i] = Place{Kind: "absent"}
			}
		}
	}
	for i, s := range settings {
		if s.flag == "" || s.cmds != "*" && !(s.cmds == strings.TrimSuffix(c.Cmd, " mm")) {
			continue
		}
		if chance(t, 20, "flag") {
			c.Flags = append(c.Flags, KV{i, pick(t, s.vals, "fval")})
		}
	}
	return c
}

const confLedgers = `2020/01/05 Shop
  Asset:Bank      %[1]s -12.50
  Expense:Food

2020/03/05 Work; pay
  Asset:Bank      %[1]s 1%[2]d00.00
  Income:Pay_Net

2020/07/01 Both
  Asset:Other     EUR 3.125
  Asset:Bank      EUR -3.125

2020/07/02 Back
  Asset:Other     EUR -3.125
  Asset:Bank      EUR 3.125

2021/02/03 Shop
  Asset:Bank      %[1]s -7
  Asset:Cash_Box  %[1]s 2
  Expense:Food    %[1]s 5

P 2020/01/01 00:00:00 EUR USD 1.1%[2]d
P 2021/01/01 00:00:00 EUR £ 0.9
P 2020/06/01 00:00:00 USD £ 0.8
`

// places gives the files in search order and whether a default file is written.
func (c ConfCase) search(dir string) (order []int, write bool) {
	if c.Env == "set" {
		return []int{0}, true
	}
	if c.XDG == "set" || c.Home {
		order = append(order, 1, 2)
		write = true
	}
	if c.Home {
		order = append(order, 3, 4, 5, 6)
	}
	return append(order, 7, 8), write
}

func (c ConfCase) path(dir string, i int) string {
	cfg := filepath.Join(dir, "home", ".config")
	if c.XDG == "set" {
		cfg = filepath.Join(dir, "xdg")
	}
	return []string{
		filepath.Join(dir, "env", "sub", "my.conf"),
		filepath.Join(cfg, "goledger", "goledger.toml"), filepath.Join(cfg, "goledger", "goledger.cfg"),
		filepath.Join(dir, "home", "goledger.toml"), filepath.Join(dir, "home", "goledger.cfg"),
		filepath.Join(dir, "home", ".goledger.toml"), filepath.Join(dir, "home", ".goledger.cfg"),
		filepath.Join(dir, "cwd", "goledger.toml"), filepath.Join(dir, "cwd", "goledger.cfg"),
	}[i]
}

func (c ConfCase) args() []string {
	a := strings.Fields(c.Cmd)
	for _, kv := range c.Flags {
		a = append(a, settings[kv.I].flag+"="+kv.V)
	}
	switch {
	case strings.HasPrefix(c.Cmd, "register"), c.Cmd == "accts":
		a = append(a, "Asset|Income")
	case c.Cmd == "import bank":
		a = append(a, "in.json")
	}
	return a
}

// snapshot is everything below a directory.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		switch {
		case i.IsDir():
			m[p] = "dir"
		case i.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			m[p] = "-> " + l
		default:
			b, _ := os.ReadFile(p)
			m[p] = fmt.Sprintf("%v ", i.Mode()) + string(b)
		}
		return nil
	})
	return m
}

func sameTree(before, after map[string]string, allowed func(string) bool) error {
	for p, s := range before {
		if after[p] != s {
			return viol("%s was changed from %q to %q", p, cut(s, 200), cut(after[p], 200))
		}
	}
	for p := range after {
		if _, ok := before[p]; !ok && !allowed(p) {
			return viol("%s was created", p)
		}
	}
	return nil
}

func checkConf(c ConfCase, x *Ctx) error {
	dir := x.Tmp()
	cwd := filepath.Join(dir, "cwd")
	for _, d := range []string{"home", "cwd"} {
		os.MkdirAll(filepath.Join(dir, d), 0755)
	}
	for i, n := range []string{"a.ledger", "b.ledger", "c.ledger", "main.ledger"} {
		ccy := []string{"USD", "£", "USD", "EUR"}[i]
		os.WriteFile(filepath.Join(cwd, n), []byte(fmt.Sprintf(confLedgers, ccy, i+1)), 0644)
	}
	os.WriteFile(filepath.Join(cwd, "in.json"), []byte(`[{"d":"2021-02-03","p":"Shop","a":-4,"c":"USD"},{"d":"2021-03-03","p":"Shop","a":-5.5,"c":"USD"},{"d":"2021-04-03","p":"Zzyzx","a":"7","c":""}]`), 0644)
	for i, p := range c.Places {
		f := c.path(dir, i)
		if p.Kind == "absent" {
			continue
		}
		os.MkdirAll(filepath.Dir(f), 0755)
		content := p.Bad + settingsTOML(p.S)
		if strings.HasPrefix(p.Bad, "\n[") {
			content = settingsTOML(nil) + p.Bad
			p.S = nil
		}
		switch p.Kind {
		case "dir":
			os.MkdirAll(f, 0755)
		case "dangling":
			os.Symlink(filepath.Join(dir, "nowhere"), f)
		case "link":
			t := filepath.Join(dir, fmt.Sprintf("target%d", i))
			os.WriteFile(t, []byte(content), 0644)
			os.Symlink(t, f)
		default:
			os.WriteFile(f, []byte(content), 0644)
		}
	}
	order, write := c.search(dir)
	used := -1
	for _, i := range order {
		if k := c.Places[i].Kind; k != "absent" && k != "dangling" {
			used = i
			break
		}
	}
	created := ""
	if used < 0 && write {
		created = c.path(dir, order[0])
		if c.Places[order[0]].Kind == "dangling" {
			return nil // where the default goes is not a plain path
		}
	}
	env := []string{"PATH=" + os.Getenv("PATH")}
	switch c.Env {
	case "set":
		env = append(env, "GOLEDGER_CONF="+c.path(dir, 0))
	case "empty":
		env = append(env, "GOLEDGER_CONF=")
	}
	if c.XDG == "set" {
		env = append(env, "XDG_CONFIG_HOME="+filepath.Join(dir, "xdg"))
	}
	if c.Home {
		env = append(env, "HOME="+filepath.Join(dir, "home"))
	}
	cfg := Cfg{Ledger: "main.ledger", Lang: "en", Divider: ":", Colour: true}
	if c.LANG != "-" {
		env = append(env, "LANG="+c.LANG)
		cfg.Lang = strings.Split(c.LANG, ".")[0]
	}
	run := func() Run { return runBinary(os.Getenv("VT_GOLEDGER"), cwd, env, nil, c.args()...) }
	before := snapshot(dir)
	r := run()
	if err := r.crash(); err != nil {
		return viol("%v\n%s", err, c)
	}
	after := snapshot(dir)
	if err := sameTree(before, after, func(p string) bool {
		return created != "" && (p == created || strings.HasPrefix(created, p+"/"))
	}); err != nil {
		return viol("%v\n%s", err, c)
	}

	// which settings count
	if used >= 0 {
		x.Label("%s", placeNames[used])
		p := c.Places[used]
		switch p.Kind {
		case "invalid", "unknown", "badtype", "dir":
			x.NT()
			x.Label("%s", p.Kind)
			name := c.path(dir, used)
			if used >= 7 {
				name = filepath.Base(name)
			}
			if r.Code == 0 {
				return viol("the configuration %s (%s) is accepted; printed %q\n%s", name, p.Kind, cut(r.Out, 500), c)
			}
			if r.Out != "" || !strings.Contains(r.Err, name) {
				return viol("the configuration %s (%s): printed %q, error %q does not name it\n%s", name, p.Kind, cut(r.Out, 300), cut(r.Err, 500), c)
			}
			return nil
		}
		for _, kv := range p.S {
			settings[kv.I].apply(&cfg, kv.V)
		}
	}
	if created != "" {
		x.Label("default written")
		x.NT()
		if _, ok := after[created]; !ok {
			return viol("no default configuration was written to %s\n%s", created, c)
		}
		if !strings.HasPrefix(r.Out, "Created new configuration file '"+created+"'") {
			return viol("writing %s was not reported: %q\n%s", created, cut(r.Out, 300), c)
		}
		r.Out = r.Out[strings.IndexByte(r.Out, '\n')+1:]
		cfg.Report.Combineby, cfg.Report.Type, cfg.Report.Sum, cfg.Report.Convert = "today", "Text", true, true
		cfg.Report.Credit = "^(Income|Trading|Liability|Equity)(:.*)?$"
		cfg.Register.Count, cfg.Register.Type, cfg.Register.Asc = -100, "Text", true
	}
	nflags := 0
	for _, kv := range c.Flags {
		if strings.HasPrefix(settings[kv.I].key, "importdefs.") && cfg.Imports == nil {
			continue
		}
		settings[kv.I].apply(&cfg, kv.V)
		nflags++
	}
	if len(order) > 1 && nflags > 0 && used >= 0 && len(c.Places[used].S) > 3 {
		x.NT()
	}
	// run again: the same, and nothing changes any more
	r2 := run()
	if r2.Out != r.Out || r2.Code != r.Code || r2.Err != r.Err {
		return viol("the second run gives exit %d %q %q, the first exit %d %q %q\n%s", r2.Code, cut(r2.Out, 800), cut(r2.Err, 300), r.Code, cut(r.Out, 800), cut(r.Err, 300), c)
	}
	if err := sameTree(after, snapshot(dir), func(string) bool { return false }); err != nil {
		return viol("in the second run %v\n%s", err, c)
	}
	// defaults of what no file and no flag sets
	cfg.Ledger = filepath.Join(cwd, cfg.Ledger)
	if cfg.Report.Type == "" {
		cfg.Report.Type = "Ledger"
	}
	if cfg.Report.Combineby == "" {
		cfg.Report.Combineby = "none"
	}
	if cfg.Register.Type == "" {
		cfg.Register.Type = "Text"
	}
	if cfg.Export.Type == "" {
		cfg.Export.Type = "Ledger"
	}
	var a []string
	for _, s := range c.args() {
		if !strings.HasPrefix(s, "--") {
			if s == "in.json" {
				s = filepath.Join(cwd, s)
			}
			a = append(a, s)
		}
	}
	if cfg.Imports != nil {
		if d := bank(&cfg); d.Account == "" || d.CounterAccount == "" {
			cfg.Imports["bank"] = d
		}
	}
	want, err := cli(cfg, a...)
	if err != nil {
		x.Label("refused")
		if r.Code == 0 {
			return viol("accepted, although with the settings of %s it should fail: %v; printed\n%s\n%s", c.usedName(used), err, cut(r.Out, 800), c)
		}
		return nil
	}
	if r.Code != 0 {
		return viol("exit %d: %s; with the settings of %s expected\n%s\n%s", r.Code, cut(r.Err, 400), c.usedName(used), cut(want, 800), c)
	}
	if r.Out != want {
		return viol("printed\n%s\nwith the settings of %s expected\n%s\n%s", cut(r.Out, 1500), c.usedName(used), cut(want, 1500), c)
	}
	return nil
}

func (c ConfCase) usedName(i int) string {
	if i < 0 {
		return "no file"
	}
	return placeNames[i]
}

func (c ConfCase) String() string {
	s := fmt.Sprintf("GOLEDGER_CONF %s, XDG_CONFIG_HOME %s, HOME set %v, LANG %q: goledger %q\n", c.Env, c.XDG, c.Home, c.LANG, c.args())
	for i, p := range c.Places {
		if p.Kind != "absent" {
			s += fmt.Sprintf("--- %s (%s)\n%s%s\n", placeNames[i], p.Kind, p.Bad, settingsTOML(p.S))
		}
	}
	return s
}

func init() {
	register(&Prop{
		ID:   "C19",
		Rule: "all nine places a configuration is looked for, each absent, valid with random settings, empty, a link, a dangling link, a directory, not TOML, with an unknown key or a wrong type; environment variables set, unset and empty; random flags; the binary run twice in a scratch tree. What it prints is compared with the same command run in process on the settings that should count, and the tree with what it was; and the same settings in the file, by their flags (every spelling and place of them) and by flags over other values in the file, which must print the same. Non-trivial = a refused configuration, a written default, or flags over a file with several settings and other places to look, or settings given in two ways",
		Assumptions: []string{
			"the search order is: GOLEDGER_CONF if not empty (and nothing else); otherwise goledger/goledger.toml and .cfg in the user's configuration directory, then goledger.toml, goledger.cfg, .goledger.toml and .goledger.cfg in the home directory, then goledger.toml and .cfg in the working directory",
			"a dangling link counts as absent",
		},
		Facets: []*Facet{
			facet("search", 3000, 30000, genConf, checkConf),
			facet("flag or file", 2000, 20000, genFlagCase, checkFlags),
		},
	})
}
