package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

// C19: a setting has the same effect in the file as by its flag, and the flag wins.

// FlagKV is a setting and how it is given in each of the two runs.
type FlagKV struct {
	I     int
	V     string
	How   [2]string // file, flag, over (by flag over another value in the file)
	Other string
	Form  int  // spelling of the flag
	First bool // before the command, for flags of every command
}

type FlagCase struct {
	Cmd string
	S   []FlagKV
	X   [2]bool // the definition's code (import, generate) as a flag
	Y   [2]bool // the format as a flag
	Gen [2]bool // the plain command with everything as a flag
}

func genFlagCase(t *rapid.T) FlagCase {
	c := FlagCase{Cmd: pick(t, []string{"export", "export mm", "report", "report mm", "register", "register mm", "accts", "ccy", "import bank", "import bank", "generate gen"}, "cmd")}
	density := pick(t, []int{20, 50, 80}, "density")
	for i, s := range settings {
		mine := s.cmds == "*" || s.cmds != "" && s.cmds == strings.TrimSuffix(c.Cmd, " mm") || s.key == "macros.mm" || s.key == "importdefs.bank.ccy" && c.Cmd == "import bank" || s.key == "generate.gen.dedup" && c.Cmd == "generate gen"
		if s.key == "importdefs.bank.account" || s.key == "importdefs.bank.counteraccount" {
			mine = mine && c.Cmd == "import bank"
		} else if s.key == "macros.mm" && strings.HasSuffix(c.Cmd, " mm") || s.key == "baseccy" && chance(t, 80, "base") {
			// without which it is refused
		} else if !chance(t, density, "set") {
			continue
		}
		if !mine {
			continue
		}
		kv := FlagKV{I: i, V: pick(t, s.vals, "val"), Other: pick(t, s.vals, "other"), Form: intn(t, 0, 2, "form"), First: chance(t, 30, "first")}
		if s.flag == "" {
			kv.How = [2]string{"file", "file"}
		} else {
			kv.How = [2]string{pick(t, []string{"file", "file", "flag", "over"}, "how"), pick(t, []string{"file", "flag", "flag", "over"}, "how2")}
		}
		c.S = append(c.S, kv)
	}
	for i := range c.X {
		c.X[i], c.Y[i] = chance(t, 40, "code"), chance(t, 40, "format")
	}
	if chance(t, 30, "plain") {
		c.Gen[1] = true
	}
	return c
}

var shortFlags = map[string]string{"--ledger": "-l", "--dedup": "-d", "--reclassify": "-r", "--acct": "-a", "--cacct": "-c"}

const flagGenCode = "[add(date=t.date, desc=t.payee, amt=str(t[0].amount), ccy=t[0].ccy, account='X', caccount='Y') for t in data.transactions] + [add(date='2022-01-01', desc='New', amt=5, ccy='USD', account='X', caccount='Y')]"

// run gives the configuration and the arguments of one run.
func (c FlagCase) run(n int) (conf string, a []string) {
	words := strings.Fields(c.Cmd)
	plain := c.Gen[n] && len(words) == 2 && words[1] != "mm"
	if plain {
		for _, kv := range c.S {
			if settings[kv.I].key == "importdefs.bank.ccy" { // has no flag
				plain = false
			}
		}
	}
	sec := map[string]string{}
	names := []string{"", "report", "register", "export", "macros", "importdefs.bank", "generate.gen"}
	var pre, post []string
	flag := func(kv FlagKV, v string) {
		s := settings[kv.I]
		var f []string
		sh := shortFlags[s.flag]
		switch {
		case kv.Form == 1 && s.typ == "s":
			f = []string{s.flag, v}
		case kv.Form == 1 && s.typ == "b" && v == "true":
			f = []string{s.flag}
		case kv.Form == 2 && sh != "" && s.typ == "s":
			f = []string{sh, v}
		case kv.Form == 2 && sh != "" && v == "true":
			f = []string{sh}
		default:
			f = []string{s.flag + "=" + v}
		}
		if kv.First && s.cmds == "*" {
			pre = append(pre, f...)
		} else {
			post = append(post, f...)
		}
	}
	set := map[string]bool{}
	for _, kv := range c.S {
		s := settings[kv.I]
		name, k := "", s.key
		if i := strings.LastIndexByte(k, '.'); i >= 0 {
			name, k = k[:i], k[i+1:]
		}
		how := kv.How[n]
		if plain && (name == "importdefs.bank" || name == "generate.gen") {
			how = "flag"
		}
		set[s.key] = true
		toml := func(v string) string {
			switch s.typ {
			case "s":
				v = tomlStr(v)
			case "l":
				v = "[" + tomlStr(v) + "]"
			}
			return k + " = " + v + "\n"
		}
		switch how {
		case "file":
			sec[name] += toml(kv.V)
		case "flag":
			flag(kv, kv.V)
		case "over":
			sec[name] += toml(kv.Other)
			flag(kv, kv.V)
		}
	}
	code := map[string]string{"import": bankCode, "generate": flagGenCode}[words[0]]
	if code != "" {
		name := map[string]string{"import": "importdefs.bank", "generate": "generate.gen"}[words[0]]
		if plain {
			words = words[:1]
			sec[name] = ""
			// what a definition leaves out is off, the plain commands have other defaults
			if !set[name+".dedup"] {
				post = append(post, "--dedup=false")
			}
			if words[0] == "import" && !set[name+".reclassify"] {
				post = append(post, "--reclassify=false")
			}
		} else {
			sec[name] += "description = \"d\"\n"
		}
		if plain || c.X[n] {
			post = append(post, "--code", code)
		} else {
			sec[name] += "code = " + tomlStr(code) + "\n"
		}
		if words[0] == "import" {
			if plain || c.Y[n] {
				post = append(post, "--format", "json")
			} else {
				sec[name] += "configtype = \"json\"\n"
			}
		}
		if plain {
			delete(sec, name)
		}
	}
	for _, s := range names {
		if t, ok := sec[s]; ok {
			if s != "" {
				conf += "[" + s + "]\n"
			}
			conf += t
		}
	}
	a = append(append(pre, words...), post...)
	switch {
	case words[0] == "register", words[0] == "accts":
		if len(words) == 2 { // the account comes after the operations
			a = append(append(append([]string{}, pre...), words[0]), post...)
			a = append(a, words[1], "Asset|Income")
		} else {
			a = append(a, "Asset|Income")
		}
	case words[0] == "import":
		a = append(a, "in.json")
	}
	return conf, a
}

func checkFlags(c FlagCase, x *Ctx) error {
	dir := x.Tmp()
	for i, n := range []string{"a.ledger", "b.ledger", "c.ledger", "main.ledger"} {
		ccy := []string{"USD", "£", "USD", "EUR"}[i]
		os.WriteFile(filepath.Join(dir, n), []byte(fmt.Sprintf(confLedgers, ccy, i+1)), 0644)
	}
	third := "USD"
	for _, kv := range c.S {
		if settings[kv.I].key == "importdefs.bank.ccy" {
			third = ""
		}
	}
	os.WriteFile(filepath.Join(dir, "in.json"), []byte(`[{"d":"2021-02-03","p":"Shop","a":-4,"c":"USD"},{"d":"2021-03-03","p":"Shop","a":-5.5,"c":"USD"},{"d":"2021-04-03","p":"Zzyzx","a":"7","c":"`+third+`"}]`), 0644)
	var r [2]Run
	var conf [2]string
	var a [2][]string
	for n := range r {
		conf[n], a[n] = c.run(n)
		os.WriteFile(filepath.Join(dir, "my.conf"), []byte(conf[n]), 0644)
		env := []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "LANG=en", "GOLEDGER_CONF=" + filepath.Join(dir, "my.conf")}
		ledger := false
		for _, kv := range c.S {
			ledger = ledger || settings[kv.I].key == "ledger"
		}
		if !ledger {
			a[n] = append([]string{"-l", "main.ledger"}, a[n]...)
		}
		r[n] = runBinary(os.Getenv("VT_GOLEDGER"), dir, env, nil, a[n]...)
		if err := r[n].crash(); err != nil {
			return viol("%v\ngoledger %q with\n%s", err, a[n], conf[n])
		}
	}
	diff := false
	for _, kv := range c.S {
		diff = diff || kv.How[0] != kv.How[1]
		if kv.How[1] == "over" || kv.How[0] == "over" {
			x.Label("flag over file")
		}
	}
	if diff {
		x.NT()
	}
	x.Label("%s", strings.Fields(c.Cmd)[0])
	if r[0].Code != 0 || r[1].Code != 0 {
		x.Label("refused")
		if (r[0].Code != 0) != (r[1].Code != 0) {
			return viol("the same settings, once mostly in the file and once by flags:\ngoledger %q with\n%s\ngives exit %d %q\ngoledger %q with\n%s\ngives exit %d %q", a[0], conf[0], r[0].Code, cut(r[0].Err, 400), a[1], conf[1], r[1].Code, cut(r[1].Err, 400))
		}
		return nil
	}
	if r[0].Out != r[1].Out {
		return viol("the same settings, once mostly in the file and once by flags:\ngoledger %q with\n%s\nprints\n%s\ngoledger %q with\n%s\nprints\n%s", a[0], conf[0], cut(r[0].Out, 1500), a[1], conf[1], cut(r[1].Out, 1500))
	}
	return nil
}
