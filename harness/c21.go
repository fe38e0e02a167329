package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"
	"time"

	"github.com/mescanne/goledger/cmd/utils"
	"pgregory.net/rapid"
)

// C21: state files.

// JV is a JSON value in a form that survives the case file.
type JV struct {
	K string // null bool num str arr obj
	B bool   `json:",omitempty"`
	F string `json:",omitempty"` // the number, or the string (Go-quoted)
	N int    `json:",omitempty"` // repetitions of the string
	A []JV   `json:",omitempty"`
	O []JF   `json:",omitempty"`
}

type JF struct {
	Name string
	V    JV
}

var jstrings = []string{"", "a", "plain text", "<b>&amp;</b>", "\u2028\u2029", "\"quoted\" \\ back", "tab\tnl\ncr\r\x00\x1f\x7f", "Käse ☃ 𝄞", "null", "\ufffd", "\xf0\x9f\x98\x80", "0"}

func genJV(t *rapid.T, depth int) JV {
	k := pick(t, []string{"null", "bool", "num", "num", "str", "str", "arr", "obj", "obj"}, "jkind")
	if depth == 0 {
		k = pick(t, []string{"arr", "obj", "obj"}, "jtop")
	}
	if depth >= 4 && (k == "arr" || k == "obj") {
		k = "str"
	}
	v := JV{K: k}
	switch k {
	case "bool":
		v.B = chance(t, 50, "b")
	case "num":
		f := pick(t, []float64{0, 1, -1, 0.1, -2.5, 1e21, 1e-7, 123456789.125, 9007199254740991, math.MaxFloat64, math.SmallestNonzeroFloat64, -1e300, 3.141592653589793, 1.7976931348623157e308}, "f")
		if chance(t, 40, "rnd") {
			f = float64(intn(t, -1000000, 1000000, "fi")) / 100
		}
		v.F = fmt.Sprintf("%g", f)
		if chance(t, 1, "neg0") {
			v.F = "-0"
		}
	case "str":
		v.F = pick(t, jstrings, "s")
		v.N = 1
		if chance(t, 4, "long") {
			v.N = pick(t, []int{100, 5000, 40000, 300000}, "rep")
		}
	case "arr":
		for i, n := 0, intn(t, 0, 4, "len"); i < n; i++ {
			v.A = append(v.A, genJV(t, depth+1))
		}
	case "obj":
		for i, n := 0, intn(t, 0, 4, "flen"); i < n; i++ {
			v.O = append(v.O, JF{pick(t, append([]string{"id", "Name", "name", "x y"}, jstrings...), "key"), genJV(t, depth+1)})
		}
	}
	return v
}

func (v JV) value() any {
	switch v.K {
	case "bool":
		return v.B
	case "num":
		var f float64
		if v.F == "-0" {
			return math.Copysign(0, -1)
		}
		fmt.Sscanf(v.F, "%g", &f)
		return f
	case "str":
		return strings.Repeat(v.F, v.N)
	case "arr":
		l := []any{}
		for _, a := range v.A {
			l = append(l, a.value())
		}
		return l
	case "obj":
		m := map[string]any{}
		for _, f := range v.O {
			m[f.Name] = f.V.value()
		}
		return m
	}
	return nil
}

// StateRec is a structure like those the downloads keep.
type StateRec struct {
	Token *struct {
		Access string
		Expiry time.Time
	} `json:"token"`
	Items map[string]*StateItem `json:"items"`
	List  []StateItem
	Count int64
	Ratio float64
	Raw   []byte
	Any   any
	Opt   *string `json:"opt,omitempty"`
	Skip  string  `json:"-"`
}

type StateItem struct {
	ID   string
	Big  int64
	U    uint64
	Tags []string
	Sub  map[string]map[string]bool
}

type RecSpec struct {
	Token bool
	Items int
	List  int
	Big   int64
	Text  string
	Any   JV
}

func (r RecSpec) rec() StateRec {
	o := StateRec{Count: r.Big, Ratio: float64(r.Big) / 7, Any: r.Any.value(), Raw: []byte(r.Text)}
	if r.Text == "" {
		o.Raw = nil
	}
	if r.Token {
		o.Token = &struct {
			Access string
			Expiry time.Time
		}{r.Text, time.Unix(r.Big%100000000000, 123456789).UTC()}
		o.Opt = &r.Text
	}
	item := func(i int) StateItem {
		return StateItem{ID: fmt.Sprint(r.Text, i), Big: r.Big - int64(i), U: math.MaxUint64 - uint64(i), Tags: []string{r.Text, ""}, Sub: map[string]map[string]bool{r.Text: {"x": true, "y": i%2 == 0}}}
	}
	if r.Items > 0 {
		o.Items = map[string]*StateItem{}
	}
	for i := 0; i < r.Items; i++ {
		it := item(i)
		o.Items[it.ID] = &it
	}
	for i := 0; i < r.List; i++ {
		o.List = append(o.List, item(100+i))
	}
	return o
}

// SaveStep is one save.
type SaveStep struct {
	V   *JV
	R   *RecSpec
	Bad string // unencodable: chan func nan inf marshaler cplx deep
	// write fault: dir parent full limit
	Fault string
	Arg   int
	// after a good save: cut flip append (then loading must fail)
	Damage string
	Out    string // before the save: rm (remove the file)
}

type SaveCase struct {
	File  string
	Steps []SaveStep
}

var stateNames = []string{"s.json", "s.json.gz", "a/b/c/s.json", "a/b/s.gz", "noext", "s.GZ", "s.gz.json", "a.gz/s.json", ".gz", "sp ace/ü.gz"}

func genSave(t *rapid.T) SaveCase {
	c := SaveCase{File: pick(t, stateNames, "file")}
	for i, n := 0, intn(t, 1, 5, "steps"); i < n; i++ {
		s := SaveStep{}
		if chance(t, 35, "rec") {
			s.R = &RecSpec{Token: chance(t, 60, "tok"), Items: intn(t, 0, 5, "items"), List: intn(t, 0, 3, "list"), Big: pick(t, []int64{0, 1, -1, math.MaxInt64, math.MinInt64 + 10, 9007199254740993}, "big"), Text: pick(t, jstrings, "text"), Any: genJV(t, 0)}
		} else {
			v := genJV(t, 0)
			s.V = &v
		}
		switch k := intn(t, 0, 99, "what"); {
		case k >= 85:
			s.Bad = pick(t, []string{"chan", "func", "nan", "inf", "marshaler", "cplx", "badkey", "cycle"}, "bad")
		case k >= 60:
			s.Fault = pick(t, []string{"dir", "parent", "full", "limit", "limit", "limit"}, "fault")
			s.Arg = intn(t, 0, 5000, "farg")
		case k >= 35:
			s.Damage = pick(t, []string{"cut", "cut", "flip", "append", "empty"}, "damage")
			s.Arg = intn(t, 0, 100000, "darg")
		}
		if chance(t, 10, "rm") {
			s.Out = "rm"
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

type badMarshaler struct{}

func (badMarshaler) MarshalJSON() ([]byte, error) { return nil, errors.New("cannot be encoded") }

type selfRef struct{ Next *selfRef }

func badValue(kind string, good any) any {
	var b any
	switch kind {
	case "chan":
		b = make(chan int)
	case "func":
		b = func() {}
	case "nan":
		b = math.NaN()
	case "inf":
		b = math.Inf(-1)
	case "marshaler":
		b = badMarshaler{}
	case "cplx":
		b = complex(1, 2)
	case "badkey":
		b = map[bool]int{true: 1}
	case "cycle":
		s := &selfRef{}
		s.Next = s
		b = s
	}
	return []any{good, map[string]any{"deep": []any{b}}}
}

func sameJSON(a, b any) bool { return reflect.DeepEqual(a, b) }

// checkFormat: what is on disk is JSON, gzipped if the name says so.
func checkFormat(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return viol("%v", err)
	}
	if filepath.Ext(file) == ".gz" {
		z, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return viol("%s is not gzip: %v", filepath.Base(file), err)
		}
		if b, err = io.ReadAll(z); err != nil {
			return viol("%s is damaged gzip: %v", filepath.Base(file), err)
		}
	}
	if !json.Valid(b) {
		return viol("%s is not JSON: %q", filepath.Base(file), cut(string(b), 300))
	}
	return nil
}

func checkSave(c SaveCase, x *Ctx) error {
	signal.Ignore(syscall.SIGXFSZ)
	dir := x.Tmp()
	file := filepath.Join(dir, c.File)
	// nothing there: what is in the data stays
	init := map[string]any{"initial": 1.0}
	if err := utils.LoadFromFile(file, &init); err != nil || !sameJSON(init, map[string]any{"initial": 1.0}) {
		return viol("loading the missing %s gave %v, %v", c.File, init, err)
	}
	rec := StateRec{Count: 5, Skip: "s"}
	if err := utils.LoadFromFile(file, &rec); err != nil || rec.Count != 5 || rec.Skip != "s" {
		return viol("loading the missing %s into a structure gave %v, %v", c.File, rec, err)
	}
	for n, s := range c.Steps {
		where := fmt.Sprintf("step %d (%s)", n+1, c.File)
		if s.Out == "rm" {
			os.Remove(file)
		}
		var data any
		load := func(f string) (any, error) {
			if s.R != nil {
				var o StateRec
				err := utils.LoadFromFile(f, &o)
				return o, err
			}
			var o any
			err := utils.LoadFromFile(f, &o)
			return o, err
		}
		if s.R != nil {
			data = s.R.rec()
		} else {
			data = s.V.value()
		}
		before, berr := os.ReadFile(file)
		if berr == nil {
			x.Label("over an existing file")
		}
		if s.Bad != "" {
			x.NT()
			x.Label("unencodable")
			err := utils.SaveToFile(file, badValue(s.Bad, data))
			if err == nil {
				return viol("%s: saving data that cannot be encoded (%s) reports success", where, s.Bad)
			}
			after, aerr := os.ReadFile(file)
			if berr == nil && (aerr != nil || !bytes.Equal(before, after)) {
				return viol("%s: failing to encode (%s: %v) changed the file from %q to %q (%v)", where, s.Bad, err, cut(string(before), 200), cut(string(after), 200), aerr)
			}
			if berr != nil && aerr == nil {
				if _, lerr := load(file); lerr != nil {
					return viol("%s: failing to encode (%s: %v) left a file that cannot be loaded: %v", where, s.Bad, err, lerr)
				}
			}
			continue
		}
		if s.Fault != "" {
			x.NT()
			if err := c.fault(s, dir, file, data, load, x); err != nil {
				return viol("%s: %v", where, err)
			}
			os.RemoveAll(filepath.Join(dir, "fault"))
			continue
		}
		if err := utils.SaveToFile(file, data); err != nil {
			return viol("%s: saving failed: %v", where, err)
		}
		if err := checkFormat(file); err != nil {
			return viol("%s: %v", where, err)
		}
		got, err := load(file)
		if err != nil || !sameJSON(got, data) {
			return viol("%s: saved %s\nloaded %s (%v)", where, cut(fmt.Sprintf("%#v", data), 1500), cut(fmt.Sprintf("%#v", got), 1500), err)
		}
		if n > 0 {
			x.NT()
		}
		if s.Damage == "" {
			continue
		}
		x.NT()
		x.Label("%s", s.Damage)
		raw, _ := os.ReadFile(file)
		bad := append([]byte{}, raw...)
		switch s.Damage {
		case "cut":
			bad = bad[:s.Arg%len(bad)]
			if filepath.Ext(file) != ".gz" && len(bytes.TrimSpace(bad)) == len(bytes.TrimSpace(raw)) {
				continue
			}
		case "empty":
			bad = nil
		case "flip":
			bad[s.Arg%len(bad)] ^= 1 << (s.Arg / 7 % 8)
		case "append":
			bad = append(bad, []string{"x", "{}", "\x00", "]", "\x1f\x8b", ","}[s.Arg%6]...)
		}
		os.WriteFile(file, bad, 0644)
		got, err = load(file)
		after, _ := os.ReadFile(file)
		if !bytes.Equal(after, bad) {
			return viol("%s: loading changed the file", where)
		}
		if s.Damage == "flip" {
			// plain JSON can stay valid, and gzip has bits without meaning
			if filepath.Ext(file) == ".gz" && err == nil && !sameJSON(got, data) {
				return viol("%s: with a bit of the compressed file flipped it loads as something else: %s", where, cut(fmt.Sprint(got), 500))
			}
		} else if err == nil {
			return viol("%s: the damaged file (%s %d of %d bytes) loads as %s", where, s.Damage, len(bad), len(raw), cut(fmt.Sprint(got), 500))
		}
		os.WriteFile(file, raw, 0644)
	}
	return nil
}

// fault saves where it must fail.
func (c SaveCase) fault(s SaveStep, dir, file string, data any, load func(string) (any, error), x *Ctx) error {
	base := filepath.Base(c.File)
	fdir := filepath.Join(dir, "fault")
	os.MkdirAll(fdir, 0755)
	f := filepath.Join(fdir, base)
	kind := s.Fault
	x.Label("%s", kind)
	switch kind {
	case "dir":
		os.Mkdir(f, 0755)
		if _, err := load(f); err == nil {
			return viol("loading a directory reports success")
		}
	case "parent":
		os.WriteFile(filepath.Join(fdir, "p"), nil, 0644)
		f = filepath.Join(fdir, "p", base)
	case "full":
		if os.Symlink("/dev/full", f) != nil {
			return nil
		}
		if fi, err := os.Stat("/dev/full"); err != nil || fi.Mode()&os.ModeCharDevice == 0 {
			return nil
		}
	case "limit":
		// how large the file is when nothing fails
		if err := utils.SaveToFile(f, data); err != nil {
			return viol("saving failed: %v", err)
		}
		fi, err := os.Stat(f)
		if err != nil {
			return viol("%v", err)
		}
		size := int(fi.Size())
		if s.Arg%2 == 0 {
			os.Remove(f)
		}
		lim := s.Arg % size
		if s.Arg%5 == 0 {
			lim = size - 1
		}
		var old syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			harness("%v", err)
		}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(lim), Max: old.Max}); err != nil {
			harness("%v", err)
		}
		err = utils.SaveToFile(f, data)
		if rerr := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); rerr != nil {
			harness("%v", rerr)
		}
		if err == nil {
			got, lerr := load(f)
			if lerr != nil || !sameJSON(got, data) {
				return viol("only %d of %d bytes could be written, yet saving reports success (loading gives %s, %v)", lim, size, cut(fmt.Sprint(got), 300), lerr)
			}
		}
		return nil
	}
	err := utils.SaveToFile(f, data)
	if err == nil {
		if fi, lerr := os.Lstat(f); lerr == nil && fi.Mode().IsRegular() {
			if got, lerr := load(f); lerr == nil && sameJSON(got, data) {
				return nil // it was replaced, which is as good
			}
		}
		return viol("saving where it cannot be written (%s) reports success", kind)
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C21",
		Rule: "histories of saves of random JSON values and of structures like the downloads' to one file (plain, .gz, in new directories), each loaded back and compared; in between data that cannot be encoded, targets that cannot be written (directory, file as parent, full device, file size limit at any byte), and files cut at any byte, with a flipped bit or with data appended. Non-trivial = a save over an earlier one, or a fault or damage",
		Assumptions: []string{
			"values are finite numbers and valid UTF-8 strings (what JSON can hold)",
			"write failures other than 'no space' and the file size limit are taken to behave like them",
		},
		Facets: []*Facet{
			facet("save", 6000, 100000, genSave, checkSave),
		},
	})
}
