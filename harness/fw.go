package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// A Facet is one generator together with one oracle.
type Facet struct {
	Name     string
	Quick    int // number of cases, quick tier
	Thorough int // number of cases, thorough tier
	gen      func(*rapid.T) any
	decode   func([]byte) (any, error)
	check    func(any, *Ctx) error
}

// A Prop is one property of properties.jsonl with the facets that decide it.
type Prop struct {
	ID          string
	Rule        string // how cases are made and what makes one non-trivial
	Assumptions []string
	Facets      []*Facet
	Bubble      bool // cases need a *testing.T (for a fake clock)
}

// theT is the test that a worker runs in, if its property needs one.
var theT *testing.T

// withT runs body as a test if the property needs that.
func withT(propID string, body func()) {
	if p := props[propID]; p == nil || !p.Bubble {
		body()
		return
	}
	testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "vt", F: func(t *testing.T) {
		theT = t
		body()
		os.Exit(0)
	}}}, nil, nil)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// facet builds a Facet for a concrete case type.
func facet[C any](name string, quick, thorough int, gen func(*rapid.T) C, check func(C, *Ctx) error) *Facet {
	return &Facet{
		Name: name, Quick: quick, Thorough: thorough,
		gen: func(t *rapid.T) any { return gen(t) },
		decode: func(b []byte) (any, error) {
			var c C
			d := json.NewDecoder(bytes.NewReader(b))
			d.UseNumber()
			err := d.Decode(&c)
			return c, err
		},
		check: func(c any, x *Ctx) error { return check(c.(C), x) },
	}
}

// Ctx is what an oracle gets besides the case.
type Ctx struct {
	scratch string
	tmp     string
	nt      bool
	labels  map[string]bool
	Thor    bool
}

// NT marks the case as non-trivial.
func (x *Ctx) NT() { x.nt = true }

// Label counts the case in a class.
func (x *Ctx) Label(format string, a ...any) {
	if x.labels == nil {
		x.labels = map[string]bool{}
	}
	x.labels[fmt.Sprintf(format, a...)] = true
}

// Tmp is a directory of this case's own, removed afterwards.
func (x *Ctx) Tmp() string {
	if x.tmp == "" {
		d, err := os.MkdirTemp(x.scratch, "c")
		if err != nil {
			harness("%v", err)
		}
		x.tmp = d
	}
	return x.tmp
}

func (x *Ctx) done() {
	if x.tmp != "" {
		_ = filepath.Walk(x.tmp, func(p string, i os.FileInfo, err error) error {
			if err == nil && i.IsDir() {
				_ = os.Chmod(p, 0755)
			}
			return nil
		})
		os.RemoveAll(x.tmp)
	}
}

// WriteFiles puts files (relative names) below the case's directory.
func (x *Ctx) WriteFiles(files map[string]string) string {
	d := x.Tmp()
	for n, s := range files {
		p := filepath.Join(d, n)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			harness("%v", err)
		}
		if err := os.WriteFile(p, []byte(s), 0644); err != nil {
			harness("%v", err)
		}
	}
	return d
}

type harnessError struct{ msg string }

// harness reports a failure of the machinery itself (error exit, never a violation).
func harness(format string, a ...any) {
	panic(harnessError{fmt.Sprintf(format, a...)})
}

func viol(format string, a ...any) error { return fmt.Errorf(format, a...) }

// outside is panicked with by a model that leaves the case open.
type outside struct{ why string }

// runCheck runs an oracle on a case; a panic in the code under test is a violation.
func runCheck(f *Facet, c any, x *Ctx) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				panic(h)
			}
			if o, ok := r.(outside); ok {
				x.nt = false
				x.Label("left open: %s", o.why)
				err = nil
				return
			}
			err = viol("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return f.check(c, x)
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// ---- worker ---------------------------------------------------------------

type Result struct {
	Facet     string
	Evals     int
	NonTriv   []uint64
	Labels    map[string]int
	Samples   []json.RawMessage
	Fail      *Failure
	FirstFail *Failure
	Abnormal  string // cpu, memory
	Harness   string
	MaxCaseMs int
}

type Failure struct {
	Case json.RawMessage
	Msg  string
}

type Replay struct {
	Property string
	Facet    string
	Message  string
	Case     json.RawMessage
}

type rtb struct {
	failed bool
	log    strings.Builder
}

type stopTB struct{}

func (r *rtb) Helper()                   {}
func (r *rtb) Name() string              { return "vt" }
func (r *rtb) Logf(f string, a ...any)   { r.add(fmt.Sprintf(f, a...)) }
func (r *rtb) Log(a ...any)              { r.add(fmt.Sprint(a...)) }
func (r *rtb) Skipf(f string, a ...any)  { panic("skip") }
func (r *rtb) Skip(a ...any)             { panic("skip") }
func (r *rtb) SkipNow()                  { panic("skip") }
func (r *rtb) Errorf(f string, a ...any) { r.add(fmt.Sprintf(f, a...)); r.failed = true }
func (r *rtb) Error(a ...any)            { r.add(fmt.Sprint(a...)); r.failed = true }
func (r *rtb) Fatalf(f string, a ...any) { r.Errorf(f, a...); panic(stopTB{}) }
func (r *rtb) Fatal(a ...any)            { r.Error(a...); panic(stopTB{}) }
func (r *rtb) FailNow()                  { r.failed = true; panic(stopTB{}) }
func (r *rtb) Fail()                     { r.failed = true }
func (r *rtb) Failed() bool              { return r.failed }
func (r *rtb) add(s string) {
	if r.log.Len() < 8000 {
		r.log.WriteString(s + "\n")
	}
}

const (
	caseCPULimit = 12 * time.Second
	caseMemLimit = 2 << 30
	exitAbnormal = 97

	childCPULimit = 10 * time.Second
)

var caseStartCPU atomic.Int64 // CPU nanoseconds at start of the running case, -1 if none

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func rss() int64 { return rssOf("self") }

func rssOf(pid string) int64 {
	b, err := os.ReadFile("/proc/" + pid + "/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func watchdog(onAbnormal func(string)) {
	caseStartCPU.Store(-1)
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			s := caseStartCPU.Load()
			if s < 0 {
				continue
			}
			if cpuNow()-s > int64(caseCPULimit) {
				onAbnormal("cpu")
				os.Exit(exitAbnormal)
			}
			if rss() > caseMemLimit {
				onAbnormal("memory")
				os.Exit(exitAbnormal)
			}
		}
	}()
}

// guard ends a child that uses more CPU time or memory than any command on a generated case
// needs. The result says why it was ended ("" if it wasn't); call it after Wait.
func guard(cmd *exec.Cmd) func() string {
	why, stop, done := "", make(chan bool), make(chan bool)
	pid := strconv.Itoa(cmd.Process.Pid)
	go func() {
		defer close(done)
		for {
			select {
			case <-stop:
				return
			case <-time.After(100 * time.Millisecond):
			}
			if rssOf(pid) > caseMemLimit {
				why = fmt.Sprintf("more than %d MB of memory", caseMemLimit>>20)
			}
			if b, err := os.ReadFile("/proc/" + pid + "/stat"); err == nil {
				if i := bytes.LastIndexByte(b, ')'); i > 0 {
					if f := strings.Fields(string(b[i+1:])); len(f) > 12 {
						u, _ := strconv.ParseInt(f[11], 10, 64)
						k, _ := strconv.ParseInt(f[12], 10, 64)
						if time.Duration(u+k)*(time.Second/100) > childCPULimit {
							why = fmt.Sprintf("more than %v of CPU time", childCPULimit)
						}
					}
				}
			}
			if why != "" {
				cmd.Process.Kill()
				return
			}
		}
	}()
	return func() string { close(stop); <-done; return why }
}

// evalOne journals and runs one case (given as JSON).
func evalOne(f *Facet, cb []byte, scratch string, thor bool) (*Ctx, error) {
	c, err := f.decode(cb)
	if err != nil {
		harness("decoding case of %s: %v", f.Name, err)
	}
	x := &Ctx{scratch: scratch, Thor: thor}
	defer x.done()
	caseStartCPU.Store(cpuNow())
	err = runCheck(f, c, x)
	caseStartCPU.Store(-1)
	return x, err
}

func writeResult(file string, r *Result) {
	b, err := json.Marshal(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, "result:", err)
		os.Exit(3)
	}
	if err := os.WriteFile(file+".tmp", b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, "result:", err)
		os.Exit(3)
	}
	if err := os.Rename(file+".tmp", file); err != nil {
		os.Exit(3)
	}
}

func setFlag(name, val string) {
	if err := flag.Set(name, val); err != nil {
		panic(err)
	}
}

// workerMain explores one facet with one seed.
func workerMain(propID, facetName string, seed uint64, checks int, resFile, journal, scratch string, thor bool) {
	debug.SetMaxStack(128 << 20)
	f := findFacet(propID, facetName)
	res := &Result{Facet: f.Name, Labels: map[string]int{}}
	jf, err := os.Create(journal)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	watchdog(func(kind string) {
		res2 := &Result{Facet: f.Name, Abnormal: kind, Evals: res.Evals, Fail: res.Fail, FirstFail: res.FirstFail}
		writeResult(resFile, res2)
	})
	testing.Init()
	flag.CommandLine.Parse(nil)
	if seed == 0 {
		seed = 1
	}
	setFlag("rapid.checks", strconv.Itoa(checks))
	setFlag("rapid.seed", strconv.FormatUint(seed, 10))
	setFlag("rapid.nofailfile", "true")
	setFlag("rapid.shrinktime", "20s")

	seen := map[uint64]bool{}
	prop := func(t *rapid.T) {
		c := f.gen(t)
		cb, err := json.Marshal(c)
		if err != nil {
			harness("encoding case of %s: %v", f.Name, err)
		}
		var hdr [8]byte
		binary.LittleEndian.PutUint64(hdr[:], uint64(len(cb)))
		if _, err := jf.WriteAt(append(hdr[:], cb...), 0); err != nil {
			harness("journal: %v", err)
		}
		t0 := time.Now()
		x, err := evalOne(f, cb, scratch, thor)
		if ms := int(time.Since(t0).Milliseconds()); ms > res.MaxCaseMs {
			res.MaxCaseMs = ms
		}
		res.Evals++
		for l := range x.labels {
			res.Labels[l]++
		}
		if x.nt {
			h := hash64(f.Name, string(cb))
			if !seen[h] {
				seen[h] = true
				res.NonTriv = append(res.NonTriv, h)
				if n := len(res.NonTriv); len(res.Samples) < 3 && (n == 1 || n == 20 || n == 60) {
					res.Samples = append(res.Samples, cb)
				}
			}
		}
		if err != nil {
			fl := &Failure{Case: cb, Msg: err.Error()}
			if res.FirstFail == nil {
				res.FirstFail = fl
			}
			res.Fail = fl
			t.Fatalf("violation")
		}
	}
	tb := &rtb{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopTB); ok {
					return
				}
				if h, ok := r.(harnessError); ok {
					res.Harness = h.msg
					return
				}
				res.Harness = fmt.Sprintf("%v\n%s", r, debug.Stack())
			}
		}()
		rapid.Check(tb, prop)
	}()
	if tb.failed && res.Fail == nil && res.Harness == "" {
		res.Harness = "rapid: " + tb.log.String()
	}
	writeResult(resFile, res)
}

// oneMain runs the oracle on one saved case, without rapid. Exit 0 ok, 1 violation, 97 abnormal.
func oneMain(propID, facetName, caseFile, resFile, scratch string) {
	debug.SetMaxStack(128 << 20)
	f := findFacet(propID, facetName)
	cb, err := os.ReadFile(caseFile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	watchdog(func(kind string) {
		writeResult(resFile, &Result{Facet: f.Name, Abnormal: kind})
	})
	res := &Result{Facet: f.Name, Evals: 1}
	func() {
		defer func() {
			if r := recover(); r != nil {
				res.Harness = fmt.Sprint(r)
			}
		}()
		// Several times: what depends on map iteration order may hold once by luck.
		for i := 0; i < 8; i++ {
			_, err := evalOne(f, cb, scratch, false)
			if err != nil {
				res.Fail = &Failure{Case: cb, Msg: err.Error()}
				break
			}
		}
	}()
	writeResult(resFile, res)
}

func findFacet(propID, name string) *Facet {
	p := props[propID]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", propID)
		os.Exit(3)
	}
	for _, f := range p.Facets {
		if f.Name == name {
			return f
		}
	}
	fmt.Fprintf(os.Stderr, "unknown facet %s of %s\n", name, propID)
	os.Exit(3)
	return nil
}

func propIDs() []string {
	ids := make([]string, 0, len(props))
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

var _ = runtime.NumCPU
