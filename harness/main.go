package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vt run|replay|worker|one|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, id := range propIDs() {
			fmt.Println(id)
		}
	case "worker":
		a := os.Args[2:]
		seed, _ := strconv.ParseUint(a[2], 10, 64)
		checks, _ := strconv.Atoi(a[3])
		withT(a[0], func() { workerMain(a[0], a[1], seed, checks, a[4], a[5], a[6], a[7] == "thorough") })
	case "one":
		a := os.Args[2:]
		withT(a[0], func() { oneMain(a[0], a[1], a[2], a[3], a[4]) })
	case "run":
		os.Exit(runMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

type job struct {
	f      *Facet
	shard  int
	seed   uint64
	checks int
}

var verifDir = "/verif"

// spawn runs vt itself as a child; returns the result (nil if none) and how it ended.
func spawn(scratch string, wall time.Duration, stop <-chan bool, args ...string) (*exec.Cmd, error, string, bool) {
	self, err := os.Executable()
	if err != nil {
		return nil, err, "", false
	}
	cmd := exec.Command(self, args...)
	cmd.Dir = scratch
	errf, err := os.Create(filepath.Join(scratch, "stderr"))
	if err != nil {
		return nil, err, "", false
	}
	defer errf.Close()
	devnull, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil {
		return nil, err, "", false
	}
	defer devnull.Close()
	cmd.Stdin = devnull
	cmd.Stdout = devnull
	cmd.Stderr = errf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(cleanEnv(), "HOME="+scratch, "TMPDIR="+scratch, "GOTRACEBACK=single", "GOMAXPROCS=2", "TZ="+zoneFile(scratch, args[1]))
	if err := cmd.Start(); err != nil {
		return nil, err, "", false
	}
	timedOut := false
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-stop:
		timedOut = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		err = <-done
	case <-time.After(wall):
		timedOut = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		err = <-done
	}
	b, _ := os.ReadFile(filepath.Join(scratch, "stderr"))
	if len(b) > 6000 {
		b = append(append([]byte{}, b[:3000]...), b[len(b)-3000:]...)
	}
	return cmd, err, string(b), timedOut
}

// cleanEnv is the environment for workers: nothing that changes goledger's or rapid's behaviour.
func cleanEnv() []string {
	out := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch {
		case k == "PATH", strings.HasPrefix(k, "VT_"):
			out = append(out, e)
		}
	}
	return append(out, "LANG=en")
}

// zoneFile writes a time zone for a property's workers: results must not depend
// on where the program runs. Clocks change at midnight, so that some days have
// no 00:00 (or two); the zone is east of UTC for odd properties, west for even ones.
func zoneFile(dir, id string) string {
	rule, off := "<+0545>-5:45<+0645>,M3.2.0/0,M10.2.0/0", 5*3600+45*60
	if n, _ := strconv.Atoi(strings.TrimLeft(id, "C0")); n%2 == 0 {
		rule, off = "<-0930>9:30<-0830>,M4.1.3/0,M9.3.5/0", -(9*3600 + 30*60)
	}
	block := func() []byte {
		b := append([]byte("TZif2"), make([]byte, 15)...)
		for _, n := range []uint32{0, 0, 0, 0, 1, 4} { // ut, std, leap, transitions, types, characters
			b = binary.BigEndian.AppendUint32(b, n)
		}
		b = binary.BigEndian.AppendUint32(b, uint32(int32(off)))
		return append(b, 0, 0, 'S', 'T', 'D', 0)
	}
	f := filepath.Join(dir, "zone")
	os.WriteFile(f, append(append(block(), block()...), []byte("\n"+rule+"\n")...), 0644)
	return f
}

// zoneCheck makes sure that the zone files mean what they should.
func zoneCheck(root string) error {
	for id, want := range map[string][2]int{"C01": {20700, 24300}, "C02": {-34200, -30600}} {
		b, err := os.ReadFile(zoneFile(root, id))
		if err != nil {
			return err
		}
		l, err := time.LoadLocationFromTZData("x", b)
		if err != nil {
			return err
		}
		_, w := time.Date(2020, 1, 1, 0, 0, 0, 0, l).Zone()
		_, s := time.Date(2150, 7, 1, 0, 0, 0, 0, l).Zone()
		if [2]int{w, s} != want {
			return fmt.Errorf("zone of %s is %d and %d", id, w, s)
		}
	}
	return nil
}

func readResult(file string) *Result {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var r Result
	if json.Unmarshal(b, &r) != nil {
		return nil
	}
	return &r
}

// isolate re-runs one case alone in fresh processes and says whether it fails there, and how.
func isolate(p *Prop, facet string, c []byte, root string, tries int) (*Failure, string) {
	for i := 0; i < tries; i++ {
		d, err := os.MkdirTemp(root, "iso")
		if err != nil {
			return nil, err.Error()
		}
		cf, rf := filepath.Join(d, "case.json"), filepath.Join(d, "res.json")
		os.WriteFile(cf, c, 0644)
		cmd, err, stderr, timedOut := spawn(d, 240*time.Second, nil, "one", p.ID, facet, cf, rf, d)
		r := readResult(rf)
		os.RemoveAll(d)
		if cmd == nil {
			return nil, fmt.Sprintf("cannot start worker: %v", err)
		}
		if timedOut {
			return nil, "isolated case ran out of wall time (inconclusive)"
		}
		if r != nil {
			switch {
			case r.Harness != "":
				return nil, r.Harness
			case r.Abnormal == "cpu":
				return &Failure{c, fmt.Sprintf("does not terminate: more than %v of CPU time for one case", caseCPULimit)}, ""
			case r.Abnormal == "memory":
				return &Failure{c, "unbounded memory use for one case"}, ""
			case r.Fail != nil:
				return r.Fail, ""
			}
			continue
		}
		if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			return nil, "isolated worker was killed (SIGKILL)"
		}
		return &Failure{c, "the process was ended by the code under test (" + cmd.ProcessState.String() + "): " + stderr}, ""
	}
	return nil, ""
}

// runFuzz fuzzes one facet guided by coverage (see fuzz_test.go). What it finds counts only if it
// fails again alone.
func runFuzz(bin string, p *Prop, f *Facet, root string, d time.Duration, seed uint64) (int, *Failure, string) {
	dir, err := os.MkdirTemp(root, "fuzz")
	if err != nil {
		return 0, nil, err.Error()
	}
	defer os.RemoveAll(dir)
	cmd := exec.Command(bin, "-test.run=NONE", "-test.fuzz=FuzzFacet", "-test.fuzztime="+d.String(), "-test.parallel=8", "-test.fuzzminimizetime=10x", "-test.fuzzcachedir="+filepath.Join(dir, "cache"))
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(cleanEnv(), "HOME="+dir, "TMPDIR="+dir, "GOTRACEBACK=single", "TZ="+zoneFile(dir, p.ID), "VT_FUZZ="+p.ID+"/"+f.Name, "VT_FUZZDIR="+dir, "VT_FUZZSEED="+strconv.FormatUint(seed>>1, 10))
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return 0, nil, err.Error()
	}
	late := time.AfterFunc(d+5*time.Minute, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err = cmd.Wait()
	late.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	n := 0
	each := func(pat string, do func([]byte)) {
		fs, _ := filepath.Glob(filepath.Join(dir, pat))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			do(b)
		}
	}
	each("evals-*", func(b []byte) { k, _ := strconv.Atoi(string(b)); n += k })
	if err == nil {
		return n, nil, ""
	}
	var cases [][]byte
	each("fail-*", func(b []byte) { cases = append(cases, b) })
	sort.SliceStable(cases, func(i, j int) bool { return len(cases[i]) < len(cases[j]) })
	if len(cases) > 4 {
		cases = cases[:4]
	}
	each("journal-*", func(b []byte) {
		if len(b) >= 8 {
			if k := binary.LittleEndian.Uint64(b); k > 0 && uint64(len(b)) >= 8+k {
				cases = append(cases, b[8:8+k])
			}
		}
	})
	for _, c := range cases {
		if fl, _ := isolate(p, f.Name, c, root, 2); fl != nil {
			return n, fl, ""
		}
	}
	return n, nil, fmt.Sprintf("facet %s: fuzzing ended (%v) without a case that fails again: %s", f.Name, err, cut(out.String(), 1500))
}

func isClosed(c <-chan bool) bool {
	select {
	case <-c:
		return true
	default:
		return false
	}
}

func runMain(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	id := fs.String("property", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	only := fs.String("facet", "", "only this facet (development)")
	scale := fs.Float64("scale", 1, "scale case counts (development)")
	fuzzTime := fs.Duration("fuzztime", 60*time.Second, "coverage-guided fuzzing per facet, if VT_FUZZBIN is set")
	noev := fs.Bool("noevidence", false, "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	p := props[*id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *id)
		return 2
	}
	start := time.Now()
	root, err := os.MkdirTemp("", "vt-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(root)

	wall := 780 * time.Second
	if *tier == "thorough" {
		wall = 3 * time.Hour
	}

	if err := zoneCheck(root); err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}

	// Saved cases of earlier findings first.
	var failures []*Replay
	var replayPaths []string
	var harnessErrs []string
	regressed := 0
	if *only == "" {
		files, _ := filepath.Glob(filepath.Join(verifDir, "regress", p.ID, "*.json"))
		sort.Strings(files)
		var wg sync.WaitGroup
		var mu sync.Mutex
		sem := make(chan bool, 8)
		for _, file := range files {
			b, err := os.ReadFile(file)
			var rp Replay
			if err == nil {
				err = json.Unmarshal(b, &rp)
			}
			if err != nil {
				harnessErrs = append(harnessErrs, file+": "+err.Error())
				continue
			}
			regressed++
			wg.Add(1)
			go func(file string, rp Replay) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				fl, herr := isolate(p, rp.Facet, rp.Case, root, 1)
				mu.Lock()
				defer mu.Unlock()
				if herr != "" {
					harnessErrs = append(harnessErrs, file+": "+herr)
				}
				if fl != nil {
					failures = append(failures, &Replay{p.ID, rp.Facet, fl.Msg, rp.Case})
					replayPaths = append(replayPaths, file)
				}
			}(file, rp)
		}
		wg.Wait()
	}

	var jobs []job
	for _, f := range p.Facets {
		if *only != "" && f.Name != *only {
			continue
		}
		n := f.Quick * 5 / 2
		if *tier == "thorough" {
			n = f.Thorough
		}
		n = int(float64(n) * *scale)
		if n == 0 {
			continue
		}
		shards := 1
		if n >= 64 {
			shards = 4
		}
		if *tier == "thorough" && n >= 64 {
			shards = 8
		}
		for s := 0; s < shards; s++ {
			c := n / shards
			if s < n%shards {
				c++
			}
			jobs = append(jobs, job{f, s, hash64(strconv.FormatInt(*seed, 10), p.ID, f.Name, strconv.Itoa(s)), c})
		}
	}

	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	evals := 0
	nontriv := map[uint64]bool{}
	labels := map[string]map[string]int{}
	perFacet := map[string]int{}
	samples := []any{}
	sampled := map[string]int{}
	maxMs := map[string]int{}
	failedFacet := map[string]bool{}

	// Once there is a violation, the search ends after a while.
	enough := make(chan bool)
	over := make(chan bool)
	go func() {
		for !isClosed(over) {
			time.Sleep(time.Second)
			mu.Lock()
			n := len(failures)
			mu.Unlock()
			if n > 0 && time.Since(start) > 4*time.Minute {
				close(enough)
				return
			}
		}
	}()
	for _, j := range jobs {
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			mu.Lock()
			skip := failedFacet[j.f.Name] || isClosed(enough)
			mu.Unlock()
			if skip {
				return
			}
			d, err := os.MkdirTemp(root, "w")
			if err != nil {
				mu.Lock()
				harnessErrs = append(harnessErrs, err.Error())
				mu.Unlock()
				return
			}
			defer os.RemoveAll(d)
			rf, jf := filepath.Join(d, "res.json"), filepath.Join(d, "journal")
			left := wall - time.Since(start)
			if left < time.Second {
				left = time.Second
			}
			cmd, err, stderr, timedOut := spawn(d, left, enough, "worker", p.ID, j.f.Name, strconv.FormatUint(j.seed, 10), strconv.Itoa(j.checks), rf, jf, d, *tier)
			var herr string
			var fl *Failure
			r := readResult(rf)
			switch {
			case cmd == nil:
				herr = fmt.Sprintf("cannot start worker: %v", err)
			case timedOut && isClosed(enough):
				// a violation is known already
			case timedOut:
				herr = fmt.Sprintf("facet %s ran out of wall time (inconclusive)", j.f.Name)
			case r != nil && r.Abnormal == "" && r.Harness != "":
				herr = cut(r.Harness, 1500)
				fl = r.Fail
			case r != nil && r.Abnormal == "":
				fl = r.Fail
			default:
				// The worker died or was stopped: re-run its last case alone.
				how := cmd.ProcessState.String()
				b, err := os.ReadFile(jf)
				var c []byte
				if err == nil && len(b) >= 8 {
					if n := binary.LittleEndian.Uint64(b); uint64(len(b)) >= 8+n {
						c = b[8 : 8+n]
					}
				}
				if len(bytes.TrimSpace(c)) == 0 {
					herr = fmt.Sprintf("facet %s: worker ended (%s) without a case: %s", j.f.Name, how, stderr)
					break
				}
				fl, herr = isolate(p, j.f.Name, c, root, 6)
				if fl == nil && r != nil && r.Fail != nil {
					fl = r.Fail // a violation was seen before shrinking ran away
				}
				if fl == nil && herr == "" {
					herr = fmt.Sprintf("facet %s: worker ended (%s) but its last case does not reproduce that alone: %s", j.f.Name, how, stderr)
				}
			}
			mu.Lock()
			defer mu.Unlock()
			if r != nil {
				evals += r.Evals
				perFacet[j.f.Name] += r.Evals
				for _, h := range r.NonTriv {
					nontriv[h] = true
				}
				for l, n := range r.Labels {
					if labels[j.f.Name] == nil {
						labels[j.f.Name] = map[string]int{}
					}
					labels[j.f.Name][l] += n
				}
				for _, s := range r.Samples {
					if sampled[j.f.Name] < 2 {
						sampled[j.f.Name]++
						if len(s) > 4000 {
							t, _ := json.Marshal(string(s[:4000]) + "...")
							s = t
						}
						samples = append(samples, map[string]any{"facet": j.f.Name, "case": s})
					}
				}
				if r.MaxCaseMs > maxMs[j.f.Name] {
					maxMs[j.f.Name] = r.MaxCaseMs
				}
			}
			if herr != "" {
				harnessErrs = append(harnessErrs, herr)
			}
			if fl != nil && !failedFacet[j.f.Name] {
				failedFacet[j.f.Name] = true
				rp := &Replay{p.ID, j.f.Name, fl.Msg, fl.Case}
				failures = append(failures, rp)
				replayPaths = append(replayPaths, "")
			}
		}(j)
	}
	wg.Wait()
	close(over)

	// Coverage-guided fuzzing of the facets that run in process.
	guided := map[string]int{}
	if fuzz := os.Getenv("VT_FUZZBIN"); fuzz != "" {
		for i, f := range p.Facets {
			if *only != "" && f.Name != *only || failedFacet[f.Name] || strings.Contains(f.Name, "binary") || has([]string{"terminal", "search", "commands"}, f.Name) {
				continue
			}
			n, fl, herr := runFuzz(fuzz, p, f, root, time.Duration(float64(*fuzzTime)**scale), hash64(strconv.FormatInt(*seed, 10), p.ID, strconv.Itoa(i)))
			guided[f.Name] = n
			evals += n
			if herr != "" {
				harnessErrs = append(harnessErrs, herr)
			}
			if fl != nil {
				failures = append(failures, &Replay{p.ID, f.Name, fl.Msg, fl.Case})
				replayPaths = append(replayPaths, "")
			}
		}
	}

	// Report.
	for i, rp := range failures {
		path := replayPaths[i]
		if path == "" {
			dir := filepath.Join(verifDir, "replays")
			os.MkdirAll(dir, 0755)
			path = filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", p.ID, strings.ReplaceAll(rp.Facet, " ", "-"), hash64(string(rp.Case))))
			b, _ := json.MarshalIndent(rp, "", " ")
			if err := os.WriteFile(path, b, 0644); err != nil {
				harnessErrs = append(harnessErrs, err.Error())
			}
		}
		msg := rp.Message
		if len(msg) > 2500 {
			msg = msg[:2500] + "..."
		}
		fmt.Printf("%s/%s: %s\n", rp.Property, rp.Facet, msg)
		cs := string(rp.Case)
		if len(cs) > 3000 {
			cs = cs[:3000] + "..."
		}
		fmt.Printf("case: %s\n", cs)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	for _, h := range harnessErrs {
		fmt.Fprintf(os.Stderr, "error: %s\n", h)
	}

	facetInfo := []any{}
	for _, f := range p.Facets {
		facetInfo = append(facetInfo, map[string]any{"facet": f.Name, "evaluations": perFacet[f.Name], "coverage_guided": guided[f.Name], "classes": labels[f.Name], "slowest_case_ms": maxMs[f.Name]})
	}
	ev := map[string]any{
		"property": p.ID, "tier": *tier, "seed": *seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":          evals,
			"distinct_nontrivial":  len(nontriv),
			"rule":                 p.Rule,
			"samples":              samples,
			"facets":               facetInfo,
			"saved_cases_replayed": regressed,
		},
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(failures),
	}
	if !*noev {
		b, err := json.MarshalIndent(ev, "", " ")
		if err == nil {
			os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
			err = os.WriteFile(filepath.Join(verifDir, "evidence", p.ID+".json"), b, 0644)
		}
		if err != nil {
			fmt.Fprintf(os.Stderr, "error: evidence: %v\n", err)
			if len(failures) == 0 {
				return 2
			}
		}
	}
	if *verbose {
		b, _ := json.MarshalIndent(facetInfo, "", " ")
		fmt.Println(string(b))
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1fs\n", p.ID, *tier, *seed, evals, len(nontriv), len(failures), time.Since(start).Seconds())
	if len(failures) > 0 {
		return 1
	}
	if len(harnessErrs) > 0 {
		return 2
	}
	return 0
}

// replayMain runs the oracle on a saved case.
func replayMain(args []string) int {
	if len(args) != 1 {
		fmt.Fprintln(os.Stderr, "usage: replay FILE")
		return 2
	}
	b, err := os.ReadFile(args[0])
	var rp Replay
	if err == nil {
		err = json.Unmarshal(b, &rp)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[rp.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", rp.Property)
		return 2
	}
	root, err := os.MkdirTemp("", "vt-replay-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(root)
	fl, herr := isolate(p, rp.Facet, rp.Case, root, 3)
	if herr != "" {
		fmt.Fprintln(os.Stderr, "error:", herr)
		return 2
	}
	if fl != nil {
		fmt.Printf("%s/%s: %s\nVIOLATION property=%s replay=%s\n", rp.Property, rp.Facet, fl.Msg, rp.Property, args[0])
		return 1
	}
	fmt.Printf("%s/%s: holds on %s\n", rp.Property, rp.Facet, args[0])
	return 0
}
