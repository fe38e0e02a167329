package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// FuzzFacet is Go's coverage-guided fuzzing of one facet (VT_FUZZ=C03/mutated): the
// fuzzer's bytes are the choices of the facet's generator, so that it evolves
// whole structured cases towards new code of goledger. The parent (runFuzz)
// reads what is left in VT_FUZZDIR.
func FuzzFacet(f *testing.F) {
	id, name, _ := strings.Cut(os.Getenv("VT_FUZZ"), "/")
	dir := os.Getenv("VT_FUZZDIR")
	if dir == "" {
		f.Skip("VT_FUZZ and VT_FUZZDIR are not set")
	}
	debug.SetMaxStack(128 << 20)
	fc := findFacet(id, name)
	scratch, err := os.MkdirTemp(dir, "scratch")
	if err != nil {
		f.Fatal(err)
	}
	me := strconv.Itoa(os.Getpid())
	jf, err := os.Create(filepath.Join(dir, "journal-"+me))
	if err != nil {
		f.Fatal(err)
	}
	watchdog(func(kind string) {
		os.WriteFile(filepath.Join(dir, "abnormal-"+me), []byte(kind), 0644)
	})
	seed, _ := strconv.ParseInt(os.Getenv("VT_FUZZSEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	for i := 0; i < 40; i++ {
		b := make([]byte, 8<<(4+i%8))
		rnd.Read(b)
		f.Add(b)
	}
	evals, fails := 0, 0
	prop := rapid.MakeFuzz(func(t *rapid.T) {
		c := fc.gen(t)
		cb, err := json.Marshal(c)
		if err != nil {
			t.SkipNow()
		}
		var hdr [8]byte
		binary.LittleEndian.PutUint64(hdr[:], uint64(len(cb)))
		jf.WriteAt(append(hdr[:], cb...), 0)
		_, err = evalOne(fc, cb, scratch, true)
		if evals++; evals%50 == 0 {
			os.WriteFile(filepath.Join(dir, "evals-"+me), []byte(strconv.Itoa(evals)), 0644)
		}
		if err != nil {
			fails++
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("fail-%s-%d", me, fails)), cb, 0644)
			t.Fatalf("violation")
		}
	})
	f.Fuzz(func(t *testing.T, b []byte) {
		theT = t
		prop(t, b)
	})
}
