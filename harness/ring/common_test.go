// Package ring exercises the contracts of trc on concrete histories,
// through exported API only. It is compiled into the module with an overlay.
package ring

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
)

var rep = struct {
	sync.Mutex
	Evaluations int             `json:"evaluations"`
	Distinct    int             `json:"distinct"`
	Samples     []string        `json:"samples"`
	Tests       map[string]bool `json:"-"`
	TestList    []string        `json:"tests"`
	seen        map[uint64]bool
}{Tests: map[string]bool{}, seen: map[uint64]bool{}}

// note records one evaluated case.
func note(t *testing.T, format string, args ...any) {
	rep.Lock()
	defer rep.Unlock()
	rep.Evaluations++
	s := fmt.Sprintf(format, args...)
	h := fnv.New64a()
	h.Write([]byte(t.Name() + "|" + s))
	if !rep.seen[h.Sum64()] {
		rep.seen[h.Sum64()] = true
		rep.Distinct++
	}
	if !rep.Tests[t.Name()] {
		rep.Tests[t.Name()] = true
		if len(s) > 300 {
			s = s[:300]
		}
		rep.Samples = append(rep.Samples, t.Name()+": "+s)
	}
}

func TestMain(m *testing.M) {
	rc := m.Run()
	if f := os.Getenv("VERIF_OUT"); f != "" {
		for k := range rep.Tests {
			rep.TestList = append(rep.TestList, k)
		}
		b, _ := json.Marshal(struct {
			Evaluations int      `json:"evaluations"`
			Distinct    int      `json:"distinct"`
			Samples     []string `json:"samples"`
			Tests       []string `json:"tests"`
		}{rep.Evaluations, rep.Distinct, rep.Samples, rep.TestList})
		os.WriteFile(f+strconv.Itoa(os.Getpid()), b, 0o644)
	}
	os.Exit(rc)
}

func seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// iters scales the number of random histories.
func iters(n int) int {
	if thorough() {
		return n * 10
	}
	return n
}

func newRand(salt int64) *rand.Rand { return rand.New(rand.NewSource(seed()*1000003 + salt)) }

