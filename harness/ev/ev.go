// Package ev measures what a run covers and writes it out for the driver.
package ev

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
)

// Stats are the measurements of one property in one process.
type Stats struct {
	mu       sync.Mutex
	ID       string            `json:"id"`
	Rule     string            `json:"rule"`
	Evals    int64             `json:"evaluations"`
	NonTriv  int64             `json:"nontrivial"`
	Labels   map[string]int64  `json:"labels"`
	Samples  []string          `json:"samples"`
	Known    map[string]string `json:"known"`
	Hashes   []string          `json:"hashes"`
	distinct map[uint64]struct{}
	journal  string
}

const maxHashes = 400000

// Start begins measuring and arranges for the numbers to be written at the end.
func Start(t *testing.T, id, rule string) *Stats {
	s := &Stats{ID: id, Rule: rule, Labels: map[string]int64{}, Known: map[string]string{}, distinct: map[uint64]struct{}{}}
	s.journal = os.Getenv("VERIF_JOURNAL")
	t.Cleanup(func() { s.flush() })
	return s
}

// Case counts one generated case.
func (s *Stats) Case(nontrivial bool, hash uint64, labels ...string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Evals++
	for _, l := range labels {
		s.Labels[l]++
	}
	if !nontrivial {
		return
	}
	s.NonTriv++
	if len(s.distinct) < maxHashes {
		s.distinct[hash] = struct{}{}
	}
}

// Label counts something about the current case.
func (s *Stats) Label(l string, n int) {
	if n == 0 {
		return
	}
	s.mu.Lock()
	s.Labels[l] += int64(n)
	s.mu.Unlock()
}

// Sample keeps a few written-out cases, spread over the run.
func (s *Stats) Sample(f func() string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	k := len(s.Samples)
	if k >= 4 || s.Evals < int64([]int{5, 40, 160, 500}[k]) {
		return
	}
	x := f()
	if len(x) > 1500 {
		x = x[:1500] + " ..."
	}
	s.Samples = append(s.Samples, x)
}

// KnownFinding notes that a listed finding showed.
func (s *Stats) KnownFinding(key, what string) {
	s.mu.Lock()
	s.Known[key] = what
	s.mu.Unlock()
}

// Journal writes down the case about to run, for when the process dies in it.
func (s *Stats) Journal(f func() string) {
	if s.journal == "" {
		return
	}
	_ = os.WriteFile(s.journal, []byte(f()), 0o644)
}

func (s *Stats) flush() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for h := range s.distinct {
		s.Hashes = append(s.Hashes, fmt.Sprintf("%x", h))
	}
	sort.Strings(s.Hashes)
	if p := os.Getenv("VERIF_STATS"); p != "" {
		b, err := json.Marshal(s)
		if err == nil {
			err = os.WriteFile(p, b, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "cannot write stats:", err)
			os.Exit(3)
		}
	}
}

var knownList = func() map[string]bool {
	out := map[string]bool{}
	b, _ := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) >= 3 && f[0] == "finding:" {
			out[f[1]+" "+f[2]] = true
		}
	}
	return out
}()

// Listed says whether the known-findings file lists the finding.
func Listed(id, key string) bool { return knownList["property="+id+" key="+key] }
