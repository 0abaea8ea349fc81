//go:build go1.21

// Package vh is the small runtime shared by the property checks: evidence
// counting, deterministic case budgets and logging silence.
package vh

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	logger "github.com/ElrondNetwork/elrond-go-logger"
	"pgregory.net/rapid"
)

type recorder struct {
	mu          sync.Mutex
	Property    string
	Rule        string
	Evaluations int64
	seen        map[uint64]struct{}
	Classes     map[string]int64
	Samples     []string
	Notes       []string
	sampleClass map[string]int
}

var rec = &recorder{
	seen:        map[uint64]struct{}{},
	Classes:     map[string]int64{},
	sampleClass: map[string]int{},
}

func init() {
	if os.Getenv("VH_LOG") == "" {
		_ = logger.SetLogLevel("*:NONE")
	}
}

// Thorough tells which tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Replaying tells whether a saved failure is being replayed.
func Replaying() bool { return os.Getenv("VH_REPLAY") != "" }

// Shard is this process's number among the processes of the check.
func Shard() int { n, _ := strconv.Atoi(os.Getenv("VH_SHARD")); return n }

// Shards is the number of processes of the check.
func Shards() int {
	n, _ := strconv.Atoi(os.Getenv("VH_SHARDS"))
	if n < 1 {
		n = 1
	}
	return n
}

// Seed is the seed of the run (the same in all shards).
func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		n = 1
	}
	return n
}

// Rule declares what is counted as a non-trivial case.
func Rule(property, rule string) {
	rec.mu.Lock()
	rec.Property, rec.Rule = property, rule
	rec.mu.Unlock()
}

// Case records one evaluated case. key identifies it (for distinctness) and
// class buckets it; sample renders it, for the few that are kept.
func Case(nontrivial bool, class string, key string, sample func() string) {
	h := fnv.New64a()
	h.Write([]byte(class))
	h.Write([]byte{0})
	h.Write([]byte(key))
	k := h.Sum64()
	rec.mu.Lock()
	defer rec.mu.Unlock()
	rec.Evaluations++
	rec.Classes[class]++
	if !nontrivial {
		return
	}
	if _, ok := rec.seen[k]; ok {
		return
	}
	rec.seen[k] = struct{}{}
	if sample != nil && rec.sampleClass[class] < 2 && len(rec.Samples) < 60 {
		n := rec.Classes[class]
		// skip the first, smallest, cases of each class
		if n >= 5 {
			s := sample()
			if len(s) > 1500 {
				s = s[:1500] + "..."
			}
			rec.sampleClass[class]++
			rec.Samples = append(rec.Samples, class+": "+s)
		}
	}
}

// Class only counts a label.
func Class(label string) {
	rec.mu.Lock()
	rec.Classes[label]++
	rec.mu.Unlock()
}

// Note adds a line to the evidence.
func Note(format string, a ...interface{}) {
	rec.mu.Lock()
	rec.Notes = append(rec.Notes, fmt.Sprintf(format, a...))
	rec.mu.Unlock()
}

// Known reports a genuine defect that is recorded in known_findings.txt and not repaired, shown by a pinned reproduction
// that has just failed. One that the file does not list is a violation.
func Known(t testing.TB, property, name, what string) {
	t.Helper()
	list, err := os.ReadFile(filepath.Join(os.Getenv("VH_VERIF"), "known_findings.txt"))
	if err != nil {
		t.Fatalf("INFRA: %v", err)
	}
	for _, line := range strings.Split(string(list), "\n") {
		if strings.HasPrefix(line, "known: property="+property+" "+name+" ") {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", property, name, what)
			return
		}
	}
	t.Errorf("%s: %s", name, what)
}

var limit = func() time.Duration {
	n, _ := strconv.Atoi(os.Getenv("VH_SECONDS"))
	return time.Duration(n) * time.Second
}()

// Check runs a rapid property.
func Check(t *testing.T, prop func(*rapid.T)) {
	t.Helper()
	start, failed := time.Now(), false
	rapid.Check(t, func(rt *rapid.T) {
		// on a slow machine, do less rather than run out of time; but a failure
		// that is being reduced must keep failing
		if !failed && limit > 0 && time.Since(start) > limit {
			return
		}
		ok := false
		defer func() { failed = failed || !ok }()
		prop(rt)
		ok = true
	})
}

// Within fails the test if f does not return within a (very generous) limit.
func Within(limit time.Duration, f func()) bool {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p := <-done:
		if p != nil {
			panic(p)
		}
		return true
	case <-time.After(limit):
		return false
	}
}

// Main is the TestMain of every check package.
func Main(m *testing.M) {
	code := m.Run()
	if p := os.Getenv("VH_EVIDENCE"); p != "" {
		rec.mu.Lock()
		hashes := make([]string, 0, len(rec.seen))
		for k := range rec.seen {
			hashes = append(hashes, strconv.FormatUint(k, 36))
		}
		sort.Strings(hashes)
		out, err := json.Marshal(map[string]interface{}{
			"property": rec.Property, "rule": rec.Rule, "evaluations": rec.Evaluations,
			"classes": rec.Classes, "samples": rec.Samples, "notes": rec.Notes, "hashes": hashes,
		})
		rec.mu.Unlock()
		if err == nil {
			err = os.WriteFile(p, out, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			code = 4
		}
	}
	os.Exit(code)
}
