// Package harness drives the real go-stomp code and judges what it does.
package harness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

// R collects what one check observed and what it concluded.
type R struct {
	T        *testing.T
	Prop     string
	Seed     int64
	Thorough bool

	out string

	mu            sync.Mutex
	evaluations   int64
	distinct      map[uint64]struct{}
	counters      map[string]int64
	samples       []any
	sampleSeen    map[string]int
	violations    []Violation
	notes         []string
	rule          string
	assumptions   []string
	start         time.Time
	shard, shards int
	only          string
	curFile       *os.File
	required      []string
	curCase       string
}

// Violation is one refutation of the property with what is needed to see it again.
type Violation struct {
	Key    string `json:"key"`    // identifies the failing input / call site / history class
	What   string `json:"what"`   // one line
	Detail any    `json:"detail"` // witness
	Case   string `json:"case"`   // label:number of the generated case; VERIF_ONLY replays it
}

type checkFn func(r *R)

var checks = map[string]checkFn{}

func register(id string, f checkFn) { checks[id] = f }

func newR(t *testing.T, prop string) *R {
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		} else {
			h := fnv.New64a()
			h.Write([]byte(s))
			seed = int64(h.Sum64() >> 1)
		}
	}
	r := &R{T: t, Prop: prop, Seed: seed, Thorough: os.Getenv("VERIF_TIER") == "thorough",
		out: os.Getenv("VERIF_OUT"), distinct: map[uint64]struct{}{}, counters: map[string]int64{},
		sampleSeen: map[string]int{}, start: realNow(), shards: 1, only: os.Getenv("VERIF_ONLY")}
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		fmt.Sscanf(s, "%d/%d", &r.shard, &r.shards)
	}
	if r.out != "" {
		r.curFile, _ = os.Create(r.out + ".cur")
	}
	return r
}

// Cases runs n numbered cases; each case's randomness depends only on the seed, the property, the label and the number.
// With several worker processes each runs its share. A panic raised by library code inside the case (on this goroutine)
// is a violation; a panic raised by the harness is passed on.
func (r *R) Cases(label string, n int, f func(i int, rng *rand.Rand)) {
	for i := 0; i < n; i++ {
		if r.only != "" {
			if r.only != fmt.Sprintf("%s:%d", label, i) {
				continue
			}
		} else if (i+int(hash64(label)%97))%r.shards != r.shard {
			continue
		}
		if r.Stop() {
			return
		}
		r.setCase(fmt.Sprintf("%s:%d", label, i))
		r.one(label, i, f)
	}
}

func (r *R) one(label string, i int, f func(i int, rng *rand.Rand)) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if !libraryPanic(st) {
				panic(fmt.Sprintf("harness panic in case %s:%d: %v\n%s", label, i, p, st))
			}
			r.Fail("panic", fmt.Sprintf("library code panicked: %v", p), map[string]any{"stack": st})
		}
	}()
	f(i, r.Rng(label, i))
}

// libraryPanic says whether the innermost non-runtime function below the panic belongs to the library.
func libraryPanic(stack string) bool {
	i := strings.LastIndex(stack, "\npanic(")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(stack[i+1:], "\n") {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "created by") {
			continue
		}
		if strings.HasPrefix(l, "github.com/go-stomp/stomp/v3") {
			return true
		}
		if strings.HasPrefix(l, "verif/harness") {
			return false
		}
	}
	return false
}

func (r *R) setCase(s string) {
	r.mu.Lock()
	r.curCase = s
	r.mu.Unlock()
	if r.curFile != nil {
		_, _ = r.curFile.WriteAt([]byte(fmt.Sprintf("%-80s\n", s)), 0)
	}
}

// Require makes the run inconclusive if the named counter stays below min over all workers: a run that observed nothing
// is no evidence.
func (r *R) Require(counter string, min int) {
	r.mu.Lock()
	r.required = append(r.required, fmt.Sprintf("%s %d", counter, min))
	r.mu.Unlock()
}

// realNow is only used outside bubbles.
func realNow() time.Time { return time.Now() }

// N picks an iteration count by tier.
func (r *R) N(quick, thorough int) int {
	n := quick
	if r.Thorough {
		n = thorough
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			n = int(float64(n)*f) + 1
		}
	}
	return n
}

// Rng returns a generator determined by the seed, the property, a label and an index.
func (r *R) Rng(label string, i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", r.Seed, r.Prop, label, i)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Eval records one evaluated case; sig identifies it, nontrivial says whether it counts by the rule.
func (r *R) Eval(sig string, nontrivial bool) {
	r.mu.Lock()
	r.evaluations++
	if nontrivial {
		r.distinct[hash64(sig)] = struct{}{}
	}
	r.mu.Unlock()
}

func (r *R) Count(name string, n int) {
	r.mu.Lock()
	r.counters[name] += int64(n)
	r.mu.Unlock()
}

func (r *R) Max(name string, n int) {
	name = "max_" + name
	r.mu.Lock()
	if int64(n) > r.counters[name] {
		r.counters[name] = int64(n)
	}
	r.mu.Unlock()
}

func (r *R) Counter(name string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.counters[name]
}

// Sample keeps up to two written-out cases per kind.
func (r *R) Sample(kind string, v any) {
	r.mu.Lock()
	if r.sampleSeen[kind] < 2 {
		r.sampleSeen[kind]++
		r.samples = append(r.samples, map[string]any{"kind": kind, "case": v})
	}
	r.mu.Unlock()
}

func (r *R) Rule(s string)   { r.mu.Lock(); r.rule = s; r.mu.Unlock() }
func (r *R) Assume(s string) { r.mu.Lock(); r.assumptions = append(r.assumptions, s); r.mu.Unlock() }
func (r *R) Note(s string)   { r.mu.Lock(); r.notes = append(r.notes, s); r.mu.Unlock() }

// Fail records a violation and saves it at once, so that a later crash cannot lose it.
func (r *R) Fail(key, what string, detail any) {
	r.mu.Lock()
	if r.Prop == "C32" { // only the race detector decides there; everything else is for the other checks to judge
		r.counters["findings_of_other_checks"]++
		if d := os.Getenv("VERIF_DBG"); d != "" {
			_ = os.WriteFile(d, []byte(fmt.Sprintln(key, what, detail)), 0o644)
		}
		if len(r.notes) < 20 {
			r.notes = append(r.notes, "not judged here: ["+key+"] "+what+" ("+r.curCase+")")
		}
		r.mu.Unlock()
		return
	}
	if len(r.violations) < 40 {
		r.violations = append(r.violations, Violation{key, what, detail, r.curCase})
	}
	r.mu.Unlock()
	r.Flush()
}

// Failing says that enough violations were seen to stop.
func (r *R) Failing() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.violations) >= 6
}

// Stop says that the workload should end early: enough violations, or the safety cap on run time.
func (r *R) Stop() bool {
	if r.Failing() {
		return true
	}
	limit := 600 * time.Second
	if r.Thorough {
		limit = 3 * time.Hour
	}
	if realSince(r.start) > limit {
		r.mu.Lock()
		r.counters["stopped_at_time_cap"] = 1
		r.mu.Unlock()
		return true
	}
	return false
}

func realSince(t time.Time) time.Duration { return time.Since(t) }

func (r *R) Flush() { r.flush(false) }

func (r *R) flush(done bool) {
	if r.out == "" {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	cov := map[string]any{"evaluations": r.evaluations, "distinct_nontrivial": len(r.distinct), "rule": r.rule, "samples": r.samples}
	for k, v := range r.counters {
		cov["n_"+k] = v
	}
	ds := make([]string, 0, len(r.distinct))
	if done {
		for h := range r.distinct {
			ds = append(ds, strconv.FormatUint(h, 36))
		}
	}
	b, err := json.MarshalIndent(map[string]any{"property": r.Prop, "coverage": cov, "violations": r.violations,
		"notes": r.notes, "assumptions": r.assumptions, "required": r.required, "hashes": strings.Join(ds, " ")}, "", " ")
	if err == nil {
		_ = os.WriteFile(r.out+".tmp", b, 0o644)
		_ = os.Rename(r.out+".tmp", r.out)
	}
}

func (r *R) finish() {
	r.flush(true)
	if r.out != "" {
		_ = os.WriteFile(r.out+".done", []byte("done\n"), 0o644)
	}
}

// bubble runs f in a synctest bubble (virtual time). It returns a non-empty string when the bubble deadlocked:
// either f itself could never continue ("all goroutines...") or goroutines were left blocked when f had returned.
func (r *R) bubble(f func()) (dead string, finished bool) {
	defer func() {
		if p := recover(); p != nil {
			s := fmt.Sprint(p)
			if strings.HasPrefix(s, "deadlock") {
				dead = s
				return
			}
			panic(p)
		}
	}()
	synctest.Test(r.T, func(t *testing.T) {
		f()
		finished = true
	})
	return "", finished
}

// stompGoroutines returns the stacks of goroutines that are executing code of the library under test.
func stompGoroutines() []string {
	var res []string
	for _, g := range allStacks() {
		if strings.Contains(g, "go-stomp/stomp/v3") {
			res = append(res, g)
		}
	}
	return res
}

func allStacks() []string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	return strings.Split(strings.TrimSpace(string(buf)), "\n\n")
}

// gState extracts the wait state from a goroutine header line such as
// "goroutine 12 [chan receive, 2 minutes, synctest bubble 3]:".
func gState(g string) string {
	i := strings.Index(g, "[")
	j := strings.Index(g, "]")
	if i < 0 || j < i {
		return "?"
	}
	s := g[i+1 : j]
	if k := strings.Index(s, ","); k >= 0 {
		s = s[:k]
	}
	return strings.TrimSuffix(s, " (durable)")
}

func gID(g string) string {
	f := strings.Fields(g)
	if len(f) > 1 {
		return f[1]
	}
	return "?"
}

// settle waits (real time) until cond holds. If it does not, it distinguishes "stuck" - nothing has made progress for
// the quiet period and in every sample every other goroutine is blocked without a running timer of ours - from
// "slow", for which it keeps waiting up to the watchdog. Only "stuck" is a verdict; the watchdog is inconclusive.
func settle(cond func() bool, progress *atomic.Int64, quiet time.Duration) (ok bool, stuck bool, dump string) {
	start := time.Now()
	lastProg := progress.Load()
	lastChange := time.Now()
	wait := 200 * time.Microsecond
	for {
		if cond() {
			return true, false, ""
		}
		time.Sleep(wait)
		if wait < 50*time.Millisecond {
			wait = wait * 3 / 2
		}
		if p := progress.Load(); p != lastProg {
			lastProg, lastChange = p, time.Now()
			continue
		}
		if time.Since(lastChange) > quiet/4 {
			// look at what everybody is doing; anything runnable counts as activity
			gs := allStacks()
			for i, g := range gs {
				if i == 0 || strings.Contains(g, "stallMonitor") {
					continue // this goroutine, or one that only watches
				}
				switch gState(g) {
				case "running", "runnable", "sleep":
					lastChange = time.Now().Add(-quiet / 4)
				}
			}
			if time.Since(lastChange) > quiet {
				if cond() {
					return true, false, ""
				}
				var sel []string
				for _, g := range gs[1:] {
					if strings.Contains(g, "go-stomp/stomp") && !strings.Contains(g, "synctest bubble") {
						sel = append(sel, g)
					}
				}
				return false, true, strings.Join(sel, "\n\n")
			}
		}
		if time.Since(start) > 240*time.Second {
			return false, false, "watchdog"
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// q shortens a byte string for reports.
func q(b []byte) string {
	if len(b) > 300 {
		return fmt.Sprintf("%q...(%d bytes, fnv %x)", b[:200], len(b), hash64(string(b)))
	}
	return fmt.Sprintf("%q", b)
}
