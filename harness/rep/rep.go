// Package rep collects what a check observed: evaluations, distinct cases, samples, violations.
package rep

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// V is one violation: Key identifies the failing kind of input, call site or history.
type V struct {
	Key     string   `json:"key"`
	What    string   `json:"what"`
	Witness any      `json:"witness"`
	Noise   []string `json:"latest_requests_with_irrelevant_headers,omitempty"`
}

// R is the record of one check run.
type R struct {
	ID   string
	Tier string
	Seed uint64
	Rule string

	mu       sync.Mutex
	evals    int
	distinct map[uint64]struct{}
	samples  []any
	counters map[string]int
	viol     []V
	notes    []string
	assume   []string
	incon    []string
	out      string
	beat     atomic.Int64
	phase    atomic.Value
	done     atomic.Bool
	late     atomic.Bool // the first violation is long ago
}

// New starts a record for a property; environment gives seed, tier and output file.
func New(id, rule string) *R {
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	r := &R{ID: id, Tier: tier, Seed: seed, Rule: rule, distinct: map[uint64]struct{}{}, counters: map[string]int{}, out: os.Getenv("VERIF_OUT")}
	r.phase.Store("start")
	go r.bound()
	return r
}

// bound ends a run some time after its first violation: the verdict is clear, and what a broken tree makes endless
// is not waited for. It counts real time, unlike code in a synctest bubble.
func (r *R) bound() {
	for n := 0; !r.done.Load(); {
		time.Sleep(500 * time.Millisecond)
		if r.Violations() == 0 {
			continue
		}
		n++
		if n == 90 {
			r.late.Store(true)
		}
		if n == 300 && r.done.CompareAndSwap(false, true) {
			r.write()
			fmt.Println("ended 150 s after the first violation in", r.phase.Load())
			os.Exit(3)
		}
	}
}

// N scales a case count by tier.
func (r *R) N(quick, thorough int) int {
	if r.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Rng returns a deterministic generator for a named stream.
func (r *R) Rng(stream string) *rand.Rand {
	h := fnv.New64a()
	h.Write([]byte(r.ID + "/" + stream))
	return rand.New(rand.NewPCG(r.Seed, h.Sum64()))
}

// Eval counts one judged case. sig describes it; an empty sig is counted as trivial.
func (r *R) Eval(sig string) {
	r.mu.Lock()
	r.evals++
	if sig != "" {
		h := fnv.New64a()
		h.Write([]byte(sig))
		r.distinct[h.Sum64()] = struct{}{}
	}
	r.mu.Unlock()
	r.beat.Add(1)
}

// Beat tells the watchdog that progress is being made.
func (r *R) Beat() { r.beat.Add(1) }

// Phase names what is going on for the watchdog's message.
func (r *R) Phase(p string) {
	if os.Getenv("VERIF_PHASES") != "" {
		println(time.Now().Format("05.000"), p)
	}
	r.phase.Store(p)
	r.beat.Add(1)
}

// Count adds to a named observation counter.
func (r *R) Count(name string, n int) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

// Counter reads a counter.
func (r *R) Counter(name string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.counters[name]
}

// Sample keeps a few written-out cases.
func (r *R) Sample(x any) {
	r.mu.Lock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, x)
	}
	r.mu.Unlock()
}

// WantSample reports whether a further sample would be kept.
func (r *R) WantSample() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.samples) < 6
}

// Note adds free text to the evidence; Assume an assumption.
func (r *R) Note(s string) { r.mu.Lock(); r.notes = append(r.notes, s); r.mu.Unlock() }

// Assume records an assumption of the check.
func (r *R) Assume(s string) { r.mu.Lock(); r.assume = append(r.assume, s); r.mu.Unlock() }

// Inconclusive marks the run as having given no answer.
func (r *R) Inconclusive(format string, a ...any) {
	r.mu.Lock()
	r.incon = append(r.incon, fmt.Sprintf(format, a...))
	r.mu.Unlock()
	r.write()
}

// Noise reports how many requests had headers that must not matter, how many names, and the latest such requests.
var Noise func() (int, int, []string)

// Violate records a violation.
func (r *R) Violate(key string, witness any, format string, a ...any) {
	v := V{Key: key, What: fmt.Sprintf(format, a...), Witness: witness}
	if Noise != nil {
		_, _, v.Noise = Noise()
	}
	r.mu.Lock()
	n := 0
	for _, o := range r.viol {
		if o.Key == key {
			n++
		}
	}
	if n < 3 && len(r.viol) < 40 {
		r.viol = append(r.viol, v)
	}
	r.counters["violations_seen"]++
	r.mu.Unlock()
	r.write()
}

// Stop reports whether enough violations have been collected to end early.
func (r *R) Stop() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol) >= 12 || r.late.Load()
}

// Violations returns the number recorded so far.
func (r *R) Violations() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol)
}

func (r *R) write() {
	if r.out == "" {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if Noise != nil {
		if n, names, _ := Noise(); n > 0 {
			r.counters["requests_with_irrelevant_headers"], r.counters["irrelevant_header_names"] = n, names
		}
	}
	d := map[string]any{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "rule": r.Rule,
		"evaluations": r.evals, "distinct": len(r.distinct), "samples": r.samples,
		"counters": r.counters, "violations": r.viol, "notes": r.notes, "assumptions": r.assume,
		"inconclusive": r.incon, "complete": r.done.Load(),
	}
	b, err := json.MarshalIndent(d, "", " ")
	if err != nil {
		for i := range r.viol {
			r.viol[i].Witness = fmt.Sprintf("%+v", r.viol[i].Witness)
		}
		for i := range r.samples {
			r.samples[i] = fmt.Sprintf("%+v", r.samples[i])
		}
		d["violations"], d["samples"] = r.viol, r.samples
		b, _ = json.MarshalIndent(d, "", " ")
	}
	tmp := r.out + ".tmp"
	os.WriteFile(tmp, b, 0o644)
	os.Rename(tmp, r.out)
}

// Finish writes the final record.
func (r *R) Finish() {
	r.done.Store(true)
	r.write()
	fmt.Printf("%s: evaluations=%d distinct=%d violations=%d counters=%v\n", r.ID, r.evals, len(r.distinct), len(r.viol), r.counters)
	for i, v := range r.viol {
		if i < 8 {
			b, _ := json.Marshal(v.Witness)
			if len(b) > 700 {
				b = b[:700]
			}
			fmt.Printf("  [%s] %s\n     %s\n", v.Key, v.What, b)
		}
	}
}

// Watchdog ends the process when no progress is seen for d (real time). When violation is true the stall counts as
// a violation of the property (bounded progress), else the run is inconclusive.
func (r *R) Watchdog(d time.Duration, violation bool) {
	go func() {
		last := r.beat.Load()
		idle := time.Duration(0)
		const step = 500 * time.Millisecond
		for !r.done.Load() {
			time.Sleep(step)
			if b := r.beat.Load(); b != last {
				last, idle = b, 0
				continue
			}
			idle += step
			if idle < d {
				continue
			}
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			st := string(buf)
			inRepo := strings.Contains(st, "/repo/")
			if violation && inRepo {
				r.Violate("stall", map[string]any{"phase": r.phase.Load(), "stacks": trim(st)}, "no progress for %v in phase %v with the code under test on the stack", d, r.phase.Load())
			} else {
				r.Inconclusive("watchdog: no progress for %v in phase %v: %s", d, r.phase.Load(), trim(st))
			}
			r.done.Store(true)
			r.write()
			fmt.Println("WATCHDOG", r.phase.Load())
			os.Exit(3)
		}
	}()
}

func trim(s string) string {
	if len(s) > 6000 {
		return s[:6000]
	}
	return s
}

// Scratch returns a fresh directory below the run's scratch directory.
func Scratch(name string) string {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, name+"-")
	if err != nil {
		panic(err)
	}
	d, _ = filepath.EvalSymlinks(d)
	return d
}

// Guard runs f and turns a panic of the code under test into a violation.
func (r *R) Guard(key string, witness any, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 8192)
			buf = buf[:runtime.Stack(buf, false)]
			r.Violate(key+"-panic", map[string]any{"case": witness, "panic": fmt.Sprint(e), "stack": string(buf)}, "panic: %v", e)
			ok = false
		}
	}()
	f()
	return true
}
