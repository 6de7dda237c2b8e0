package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"sync"
	"time"

	"go.uber.org/atomic"
)

// Viol is one violation of a property, as seen by a monitor.
type Viol struct {
	Prop     string      `json:"prop"`
	Key      string      `json:"key"`
	Msg      string      `json:"msg"`
	Detail   interface{} `json:"detail,omitempty"`
	Liveness bool        `json:"liveness,omitempty"`
}

// UnitReport is what a child process reports to its parent.
type UnitReport struct {
	Unit         string           `json:"unit"`
	Seed         int64            `json:"seed"`
	Violations   []Viol           `json:"violations"`
	OtherProps   int              `json:"other_props"`
	Evaluations  int64            `json:"evaluations"`
	Counters     map[string]int64 `json:"counters"`
	States       []uint64         `json:"states"`
	Samples      []interface{}    `json:"samples"`
	Inconclusive []string         `json:"inconclusive"`
	Starved      bool             `json:"starved"`
	MaxGapMs     int64            `json:"max_gap_ms"`
	Done         bool             `json:"done"`
	WallS        float64          `json:"wall_s"`
}

// T is the context of one unit.
type T struct {
	end  func() // ends the unit with what has been found
	part string // file for the violations of safety of a unit that does not end regularly
	Prop string
	Unit string
	Seed int64
	Tier string
	Rng  *rand.Rand

	mu     sync.Mutex
	rep    UnitReport
	states map[uint64]bool
	clock  *Clock
	Budget time.Duration // of a unit in the quick tier
	// detail of the current case, attached to violations
	cur interface{}
}

func newT(prop, unit string, seed int64, tier string) *T {
	return &T{
		Prop: prop, Unit: unit, Seed: seed, Tier: tier,
		Rng:    rand.New(rand.NewSource(seed)),
		rep:    UnitReport{Unit: unit, Seed: seed, Counters: map[string]int64{}},
		states: map[uint64]bool{},
		clock:  newClock(),
		Budget: quickBudget,
	}
}

func (t *T) Thorough() bool { return t.Tier == "thorough" }

// Pick returns a for the quick tier, b for the thorough tier.
func (t *T) Pick(a, b int) int {
	if t.Thorough() {
		return b
	}
	return a
}

// More says whether case k of a unit runs: there are at most quick (thorough) cases, and in the quick
// tier a unit that already took its time ends early, but not before a quarter of its cases.
func (t *T) More(k, quick, thorough int) bool {
	if perturbed[t.Prop] {
		// Half of the cases run with pauses at the log lines of the code.
		level := []int{0, 1, 0, 3, 0, 6}[k%6]
		perturb(level, int64(k))
		if level > 0 {
			t.Count("cases with pauses at log lines", 1)
		}
	}
	if t.Thorough() {
		return k < thorough && time.Since(t.clock.start) < 25*time.Minute
	}
	late := time.Since(t.clock.start) >= t.Budget
	if late && k > 0 && t.NumViol() >= 3 {
		return false
	}
	least := (quick + 3) / 4
	if t.Budget < quickBudget {
		least = 1
	}
	return k < quick && (k < least || !late)
}

const quickBudget = 40 * time.Second

func (t *T) Sub() *rand.Rand {
	t.mu.Lock()
	defer t.mu.Unlock()
	return rand.New(rand.NewSource(t.Rng.Int63()))
}

// need reports a violation and ends the unit if a call has failed that the property promises to succeed.
func (t *T) need(what string, err error) {
	if err != nil {
		t.Viol(t.Prop, "fails:"+what, "%v: %s fails: %v", t.cur, what, err)
		t.end()
	}
}

func (t *T) SetCase(v interface{}) {
	t.mu.Lock()
	t.cur = v
	t.mu.Unlock()
}

func (t *T) add(v Viol) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if v.Prop != t.Prop {
		t.rep.OtherProps++
		if os.Getenv("HARNESS_VERBOSE") != "" {
			fmt.Fprintf(os.Stderr, "OTHER %s %s: %s\n", v.Prop, v.Key, v.Msg)
		}
		return
	}
	if v.Detail == nil {
		v.Detail = t.cur
	}
	if os.Getenv("HARNESS_VERBOSE") != "" {
		bz, _ := json.MarshalIndent(v, "", " ")
		if f, err := os.CreateTemp("/tmp", "viol-"+t.Prop+"-*.json"); err == nil {
			f.Write(bz)
			f.Close()
			fmt.Fprintln(os.Stdout, "VIOL", v.Key, v.Msg, f.Name())
		}
	}
	n := 0
	for _, o := range t.rep.Violations {
		if o.Key == v.Key {
			n++
		}
	}
	if n < 3 && len(t.rep.Violations) < 30 {
		t.rep.Violations = append(t.rep.Violations, v)
		if !v.Liveness && t.part != "" {
			bz, err := json.Marshal(t.rep)
			if err == nil {
				os.WriteFile(t.part, bz, 0644)
			}
		}
	}
}

// Viol reports a violation of a safety property: the observed execution alone shows it.
func (t *T) Viol(prop, key, format string, a ...interface{}) {
	t.add(Viol{Prop: prop, Key: key, Msg: fmt.Sprintf(format, a...)})
}

// Live reports a violation that consists of something not happening in time. It only counts if the
// machine was not starved.
func (t *T) Live(prop, key, format string, a ...interface{}) {
	t.add(Viol{Prop: prop, Key: key, Msg: fmt.Sprintf(format, a...), Liveness: true})
}

func (t *T) NumViol() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.rep.Violations)
}

func (t *T) Eval(n int) {
	t.mu.Lock()
	t.rep.Evaluations += int64(n)
	t.mu.Unlock()
}

func (t *T) Count(k string, n int) {
	t.mu.Lock()
	t.rep.Counters[k] += int64(n)
	t.mu.Unlock()
}

func hash64(parts ...interface{}) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	return h.Sum64()
}

// State records one distinct non-trivial case.
func (t *T) State(parts ...interface{}) {
	x := hash64(parts...)
	t.mu.Lock()
	t.states[x] = true
	t.mu.Unlock()
}

func (t *T) Sample(v interface{}) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.rep.Samples) < 3 {
		bz, _ := json.Marshal(v)
		if len(bz) > 2000 {
			v = string(bz[:2000]) + "..."
		}
		t.rep.Samples = append(t.rep.Samples, v)
	}
}

func (t *T) Inconclusive(format string, a ...interface{}) {
	t.mu.Lock()
	t.rep.Inconclusive = append(t.rep.Inconclusive, fmt.Sprintf(format, a...))
	t.mu.Unlock()
}

func (t *T) finish() *UnitReport {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.rep.States = make([]uint64, 0, len(t.states))
	for s := range t.states {
		if len(t.rep.States) >= 200000 {
			break
		}
		t.rep.States = append(t.rep.States, s)
	}
	t.rep.Starved, t.rep.MaxGapMs = t.clock.starved()
	t.rep.WallS = time.Since(t.clock.start).Seconds()
	t.rep.Done = true
	return &t.rep
}

// Clock counts short sleeps. On a machine that does not run this process, it stands still.
type Clock struct {
	start  time.Time
	ticks  atomic.Int64
	maxGap atomic.Int64
	maxLag atomic.Int64
}

const tickLen = 10 * time.Millisecond

func newClock() *Clock {
	c := &Clock{start: time.Now()}
	go func() {
		last := time.Now()
		for {
			time.Sleep(tickLen)
			now := time.Now()
			if gap := now.Sub(last).Milliseconds(); gap > c.maxGap.Load() {
				c.maxGap.Store(gap)
			}
			last = now
			c.ticks.Inc()
		}
	}()
	return c
}

func (c *Clock) Now() time.Duration { return time.Duration(c.ticks.Load()) * tickLen }

func (c *Clock) starved() (bool, int64) {
	gap := c.maxGap.Load()
	real := time.Since(c.start)
	return gap > 2000 || (real > 3*time.Second && c.Now() < real/2), gap
}

// Within runs f and reports whether it returned within d of the clock of this process.
func (t *T) Within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	end := t.clock.Now() + d
	for t.clock.Now() < end {
		select {
		case <-done:
			return true
		case <-time.After(tickLen):
		}
	}
	select {
	case <-done:
		return true
	default:
		return false
	}
}

// WaitFor polls cond until it holds or d of the clock of this process has passed.
func (t *T) WaitFor(d time.Duration, cond func() bool) bool {
	end := t.clock.Now() + d
	for {
		if cond() {
			return true
		}
		if t.clock.Now() >= end {
			return cond()
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// Debug prints to stderr if HARNESS_VERBOSE is set.
func (t *T) Debug(format string, a ...interface{}) {
	if os.Getenv("HARNESS_VERBOSE") != "" {
		fmt.Fprintf(os.Stdout, "%6.1fs %s %s\n", time.Since(t.clock.start).Seconds(), t.Unit, fmt.Sprintf(format, a...))
	}
}
