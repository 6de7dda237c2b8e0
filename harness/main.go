package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Unit is a part of a check that runs in a process of its own.
type Unit struct {
	Name    string
	Run     func(t *T)
	Weight  int           // how many of the slots it uses, 1 if 0
	Timeout time.Duration // watchdog, 180 s if 0
}

type Check struct {
	ID          string
	Level       string
	Rule        string
	Race        bool
	Assumptions []string
	Units       func(tier string, seed int64) []Unit
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	checks[c.ID] = c
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	d, _ := os.Getwd()
	return d
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|child|replay|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(os.Args[2]))
	case "child":
		runChild(os.Args[2:])
	case "netchild":
		runNetChild()
	case "nodechild":
		runNodeChild()
	case "replay":
		runReplay(os.Args[2])
	case "list":
		ids := make([]string, 0)
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, u := range checks[id].Units("quick", 1) {
				fmt.Println(id, u.Name)
			}
		}
	default:
		os.Exit(2)
	}
}

func envSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func envTier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func unitSeed(seed int64, prop, name string) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s", seed, prop, name)
	return int64(h.Sum64() >> 1)
}

// runChild runs one unit in this process: child <prop> <unit> <seed> <tier> <out>
func runChild(args []string) {
	prop, name, tier, out := args[0], args[1], args[3], args[4]
	seed, _ := strconv.ParseInt(args[2], 10, 64)
	quietLogs()
	c := checks[prop]
	for _, u := range c.Units(tier, seed) {
		if u.Name != name {
			continue
		}
		t := newT(prop, name, unitSeed(seed, prop, name), tier)
		if p := os.Getenv("HARNESS_PROF"); p != "" {
			f, _ := os.Create(p)
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
			go func() { time.Sleep(25 * time.Second); pprof.StopCPUProfile(); f.Close() }()
		}
		t.part = out + ".part"
		t.end = func() {
			bz, err := json.Marshal(t.finish())
			must(err)
			must(os.WriteFile(out, bz, 0644))
			os.Exit(0)
		}
		u.Run(t)
		t.end()
	}
	fmt.Fprintln(os.Stderr, "no such unit", name)
	os.Exit(3)
}

type unitResult struct {
	unit      Unit
	rep       *UnitReport
	stderr    string
	exit      error
	hung      bool
	confirmed bool // a second run, with the machine to itself
	cut       bool // the time for the check was used up
	races     []raceReport
	elapsed   time.Duration
}

func runUnit(prop string, u Unit, seed int64, tier string, scratch string, attempt int, limit time.Duration) *unitResult {
	out := filepath.Join(scratch, fmt.Sprintf("%s-%s-%d.json", prop, sanitize(u.Name), attempt))
	raceLog := out + ".race"
	work := out + ".d"
	os.MkdirAll(work, 0755)
	defer os.RemoveAll(work)

	self, err := os.Executable()
	must(err)
	cmd := exec.Command(self, "child", prop, u.Name, strconv.FormatInt(seed, 10), tier, out)
	cmd.Env = append(os.Environ(), "VERIF_DIR="+verifDir(), "HARNESS_SCRATCH="+work, "GOTRACEBACK=all",
		"GORACE=halt_on_error=0 log_path="+raceLog+" history_size=4 exitcode=0")
	cmd.Dir = work
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var stderr limitedBuffer
	cmd.Stderr = &stderr
	if os.Getenv("HARNESS_VERBOSE") != "" {
		cmd.Stdout = os.Stderr
	}
	res := &unitResult{unit: u}
	begin := time.Now()
	runtime.LockOSThread() // Pdeathsig is tied to the thread
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		res.exit = err
		return res
	}
	timeout := u.Timeout
	if timeout == 0 {
		timeout = 180 * time.Second
	}
	if tier == "thorough" {
		timeout *= 10
	}
	if limit > 0 && timeout > limit {
		timeout = limit
		res.cut = true
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case res.exit = <-done:
	case <-time.After(timeout):
		res.hung = true
		syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	res.elapsed = time.Since(begin)
	res.stderr = stderr.String()
	if bz, err := os.ReadFile(out); err == nil {
		rep := &UnitReport{}
		if json.Unmarshal(bz, rep) == nil && rep.Done {
			res.rep = rep
		}
	}
	if site, _ := crashSite(res.stderr); res.rep == nil && !res.hung && site == "" {
		// The harness gave up, but not before it had seen a violation.
		rep := &UnitReport{}
		if bz, err := os.ReadFile(out + ".part"); err == nil && json.Unmarshal(bz, rep) == nil {
			var vs []Viol
			for _, v := range rep.Violations {
				if !v.Liveness {
					vs = append(vs, v)
				}
			}
			rep.Violations = vs
			rep.Inconclusive = append(rep.Inconclusive, "the unit ended early")
			res.rep = rep
		}
	}
	os.Remove(out + ".part")
	logs, _ := filepath.Glob(raceLog + ".*")
	for _, l := range logs {
		bz, _ := os.ReadFile(l)
		res.races = append(res.races, parseRaces(string(bz))...)
		os.Remove(l)
	}
	return res
}

func sanitize(s string) string {
	return regexp.MustCompile(`[^A-Za-z0-9_.-]+`).ReplaceAllString(s, "_")
}

type limitedBuffer struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (b *limitedBuffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.buf.Len() < 8<<20 {
		b.buf.Write(p)
	}
	return len(p), nil
}

func (b *limitedBuffer) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.buf.String()
}

// crashSite looks at the stack of the goroutine that crashed. It returns the first frame of the
// code under test if the crash happened in (or below) this code, or "" if the harness is to blame.
func crashSite(stderr string) (site, first string) {
	idx := -1
	for _, mark := range []string{"panic: ", "fatal error: "} {
		if i := strings.Index(stderr, mark); i >= 0 && (idx < 0 || i < idx) {
			idx = i
		}
	}
	if idx < 0 {
		return "", ""
	}
	rest := stderr[idx:]
	first = strings.SplitN(rest, "\n", 2)[0]
	g := strings.Index(rest, "\ngoroutine ")
	if g < 0 {
		return "", first
	}
	stack := rest[g+1:]
	if e := strings.Index(stack, "\n\n"); e >= 0 {
		stack = stack[:e]
	}
	lib := ""
	for _, line := range strings.Split(stack, "\n") {
		line = strings.TrimPrefix(line, "created by ")
		if lib == "" && strings.HasPrefix(line, "github.com/sisu-network/tss-lib/") {
			lib = strings.TrimPrefix(line, "github.com/sisu-network/")
			if i := strings.LastIndex(lib, "("); i > 0 {
				lib = lib[:i]
			}
		}
		if strings.HasPrefix(line, "main.") {
			return "", first
		}
		if strings.HasPrefix(line, "github.com/sisu-network/dheart/") {
			if i := strings.LastIndex(line, "("); i > 0 {
				line = line[:i]
			}
			return strings.TrimPrefix(line, "github.com/sisu-network/dheart/"), first
		}
	}
	// A goroutine that tss-lib has started for a work.
	return lib, first
}

type knownFinding struct{ prop, key, text string }

func loadKnown() []knownFinding {
	var res []knownFinding
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	re := regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if m := re.FindStringSubmatch(sc.Text()); m != nil {
			res = append(res, knownFinding{m[1], m[2], m[3]})
		}
	}
	return res
}

func runCheck(prop string) int {
	c := checks[prop]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	seed, tier := envSeed(), envTier()
	begin := time.Now()
	scratch, err := os.MkdirTemp("", "dheart-verif-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)

	only := os.Getenv("HARNESS_UNIT")
	var units []Unit
	for _, u := range c.Units(tier, seed) {
		if only == "" || strings.HasPrefix(u.Name, only) {
			units = append(units, u)
		}
	}
	slots := runtime.NumCPU()
	if s, err := strconv.Atoi(os.Getenv("HARNESS_SLOTS")); err == nil {
		slots = s
	}
	results := make([]*unitResult, len(units))
	known := loadKnown()
	isKnown := func(v Viol) bool {
		for _, k := range known {
			if k.prop == prop && k.key == v.Key {
				return true
			}
		}
		return false
	}
	// The checks have to answer within 15 minutes.
	left := func() time.Duration {
		if tier != "quick" {
			return 0
		}
		d := 13*time.Minute - time.Since(begin)
		if d < time.Second {
			d = time.Second
		}
		return d
	}
	// decided: a violation of the unit needs no second run, or had one. Something that does not happen in
	// time (Liveness) counts if it comes back when the unit runs with the machine to itself.
	decided := func(r *unitResult) bool {
		if r.rep == nil {
			return false
		}
		for _, v := range r.rep.Violations {
			if !isKnown(v) && (!v.Liveness || r.confirmed && !r.rep.Starved) {
				return true
			}
		}
		return false
	}
	doubtful := func(r *unitResult) bool {
		if r.rep == nil || decided(r) {
			return false
		}
		for _, v := range r.rep.Violations {
			if v.Liveness && !isKnown(v) {
				return true
			}
		}
		return false
	}
	stopped := false
	runAll := func(stopOnDoubt bool) {
		var mu sync.Mutex
		cond := sync.NewCond(&mu)
		free := slots
		stop := false
		var wg sync.WaitGroup
		for i := range units {
			if results[i] != nil {
				continue
			}
			w := units[i].Weight
			if w <= 0 {
				w = 1
			}
			if w > slots {
				w = slots
			}
			mu.Lock()
			for free < w {
				cond.Wait()
			}
			if stop {
				mu.Unlock()
				break
			}
			free -= w
			mu.Unlock()
			wg.Add(1)
			go func(i, w int) {
				defer wg.Done()
				r := runUnit(prop, units[i], seed, tier, scratch, 0, left())
				mu.Lock()
				results[i] = r
				free += w
				if tier == "quick" && (decided(r) || stopOnDoubt && (r.hung || doubtful(r))) {
					stop = true
				}
				cond.Broadcast()
				mu.Unlock()
			}(i, w)
		}
		wg.Wait()
		stopped = stop
	}
	// Runs that depend on timing only count if they were not in want of processors. Repeat them: the
	// others have ended. One of them that is confirmed decides the quick check.
	repeated := map[int]bool{}
	repeat := func() (confirmed bool) {
		for _, r := range results {
			if r != nil && tier == "quick" && decided(r) {
				return true
			}
		}
		attempt := 0
		for i, r := range results {
			if r == nil || repeated[i] {
				continue
			}
			again, rounds, each := r.hung && !r.cut, 1, 1
			if doubtful(r) {
				again, rounds, each = true, 2, 2
				if r.rep.Starved {
					each = 1
				}
			}
			if r.rep == nil && !r.hung {
				if site, _ := crashSite(r.stderr); site == "" {
					again = true // killed, e.g. for memory
				} else if tier == "quick" {
					return true
				}
			}
			if !again {
				continue
			}
			repeated[i] = true
			first := r
			for k := 0; k < rounds; k++ {
				rs := make([]*unitResult, each)
				var wg sync.WaitGroup
				for j := range rs {
					attempt++
					wg.Add(1)
					go func(j, attempt int) {
						defer wg.Done()
						rs[j] = runUnit(prop, r.unit, seed, tier, scratch, attempt, left())
						rs[j].confirmed = true
					}(j, attempt)
				}
				wg.Wait()
				results[i] = rs[0]
				for _, x := range rs {
					if x.hung && !x.cut || x.rep == nil || decided(x) {
						results[i] = x
						break
					}
				}
				if x := results[i]; x.hung || x.rep == nil || decided(x) {
					break
				}
			}
			if x := results[i]; tier == "quick" && (x.hung && !x.cut || decided(x)) {
				return true
			}
			if x := results[i]; x.rep != nil && first.rep != nil && !decided(x) {
				for _, v := range first.rep.Violations {
					if v.Liveness && !isKnown(v) {
						x.rep.Inconclusive = append(x.rep.Inconclusive, "not confirmed: "+v.Key+": "+v.Msg)
					}
				}
			}
		}
		return false
	}
	runAll(true)
	if !repeat() && stopped {
		// What stopped the others was not confirmed.
		runAll(false)
		repeat()
	}

	ev := newEvidence(prop, tier, seed, c)
	violations, errors := 0, 0
	seen := map[string]bool{}
	report := func(r *unitResult, v Viol) {
		for _, k := range known {
			if k.prop == prop && k.key == v.Key {
				if !seen["known:"+v.Key] {
					seen["known:"+v.Key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
				}
				ev.known++
				return
			}
		}
		violations++
		if seen[v.Key] || len(seen) > 12 {
			return
		}
		seen[v.Key] = true
		path := writeReplay(prop, r, v, seed, tier)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  unit %s, %s: %s\n", r.unit.Name, v.Key, v.Msg)
	}
	for _, r := range results {
		if r == nil {
			continue
		}
		switch {
		case r.hung && r.cut:
			fmt.Printf("inconclusive: unit %s: there was no time left for it\n", r.unit.Name)
		case r.hung:
			site := hangSite(r.stderr)
			report(r, Viol{Prop: prop, Key: "hang", Msg: "the unit did not end, although it did nothing but use the code under test" + site,
				Detail: tail(r.stderr, 60000)})
		case r.rep == nil:
			site, first := crashSite(r.stderr)
			if site != "" {
				report(r, Viol{Prop: prop, Key: "crash:" + site, Msg: "the process crashed: " + first, Detail: head(r.stderr, 20000)})
			} else {
				errors++
				fmt.Fprintf(os.Stderr, "ERROR unit %s ended without a report: %v\n%s\n", r.unit.Name, r.exit, head(r.stderr, 6000))
			}
		default:
			for _, v := range r.rep.Violations {
				if v.Liveness && !isKnown(v) && (!r.confirmed || r.rep.Starved) {
					r.rep.Inconclusive = append(r.rep.Inconclusive, "not confirmed: "+v.Key+": "+v.Msg)
					continue
				}
				report(r, v)
			}
			if c.Race {
				for _, x := range r.races {
					if x.mine {
						report(r, Viol{Prop: prop, Key: "race:" + x.key, Msg: x.key, Detail: x.text})
					}
				}
			}
			ev.add(r)
		}
	}
	ev.violations = violations
	ev.write(time.Since(begin))
	if os.Getenv("HARNESS_TIMES") != "" {
		for _, r := range results {
			if r != nil {
				st := ""
				if r.rep != nil {
					st = fmt.Sprintf("evals=%d states=%d gap=%dms other=%d %v", r.rep.Evaluations, len(r.rep.States), r.rep.MaxGapMs, r.rep.OtherProps, r.rep.Counters)
				}
				fmt.Fprintf(os.Stderr, "%6.1fs %s %s\n", r.elapsed.Seconds(), r.unit.Name, st)
			}
		}
	}
	for _, r := range results {
		if r != nil && r.rep != nil {
			for _, s := range r.rep.Inconclusive {
				fmt.Printf("inconclusive: unit %s: %s\n", r.unit.Name, s)
			}
		}
	}
	fmt.Printf("%s: %d units, %d evaluations, %d distinct non-trivial, %d violations, %.1f s\n", prop, len(ev.units), ev.evals, len(ev.states), violations, time.Since(begin).Seconds())
	if violations > 0 {
		return 1
	}
	if errors > 0 || ev.evals == 0 {
		return 2
	}
	return 0
}

func hangSite(stderr string) string {
	for _, g := range strings.Split(stderr, "\n\n") {
		if strings.Contains(g, "github.com/sisu-network/dheart/") && (strings.Contains(g, "semacquire") || strings.Contains(g, "sync.(*")) {
			for _, line := range strings.Split(g, "\n") {
				if strings.HasPrefix(line, "github.com/sisu-network/dheart/") {
					return " (a goroutine waits in " + line + ")"
				}
			}
		}
	}
	return ""
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func writeReplay(prop string, r *unitResult, v Viol, seed int64, tier string) string {
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%x.json", prop, sanitize(r.unit.Name), hash64(v.Key)&0xffffff))
	bz, _ := json.MarshalIndent(map[string]interface{}{
		"property": prop, "unit": r.unit.Name, "seed": seed, "tier": tier, "race": checks[prop].Race, "violation": v,
		"how": fmt.Sprintf("bash check.sh replay %s", path),
	}, "", " ")
	os.WriteFile(path, bz, 0644)
	return path
}

func runReplay(path string) {
	bz, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var d struct {
		Property, Unit, Tier string
		Seed                 int64
	}
	if err := json.Unmarshal(bz, &d); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Setenv("VERIF_SEED", strconv.FormatInt(d.Seed, 10))
	os.Setenv("VERIF_TIER", d.Tier)
	os.Setenv("HARNESS_UNIT", d.Unit)
	os.Exit(runCheck(d.Property))
}
