package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/core/config"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/utils"
	wtypes "github.com/sisu-network/dheart/worker/types"
)

func init() {
	register(&Check{
		ID:   "C03",
		Rule: "a case is distinct by works, group size, threshold, kind of fault, the nodes it hits and the outcomes of all nodes",
		Assumptions: []string{"the process of the node that is judged does not stop (a node that restarts forgets its requests)",
			"a retry of the same request follows when all nodes have reported the outcome of the first attempt and no message of it is under way"},
		Units: c03Units,
	})
}

var c03Faults = []string{"absent", "offline", "dies", "loss", "isolated", "deaf", "partition", "corrupt", "deviating", "late", "dup", "restart", "no-round-messages", "no-selection"}

// Faults that consist of parties that are missing or silent: the same request must succeed later.
var c03Retry = map[string]bool{"absent": true, "offline": true, "dies": true, "isolated": true, "partition": true, "restart": true, "no-selection": true}

func c03Units(tier string, seed int64) []Unit {
	var us []Unit
	for i := 0; i < 5; i++ {
		i := i
		us = append(us, Unit{Name: fmt.Sprintf("ed-%d", i), Run: func(t *T) {
			for k := 0; t.More(k, 7, 300); k++ {
				kinds := [][]string{{"edsign"}, {"edgen"}, {"edsign", "edgen"}, {"edsign", "edsign", "edgen"}}[(k+i)%4]
				t.faultRun(2+t.Rng.Intn(4), kinds, c03Faults[(k*5+i*3)%len(c03Faults)])
			}
		}})
	}
	for i := 0; i < 3; i++ {
		i := i
		us = append(us, Unit{Name: fmt.Sprintf("ec-%d", i), Run: func(t *T) {
			for k := 0; t.More(k, 4, 150); k++ {
				kinds := [][]string{{"ecsign"}, {"ecgen"}, {"ecsign", "edsign"}}[(k+i)%3]
				t.faultRun(2+t.Rng.Intn(2), kinds, c03Faults[(k*3+i*5)%len(c03Faults)])
			}
		}})
	}
	us = append(us, Unit{Name: "odd-requests", Run: c03Odd}, Unit{Name: "db", Run: c03Db}, Unit{Name: "end-race", Run: c03EndRace}, Unit{Name: "slow-rounds", Run: c03SlowRounds}, Unit{Name: "findings", Run: c03Findings})
	return us
}

// accepted counts the requests that nodes accepted.
type accepted struct {
	mu sync.Mutex
	n  map[string]map[int]int
}

func (a *accepted) submit(cl *Cluster, w *Work, i int) {
	a.mu.Lock()
	if a.n == nil {
		a.n = map[string]map[int]int{}
	}
	if a.n[w.Id] == nil {
		a.n[w.Id] = map[int]int{}
	}
	a.n[w.Id][i]++
	a.mu.Unlock()
	if err := cl.Submit(w, i); err != nil {
		a.mu.Lock()
		a.n[w.Id][i]--
		a.mu.Unlock()
		cl.t.Viol("C05", "refused", "node %d refuses %s: %v", i, w.Id, err)
	}
}

func (a *accepted) of(w *Work) map[int]int {
	a.mu.Lock()
	defer a.mu.Unlock()
	r := map[int]int{}
	for i, n := range a.n[w.Id] {
		r[i] = n
	}
	return r
}

// check compares the number of outcomes with the number of accepted requests. gone are nodes that
// have been restarted since: their outcomes may be missing.
func (a *accepted) check(cl *Cluster, works []*Work, gone map[int]bool, phase, fault string) {
	for _, w := range works {
		res := cl.of(w)
		acc := a.of(w)
		for i := 0; i < cl.N; i++ {
			n := len(res[i])
			cl.t.Count("accepted requests checked", acc[i])
			switch {
			case n > acc[i]:
				cl.t.add(Viol{Prop: "C03", Key: w.Kind + ":several-outcomes", Detail: cl.workDetail(w),
					Msg: fmt.Sprintf("%s (%s): node %d accepted %s %d times and reports %d outcomes: %s", phase, fault, i, w.Id, acc[i], n, outStr(res[i]))})
			case n < acc[i] && !gone[i]:
				cl.t.add(Viol{Prop: "C03", Key: w.Kind + ":no-outcome", Liveness: true, Detail: cl.workDetail(w),
					Msg: fmt.Sprintf("%s (%s): node %d accepted %s %d times and reports %d outcomes", phase, fault, i, w.Id, acc[i], n)})
			}
		}
	}
}

func (a *accepted) done(cl *Cluster, works []*Work, gone map[int]bool) bool {
	for _, w := range works {
		res := cl.of(w)
		for i, n := range a.of(w) {
			if len(res[i]) < n && !gone[i] {
				return false
			}
		}
	}
	return true
}

func (t *T) faultRun(n int, kinds []string, fault string) {
	rng := t.Sub()
	ms, s := time.Millisecond, time.Second
	o := Opts{N: n, Thr: 1 + rng.Intn(n-1), KeepData: true, Policy: immediate}
	heavy := false
	for _, k := range kinds {
		o.Ec = o.Ec || k == "ecsign"
		o.Ed = o.Ed || k == "edsign"
		o.Pre = o.Pre || k == "ecgen"
		heavy = heavy || k[:2] == "ec"
	}
	cfg := config.TimeoutConfig{SelectionLeaderTimeout: 1200 * ms, SelectionMemberTimeout: 2500 * ms, MonitorMessageTimeout: 15 * s,
		KeygenJobTimeout: 4 * s, SigningJobTimeout: 4 * s, PresignJobTimeout: 4 * s}
	if heavy {
		cfg.KeygenJobTimeout, cfg.SigningJobTimeout, cfg.PresignJobTimeout = 9*s, 9*s, 9*s
	}
	asks := rng.Intn(2) == 0
	if asks {
		cfg.MonitorMessageTimeout = 900 * ms
	}
	o.Cfg = &cfg
	cl := newCluster(t, rng, o)
	defer cl.Close()

	var works []*Work
	for _, k := range kinds {
		w := &Work{Id: uniqueId(rng), Kind: k}
		if k == "ecsign" || k == "edsign" {
			w.Msgs = randMsgs(rng, k, 1+rng.Intn(3))
		}
		cl.request(w, 0)
		works = append(works, w)
	}
	victim := rng.Intn(n)
	if rng.Intn(3) == 0 {
		victim = cl.leader(works[0].Id)
	}
	t.SetCase(fmt.Sprintf("n=%d thr=%d works=%v fault=%s victim=%d asks=%v", n, cl.Thr, kinds, fault, victim, asks))

	// The fault.
	acc := &accepted{}
	gone := map[int]bool{}
	skip := map[int]bool{}
	var policy Policy = jitter(t.Sub(), 5*ms)
	r := newLocked(t.Sub())
	var count int64
	after := int64(1 + rng.Intn(3*n))
	p := []float64{0.03, 0.1, 0.3, 0.6, 1}[rng.Intn(5)]
	side := map[int]bool{victim: true}
	for i := 0; i < n; i++ {
		if i != victim && rng.Intn(3) == 0 {
			side[i] = true
		}
	}
	var restart func()
	restarted := time.Duration(-1)
	switch fault {
	case "absent":
		skip[victim] = true
		if n > 3 {
			skip[rng.Intn(n)] = true
		}
	case "offline":
		skip[victim] = true
		cl.Down(victim)
	case "dies":
		inner := policy
		policy = func(s *Send) []time.Duration {
			if s.From == victim && atomic.AddInt64(&count, 1) >= after {
				cl.Down(victim)
				return nil
			}
			return inner(s)
		}
	case "loss":
		inner := policy
		policy = func(s *Send) []time.Duration {
			if r.Float() < p {
				return nil
			}
			return inner(s)
		}
	case "isolated", "deaf":
		inner := policy
		policy = func(s *Send) []time.Duration {
			if s.To == victim || (s.From == victim && fault == "isolated") {
				return nil
			}
			return inner(s)
		}
	case "partition":
		inner := policy
		policy = func(s *Send) []time.Duration {
			if side[s.From] != side[s.To] && atomic.AddInt64(&count, 1) >= after {
				return nil
			}
			return inner(s)
		}
	case "corrupt":
		cl.SetTamper(func(s *Send, to int) [][]byte {
			if r.Float() > p {
				return nil
			}
			c := append([]byte{}, s.Data...)
			switch r.Intn(4) {
			case 0:
				return [][]byte{c[:r.Intn(len(c))]}
			case 1:
				return [][]byte{nil}
			}
			for k := 0; k <= r.Intn(3); k++ {
				c[r.Intn(len(c))] ^= byte(1 + r.Intn(255))
			}
			return [][]byte{c}
		})
	case "deviating":
		cl.SetTamper(func(s *Send, to int) [][]byte {
			if s.From != victim || !isUpdate(s) || r.Float() > p+0.1 || s.Msg.TssMessage.From != cl.Members[victim].Id {
				return nil
			}
			m := cloneMsg(s.Msg.TssMessage)
			switch r.Intn(6) {
			case 0:
				m.UpdateMessages = m.UpdateMessages[:r.Intn(len(m.UpdateMessages))]
			case 1:
				m.UpdateMessages = append(m.UpdateMessages, m.UpdateMessages[0])
			case 2:
				m.UpdateMessages[0] = nil
			case 3:
				m.UpdateMessages[0].Data = randBytes(rand.New(rand.NewSource(int64(r.Intn(1<<30)))), 20)
			default:
				u := m.UpdateMessages[r.Intn(len(m.UpdateMessages))]
				u.Data = corruptWire(u.Data, rand.New(rand.NewSource(int64(hash64(string(u.Data))>>1))))
			}
			return [][]byte{cl.signed(victim, m)}
		})
	case "late":
		policy = func(*Send) []time.Duration {
			if r.Float() < p {
				return []time.Duration{time.Duration(r.Intn(int(6 * s)))}
			}
			return []time.Duration{time.Duration(r.Intn(int(5 * ms)))}
		}
	case "dup":
		policy = duplicated(t.Sub(), func(*Send) []time.Duration {
			if r.Float() < p/4 {
				return nil
			}
			return []time.Duration{time.Duration(r.Intn(int(5 * ms))), time.Duration(r.Intn(int(50 * ms))), time.Duration(r.Intn(int(2 * s)))}
		}, 4*s)
	case "restart":
		inner := policy
		var once sync.Once
		policy = func(s *Send) []time.Duration {
			if s.From == victim && atomic.AddInt64(&count, 1) >= after {
				once.Do(func() { go restart() })
			}
			return inner(s)
		}
	case "no-round-messages":
		inner := policy
		policy = func(s *Send) []time.Duration {
			if isUpdate(s) {
				return nil
			}
			return inner(s)
		}
	case "no-selection":
		inner := policy
		policy = func(s *Send) []time.Duration {
			if s.Msg != nil && s.Type() == common.TssMessage_PRE_EXEC_OUTPUT {
				return nil
			}
			return inner(s)
		}
	}
	restart = func() {
		cl.mu.Lock()
		gone[victim] = true
		restarted = time.Since(cl.start)
		cl.mu.Unlock()
		cl.Down(victim)
		time.Sleep(50 * ms)
		cl.Up(victim, cfg)
	}
	cl.SetPolicy(policy)
	for i := 0; i < n; i++ {
		if skip[i] {
			continue
		}
		i := i
		d := time.Duration(r.Intn(300)) * ms
		go func() {
			for _, w := range works {
				acc.submit(cl, w, i)
				time.Sleep(d / 3)
			}
		}()
	}
	getGone := func() map[int]bool {
		cl.mu.Lock()
		defer cl.mu.Unlock()
		g := map[int]bool{}
		for i := range gone {
			g[i] = true
		}
		return g
	}
	time.Sleep(400 * ms)
	bound := time.Duration((len(works)+1)/2)*(cfg.SelectionMemberTimeout+cfg.SigningJobTimeout) + 6*s
	t.WaitFor(bound, func() bool { return acc.done(cl, works, getGone()) })
	first := ""
	for _, w := range works {
		succ, fail, notSel := cl.tally(w)
		first += fmt.Sprintf("%d/%d/%d ", len(succ), len(fail), len(notSel))
	}
	acc.check(cl, works, getGone(), "first attempt", fault)

	// The network heals. All capacity is free again.
	idle := func(i int) bool { return cl.engine(i).GetActiveWorkerCount() == 0 }
	for i := 0; i < n; i++ {
		i := i
		if !t.WaitFor(5*s, func() bool { return idle(i) }) {
			t.Live("C03", "slot-not-free", "after the outcomes of all its works (%v), node %d still has %d active ones", t.cur, i, cl.engine(i).GetActiveWorkerCount())
		}
	}
	cl.SetPolicy(immediate)
	cl.SetTamper(nil)
	for i := 0; i < n; i++ {
		atomic.StoreInt32(&cl.Nodes[i].up, 1)
	}
	cl.Quiesce(100*ms, 8*s)

	// A retry of the same works, or other works.
	again := works
	retry := c03Retry[fault]
	// A round message of the first attempt that reached a node which did not run the work (anymore) waits
	// there and spoils a retry. This is a known finding.
	for _, w := range works {
		if retry && cl.staleRounds(w, skip, victim, restarted) {
			retry = false
			t.Count("retries with another id because of waiting round messages", 1)
		}
	}
	if !retry {
		again = nil
		for _, w := range works {
			x := &Work{Id: uniqueId(rng), Kind: w.Kind, KeyType: w.KeyType, Msgs: w.Msgs}
			if w.Kind == "ecgen" {
				// Outcomes of key generations are told apart by their types.
				x.KeyType = "other"
			}
			if w.Kind == "edgen" {
				continue
			}
			again = append(again, x)
		}
	}
	before := map[string]map[int]int{}
	for _, w := range again {
		before[w.Id] = map[int]int{}
		for i, os := range cl.of(w) {
			before[w.Id][i] = len(os)
		}
	}
	g := getGone()
	for i := 0; i < n; i++ {
		for _, w := range again {
			acc.submit(cl, w, i)
		}
	}
	allDone := func() bool {
		for _, w := range again {
			res := cl.of(w)
			for i := 0; i < n; i++ {
				if len(res[i]) <= before[w.Id][i] {
					return false
				}
			}
		}
		return true
	}
	t.WaitFor(bound+10*s, allDone)
	cl.Quiesce(100*ms, 2*s)
	for _, w := range again {
		good := 0
		for i, os := range cl.of(w) {
			if k := before[w.Id][i]; len(os) > k && os[k].Outcome == htypes.OutcomeSuccess {
				good++
			}
		}
		want := n
		if w.Kind == "ecsign" || w.Kind == "edsign" {
			want = cl.Thr + 1
		}
		key := "retry"
		if !retry {
			key = "later-work"
		}
		t.Count(key+" checked", 1)
		if good < want {
			t.add(Viol{Prop: "C03", Key: w.Kind + ":" + key + "-fails:" + fault, Liveness: true, Detail: cl.workDetail(w),
				Msg: fmt.Sprintf("%v: after the fault, %s %s (%s) succeeds on %d of %d nodes", t.cur, w.Kind, w.Id, key, good, want)})
		}
	}
	acc.check(cl, append(append([]*Work{}, works...), again...), g, "at the end", fault)
	for i := 0; i < n; i++ {
		i := i
		if !t.WaitFor(5*s, func() bool { return idle(i) }) {
			t.Live("C03", "slot-not-free", "at the end (%v), node %d still has %d active works", t.cur, i, cl.engine(i).GetActiveWorkerCount())
		}
	}
	for _, w := range append(works, again...) {
		cl.checkSignatures(w)
	}
	cl.checkPrivate()
	t.Eval(1)
	t.Count("fault "+fault, 1)
	t.Count("requests accepted", n*len(works))
	t.State(fmt.Sprint(kinds), n, cl.Thr, fault, victim, first)
	t.Sample(fmt.Sprintf("%v: outcomes (success/failure/not selected) %s", t.cur, first))
	t.Debug("%v first=%s", t.cur, first)
}

// staleRounds says whether a round message of a work may wait at a node that does not run it.
func (cl *Cluster) staleRounds(w *Work, skipped map[int]bool, victim int, restarted time.Duration) bool {
	cl.mu.Lock()
	defer cl.mu.Unlock()
	end := map[int]time.Duration{}
	for _, o := range cl.outcomes {
		if o.WorkId == w.Id || (o.Kind == "keygen" && o.KeyType == w.KeyType && w.Msgs == nil) {
			end[o.Node] = o.At
		}
	}
	for _, d := range cl.roundDeliv {
		if d.work != w.Id {
			continue
		}
		e, ok := end[d.to]
		if skipped[d.to] || (ok && d.at > e-100*time.Millisecond) || (d.to == victim && restarted >= 0) {
			return true
		}
	}
	return false
}

// c03Findings reproduces the finding that is recorded in known-findings.txt.
func c03Findings(t *T) {
	for k := 0; k < t.Pick(2, 6); k++ {
		rng := t.Sub()
		cfg := fastTimeouts()
		cfg.KeygenJobTimeout = 3 * time.Second
		cl := newCluster(t, rng, Opts{N: 2, Thr: 1, Cfg: &cfg})
		a := rng.Intn(2)
		w := &Work{Id: cl.idWithLeader(rng, a), Kind: "edgen"}
		cl.request(w, 0)
		x := 1 - a
		t.SetCase(fmt.Sprintf("key generation of 2 nodes: node %d restarts after it has told the leader that it takes part; the leader's attempt fails; both nodes get the request again", x))
		cl.SetPolicy(func(s *Send) []time.Duration {
			if s.From == x {
				cl.Up(x, cfg)
			}
			return []time.Duration{0}
		})
		cl.mustSubmit(w, a)
		cl.mustSubmit(w, x)
		cl.Wait(w, []int{a}, 20*time.Second)
		cl.SetPolicy(immediate)
		cl.Quiesce(100*time.Millisecond, 2*time.Second)
		cl.mustSubmit(w, a)
		cl.mustSubmit(w, x)
		t.WaitFor(20*time.Second, func() bool { return len(cl.of(w)[a]) == 2 && len(cl.of(w)[x]) == 1 })
		if o := cl.of(w)[x]; len(o) == 1 && o[0].Outcome != htypes.OutcomeSuccess {
			t.add(Viol{Prop: "C03", Key: "stale-round-messages-retry", Liveness: true, Detail: cl.workDetail(w), Msg: fmt.Sprint(t.cur, ": the second attempt fails")})
		}
		t.Eval(1)
		cl.Close()
	}
}

// c03SlowRounds: each round takes nearly as long as the whole work may take. The work ends in time
// nevertheless: what a node sends or receives does not give it more time.
func c03SlowRounds(t *T) {
	for k := 0; t.More(k, 4, 24); k++ {
		rng := t.Sub()
		kind := []string{"edsign", "edgen", "ecsign", "edsign"}[k%4]
		n := 2 + rng.Intn(2)
		limit := time.Duration(3000+rng.Intn(1000)) * time.Millisecond
		cfg := fastTimeouts()
		cfg.SigningJobTimeout, cfg.KeygenJobTimeout = limit, limit
		cl := newCluster(t, rng, Opts{N: n, Thr: n - 1, Ed: kind == "edsign", Ec: kind == "ecsign", Cfg: &cfg})
		w := &Work{Id: uniqueId(rng), Kind: kind}
		if strings.HasSuffix(kind, "sign") {
			w.Msgs = randMsgs(rng, kind, 1+rng.Intn(2))
		}
		share := 0.75 + 0.15*rng.Float64()
		delay := time.Duration(share * float64(limit))
		t.SetCase(fmt.Sprintf("%s of %d nodes: a round takes %v, the work may take %v", kind, n, delay, limit))
		cl.SetPolicy(func(s *Send) []time.Duration {
			if isUpdate(s) {
				return []time.Duration{delay}
			}
			return []time.Duration{0}
		})
		from := time.Since(cl.start)
		for i := 0; i < n; i++ {
			cl.mustSubmit(w, i)
		}
		cl.Wait(w, cl.all(), 10*limit)
		for i, os := range cl.of(w) {
			if len(os) > 0 && os[0].At-from > limit+1500*time.Millisecond {
				t.add(Viol{Prop: "C03", Key: kind + ":late-outcome", Liveness: true, Detail: cl.workDetail(w),
					Msg: fmt.Sprintf("%v: node %d reports after %v", t.cur, i, os[0].At-from)})
			}
		}
		for i := range cl.Nodes {
			if len(cl.of(w)[i]) == 0 {
				t.add(Viol{Prop: "C03", Key: kind + ":no-outcome", Liveness: true, Detail: cl.workDetail(w),
					Msg: fmt.Sprintf("%v: node %d reports nothing", t.cur, i)})
			}
		}
		cl.checkOnce(w, cl.all())
		t.Count("works whose rounds are slow", 1)
		t.State("slow-rounds", kind, n, int(share*100))
		t.Eval(1)
		cl.Close()
	}
}

// c03EndRace: the timeouts of the selection and of the jobs strike when the work is about to end.
func c03EndRace(t *T) {
	type tally struct{ succ, fail, not int }
	var all tally
	base := 40 * time.Millisecond
	for k := 0; t.More(k, 150, 5000); k++ {
		rng := t.Sub()
		n := 2 + rng.Intn(2)
		kind := []string{"edsign", "edsign", "edgen"}[rng.Intn(3)]
		cfg := fastTimeouts()
		d := time.Duration(float64(base) * (0.2 + 1.5*rng.Float64()))
		which := rng.Intn(3)
		switch which {
		case 0:
			cfg.SigningJobTimeout, cfg.KeygenJobTimeout = d, d
		case 1:
			cfg.SelectionLeaderTimeout, cfg.SelectionMemberTimeout = d, d+time.Duration(rng.Intn(10))*time.Millisecond
			cfg.SigningJobTimeout, cfg.KeygenJobTimeout = 2*time.Second, 2*time.Second
		case 2:
			cfg.SelectionLeaderTimeout = d / 2
			cfg.SelectionMemberTimeout = d
			cfg.SigningJobTimeout, cfg.KeygenJobTimeout = d, d
		}
		cl := newCluster(t, rng, Opts{N: n, Thr: n - 1, Ed: kind == "edsign", Cfg: &cfg, Policy: duplicated(t.Sub(), jitter(t.Sub(), 3*time.Millisecond), 20*time.Millisecond), KeepData: true})
		w := &Work{Id: uniqueId(rng), Kind: kind}
		if kind == "edsign" {
			w.Msgs = randMsgs(rng, kind, 1+rng.Intn(4))
		}
		cl.request(w, 0)
		t.SetCase(fmt.Sprintf("%s n=%d batch=%d: timeout %d of %v", kind, n, len(w.Msgs), which, d))
		begin := time.Now()
		acc := &accepted{}
		for i := 0; i < n; i++ {
			acc.submit(cl, w, i)
		}
		t.WaitFor(12*time.Second, func() bool { return acc.done(cl, []*Work{w}, nil) })
		took := time.Since(begin)
		cl.Quiesce(25*time.Millisecond, time.Second)
		acc.check(cl, []*Work{w}, nil, "timeout at the end", fmt.Sprint(t.cur))
		for i := 0; i < n; i++ {
			i := i
			if !t.WaitFor(5*time.Second, func() bool { return cl.engine(i).GetActiveWorkerCount() == 0 }) {
				t.Live("C03", "slot-not-free", "%v: node %d still has an active work", t.cur, i)
			}
		}
		succ, fail, not := cl.tally(w)
		all.succ += len(succ)
		all.fail += len(fail)
		all.not += len(not)
		// Follow the time that the works take, to hit their end.
		if len(succ) == n {
			base = (base*3 + took) / 4
		}
		t.State("end", kind, n, len(w.Msgs), which, len(succ), len(fail))
		t.Eval(1)
		cl.Close()
	}
	t.Count("end races: successes", all.succ)
	t.Count("end races: failures", all.fail)
}

// c03Odd: requests with unusual content are refused or end with exactly one outcome.
func c03Odd(t *T) {
	for k := t.Pick(0, 0); t.More(k, 60, 1000); k++ {
		rng := t.Sub()
		n := 3
		cfg := fastTimeouts()
		cfg.SelectionLeaderTimeout, cfg.SelectionMemberTimeout = 800*time.Millisecond, 1500*time.Millisecond
		cfg.SigningJobTimeout, cfg.KeygenJobTimeout = 5*time.Second, 5*time.Second
		kind := []string{"edsign", "ecsign", "edgen", "ecgen"}[k%4]
		cl := newCluster(t, rng, Opts{N: n, Thr: 1, Ed: kind == "edsign", Ec: kind == "ecsign", Policy: immediate, Cfg: &cfg})
		// Another member that every node knows, but that holds no share.
		extra := makeMembers(rng, 1, false)[0]
		odd := []string{"strange-party", "repeated-party", "without-me", "single", "threshold-zero", "threshold-negative", "threshold-huge", "no-preparams", "nil-message", "empty-message", "chains-short", "big-batch", "no-parties", "strange-party-online", "zero-message"}[(k/4+12)%15]
		if strings.HasPrefix(odd, "strange-party") {
			for i := range cl.Nodes {
				cl.engine(i).AddNodes(nodesOf([]*Member{extra}))
			}
		}
		t.SetCase(fmt.Sprintf("%s request: %s", kind, odd))
		id := uniqueId(rng)
		thr := 1
		pids := pidsOf(cl.Members)
		msgs := randMsgs(rng, kind, 2)
		chains := []string{"c", "c"}
		switch odd {
		case "strange-party":
			pids = append(pids, extra.Pid)
			thr = rng.Intn(4)
		case "repeated-party":
			pids = append(pids, pids[rng.Intn(n)])
			thr = 1 + rng.Intn(3)
		case "without-me":
			pids = pids[1:]
		case "single":
			pids = pids[:1]
			thr = 0
		case "threshold-zero":
			thr = 0
		case "threshold-negative":
			thr = -1 - rng.Intn(2)
		case "no-parties":
			pids, thr = nil, utils.GetThreshold(0)
		case "strange-party-online":
			pids = append(pids, extra.Pid)
			thr = 3
		case "threshold-huge":
			thr = 3 + rng.Intn(1000)
		case "no-preparams":
			// The members have no preparams in their databases.
		case "nil-message":
			msgs[rng.Intn(2)] = nil
		case "empty-message":
			msgs[rng.Intn(2)] = []byte{}
		case "zero-message":
			msgs[rng.Intn(2)] = append(make([]byte, 32), byte(rng.Intn(256)))
		case "chains-short":
			chains = chains[:1]
		case "big-batch":
			msgs = randMsgs(rng, kind, 12)
			chains = make([]string, 12)
		}
		if odd == "strange-party-online" {
			// It takes part in the selection.
			data := signMsg(extra, &common.TssMessage{Type: common.TssMessage_AVAILABILITY_RESPONSE, From: extra.Id, WorkId: id,
				AvailabilityResponseMessage: &common.AvailabilityResponseMessage{Answer: common.AvailabilityResponseMessage_YES, MaxJob: 1}})
			for i := range cl.Nodes {
				cl.deliver(extra.Id, i, data, nil)
			}
		}
		acc := map[int]bool{}
		for i := 0; i < n; i++ {
			var r *wtypes.WorkRequest
			switch kind {
			case "edsign":
				r = wtypes.NewEdSigningRequest(id, pids, thr, msgs, chains, cl.Ed[i])
			case "ecsign":
				r = wtypes.NewEcSigningRequest(id, pids, thr, msgs, chains, cl.Ec[i])
			case "edgen":
				r = wtypes.NewEdKeygenRequest(id, pids, thr)
			case "ecgen":
				r = wtypes.NewEcKeygenRequest("ecdsa", id, pids, thr, nil)
			}
			var err error
			if msg := noPanic(func() { err = cl.engine(i).AddRequest(r) }); msg != "" {
				t.Viol("C03", "odd:"+odd+":panic", "%v: node %d panics: %s", t.cur, i, msg)
				err = fmt.Errorf("panic")
			}
			acc[i] = err == nil
			if err == nil {
				t.Count("odd requests accepted", 1)
			} else {
				t.Count("odd requests refused", 1)
			}
		}
		w := &Work{Id: id, Kind: kind, Msgs: msgs}
		cl.request(w, 0)
		w.Msgs = msgs
		t.WaitFor(12*time.Second, func() bool {
			res := cl.of(w)
			for i := range acc {
				if acc[i] && len(res[i]) == 0 {
					return false
				}
			}
			return true
		})
		cl.Quiesce(50*time.Millisecond, time.Second)
		res := cl.of(w)
		for i := 0; i < n; i++ {
			want := btoi(acc[i])
			if len(res[i]) > want {
				t.Viol("C03", "odd:"+odd+":several-outcomes", "%v: node %d reports %s", t.cur, i, outStr(res[i]))
			} else if len(res[i]) < want {
				t.Live("C03", "odd:"+odd+":no-outcome", "%v: node %d reports no outcome", t.cur, i)
			}
			i := i
			if !t.WaitFor(5*time.Second, func() bool { return cl.engine(i).GetActiveWorkerCount() == 0 }) {
				t.Live("C03", "slot-not-free", "%v: node %d still has an active work", t.cur, i)
			}
		}
		succ, fail, not := cl.tally(w)
		t.State("odd", kind, odd, len(succ), len(fail), len(not))
		t.Debug("%v accepted=%v succ=%v fail=%v not=%v", t.cur, acc, succ, fail, not)
		t.Eval(1)
		// A usual request runs afterwards.
		if kind == "edsign" || kind == "ecsign" {
			x := &Work{Id: uniqueId(rng), Kind: kind, Msgs: randMsgs(rng, kind, 1)}
			for i := 0; i < n; i++ {
				cl.mustSubmit(x, i)
			}
			cl.Wait(x, cl.all(), 20*time.Second)
			if succ, _, _ := cl.tally(x); len(succ) < 2 {
				t.Live("C03", "odd:"+odd+":later-work-fails", "after %v, a usual request does not succeed", t.cur)
			}
			cl.checkOnce(x, cl.all())
		}
		cl.Close()
	}
}

func nodesOf(ms []*Member) []*core.Node {
	var ns []*core.Node
	for _, m := range ms {
		ns = append(ns, core.NewNode(m.Priv.PubKey()))
	}
	return ns
}
