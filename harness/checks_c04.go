package main

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"time"

	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"
	wtypes "github.com/sisu-network/dheart/worker/types"
	"github.com/sisu-network/tss-lib/tss"
)

func init() {
	register(&Check{
		ID:   "C04",
		Rule: "a case of the stepwise histories is distinct by the sequence of submissions, repeated submissions and endings (kind, role and order of each); a concurrent history by the order in which its works started",
		Assumptions: []string{"a work runs from its first message to its reported outcome",
			"the other two parties are played by a real node (works that succeed) and by the harness (works that fail or do not select the node)"},
		Units: func(tier string, seed int64) []Unit {
			var us []Unit
			for i := 0; i < 3; i++ {
				us = append(us, Unit{Name: fmt.Sprintf("steps-%d", i), Run: c04Steps})
			}
			for i := 0; i < 3; i++ {
				us = append(us, Unit{Name: fmt.Sprintf("concurrent-%d", i), Run: c04Concurrent})
			}
			return us
		},
	})
}

// c04Work is a work of node 0.
type c04Work struct {
	*Work
	gen     bool
	mode    string // success (led by node 0, with node 1), failure or unselected (led by node 2, which the harness plays)
	subs    int
	started time.Duration
	ended   time.Duration
	nStart  int
	ending  bool
	ready   chan struct{} // closed when all submissions have returned
}

// c04Rig is node 0 under observation, with node 1 as a real partner and node 2 as a puppet.
type c04Rig struct {
	t      *T
	cl     *Cluster
	mu     sync.Mutex
	works  map[string]*c04Work
	starts []*c04Work
	over   int // running works
	max    int
	stop   chan struct{}
	wg     sync.WaitGroup
	onResp func(w *c04Work)
}

func newC04Rig(t *T, rng *rand.Rand) *c04Rig {
	r := &c04Rig{t: t, works: map[string]*c04Work{}, stop: make(chan struct{})}
	cfg := fastTimeouts()
	r.cl = newCluster(t, rng, Opts{N: 3, Thr: 1, Ed: true, NoEngine: map[int]bool{0: true, 1: true, 2: true}, Cfg: &cfg})
	cl := r.cl
	cl.SetPolicy(func(s *Send) []time.Duration {
		if s.From == 0 && s.Msg != nil {
			m := s.Msg.TssMessage
			r.mu.Lock()
			w := r.works[m.WorkId]
			// The first message of a work is the question of the leader or the answer of a member.
			if w != nil && (m.Type == common.TssMessage_AVAILABILITY_REQUEST || m.Type == common.TssMessage_AVAILABILITY_RESPONSE) {
				first := m.Type == common.TssMessage_AVAILABILITY_RESPONSE || s.To == 1
				if first {
					r.start(w)
				}
			}
			f := r.onResp
			r.mu.Unlock()
			if w != nil && f != nil && m.Type == common.TssMessage_AVAILABILITY_RESPONSE {
				f(w)
			}
		}
		return []time.Duration{0}
	})
	cl.onOut = func(o *Outcome) {
		if o.Node != 0 {
			return
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		w := r.works[o.WorkId]
		if o.Kind == "keygen" {
			// The report of a success does not name the work. At most two key generations are running.
			for _, x := range r.starts {
				if x.gen && x.mode == "success" && x.ending && x.ended == 0 {
					w = x
					break
				}
			}
		}
		if w == nil {
			return
		}
		w.ended = o.At
		r.over--
	}
	cl.Up(0, cfg)
	cl.Up(1, cfg)
	r.wg.Add(1)
	go func() {
		defer r.wg.Done()
		for {
			select {
			case <-r.stop:
				return
			case <-time.After(500 * time.Microsecond):
			}
			if n := cl.engine(0).GetActiveWorkerCount(); n > 2 {
				t.Viol("C04", "active-count", "node 0 has %d active workers", n)
			}
			t.Count("polls of the number of running works", 1)
		}
	}()
	return r
}

func (r *c04Rig) close() {
	close(r.stop)
	r.wg.Wait()
	r.cl.Close()
}

// start is called with the lock.
func (r *c04Rig) start(w *c04Work) {
	w.nStart++
	r.starts = append(r.starts, w)
	w.started = time.Since(r.cl.start)
	r.over++
	if r.over > r.max {
		r.max = r.over
	}
	if r.over > 2 {
		r.t.Viol("C04", "too-many", "node 0 runs %d works at the same time (%v)", r.over, r.t.cur)
	}
	if w.nStart > 1 {
		r.t.Viol("C04", "executed-twice", "node 0 executes %s %s %d times, it was submitted %d times while it was waiting or running (%v)", w.Kind, w.Id, w.nStart, w.subs, r.t.cur)
	}
}

func (r *c04Rig) newWork(rng *rand.Rand, gen bool, mode string) *c04Work {
	w := &c04Work{Work: &Work{Kind: "edsign"}, gen: gen, mode: mode, ready: make(chan struct{})}
	if gen {
		w.Kind, w.KeyType = "edgen", "eddsa"
	} else {
		w.Msgs = randMsgs(rng, "edsign", 1)
	}
	pids := r.pids(w)
	leader := r.cl.Members[0].Id
	if mode != "success" {
		leader = r.cl.Members[2].Id
	}
	for {
		w.Id = uniqueId(rng)
		if chooseLeader(w.Id, pids) == leader {
			break
		}
	}
	r.mu.Lock()
	r.works[w.Id] = w
	r.mu.Unlock()
	return w
}

func (r *c04Rig) pids(w *c04Work) []*tss.PartyID {
	pids := pidsOf(r.cl.Members)
	if w.mode == "success" {
		return pids[:2]
	}
	return pids
}

func (r *c04Rig) submit(w *c04Work, i int) {
	var q *wtypes.WorkRequest
	if w.gen {
		q = wtypes.NewEdKeygenRequest(w.Id, r.pids(w), 1)
	} else {
		q = wtypes.NewEdSigningRequest(w.Id, r.pids(w), 1, w.Msgs, []string{"c"}, r.cl.Ed[i])
	}
	if err := r.cl.engine(i).AddRequest(q); err != nil {
		r.t.Viol("C04", "refused", "node %d refuses %s %s: %v", i, w.Kind, w.Id, err)
	}
}

// end lets a running work come to its end.
func (r *c04Rig) end(w *c04Work) {
	cl := r.cl
	r.mu.Lock()
	w.ending = true
	r.mu.Unlock()
	switch w.mode {
	case "success":
		r.submit(w, 1)
	default:
		out := &common.PreExecOutputMessage{Success: w.mode == "unselected"}
		if out.Success {
			out.Pids = []string{cl.Members[1].Id, cl.Members[2].Id}
		}
		cl.deliver(cl.Members[2].Id, 0, cl.signed(2, &common.TssMessage{Type: common.TssMessage_PRE_EXEC_OUTPUT, From: cl.Members[2].Id,
			WorkId: w.Id, PreExecOutputMessage: out}), nil)
	}
}

func (r *c04Rig) snapshot() (starts []*c04Work) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append(starts, r.starts...)
}

// c04Steps compares the works that run after each step with a model of the queue.
func c04Steps(t *T) {
	for k := 0; t.More(k, 30, 600); k++ {
		rng := t.Sub()
		r := newC04Rig(t, rng)
		var running, waiting, all []*c04Work
		var hist []string
		t.SetCase(&hist)
		log := func(f string, a ...interface{}) {
			r.mu.Lock()
			hist = append(hist, fmt.Sprintf(f, a...))
			r.mu.Unlock()
		}
		name := func(w *c04Work) string {
			for i, x := range all {
				if x == w {
					return fmt.Sprintf("%d:%s/%s", i, w.Kind, w.mode)
				}
			}
			return "?"
		}
		// promote moves waiting works of the model to the free slots.
		promote := func() (next []*c04Work) {
			for len(running) < 2 && len(waiting) > 0 {
				best := 0
				for i, w := range waiting {
					if w.gen && !waiting[best].gen {
						best = i
					}
				}
				w := waiting[best]
				waiting = append(append([]*c04Work{}, waiting[:best]...), waiting[best+1:]...)
				running = append(running, w)
				next = append(next, w)
			}
			return
		}
		expect := func(nStarts int, next []*c04Work) bool {
			r.t.WaitFor(20*time.Second, func() bool { return len(r.snapshot()) >= nStarts+len(next) })
			time.Sleep(time.Millisecond)
			got := r.snapshot()[nStarts:]
			a, b := []string{}, []string{}
			for _, w := range got {
				a = append(a, name(w))
			}
			for _, w := range next {
				b = append(b, name(w))
			}
			sort.Strings(a)
			sort.Strings(b)
			t.Eval(1)
			if fmt.Sprint(a) == fmt.Sprint(b) {
				return true
			}
			if len(a) < len(b) {
				t.Live("C04", "not-started", "started %v instead of %v; waiting before: %v; history %v", a, b, names2(all, waiting), hist)
			} else {
				t.Viol("C04", "order", "started %v instead of %v; waiting: %v; history %v", a, b, names2(all, waiting), hist)
			}
			return false
		}
		ok := true
		steps := 30 + rng.Intn(30)
		maxWait := []int{4, 12, 60}[rng.Intn(3)]
		draining := false
		for s := 0; ok && (s < steps || len(running) > 0); s++ {
			n := len(r.snapshot())
			op := rng.Intn(10)
			draining = s >= steps
			switch {
			case !draining && (op < 5 || len(running) == 0) && len(waiting) < maxWait:
				w := r.newWork(rng, rng.Intn(3) == 0, []string{"success", "failure", "unselected", "failure"}[rng.Intn(4)])
				if w.gen && w.mode == "unselected" {
					w.mode = "failure"
				}
				all = append(all, w)
				w.subs++
				waiting = append(waiting, w)
				log("submit %s", name(w))
				next := promote()
				r.submit(w, 0)
				ok = expect(n, next)
			case !draining && op < 7:
				// A repeated submission of a work that is waiting or running.
				cand := append(append([]*c04Work{}, running...), waiting...)
				if len(cand) == 0 {
					continue
				}
				w := cand[rng.Intn(len(cand))]
				w.subs++
				log("repeat %s", name(w))
				dup := *w
				if rng.Intn(4) == 0 {
					// It may even come with another content.
					dup.Work = &Work{Id: w.Id, Kind: w.Kind, Msgs: randMsgs(rng, "edsign", 1), KeyType: w.KeyType}
					if w.mode != "success" {
						dup.gen = !w.gen
					}
				}
				r.submit(&dup, 0)
				t.Count("repeated submissions", 1)
				ok = expect(n, nil)
			case len(running) > 0:
				i := rng.Intn(len(running))
				w := running[i]
				running = append(append([]*c04Work{}, running[:i]...), running[i+1:]...)
				next := promote()
				log("end %s", name(w))
				r.end(w)
				if !t.WaitFor(20*time.Second, func() bool { r.mu.Lock(); defer r.mu.Unlock(); return w.ended > 0 }) {
					t.Live("C04", "no-end", "%s has no outcome; history %v", name(w), hist)
					ok = false
					break
				}
				ok = expect(n, next)
			}
		}
		for _, w := range all {
			r.checkWork(w, ok)
		}
		t.Count("stepwise histories", 1)
		t.Count("works observed", len(all))
		t.State(fmt.Sprint(hist))
		if k == 0 {
			t.Sample(hist)
		}
		r.close()
	}
}

func names2(all, ws []*c04Work) (res []string) {
	for _, w := range ws {
		for i, x := range all {
			if x == w {
				res = append(res, fmt.Sprintf("%d:%s/%s", i, w.Kind, w.mode))
			}
		}
	}
	return
}

// checkWork compares the outcomes of a work with its kind of end.
func (r *c04Rig) checkWork(w *c04Work, done bool) {
	if !done {
		return
	}
	n := 0
	for _, o := range r.cl.Outcomes() {
		if o.Node == 0 && o.Kind != "keygen" && o.WorkId == w.Id {
			n++
			if (w.mode == "failure") != (o.Outcome == htypes.OutcomeFailure) {
				r.t.Viol("C04", "outcome", "%s of mode %s has outcome %v", w.Kind, w.mode, o.Outcome)
			}
		}
	}
	want := 1
	if w.gen && w.mode == "success" {
		want = 0 // reported without the id of the work
	}
	if n != want || w.nStart != 1 {
		r.t.Viol("C04", "not-once", "%s of mode %s, submitted %d times: %d starts, %d outcomes", w.Kind, w.mode, w.subs, w.nStart, n)
	}
}

// c04Concurrent submits works from several goroutines. Works end by themselves after a while.
func c04Concurrent(t *T) {
	for k := 0; t.More(k, 60, 2500); k++ {
		rng := t.Sub()
		r := newC04Rig(t, rng)
		workers := 2 + rng.Intn(6)
		per := 10 + rng.Intn(30)
		maxDelay := []int{0, 1, 5}[rng.Intn(3)]
		t.SetCase(fmt.Sprintf("%d goroutines submit %d works each, works end after up to %d ms", workers, per, maxDelay))
		lr := newLocked(t.Sub())
		var ending sync.WaitGroup
		r.mu.Lock()
		r.onResp = func(w *c04Work) {
			ending.Add(1)
			go func() {
				defer ending.Done()
				<-w.ready
				if maxDelay > 0 {
					time.Sleep(time.Duration(lr.Intn(maxDelay*1000)) * time.Microsecond)
				}
				r.end(w)
			}()
		}
		r.mu.Unlock()
		var wg sync.WaitGroup
		var all []*c04Work
		for g := 0; g < workers; g++ {
			var mine []*c04Work
			for j := 0; j < per; j++ {
				gen := rng.Intn(3) == 0
				mode := []string{"failure", "unselected"}[rng.Intn(2)]
				if gen {
					mode = "failure"
				}
				mine = append(mine, r.newWork(rng, gen, mode))
			}
			all = append(all, mine...)
			grng := t.Sub()
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, w := range mine {
					// Repeated submissions come at the same time. The work does not end before they return.
					r.submitTogether(w, 1+grng.Intn(2)*(1+grng.Intn(3)))
					if grng.Intn(3) == 0 {
						time.Sleep(time.Duration(grng.Intn(2000)) * time.Microsecond)
					}
				}
			}()
		}
		if !t.Within(40*time.Second, wg.Wait) {
			t.Live("C04", "blocked", "the submissions do not return (%v)", t.cur)
		}
		done := t.WaitFor(40*time.Second, func() bool {
			r.mu.Lock()
			defer r.mu.Unlock()
			for _, w := range all {
				if w.ended == 0 {
					return false
				}
			}
			return true
		})
		lost := 0
		r.mu.Lock()
		for _, w := range all {
			if w.ended == 0 {
				lost++
			}
		}
		order := make([]interface{}, 0, len(r.starts))
		for _, w := range r.starts {
			order = append(order, w.Id)
		}
		max := r.max
		r.mu.Unlock()
		if !done {
			t.Live("C04", "lost", "%d of %d works have no outcome (%v)", lost, len(all), t.cur)
		}
		if !t.WaitFor(5*time.Second, func() bool { return r.cl.engine(0).GetActiveWorkerCount() == 0 }) {
			t.Live("C04", "slots-kept", "%d workers are active after all works have ended (%v)", r.cl.engine(0).GetActiveWorkerCount(), t.cur)
		}
		for _, w := range all {
			r.checkWork(w, done)
		}
		t.Eval(len(all))
		t.Count("concurrent histories", 1)
		t.Count("works observed", len(all))
		t.Count(fmt.Sprintf("histories with at most %d works at the same time", max), 1)
		t.State(hash64(order...))
		t.Sample(t.cur)
		r.close()
	}
}

// submitTogether submits a work m times at once.
func (r *c04Rig) submitTogether(w *c04Work, m int) {
	r.mu.Lock()
	w.subs = m
	r.mu.Unlock()
	r.t.Count("repeated submissions", m-1)
	var wg sync.WaitGroup
	for i := 1; i < m; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.submit(w, 0)
		}()
	}
	r.submit(w, 0)
	wg.Wait()
	close(w.ready)
}
