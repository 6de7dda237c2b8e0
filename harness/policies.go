package main

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sisu-network/dheart/types/common"
)

// lockedRand can be used by several goroutines.
type lockedRand struct {
	mu sync.Mutex
	r  *rand.Rand
}

func newLocked(r *rand.Rand) *lockedRand { return &lockedRand{r: r} }

func (l *lockedRand) Intn(n int) int {
	raceOff()
	defer raceOn()
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.r.Intn(n)
}

func (l *lockedRand) Float() float64 {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.r.Float64()
}

func immediate(*Send) []time.Duration { return []time.Duration{0} }

// jitter delays every message by a random time up to max.
func jitter(rng *rand.Rand, max time.Duration) Policy {
	r := newLocked(rng)
	return func(*Send) []time.Duration { return []time.Duration{time.Duration(r.Intn(int(max) + 1))} }
}

// heavy delays most messages shortly and some for long.
func heavy(rng *rand.Rand, short, long time.Duration, p float64) Policy {
	r := newLocked(rng)
	return func(*Send) []time.Duration {
		if r.Float() < p {
			return []time.Duration{time.Duration(r.Intn(int(long) + 1))}
		}
		return []time.Duration{time.Duration(r.Intn(int(short) + 1))}
	}
}

// duplicated delivers messages of another policy up to three times.
func duplicated(rng *rand.Rand, inner Policy, later time.Duration) Policy {
	r := newLocked(rng)
	return func(s *Send) []time.Duration {
		ds := inner(s)
		if len(ds) == 0 {
			return ds
		}
		for k := r.Intn(3); k > 0; k-- {
			ds = append(ds, time.Duration(r.Intn(int(later)+1)))
		}
		return ds
	}
}

// slowLinks delays all messages between some pairs of nodes.
func slowLinks(rng *rand.Rand, n int, links int, d time.Duration) Policy {
	slow := map[[2]int]bool{}
	for i := 0; i < links; i++ {
		slow[[2]int{rng.Intn(n), rng.Intn(n)}] = true
	}
	r := newLocked(rng)
	return func(s *Send) []time.Duration {
		if slow[[2]int{s.From, s.To}] {
			return []time.Duration{d + time.Duration(r.Intn(int(d)))}
		}
		return []time.Duration{time.Duration(r.Intn(int(5 * time.Millisecond)))}
	}
}

// kindOrder delays messages of one kind (a round or a selection message) longer than all others.
func kindOrder(rng *rand.Rand, d time.Duration) Policy {
	r := newLocked(rng)
	late := rng.Intn(4)
	return func(s *Send) []time.Duration {
		l := false
		switch s.Msg.TssMessage.Type {
		case common.TssMessage_UPDATE_MESSAGES:
			l = late == 0 || (late == 3 && int(hash64(s.Round())%2) == 0)
		case common.TssMessage_PRE_EXEC_OUTPUT:
			l = late == 1
		default:
			l = late == 2
		}
		if l {
			return []time.Duration{d/2 + time.Duration(r.Intn(int(d)))}
		}
		return []time.Duration{time.Duration(r.Intn(int(2 * time.Millisecond)))}
	}
}

// Pool keeps all messages and delivers them one after another in an order of its own: the next one is
// chosen when the nodes have nothing more to send.
type Pool struct {
	cl    *Cluster
	mode  string // random, lifo, receiver
	rng   *rand.Rand
	mu    sync.Mutex
	items []*Send
	last  int
	stop  int32
	max   int
}

func newPool(rng *rand.Rand, mode string) *Pool { return &Pool{rng: rng, mode: mode} }

func (p *Pool) Policy(s *Send) []time.Duration {
	raceOff()
	defer raceOn()
	atomic.AddInt64(&p.cl.pending, 1)
	p.mu.Lock()
	p.items = append(p.items, s)
	if len(p.items) > p.max {
		p.max = len(p.items)
	}
	p.mu.Unlock()
	return nil
}

func (p *Pool) Run(cl *Cluster) {
	p.cl = cl
	cl.SetPolicy(p.Policy)
	go func() {
		favourite := 0
		sent := -1
		burst := 0
		released := time.Now()
		quietSince := time.Now()
		for atomic.LoadInt32(&p.stop) == 0 {
			cl.mu.Lock()
			n := len(cl.sends)
			cl.mu.Unlock()
			if n != sent || atomic.LoadInt64(&cl.inflight) > 0 {
				sent, quietSince = n, time.Now()
			}
			if burst <= 0 {
				if time.Since(quietSince) < 1500*time.Microsecond && time.Since(released) < 8*time.Millisecond {
					time.Sleep(200 * time.Microsecond)
					continue
				}
				p.mu.Lock()
				burst = 1 + p.rng.Intn(2+len(p.items)/10)
				p.mu.Unlock()
				released = time.Now()
			}
			burst--
			p.mu.Lock()
			if len(p.items) == 0 {
				p.mu.Unlock()
				time.Sleep(500 * time.Microsecond)
				continue
			}
			k := 0
			switch p.mode {
			case "lifo":
				k = len(p.items) - 1
			case "receiver":
				// One receiver gets everything before the others get anything.
				if p.rng.Intn(10) == 0 {
					favourite = p.rng.Intn(cl.N)
				}
				k = p.rng.Intn(len(p.items))
				for i, s := range p.items {
					if s.To == favourite {
						k = i
						break
					}
				}
			default:
				k = p.rng.Intn(len(p.items))
			}
			s := p.items[k]
			p.items = append(p.items[:k:k], p.items[k+1:]...)
			p.mu.Unlock()
			done := make(chan struct{})
			go func() {
				cl.deliver(cl.Members[s.From].Id, s.To, s.Data, s)
				raceOff()
				close(done)
				raceOn()
			}()
			select {
			case <-done:
			case <-time.After(50 * time.Millisecond):
			}
			atomic.AddInt64(&cl.pending, -1)
		}
	}()
}

func (p *Pool) Stop() { atomic.StoreInt32(&p.stop, 1) }

// Fault is a rule that decides whether the transmission of a message fails. Nth counts the
// transmissions of the same message to the same receiver (by any node).
type Fault func(s *Send, nth int) bool

// faulty drops messages.
func faulty(inner Policy, drop Fault, dropped func(s *Send)) Policy {
	var mu sync.Mutex
	count := map[string]int{}
	return func(s *Send) []time.Duration {
		key := ""
		if s.Msg != nil {
			m := s.Msg.TssMessage
			key = m.From + "|" + m.To + "|" + m.WorkId + "|" + m.Type.String() + "|" + s.Round() + "|" + s.ToPeer
			if m.Type == common.TssMessage_ASK_MESSAGE_REQUEST {
				key += m.GetAskRequestMessage().GetMsgKey()
			}
		}
		raceOff()
		mu.Lock()
		count[key]++
		n := count[key]
		mu.Unlock()
		raceOn()
		if drop(s, n) {
			if dropped != nil {
				dropped(s)
			}
			return nil
		}
		return inner(s)
	}
}

func isUpdate(s *Send) bool {
	return s.Msg != nil && s.Msg.TssMessage.Type == common.TssMessage_UPDATE_MESSAGES
}

var policyNames = []string{"immediate", "jitter", "heavy", "dup", "slowlinks", "kinds", "pool-random", "pool-lifo", "pool-receiver", "dup-pool", "blocked"}

// setPolicy installs a policy by its name. The function it returns stops it.
func (cl *Cluster) setPolicy(name string, rng *rand.Rand) func() {
	ms := time.Millisecond
	cl.policyName = name
	switch name {
	case "immediate":
		cl.SetPolicy(immediate)
	case "jitter":
		cl.SetPolicy(jitter(rng, 30*ms))
	case "heavy":
		cl.SetPolicy(heavy(rng, 2*ms, 400*ms, 0.15))
	case "dup":
		cl.SetPolicy(duplicated(rng, jitter(rng, 10*ms), 300*ms))
	case "slowlinks":
		cl.SetPolicy(slowLinks(rng, cl.N, cl.N, 150*ms))
	case "kinds":
		cl.SetPolicy(kindOrder(rng, 200*ms))
	case "pool-random", "pool-lifo", "pool-receiver", "dup-pool":
		mode := "random"
		if name == "pool-lifo" {
			mode = "lifo"
		} else if name == "pool-receiver" {
			mode = "receiver"
		}
		p := newPool(rng, mode)
		p.Run(cl)
		if name == "dup-pool" {
			r := newLocked(rand.New(rand.NewSource(rng.Int63())))
			cl.SetPolicy(func(s *Send) []time.Duration {
				p.Policy(s)
				for k := r.Intn(3); k > 0; k-- {
					p.Policy(s)
				}
				return nil
			})
		}
		return p.Stop
	case "blocked", "blocked-0", "blocked-1", "blocked-2", "blocked-3":
		cl.SetPolicy(immediate)
		round := -1
		if len(name) > 7 {
			round = int(name[8] - '0')
		}
		cl.blockSends(rng, round)
	default:
		panic(name)
	}
	return func() {}
}

// blockSends lets sending return late: what some nodes send in one of their rounds is delivered at once, but
// the calls return only when nothing else happens anymore, as they do when a link is congested.
func (cl *Cluster) blockSends(rng *rand.Rand, round int) {
	target := map[int]int{}
	for i := 0; i < cl.N; i++ {
		if rng.Intn(3) > 0 {
			target[i] = rng.Intn(4)
		}
	}
	if round >= 0 {
		target = map[int]int{rng.Intn(cl.N): round}
	} else if len(target) == 0 {
		target[0] = rng.Intn(4)
	}
	var mu sync.Mutex
	seen := map[string]int{}
	count := map[string]int{}
	cl.mu.Lock()
	cl.block = func(s *Send) {
		if !isUpdate(s) {
			return
		}
		work := fmt.Sprint(s.From, s.Msg.TssMessage.WorkId)
		key := fmt.Sprint(work, s.Round())
		mu.Lock()
		idx, ok := seen[key]
		if !ok {
			idx = count[work]
			seen[key] = idx
			count[work]++
		}
		mu.Unlock()
		if t, ok := target[s.From]; ok && t == idx {
			cl.t.Count("sends that return late", 1)
			cl.Quiesce(700*time.Millisecond, 8*time.Second)
		}
	}
	cl.mu.Unlock()
}
