package main

import (
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/p2p"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/types/common"
	wtypes "github.com/sisu-network/dheart/worker/types"
)

// C15: concurrent workloads of all parts run in a build with the race detector. When a workload has come
// to rest, no goroutine may be waiting for a lock or for somebody to take something from a channel.

const repoPkg = "github.com/sisu-network/dheart/"

func init() {
	register(&Check{
		ID:   "C15",
		Race: true,
		Rule: "a case is distinct by the workload and its parameters, as in the check that the workload comes from, and for the engine by the set of works, the delivery policy and the concurrent calls",
		Assumptions: []string{"a race is reported if one of the two accesses is made by the code of the repository, or by a library on its behalf",
			"a goroutine counts as stuck if it waits at the same place for a lock or to send to a channel 20 s and more after the workload has ended"},
		Units: func(tier string, seed int64) []Unit {
			var us []Unit
			add := func(name string, f func(t *T)) {
				us = append(us, Unit{Name: name, Run: func(t *T) {
					if !t.Thorough() {
						t.Budget = 12 * time.Second
					}
					f(t)
					t.stuck()
				}})
			}
			for i := 0; i < 2; i++ {
				add(fmt.Sprintf("engine-ed-%d", i), func(t *T) { c15Engine(t, []string{"edsign", "edgen"}) })
			}
			add("engine-ec", func(t *T) { c15Engine(t, []string{"ecsign", "edsign"}) })
			add("engine-churn", c15Churn)
			add("transport-early", c15Early)
			add("engine-presigns", func(t *T) { c15Presigns(t) })
			add("engine-steps", c04Concurrent)
			add("engine-end", c03EndRace)
			add("engine-noise", c08Bytes)
			add("selection", c10Agree)
			add("presign-manager", c11Manager)
			add("presign-group", c11Group)
			add("cache", c05Cache)
			add("database", func(t *T) { c12Concurrent(t, false) })
			add("blame", c18Concurrent)
			add("queue", c19Concurrent)
			add("transport-sizes", func(t *T) { c14Sizes(t, false) })
			add("transport-reset", c14Reset)
			add("transport-restart", c14Restart)
			add("single-node", func(t *T) { c22Calls(t, true) })
			add("client", func(t *T) { c24Content(t, "http") })
			add("client-restart", c24Restart)
			add("client-late", c15Late)
			add("api", c15Api)
			add("api-keys", c16Keys)
			add("api-together", c17Together)
			return us
		},
	})
}

// ---- goroutines at rest

type gor struct {
	id, state, top string
	text           string
}

var gorRe = regexp.MustCompile(`^goroutine (\d+) \[([^\],]+)`)

// goroutines lists the goroutines that are in the code of the repository.
func goroutines() []gor {
	buf := make([]byte, 1<<25)
	buf = buf[:runtime.Stack(buf, true)]
	var res []gor
	for _, b := range strings.Split(string(buf), "\n\n") {
		m := gorRe.FindStringSubmatch(b)
		if m == nil {
			continue
		}
		top := ""
		for _, l := range strings.Split(b, "\n") {
			if strings.HasPrefix(l, repoPkg) {
				top = strings.TrimPrefix(l, repoPkg)
				if i := strings.LastIndex(top, "("); i > 0 {
					top = top[:i]
				}
				break
			}
			if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "created by") {
				break
			}
		}
		if top != "" {
			res = append(res, gor{id: m[1], state: m[2], top: top, text: b})
		}
	}
	return res
}

// waits: for a lock, or to send to a channel. Waiting for other goroutines to end is allowed while those
// do something.
func (g gor) waits() bool {
	if strings.Contains(g.text, "sync.(*WaitGroup).Wait") {
		return false
	}
	return strings.HasPrefix(g.state, "semacquire") || strings.Contains(g.state, "Mutex") || strings.HasPrefix(g.state, "chan send")
}

// stuck looks for goroutines that wait forever.
func (t *T) stuck() {
	seen := map[string]gor{}
	// The works of some workloads have all ended: nothing of them may be left.
	left := func(g gor) bool {
		return strings.HasPrefix(t.Unit, "engine-ed") && strings.HasPrefix(g.top, "worker/")
	}
	for _, g := range goroutines() {
		if g.waits() || left(g) {
			seen[g.id+g.top] = g
		}
	}
	t.Count("goroutines looked at", len(goroutines()))
	begin := time.Now()
	for len(seen) > 0 && time.Since(begin) < 22*time.Second {
		time.Sleep(500 * time.Millisecond)
		now := map[string]bool{}
		for _, g := range goroutines() {
			if g.waits() || left(g) {
				now[g.id+g.top] = true
			}
		}
		for k := range seen {
			if !now[k] {
				delete(seen, k)
			}
		}
	}
	tops := map[string]gor{}
	for _, g := range seen {
		tops[g.top+" ["+g.state+"]"] = g
	}
	for k, g := range tops {
		t.add(Viol{Prop: "C15", Key: "stuck:" + k, Liveness: true, Msg: "a goroutine waits forever in " + k, Detail: g.text})
	}
	if os.Getenv("HARNESS_GOR") != "" {
		n := map[string]int{}
		for _, g := range goroutines() {
			n[g.top+" ["+g.state+"]"]++
		}
		for k, c := range n {
			t.Count("GOR "+k, c)
		}
	}
}

// ---- engine

// c15Engine uses the engines of a group from many goroutines at once.
func c15Engine(t *T, kinds []string) {
	for k := 0; t.More(k, 12, 400); k++ {
		rng := t.Sub()
		n := 2 + rng.Intn(3)
		thr := 1 + rng.Intn(n-1)
		ec := false
		for _, x := range kinds {
			ec = ec || strings.HasPrefix(x, "ec")
		}
		if ec {
			n, thr = 2+rng.Intn(2), 1
		}
		cfg := fastTimeouts()
		cl := newCluster(t, rng, Opts{N: n, Thr: thr, Ed: true, Ec: ec, Cfg: &cfg})
		name := policyNames[rng.Intn(len(policyNames))]
		stopPolicy := cl.setPolicy(name, rng)
		var works []*Work
		for j := 0; j < 2+rng.Intn(5); j++ {
			works = append(works, c15Work(cl, rng, kinds[rng.Intn(len(kinds))]))
		}
		t.SetCase(fmt.Sprintf("%d nodes, threshold %d, %d works, %s", n, thr, len(works), name))
		stop := make(chan struct{})
		var bg sync.WaitGroup
		bgf := func(f func(r *rand.Rand)) {
			r := rand.New(rand.NewSource(rng.Int63()))
			bg.Add(1)
			go func() {
				defer bg.Done()
				for {
					select {
					case <-stop:
						return
					case <-time.After(time.Duration(r.Intn(3000)) * time.Microsecond):
					}
					f(r)
				}
			}()
		}
		// Queries, messages of all kinds, also repeated ones, and new peers.
		for i := 0; i < n; i++ {
			i := i
			e := cl.engine(i)
			recv := func(from int, data []byte) {
				e.OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: cl.Members[from].Node.PeerId.String(), Data: append([]byte{}, data...)})
			}
			bgf(func(r *rand.Rand) { e.GetActiveWorkerCount() })
			var some []*Send
			bgf(func(r *rand.Rand) {
				// Mostly without a lock of the harness, which would order what the engine does.
				if len(some) == 0 || r.Intn(20) == 0 {
					some = cl.Sends()
				}
				if len(some) > 0 {
					x := some[r.Intn(len(some))]
					recv(x.From, x.Data)
				}
			})
			bgf(func(r *rand.Rand) { recv(r.Intn(n), randBytes(r, r.Intn(100))) })
			bgf(func(r *rand.Rand) { e.AddNodes([]*core.Node{cl.Members[r.Intn(n)].Node}) })
			bgf(func(r *rand.Rand) {
				// Questions of the other nodes.
				from := r.Intn(n)
				w := works[r.Intn(len(works))]
				if from != i {
					m := &common.TssMessage{Type: common.TssMessage_ASK_MESSAGE_REQUEST, From: cl.Members[from].Id, To: cl.Members[i].Id, WorkId: w.Id,
						AskRequestMessage: &common.AskRequestMessage{MsgKey: common.GetMessageKey(w.Id, cl.Members[r.Intn(n)].Id, "", "SignRound1Message")}}
					recv(from, cl.signed(from, m))
				}
			})
		}
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			for g := 0; g < 2; g++ {
				i := i
				r := rand.New(rand.NewSource(rng.Int63()))
				e := cl.engine(i)
				var reqs []*wtypes.WorkRequest
				for _, w := range works {
					reqs = append(reqs, cl.request(w, i))
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					// Two works may be submitted in any order: they run at the same time. More than
					// that would wait for each other.
					order := make([]int, len(works))
					for j := range order {
						order[j] = j
					}
					if len(works) == 2 && r.Intn(2) == 0 {
						order[0], order[1] = 1, 0
					}
					for _, j := range order {
						e.AddRequest(reqs[j])
						time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
					}
				}()
			}
		}
		if !t.Within(120*time.Second, wg.Wait) {
			t.Live("C15", "submit-blocked", "%v: submitting works is blocked for 120 s", t.cur)
			return
		}
		all := cl.all()
		done := 0
		for _, w := range works {
			if cl.Wait(w, all, 60*time.Second) {
				done++
			}
		}
		close(stop)
		if !t.Within(60*time.Second, bg.Wait) {
			t.Live("C15", "call-blocked", "%v: a call of the engine is blocked for 60 s", t.cur)
			return
		}
		t.Count("works", len(works))
		t.Count("works with an outcome on all nodes", done)
		t.Count("messages", len(cl.Sends()))
		t.Eval(len(works))
		t.State(n, thr, len(works), name, kinds)
		// The nodes still work.
		stopPolicy()
		cl.SetPolicy(func(s *Send) []time.Duration { return []time.Duration{0} })
		probe := c15Work(cl, rng, "edsign")
		for _, i := range all {
			cl.Submit(probe, i)
		}
		if !cl.Wait(probe, all, 120*time.Second) {
			t.Live("C15", "no-progress", "%v: afterwards, a further signing has no outcome on some nodes: %v", t.cur, outcomesOf(cl, probe))
		}
		cl.Close()
	}
}

func outcomesOf(cl *Cluster, w *Work) string {
	var s []string
	for i, o := range cl.of(w) {
		s = append(s, fmt.Sprintf("%d: %s", i, outStr(o)))
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

func c15Work(cl *Cluster, rng *rand.Rand, kind string) *Work {
	w := &Work{Kind: kind, Id: uniqueId(rng)}
	if strings.HasSuffix(kind, "sign") {
		w.Msgs = randMsgs(rng, kind, 1+rng.Intn(2))
	}
	cl.request(w, 0) // sets the key type
	return w
}

// c15Churn: the next work is submitted in the moment in which a former one ends, while peers ask and nodes
// are added.
func c15Churn(t *T) {
	for k := 0; t.More(k, 6, 200); k++ {
		rng := t.Sub()
		perturb(1+k%3, rng.Int63())
		n := 2
		cfg := fastTimeouts()
		cl := newCluster(t, rng, Opts{N: n, Thr: 1, Ed: true, Cfg: &cfg})
		total := 24
		var works []*Work
		reqs := make([][]*wtypes.WorkRequest, n)
		num := map[string]int{}
		for j := 0; j < total; j++ {
			w := c15Work(cl, rng, "edsign")
			num[w.Id] = j
			works = append(works, w)
			for i := 0; i < n; i++ {
				reqs[i] = append(reqs[i], cl.request(w, i))
			}
		}
		t.SetCase(fmt.Sprintf("%d nodes, %d signings one after another", n, total))
		delays := make([][]time.Duration, n)
		for i := range delays {
			for j := 0; j < total; j++ {
				delays[i] = append(delays[i], time.Duration(rng.Intn(4000))*time.Microsecond)
			}
		}
		cl.onOut = func(o *Outcome) {
			j := num[o.WorkId] + 2
			if j >= total {
				return
			}
			e, r, d := cl.engine(o.Node), reqs[o.Node][j], delays[o.Node][j]
			go func() {
				time.Sleep(d)
				e.AddRequest(r)
			}()
		}
		stop := make(chan struct{})
		var bg sync.WaitGroup
		for i := 0; i < n; i++ {
			e, r := cl.engine(i), rand.New(rand.NewSource(rng.Int63()))
			i := i
			bg.Add(2)
			go func() {
				defer bg.Done()
				for j := 0; ; j++ {
					select {
					case <-stop:
						return
					default:
					}
					e.AddNodes([]*core.Node{cl.Members[j%n].Node})
					e.GetActiveWorkerCount()
					time.Sleep(300 * time.Microsecond)
				}
			}()
			go func() {
				defer bg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					if ss := cl.Sends(); len(ss) > 0 {
						s := ss[r.Intn(len(ss))]
						if isUpdate(s) && s.Msg.TssMessage.IsBroadcast() && s.From != i {
							ask := askMsg(cl.Members[s.From].Id, cl.Members[i].Id, s.Msg.TssMessage.WorkId, keyOf(s.Msg.TssMessage, s.Round()))
							e.OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: cl.Members[s.From].Id, Data: cl.signed(s.From, ask)})
						}
					}
					time.Sleep(500 * time.Microsecond)
				}
			}()
		}
		for i := 0; i < n; i++ {
			for j := 0; j < 2; j++ {
				e, r := cl.engine(i), reqs[i][j]
				go e.AddRequest(r)
			}
		}
		done := 0
		for _, w := range works {
			if cl.Wait(w, cl.all(), 60*time.Second) {
				done++
			}
		}
		close(stop)
		bg.Wait()
		t.Count("signings one after another", done)
		t.State("churn", done)
		t.Eval(done)
		cl.Close()
	}
}

// c15Early: a node sends and gets listeners while its connection manager is starting.
func c15Early(t *T) {
	for k := 0; t.More(k, 3, 60); k++ {
		rng := t.Sub()
		n := 3
		ports := freePorts(n)
		nodes := make([]*netNode, n)
		var privs []ctypes.PrivKey
		for _, m := range makeMembers(rng, n, false) {
			privs = append(privs, m.Priv)
		}
		stop := make(chan struct{})
		var wg, starts sync.WaitGroup
		sent := int64(0)
		for i := range nodes {
			cm := p2p.NewConnectionManager(p2ptypes.ConnectionsConfig{Host: "127.0.0.1", Port: ports[i], Rendezvous: "rendezvous", Peers: peersOf(privs, ports, i)})
			node := &netNode{t: t, priv: privs[i], port: ports[i], cm: cm}
			nodes[i] = node
			to := core.NewNode(privs[(i+1)%n].PubKey()).PeerId
			wg.Add(2)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					if cm.WriteToStream(to, tssProto, []byte("early")) == nil {
						atomic.AddInt64(&sent, 1)
					}
					time.Sleep(300 * time.Microsecond)
				}
			}()
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					cm.AddListener(tssProto, &netListener{n: node, proto: tssProto})
					cm.AddListener(pingProto, &netListener{n: node, proto: pingProto})
					cm.IsReady()
					time.Sleep(time.Millisecond)
				}
			}()
			starts.Add(1)
			i := i
			go func() {
				defer starts.Done()
				if err := cm.Start(privs[i].Bytes(), privs[i].Type()); err != nil {
					t.Count("starts that fail", 1)
				}
			}()
		}
		t.SetCase("three connection managers are used while they start")
		if !t.Within(120*time.Second, starts.Wait) {
			t.Live("C15", "start-blocked", "%v: starting takes more than 120 s", t.cur)
		}
		time.Sleep(300 * time.Millisecond)
		close(stop)
		wg.Wait()
		got := 0
		for _, x := range nodes {
			got += len(x.received())
		}
		t.Count("payloads sent while starting", int(sent))
		t.Count("payloads received", got)
		t.State("early", got > 0)
		t.Eval(1)
	}
}

// c15Late: a client is used while it is connecting.
func c15Late(t *T) {
	c24Late(t)
}

func c15Presigns(t *T) {
	for k := 0; t.More(k, 4, 100); k++ {
		t.deliveredSuffices(Scenario{N: 3, Thr: 1, Kinds: []string{"ecsign"}, Batch: 2, Presigns: true, Policy: policyNames[t.Rng.Intn(len(policyNames))]})
	}
}

func c15Api(t *T) {
	c16Echo(t, "eddsa")
}
