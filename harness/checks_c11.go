package main

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	"github.com/sisu-network/tss-lib/tss"

	"github.com/sisu-network/dheart/core/components"
	"github.com/sisu-network/dheart/db"
	"github.com/sisu-network/dheart/types/common"
)

// C11: hand-outs of the presign manager are recorded while requests run concurrently, the database fails
// and the node restarts; and the presign behind every partial signature that a node of a group sends is
// found from its value, while leaders repeat themselves, nodes restart and databases fail.

func init() {
	register(&Check{
		ID:   "C11",
		Rule: "a case is distinct by the interleaving of hand-outs, additions, failures and restarts, or by the announcement that names presigns and the state they are in",
		Assumptions: []string{"a restart is a new manager (a new engine) on the same database; what an abandoned one does afterwards does not count, as the process is dead then",
			"a presign is used by a node when it sends a partial signature whose value fits that presign and the message"},
		Units: func(tier string, seed int64) []Unit {
			us := []Unit{{Name: "update", Run: c11Update}}
			us = append(us, Unit{Name: "last", Run: c11Last})
			for i := 0; i < 2; i++ {
				us = append(us, Unit{Name: fmt.Sprintf("manager-%d", i), Run: c11Manager})
			}
			for i := 0; i < 4; i++ {
				us = append(us, Unit{Name: fmt.Sprintf("group-%d", i), Run: c11Group})
			}
			return us
		},
	})
}

// c11Db is a database whose updates of the presign status fail or are slow now and then.
type c11Db struct {
	db.Database
	rng     *lockedRand
	failP   int32 // percent of updates that fail
	slow    int32 // microseconds
	dead    int32 // the process is dead
	updates int32
	failed  int32
}

var errDb = errors.New("the connection to the database is lost")

func (d *c11Db) UpdatePresignStatus(ids []string) error {
	atomic.AddInt32(&d.updates, 1)
	if s := atomic.LoadInt32(&d.slow); s > 0 {
		time.Sleep(time.Duration(d.rng.Intn(int(s))) * time.Microsecond)
	}
	if atomic.LoadInt32(&d.dead) == 1 {
		return errDb
	}
	if d.rng.Intn(100) < int(atomic.LoadInt32(&d.failP)) {
		atomic.AddInt32(&d.failed, 1)
		if d.rng.Intn(3) == 0 {
			// It is committed, but the answer is lost.
			d.Database.UpdatePresignStatus(ids)
		}
		return errDb
	}
	return d.Database.UpdatePresignStatus(ids)
}

func statuses(d db.Database, ids []string) map[string]string {
	res := map[string]string{}
	for _, id := range ids {
		st, err := d.LoadPresignStatus([]string{id})
		if err == nil && len(st) == 1 {
			res[id] = st[0]
		}
	}
	return res
}

// dummyPresigns need no content.
func dummyPresigns(n int) []*ecsigning.SignatureData_OneRoundData {
	res := make([]*ecsigning.SignatureData_OneRoundData, n)
	for i := range res {
		res[i] = &ecsigning.SignatureData_OneRoundData{PartyId: "x"}
	}
	return res
}

// c11Update: of concurrent updates of overlapping presigns, each presign is in at most one that succeeds,
// and an update that fails changes nothing.
func c11Update(t *T) {
	for k := 0; t.More(k, 40, 2000); k++ {
		rng := t.Sub()
		d := newDb()
		ms := makeMembers(rng, 2, false)
		n := 2 + rng.Intn(6)
		t.need("SavePresignData", d.SavePresignData("w", pidsOf(ms), dummyPresigns(n)))
		var ids []string
		for i := 0; i < n; i++ {
			ids = append(ids, fmt.Sprintf("w-%d", i))
		}
		var mu sync.Mutex
		won := map[string]int{}
		var wg sync.WaitGroup
		c := 2 + rng.Intn(6)
		t.SetCase(fmt.Sprintf("%d concurrent updates of %d presigns", c, n))
		for i := 0; i < c; i++ {
			var set []string
			for _, x := range rng.Perm(n)[:1+rng.Intn(n)] {
				set = append(set, ids[x])
			}
			switch rng.Intn(8) {
			case 0:
				set = append(set, "no-such-presign")
			case 1:
				set = append(set, set[0])
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				err := d.UpdatePresignStatus(set)
				mu.Lock()
				defer mu.Unlock()
				if err == nil {
					for _, id := range set {
						won[id]++
						if won[id] > 1 {
							t.Viol("C11", "marked-twice", "two updates that include the presign %s succeed (%v)", id, set)
						}
					}
				}
				t.Count("concurrent updates", 1)
				t.Count("updates that succeed", btoi(err == nil))
			}()
		}
		wg.Wait()
		st := statuses(d, ids)
		for _, id := range ids {
			want := db.PresignStatusNotUsed
			if won[id] > 0 {
				want = db.PresignStatusUsed
			}
			if st[id] != want {
				t.Viol("C11", "status", "the presign %s is %q after %d successful updates", id, st[id], won[id])
			}
		}
		t.State("update", n, c, len(won))
		t.Eval(1)
		d.Close()
	}
}

// c11Manager: concurrent hand-outs, additions, failing updates and restarts.
func c11Manager(t *T) {
	for k := 0; t.More(k, 40, 2000); k++ {
		rng := t.Sub()
		raw := newDb()
		n := 3 + rng.Intn(3)
		ms := makeMembers(rng, n, false)
		pids := pidsOf(ms)
		sets := make([][]*tss.PartyID, 1+rng.Intn(4))
		for i := range sets {
			for _, x := range sortedInts(rng.Perm(n)[:2+rng.Intn(n-1)]) {
				sets[i] = append(sets[i], pids[x])
			}
		}
		var mu sync.Mutex
		setOf := map[string]string{} // presign id -> its parties
		add := func(m components.AvailablePresigns, i int) {
			mu.Lock()
			work := fmt.Sprintf("work%d-%d", len(setOf), rng.Intn(1000))
			s := sets[rng.Intn(len(sets))]
			c := 1 + rng.Intn(6)
			for j := 0; j < c; j++ {
				setOf[fmt.Sprintf("%s-%d", work, j)] = pidNames(s)
			}
			mu.Unlock()
			m.AddPresign(work, s, dummyPresigns(c))
			t.Count("presigns added", c)
		}
		handed := map[string]string{}
		failP := []int32{0, 0, 15, 40}[rng.Intn(4)]
		slow := []int32{0, 300, 2000}[rng.Intn(3)]
		lives := 1 + rng.Intn(3)
		workers := 2 + rng.Intn(7)
		t.SetCase(fmt.Sprintf("%d parties, %d sets, %d clients, %d lives, %d%% of the updates fail", n, len(sets), workers, lives, failP))
		var order uint64
		for life := 0; life < lives; life++ {
			life := life
			d := &c11Db{Database: raw, rng: newLocked(rand.New(rand.NewSource(rng.Int63()))), failP: failP, slow: slow}
			m := components.NewAvailPresignManager(d)
			if err := m.Load(); err != nil {
				t.Viol("C11", "load", "cannot load the available presigns: %v", err)
				break
			}
			add(m, life)
			var wg sync.WaitGroup
			var dead int32
			seeds := make([]int64, workers)
			for i := range seeds {
				seeds[i] = rng.Int63()
			}
			for i := 0; i < workers; i++ {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					r := rand.New(rand.NewSource(seeds[i]))
					for j := 0; j < 8; j++ {
						if atomic.LoadInt32(&dead) == 1 {
							return
						}
						if r.Intn(6) == 0 {
							mu.Lock()
							rng := r
							work := fmt.Sprintf("w%d-%d-%d", life, i, j)
							s := sets[rng.Intn(len(sets))]
							c := 1 + rng.Intn(4)
							for x := 0; x < c; x++ {
								setOf[fmt.Sprintf("%s-%d", work, x)] = pidNames(s)
							}
							mu.Unlock()
							m.AddPresign(work, s, dummyPresigns(c))
							t.Count("presigns added", c)
							continue
						}
						avail := map[string]*tss.PartyID{}
						for _, x := range r.Perm(n)[:2+r.Intn(n-1)] {
							avail[pids[x].Id] = pids[x]
						}
						batch := 1 + r.Intn(3)
						ids, ps := m.GetAvailablePresigns(batch, n, avail)
						var st map[string]string
						if len(ids) > 0 && atomic.LoadInt32(&dead) == 0 {
							st = statuses(raw, ids)
						}
						mu.Lock()
						if atomic.LoadInt32(&dead) == 1 {
							mu.Unlock()
							return
						}
						t.Count("requests for presigns", 1)
						who := fmt.Sprintf("life %d client %d request %d", life, i, j)
						order = hash64(order, i, len(ids))
						c11Check(t, setOf, handed, who, batch, ids, ps, avail, st)
						mu.Unlock()
						if r.Intn(3) == 0 {
							time.Sleep(time.Duration(r.Intn(400)) * time.Microsecond)
						}
					}
				}()
			}
			if life < lives-1 {
				// The process dies in the middle.
				time.Sleep(time.Duration(rng.Intn(6000)) * time.Microsecond)
				mu.Lock()
				atomic.StoreInt32(&dead, 1)
				atomic.StoreInt32(&d.dead, 1)
				mu.Unlock()
				t.Count("restarts", 1)
			}
			wg.Wait()
			t.Count("updates that failed", int(atomic.LoadInt32(&d.failed)))
		}
		// Another life hands out what is left, one by one.
		m := components.NewAvailPresignManager(raw)
		t.need("Load", m.Load())
		all := map[string]*tss.PartyID{}
		for _, p := range pids {
			all[p.Id] = p
		}
		for {
			ids, ps := m.GetAvailablePresigns(1, n, all)
			if len(ids) == 0 {
				break
			}
			c11Check(t, setOf, handed, "the last life", 1, ids, ps, all, statuses(raw, ids))
		}
		t.Count("presigns handed out", len(handed))
		t.State("manager", order)
		t.Eval(1)
		t.Sample(t.cur)
		raw.Close()
	}
}

// c11Last: many ask at the same moment for the last presigns of a set, in batches that do not fit.
func c11Last(t *T) {
	rng := t.Sub()
	ms := makeMembers(rng, 4, false)
	pids := pidsOf(ms)
	all := map[string]*tss.PartyID{}
	for _, p := range pids {
		all[p.Id] = p
	}
	d := &c11Quick{st: map[string]string{}}
	for k := 0; t.More(k, 20000, 400000); k++ {
		m := components.NewAvailPresignManager(d)
		setOf, handed := map[string]string{}, map[string]string{}
		batch := 2 + rng.Intn(3)
		left := batch + rng.Intn(2*batch)
		clients := 3 + rng.Intn(6)
		work := fmt.Sprintf("last%d", k)
		for j := 0; j < left; j++ {
			setOf[fmt.Sprintf("%s-%d", work, j)] = pidNames(pids[:3])
		}
		m.AddPresign(work, pids[:3], dummyPresigns(left))
		t.SetCase(fmt.Sprintf("%d clients ask for %d of the last %d presigns at the same moment", clients, batch, left))
		start := make(chan struct{})
		ids, ps := make([][]string, clients), make([][]*tss.PartyID, clients)
		var wg sync.WaitGroup
		for i := 0; i < clients; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						t.Viol("C11", "panic", "%v: the request panics: %v", t.cur, x)
					}
				}()
				<-start
				ids[i], ps[i] = m.GetAvailablePresigns(batch, 4, all)
			}()
		}
		close(start)
		if !t.Within(30*time.Second, wg.Wait) {
			t.Live("C11", "request-stuck", "%v: a request has not ended after 30 s", t.cur)
			return
		}
		var pattern uint64
		for i := range ids {
			c11Check(t, setOf, handed, fmt.Sprintf("client %d", i), batch, ids[i], ps[i], all, d.statuses(ids[i]))
			if len(ids[i]) > 0 {
				pattern |= 1 << uint(i)
			}
		}
		t.Count("requests for presigns", clients)
		t.Count("presigns handed out", len(handed))
		t.State("last", clients, batch, left, pattern)
		t.Eval(1)
		if t.NumViol() > 3 {
			return
		}
	}
}

// c11Quick is a database in memory.
type c11Quick struct {
	db.Database
	mu sync.Mutex
	st map[string]string
}

func (d *c11Quick) SavePresignData(workId string, pids []*tss.PartyID, out []*ecsigning.SignatureData_OneRoundData) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	for i := range out {
		d.st[fmt.Sprintf("%s-%d", workId, i)] = "not_used"
	}
	return nil
}

func (d *c11Quick) UpdatePresignStatus(ids []string) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, id := range ids {
		if d.st[id] != "not_used" {
			return errDb
		}
	}
	for _, id := range ids {
		d.st[id] = "used"
	}
	return nil
}

func (d *c11Quick) statuses(ids []string) map[string]string {
	d.mu.Lock()
	defer d.mu.Unlock()
	res := map[string]string{}
	for _, id := range ids {
		if d.st[id] != "" {
			res[id] = d.st[id]
		}
	}
	return res
}

func pidNames(s []*tss.PartyID) string {
	var ids []string
	for _, p := range s {
		if p == nil {
			ids = append(ids, "nil")
			continue
		}
		ids = append(ids, p.Id)
	}
	sort.Strings(ids)
	return strings.Join(ids, ",")
}

// c11Check judges one hand-out.
func c11Check(t *T, setOf, handed map[string]string, who string, batch int, ids []string, ps []*tss.PartyID, avail map[string]*tss.PartyID, st map[string]string) {
	if len(ids) == 0 {
		if len(ps) > 0 {
			t.Viol("C11", "parties-without-presigns", "%v: %s gets no presigns, but the parties %v", t.cur, who, ps)
		}
		return
	}
	if len(ids) != batch {
		t.Viol("C11", "count", "%v: %s asks for %d presigns and gets %v", t.cur, who, batch, ids)
	}
	set := pidNames(ps)
	for _, p := range ps {
		if p == nil || avail[p.Id] == nil {
			t.Viol("C11", "unavailable-party", "%v: %s gets presigns of a party that is not available: %s", t.cur, who, set)
		}
	}
	seen := map[string]bool{}
	for _, id := range ids {
		if seen[id] {
			t.Viol("C11", "repeated", "%v: %s gets %s twice at once", t.cur, who, id)
		}
		seen[id] = true
		if old, ok := handed[id]; ok {
			t.Viol("C11", "handed-out-twice", "%v: %s is handed out to %s and to %s", t.cur, id, old, who)
		}
		handed[id] = who
		if x, ok := setOf[id]; !ok || x != set {
			t.Viol("C11", "other-parties", "%v: %s gets %s of the parties %s as one of the parties %s", t.cur, who, id, x, set)
		}
		if st != nil && st[id] != db.PresignStatusUsed {
			t.Viol("C11", "not-marked", "%v: %s gets %s, which is %q in the database", t.cur, who, id, st[id])
		}
	}
}

// presignBook knows the presigns of all nodes and finds them in partial signatures.
type presignBook struct {
	mu   sync.Mutex
	data []map[string]*ecsigning.SignatureData_OneRoundData // by node: id -> presign
	used []map[string]string                                // by node: id -> where
	msgs map[string][][]byte                                // by work
}

func (b *presignBook) watch(cl *Cluster, s *Send, raw []db.Database) {
	t := cl.t
	if !isUpdate(s) || short(s.Round()) != "SignRound7Message" || s.Msg.TssMessage.From != cl.Members[s.From].Id {
		return
	}
	w := s.Msg.TssMessage.WorkId
	pid := tss.NewPartyID("x", "", big.NewInt(1))
	pid.Index = 0
	n := tss.EC(tss.EcdsaScheme).Params().N
	b.mu.Lock()
	defer b.mu.Unlock()
	for j, u := range s.Msg.TssMessage.UpdateMessages {
		pm, err := tss.ParseWireMessage(u.Data, pid, true)
		if err != nil {
			continue
		}
		c, ok := pm.Content().(*ecsigning.SignRound7Message)
		if !ok || len(c.GetSI()) == 0 || j >= len(b.msgs[w]) {
			continue
		}
		si := new(big.Int).SetBytes(c.GetSI())
		m := new(big.Int).SetBytes(b.msgs[w][j][:min(32, len(b.msgs[w][j]))])
		t.Count("partial signatures observed", 1)
		for id, p := range b.data[s.From] {
			x := new(big.Int).Mul(m, new(big.Int).SetBytes(p.KI))
			x.Add(x, new(big.Int).SetBytes(p.RSigmaI)).Mod(x, n)
			if x.Cmp(si) != 0 {
				continue
			}
			where := fmt.Sprintf("message %d of %s", j, w)
			t.Count("partial signatures with a stored presign", 1)
			if old := b.used[s.From][id]; old != "" && old != where {
				t.Viol("C11", "used-twice", "%v: node %d signs %s and %s with the presign %s", t.cur, s.From, old, where, id)
			}
			b.used[s.From][id] = where
			if st := statuses(raw[s.From], []string{id})[id]; st != db.PresignStatusUsed {
				t.Viol("C11", "used-before-marked", "%v: node %d signs %s with the presign %s, which is %q in its database", t.cur, s.From, where, id, st)
			}
		}
	}
}

// c11Group: a life of a group with presigns.
func c11Group(t *T) {
	for k := 0; t.More(k, 6, 200); k++ {
		rng := t.Sub()
		n := 3
		thr := 1
		cfg := fastTimeouts()
		cfg.SelectionLeaderTimeout, cfg.SelectionMemberTimeout = 500*time.Millisecond, time.Second
		cfg.SigningJobTimeout = 3 * time.Second
		cfg.MonitorMessageTimeout = time.Hour
		b := &presignBook{msgs: map[string][][]byte{}}
		raw := make([]db.Database, n)
		dbs := make([]*c11Db, n)
		sets := map[string][]int{}
		var ids []string
		cl := newCluster(t, rng, Opts{N: n, Thr: thr, Ec: true, Cfg: &cfg, Before: func(cl *Cluster) {
			for i := 0; i < n; i++ {
				raw[i] = newDb()
				dbs[i] = &c11Db{Database: raw[i], rng: newLocked(rand.New(rand.NewSource(rng.Int63())))}
				cl.Nodes[i].Db = dbs[i]
				b.data = append(b.data, map[string]*ecsigning.SignatureData_OneRoundData{})
				b.used = append(b.used, map[string]string{})
			}
			secret := cl.EcSecret
			for x := 0; x < 2+rng.Intn(3); x++ {
				c := sortedInts(rng.Perm(n)[:thr+1])
				work := fmt.Sprintf("pre%d", x)
				cnt := 1 + rng.Intn(3)
				data := make([][]*ecsigning.SignatureData_OneRoundData, len(c))
				for j := 0; j < cnt; j++ {
					p := forgePresign(rng, cl.Members, c, secret, randNonce(rng))
					id := fmt.Sprintf("%s-%d", work, j)
					sets[id] = c
					ids = append(ids, id)
					for y, node := range c {
						data[y] = append(data[y], p[y])
						b.data[node][id] = p[y]
					}
				}
				cl.givePresigns(work, c, data)
			}
		}})
		cl.SetPolicy(func(s *Send) []time.Duration {
			b.watch(cl, s, raw)
			return []time.Duration{time.Duration(rand.Intn(3)) * time.Millisecond}
		})
		steps := t.Pick(8, 14)
		var history []string
		for step := 0; step < steps; step++ {
			what := rng.Intn(10)
			for i := range dbs {
				p := int32(0)
				if rng.Intn(5) == 0 {
					p = 50
				}
				atomic.StoreInt32(&dbs[i].failP, p)
			}
			newWork := func(leader int, batch int) *Work {
				w := &Work{Id: cl.idWithLeader(rng, leader), Kind: "ecsign", Msgs: randMsgs(rng, "ecsign", batch)}
				b.mu.Lock()
				b.msgs[w.Id] = w.Msgs
				b.mu.Unlock()
				return w
			}
			switch {
			case what < 4:
				// Honest works, maybe at the same time.
				var ws []*Work
				for x := 0; x < 1+rng.Intn(2); x++ {
					ws = append(ws, newWork(rng.Intn(n), 1+rng.Intn(2)))
				}
				history = append(history, fmt.Sprintf("%d works", len(ws)))
				t.SetCase(strings.Join(history, "; "))
				cl.submitAll(ws, rng, 10*time.Millisecond, false)
				for _, w := range ws {
					cl.Wait(w, cl.all(), 20*time.Second)
					succ, _, _ := cl.tally(w)
					t.Count("honest works", 1)
					t.Count("honest works that succeed", btoi(len(succ) == thr+1))
					cl.checkSignatures(w)
				}
			case what < 6:
				x := rng.Intn(n)
				history = append(history, fmt.Sprintf("node %d restarts", x))
				t.SetCase(strings.Join(history, "; "))
				cl.Down(x)
				cl.Up(x, cfg)
				t.Count("restarts", 1)
			default:
				// A leader names presigns itself, and takes part in the signing or not.
				leader := rng.Intn(n)
				victim := (leader + 1 + rng.Intn(n-1)) % n
				batch := 1 + rng.Intn(2)
				w := newWork(leader, batch)
				var names []string
				for id, c := range sets {
					if c[0] == victim || c[1] == victim {
						names = append(names, id)
					}
				}
				sort.Strings(names)
				rng.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
				var named []string
				for x := 0; x < batch && x < len(names); x++ {
					named = append(named, names[x])
				}
				switch rng.Intn(6) {
				case 0:
					if batch == 2 && len(named) > 0 {
						named = []string{named[0], named[0]}
					}
				case 1:
					named = append(named, named...)
				case 2:
					// The same presigns in two works at once.
					w2 := newWork(leader, batch)
					c11Announce(cl, leader, victim, w2, named)
					cl.mustSubmit(w2, victim)
				}
				history = append(history, fmt.Sprintf("leader %d names %v to node %d for %d messages", leader, named, victim, batch))
				t.SetCase(strings.Join(history, "; "))
				cl.Down(leader)
				if rng.Intn(2) == 0 {
					c11Announce(cl, leader, victim, w, named)
					cl.mustSubmit(w, victim)
				} else {
					cl.mustSubmit(w, victim)
					time.Sleep(time.Duration(rng.Intn(8)) * time.Millisecond)
					c11Announce(cl, leader, victim, w, named)
				}
				c11Announce(cl, leader, victim, w, named)
				t.Count("presigns named by a leader", len(named))
				t.State("named", batch, len(named), len(names))
				t.WaitFor(60*time.Millisecond, func() bool { return len(cl.of(w)[victim]) > 0 })
				cl.Up(leader, cfg)
			}
		}
		cl.Quiesce(30*time.Millisecond, 500*time.Millisecond)
		for i := range b.used {
			t.Count("presigns used", len(b.used[i]))
		}
		t.State("group", strings.Join(history, ";"))
		t.Eval(1)
		t.Sample(t.cur)
		cl.Close()
	}
}

func c11Announce(cl *Cluster, leader, to int, w *Work, presigns []string) {
	pids := []*tss.PartyID{cl.Members[leader].Pid, cl.Members[to].Pid}
	msg := common.NewPreExecOutputMessage(cl.Members[leader].Id, "", w.Id, true, presigns, pids)
	cl.deliver(cl.Members[leader].Id, to, cl.signed(leader, msg), nil)
}
