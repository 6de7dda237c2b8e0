package main

import (
	"fmt"
	"math/big"
	"sync"
	"time"

	"github.com/sisu-network/dheart/core/cache"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"
)

func init() {
	register(&Check{
		ID:   "C05",
		Rule: "a case is distinct by work kinds, delivery policy and the order in which messages were delivered (hash over sender, receiver, type and round of every delivery); for the cache by the fill of the senders",
		Assumptions: []string{"delays stay far below the timeouts of the nodes (selection 30 s and 60 s, job 100 s)",
			"nodes that queue more than two works submit them in the same order"},
		Units: c05Units,
	})
}

func c05Units(tier string, seed int64) []Unit {
	var us []Unit
	for i := 0; i < 4; i++ {
		i := i
		us = append(us, Unit{Name: fmt.Sprintf("ed-%d", i), Run: func(t *T) {
			for k := 0; t.More(k, 8, 300); k++ {
				n := 2 + t.Rng.Intn(4)
				if k%7 == 6 {
					n = 6 + t.Rng.Intn(t.Pick(2, 8))
				}
				kinds := [][]string{{"edsign"}, {"edgen"}, {"edsign", "edsign"}, {"edsign", "edgen"}, {"edsign", "edsign", "edsign", "edgen"}}[t.Rng.Intn(5)]
				batch := 1 + t.Rng.Intn(4)
				if k == 3 {
					n, kinds, batch = 2+t.Rng.Intn(2), []string{"edsign"}, 17+t.Rng.Intn(20)
				}
				t.deliveredSuffices(Scenario{N: n, Kinds: kinds, Batch: batch,
					Policy: policyNames[(k+i*3)%len(policyNames)], MaxStart: time.Duration(t.Rng.Intn(2)) * 500 * time.Millisecond, Order: t.Rng.Intn(2) == 0 && len(kinds) <= 2})
			}
		}})
	}
	for i := 0; i < 3; i++ {
		i := i
		us = append(us, Unit{Name: fmt.Sprintf("ec-%d", i), Run: func(t *T) {
			for k := 0; t.More(k, 5, 200); k++ {
				sc := []Scenario{
					{N: 2 + t.Rng.Intn(3), Kinds: []string{"ecsign"}, Batch: 1 + t.Rng.Intn(3)},
					{N: 2 + t.Rng.Intn(t.Pick(2, 3)), Kinds: []string{"ecgen"}},
					{N: 3, Thr: 1, Kinds: []string{"ecsign"}, Batch: 2, Presigns: true},
					{N: 2 + t.Rng.Intn(2), Kinds: []string{"ecsign", "edsign"}, Batch: 1},
					{N: 3, Kinds: []string{"ecsign", "ecsign"}, Batch: 1},
				}[(k+i)%5]
				sc.Policy = policyNames[(k+i*5)%len(policyNames)]
				sc.MaxStart = time.Duration(t.Rng.Intn(2)) * 500 * time.Millisecond
				t.deliveredSuffices(sc)
			}
		}})
	}
	for i := 0; i < 2; i++ {
		i := i
		us = append(us, Unit{Name: fmt.Sprintf("late-sends-%d", i), Run: func(t *T) {
			for k := 0; t.More(k, 8, 100); k++ {
				kind := []string{"ecgen", "edgen", "ecsign", "edsign"}[(k/2)%4]
				t.deliveredSuffices(Scenario{N: 2 + k%2, Thr: 1, Kinds: []string{kind}, Batch: 1 + t.Rng.Intn(2), Policy: fmt.Sprintf("blocked-%d", (k+2*i+2)%4), Presigns: k%8 == 4})
			}
		}})
	}
	for i := 0; i < 2; i++ {
		i := i
		us = append(us, Unit{Name: fmt.Sprintf("late-ecgen-%d", i), Run: func(t *T) {
			for k := 0; t.More(k, 5, 60); k++ {
				t.deliveredSuffices(Scenario{N: 2 + k%2, Thr: 1, Kinds: []string{"ecgen"}, Batch: 1, Policy: fmt.Sprintf("blocked-%d", 1+(k/2+i)%2)})
			}
		}})
	}
	us = append(us, Unit{Name: "announced", Run: c05Announced}, Unit{Name: "flood", Run: c05Flood}, Unit{Name: "cache", Run: c05Cache}, Unit{Name: "findings", Run: c05Findings})
	return us
}

func (t *T) deliveredSuffices(sc Scenario) {
	rng := t.Sub()
	cl, works := t.run(rng, sc)
	defer cl.Close()
	for _, w := range works {
		cl.checkAllSucceed("C05", w, w.Kind+":not-all-succeed")
	}
	cl.monitors(works)
	t.Eval(len(works))
	t.Debug("%s", sc)
	t.State(fmt.Sprint(sc.Kinds), sc.Policy, cl.Order())
	t.Count("messages delivered", int(cl.deliv))
	t.Count("policy "+sc.Policy, 1)
	t.Sample(sc.String())
}

// c05Announced: the announcement of the leader arrives at the moment when a node starts the work. It counts.
func c05Announced(t *T) {
	rng := t.Sub()
	cfg := fastTimeouts()
	cfg.SelectionMemberTimeout = 5 * time.Second
	cl := newCluster(t, rng, Opts{N: 3, Thr: 1, Ed: true, Cfg: &cfg, NoEngine: map[int]bool{1: true, 2: true}})
	defer cl.Close()
	for k := 0; t.More(k, 3000, 60000); k++ {
		w := &Work{Id: cl.idWithLeader(rng, 1), Kind: "edsign", Msgs: [][]byte{{1, 2, 3}}}
		data := cl.signed(1, common.NewPreExecOutputMessage(cl.Members[1].Id, "", w.Id, true, nil, pidsOf(cl.Members[1:])))
		wait := time.Duration(rng.Intn(300)) * time.Microsecond
		t.SetCase(fmt.Sprintf("the announcement of the leader arrives %v before the node starts", wait))
		done := make(chan struct{})
		go func() {
			defer close(done)
			cl.deliver(cl.Members[1].Id, 0, data, nil)
		}()
		for end := time.Now().Add(wait); time.Now().Before(end); {
		}
		cl.mustSubmit(w, 0)
		<-done
		cl.Wait(w, []int{0}, 10*time.Second)
		if _, fail, notSel := cl.tally(w); len(notSel) != 1 || len(fail) > 0 {
			t.Live("C05", "announcement-lost", "%v: the node is not told that it is not selected, failures: %v", t.cur, fail)
			if t.NumViol() > 1 {
				return
			}
		}
		t.Eval(1)
		t.Count("announcements at the start", 1)
	}
	t.State("announced")
}

// junk is a well-signed message of a work that does not exist.
func (cl *Cluster) junk(from int, work string) []byte {
	return cl.signed(from, &common.TssMessage{Type: common.TssMessage_AVAILABILITY_REQUEST, From: cl.Members[from].Id, WorkId: work})
}

// c05Flood: nodes start late, and until then receive many messages of other works.
func c05Flood(t *T) {
	for k := 0; t.More(k, 10, 200); k++ {
		rng := t.Sub()
		kind := []string{"edsign", "edgen"}[k%2]
		n := 3 + rng.Intn(2)
		cl := newCluster(t, rng, Opts{N: n, Thr: n - 1, Ed: kind == "edsign", KeepData: true})
		w := &Work{Id: uniqueId(rng), Kind: kind}
		if kind == "edsign" {
			w.Msgs = randMsgs(rng, kind, 2)
		}
		cl.request(w, 0)
		late := rng.Intn(n)
		mode := []string{"other-sender", "before", "after", "split"}[(k/2)%4]
		t.SetCase(fmt.Sprintf("%s n=%d: node %d starts late, flood %s", kind, n, late, mode))
		peers := othersOf(cl.all(), late)
		send := func(from, count int, base string) {
			for j := 0; j < count; j++ {
				cl.deliver(cl.Members[from].Id, late, cl.junk(from, fmt.Sprintf("%s%d", base, j)), nil)
			}
		}
		if mode == "before" || mode == "split" {
			for _, p := range peers {
				send(p, 150, "x")
			}
		}
		for _, i := range peers {
			cl.mustSubmit(w, i)
		}
		cl.Quiesce(300*time.Millisecond, 3*time.Second)
		// The number of messages that wait for the late node.
		waiting := map[int]int{}
		for _, s := range cl.Sends() {
			if s.To == late {
				waiting[s.From]++
			}
		}
		switch mode {
		case "other-sender":
			// One sender floods. It must not displace messages of the others; its own ones wait at the end.
			f := peers[0]
			send(f, 64-waiting[f], "y")
		case "after", "split":
			for _, p := range peers {
				send(p, 64-waiting[p], "y")
			}
		}
		cl.mustSubmit(w, late)
		cl.Wait(w, cl.all(), 20*time.Second)
		cl.Quiesce(30*time.Millisecond, time.Second)
		cl.checkAllSucceed("C05", w, "flood:not-all-succeed")
		cl.monitors([]*Work{w})
		t.Eval(1)
		t.Count("late starts under flood", 1)
		t.State("flood", kind, n, late, mode, fmt.Sprint(waiting))
		cl.Close()
	}
	// A member that takes no part in the work floods: 200 messages, more than the room of a sender.
	for k := 0; t.More(k, 4, 60); k++ {
		rng := t.Sub()
		cl := newCluster(t, rng, Opts{N: 4, Thr: 2, Ed: true})
		flooder, late := 0, 1
		w := &Work{Kind: "edsign", Msgs: randMsgs(rng, "edsign", 1)}
		for w.Id = uniqueId(rng); cl.leader(w.Id) == flooder; {
			w.Id = uniqueId(rng)
		}
		ids := []string{w.Id, "other"}[k%2]
		t.SetCase(fmt.Sprintf("node %d floods with 200 messages of work %q", flooder, ids))
		for i := 2; i < 4; i++ {
			cl.mustSubmit(w, i)
		}
		cl.Quiesce(100*time.Millisecond, 2*time.Second)
		for j := 0; j < 200; j++ {
			cl.deliver(cl.Members[flooder].Id, late, cl.junk(flooder, ids), nil)
		}
		cl.mustSubmit(w, late)
		cl.Wait(w, []int{1, 2, 3}, 20*time.Second)
		succ, fail, _ := cl.tally(w)
		if len(succ) != 3 {
			t.add(Viol{Prop: "C05", Key: "flood:other-sender", Liveness: true, Detail: cl.workDetail(w),
				Msg: fmt.Sprintf("%v: success on %v, failure on %v", t.cur, succ, fail)})
		}
		t.Eval(1)
		t.Count("floods by a stranger to the work", 1)
		cl.Close()
	}
}

// c05Cache compares the cache of early messages with a reference model.
func c05Cache(t *T) {
	for k := 0; k < t.Pick(300, 20000); k++ {
		rng := t.Sub()
		c := cache.NewMessageCache()
		type entry struct {
			msg *common.TssMessage
		}
		model := map[string][]entry{}
		senders, works := 1+rng.Intn(4), 1+rng.Intn(4)
		next := 0
		for op := 0; op < 400; op++ {
			if rng.Intn(40) != 0 {
				m := &common.TssMessage{From: fmt.Sprint("s", rng.Intn(senders)), WorkId: fmt.Sprint("w", rng.Intn(works)),
					Type: []common.TssMessage_Type{common.TssMessage_UPDATE_MESSAGES, common.TssMessage_AVAILABILITY_REQUEST, common.TssMessage_PRE_EXEC_OUTPUT}[rng.Intn(3)],
					To:   fmt.Sprint(next)}
				next++
				c.AddMessage(m)
				l := append(model[m.From], entry{m})
				if len(l) > 64 {
					l = l[len(l)-64:]
				}
				model[m.From] = l
				continue
			}
			w := fmt.Sprint("w", rng.Intn(works))
			var filter map[common.TssMessage_Type]bool
			if rng.Intn(3) == 0 {
				filter = map[common.TssMessage_Type]bool{common.TssMessage_UPDATE_MESSAGES: true}
			}
			peek := filter == nil && rng.Intn(3) == 0
			var got []*common.TssMessage
			if peek {
				got = c.GetAllMessages(w)
			} else {
				got = c.PopAllMessages(w, filter)
			}
			want := map[string]bool{}
			for s, l := range model {
				var keep []entry
				for _, e := range l {
					if e.msg.WorkId == w && (filter == nil || filter[e.msg.Type]) {
						want[e.msg.To] = true
						if peek {
							keep = append(keep, e)
						}
					} else {
						keep = append(keep, e)
					}
				}
				model[s] = keep
			}
			seen := map[string]bool{}
			lastOf := map[string]int{}
			for _, m := range got {
				if seen[m.To] {
					t.Viol("C05", "cache:twice", "a message is handed over twice")
				}
				seen[m.To] = true
				if m.WorkId != w {
					t.Viol("C05", "cache:other-work", "a message of work %s is handed over to %s", m.WorkId, w)
				}
				if !want[m.To] {
					t.Viol("C05", "cache:unexpected", "message %s of %s is handed over, but it should have been displaced or handed over before", m.To, m.From)
				}
				var id int
				fmt.Sscan(m.To, &id)
				if id < lastOf[m.From] {
					t.Count("messages handed over out of order", 1)
				}
				lastOf[m.From] = id
			}
			for x := range want {
				if !seen[x] {
					t.Viol("C05", "cache:lost", "message %s for work %s is lost (%d senders, %d works)", x, w, senders, works)
				}
			}
			t.Count("cache queries compared", 1)
			fill := []int{}
			for i := 0; i < senders; i++ {
				fill = append(fill, len(model[fmt.Sprint("s", i)])/8)
			}
			t.State("cache", fmt.Sprint(fill), works, peek, filter != nil)
		}
		t.Eval(1)
	}
	// Concurrent use: nothing is lost or handed over twice below the limit.
	for k := 0; k < t.Pick(200, 5000); k++ {
		c := cache.NewMessageCache()
		var wg sync.WaitGroup
		var mu sync.Mutex
		got := map[string]int{}
		stop := make(chan struct{})
		for p := 0; p < 2; p++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					for _, m := range c.PopAllMessages("w", nil) {
						mu.Lock()
						got[m.From+m.To]++
						mu.Unlock()
					}
					select {
					case <-stop:
						return
					default:
					}
				}
			}()
		}
		var add sync.WaitGroup
		for s := 0; s < 4; s++ {
			add.Add(1)
			go func(s int) {
				defer add.Done()
				for i := 0; i < 64; i++ {
					c.AddMessage(&common.TssMessage{From: fmt.Sprint(s, "-"), WorkId: "w", To: fmt.Sprint(i)})
				}
			}(s)
		}
		add.Wait()
		close(stop)
		wg.Wait()
		for _, m := range c.PopAllMessages("w", nil) {
			got[m.From+m.To]++
		}
		for key, n := range got {
			if n > 1 {
				t.Viol("C05", "cache:twice-concurrent", "message %s is handed over %d times", key, n)
			}
		}
		if len(got) != 256 {
			t.Viol("C05", "cache:lost-concurrent", "%d of 256 messages are handed over", len(got))
		}
		t.Eval(1)
		t.Count("concurrent cache runs", 1)
	}
}

// c05Findings reproduces the findings that are recorded in known-findings.txt.
func c05Findings(t *T) {
	for k := 0; k < t.Pick(2, 10); k++ {
		rng := t.Sub()
		cl := newCluster(t, rng, Opts{N: 2, Thr: 1, Ed: true})
		w := &Work{Id: uniqueId(rng), Kind: "edsign", Msgs: [][]byte{append(make([]byte, 1+k%3), randBytes(rng, 31)...)}}
		t.SetCase(fmt.Sprintf("eddsa message %x", w.Msgs[0]))
		cl.submitAll([]*Work{w}, rng, 0, false)
		cl.Wait(w, cl.all(), 30*time.Second)
		cl.checkAllSucceed("C05", w, "eddsa-message-leading-zero")
		t.Eval(1)
		cl.Close()
	}
	// Two leaders name the same presign at the same time.
	for k := 0; k < t.Pick(2, 10); k++ {
		rng := t.Sub()
		cfg := fastTimeouts()
		cfg.SigningJobTimeout = 5 * time.Second
		cl := newCluster(t, rng, Opts{N: 2, Thr: 1, Ec: true, Cfg: &cfg, Before: func(cl *Cluster) {
			cl.forgeBatch(rng, "pre", []int{0, 1}, []*big.Int{randNonce(rng)})
		}})
		works := []*Work{{Id: cl.idWithLeader(rng, 0), Kind: "ecsign", Msgs: randMsgs(rng, "ecsign", 1)},
			{Id: cl.idWithLeader(rng, 1), Kind: "ecsign", Msgs: randMsgs(rng, "ecsign", 1)}}
		t.SetCase("two concurrent signings with different leaders and one stored presign")
		var mu sync.Mutex
		announced := map[int][]string{}
		cl.SetPolicy(func(s *Send) []time.Duration {
			if s.Msg != nil && s.Msg.TssMessage.Type == common.TssMessage_PRE_EXEC_OUTPUT {
				mu.Lock()
				announced[s.From] = s.Msg.TssMessage.PreExecOutputMessage.PresignIds
				mu.Unlock()
				return []time.Duration{300 * time.Millisecond}
			}
			return []time.Duration{0}
		})
		cl.submitAll(works, rng, 0, false)
		for _, w := range works {
			cl.Wait(w, cl.all(), 40*time.Second)
		}
		mu.Lock()
		conflict := len(announced[0]) == 1 && len(announced[1]) == 1 && announced[0][0] == announced[1][0]
		mu.Unlock()
		t.Count("presign conflicts provoked", btoi(conflict))
		key := "ecsign:not-all-succeed"
		if conflict {
			key = "concurrent-leaders-same-presign"
		}
		for _, w := range works {
			cl.checkAllSucceed("C05", w, key)
			cl.checkSignatures(w)
		}
		t.Eval(1)
		cl.Close()
	}
}

var _ = htypes.OutcomeSuccess
