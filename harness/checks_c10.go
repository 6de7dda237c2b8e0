package main

import (
	"fmt"
	"math/rand"
	"sort"
	"time"

	"github.com/sisu-network/tss-lib/tss"

	"github.com/sisu-network/dheart/types/common"
)

// C10: works run with party lists in different orders, with absent, late and repeated answers and with
// forged announcements, and the committees that nodes really take part in are compared.

func init() {
	register(&Check{
		ID:   "C10",
		Rule: "a case is distinct by the number of parties, the threshold, the kind of work, the absent parties, the delivery policy, or by the kind and moment of a wrong announcement",
		Assumptions: []string{"the committee of a node is the set of nodes that it sends protocol messages to",
			"announcements of the leader that name more parties than needed or leave out the leader itself are not tried: a leader is not supposed to make them, and the property does not say that they are refused"},
		Units: func(tier string, seed int64) []Unit {
			us := []Unit{{Name: "leaders", Run: c10Leaders}, {Name: "answers", Run: c10Answers}}
			for i := 0; i < 4; i++ {
				us = append(us, Unit{Name: fmt.Sprintf("agree-%d", i), Run: c10Agree})
			}
			us = append(us, Unit{Name: "agree-ec", Run: c10AgreeEc})
			for i := 0; i < 3; i++ {
				us = append(us, Unit{Name: fmt.Sprintf("announce-%d", i), Run: c10Announce})
			}
			return us
		},
	})
}

// c10Leaders: the leader depends on the work and the set of the parties, not on their order.
func c10Leaders(t *T) {
	rng := t.Rng
	ms := makeMembers(rng, 7, false)
	for n := 1; n <= 7; n++ {
		led := map[string]int{}
		ids := 64
		for k := 0; k < ids; k++ {
			id := uniqueId(rng)
			if k%4 == 3 {
				id = fmt.Sprint(k)
			}
			pids := append([]*tss.PartyID{}, pidsOf(ms[:n])...)
			first := chooseLeader(id, pids)
			for p := 0; p < 6; p++ {
				rng.Shuffle(n, func(a, b int) { pids[a], pids[b] = pids[b], pids[a] })
				if l := chooseLeader(id, pids); l != first {
					t.Viol("C10", "leader-depends-on-order", "the leader of %q among %d parties is %s or %s, depending on the order of the list", id, n, first, l)
				}
				t.Eval(1)
			}
			known := false
			for _, m := range ms[:n] {
				known = known || m.Id == first
			}
			if !known {
				t.Viol("C10", "leader-unknown", "the leader of %q is %s, who is no party of the work", id, first)
			}
			led[first]++
		}
		if n > 1 && len(led) == 1 {
			t.Viol("C10", "leader-never-varies", "%d works of %d parties all have the same leader", ids, n)
		}
		// Where the choice compares less than everything, a tie is rare.
		if n > 1 {
			for k := 0; k < t.Pick(25000, 400000); k++ {
				id := fmt.Sprintf("%x-%d", rng.Uint64(), k)
				pids := append([]*tss.PartyID{}, pidsOf(ms[:n])...)
				first := chooseLeader(id, pids)
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					pids[i], pids[j] = pids[j], pids[i]
				}
				if l := chooseLeader(id, pids); l != first {
					t.Viol("C10", "leader-depends-on-order", "the leader of %q among %d parties is %s or %s, depending on the order of the list", id, n, first, l)
					break
				}
				t.Eval(1)
			}
		}
		t.Count("leaders chosen", ids*7)
		t.State("leaders", n, len(led))
	}
}

// leaderSeen checks that all nodes follow one leader: the only one that asks and announces, and the one
// that everybody tells about its availability.
func (cl *Cluster) leaderSeen(w *Work) {
	leaders := map[int]string{}
	for _, s := range cl.Sends() {
		if s.Msg == nil || s.Msg.TssMessage == nil || s.Msg.TssMessage.WorkId != w.Id || s.Msg.TssMessage.From != cl.Members[s.From].Id {
			continue
		}
		switch s.Msg.TssMessage.Type {
		case common.TssMessage_PRE_EXEC_OUTPUT:
			leaders[s.From] = fmt.Sprintf("node %d announces the selection", s.From)
		case common.TssMessage_AVAILABILITY_REQUEST:
			leaders[s.From] = fmt.Sprintf("node %d asks node %d", s.From, s.To)
		case common.TssMessage_AVAILABILITY_RESPONSE:
			leaders[s.To] = fmt.Sprintf("node %d answers to node %d", s.From, s.To)
		}
	}
	if len(leaders) > 1 {
		cl.t.Viol("C10", "two-leaders", "%v: the nodes follow several leaders of %s: %v", cl.t.cur, w.Id, leaders)
	}
	cl.t.Count("leaders observed", len(leaders))
}

// agree runs one work and compares what the nodes do. up are the nodes that run.
func c10Work(t *T, rng *rand.Rand, cl *Cluster, w *Work, down []int, starts time.Duration) {
	isDown := map[int]bool{}
	for _, d := range down {
		isDown[d] = true
		cl.Down(d)
	}
	var up []int
	for _, i := range cl.parties(w) {
		if !isDown[i] {
			up = append(up, i)
		}
	}
	for _, i := range up {
		d := time.Duration(0)
		if starts > 0 {
			d = time.Duration(rng.Intn(int(starts)))
		}
		i := i
		time.AfterFunc(d, func() { cl.mustSubmit(w, i) })
	}
	leader := cl.leaderOf(w)
	cl.Wait(w, up, 25*time.Second)
	cl.Quiesce(30*time.Millisecond, time.Second)
	succ, fail, notSel := cl.tally(w)
	thr := cl.Thr
	if w.Thr != 0 {
		thr = w.Thr
	}
	want := thr + 1
	if w.Kind == "edgen" || w.Kind == "ecgen" {
		want = len(cl.parties(w))
	}
	ran := false
	for _, s := range cl.Sends() {
		if isUpdate(s) && s.Msg.TssMessage.WorkId == w.Id {
			ran = true
		}
	}
	if len(up) < want || isDown[leader] {
		// Nobody can start.
		if ran {
			t.Viol("C10", "runs-without-committee", "%v: a node starts the protocol of %s, leader %d, with %d of %d parties", t.cur, w.Id, leader, len(up), want)
		}
		if len(succ) > 0 {
			t.Viol("C10", "succeeds-without-committee", "%v: nodes %v report success of %s", t.cur, succ, w.Id)
		}
		t.Count("works without enough parties or leader", 1)
	} else if len(succ) > want {
		t.Viol("C10", "committee-too-large", "%v: success on %v instead of %d nodes, failure on %v, not selected %v", t.cur, succ, want, fail, notSel)
	} else if len(succ) != want || len(fail) > 0 || len(succ)+len(notSel) != len(up) {
		t.add(Viol{Prop: "C10", Key: "committee-does-not-run", Liveness: true, Detail: cl.workDetail(w),
			Msg: fmt.Sprintf("%v: success on %v instead of %d nodes, failure on %v, not selected %v", t.cur, succ, want, fail, notSel)})
	}
	for _, i := range append(append([]int{}, succ...), fail...) {
		if isDown[i] {
			t.Viol("C10", "down-node-reports", "node %d is down and reports", i)
		}
	}
	cl.checkCommittee(w)
	cl.leaderSeen(w)
	t.Eval(1)
}

func c10Agree(t *T) {
	for k := 0; t.More(k, 14, 400); k++ {
		rng := t.Sub()
		n := 3 + rng.Intn(4)
		kind := []string{"edsign", "edsign", "edgen"}[k%3]
		if kind == "edgen" {
			n = 2 + rng.Intn(3)
		}
		thr := 1 + rng.Intn(n-1)
		cfg := fastTimeouts()
		cfg.SelectionLeaderTimeout, cfg.SelectionMemberTimeout = 600*time.Millisecond, 1200*time.Millisecond
		cl := newCluster(t, rng, Opts{N: n, Thr: thr, Ed: true, Cfg: &cfg})
		pol := []string{"immediate", "jitter", "dup", "kinds", "pool-random"}[rng.Intn(5)]
		if pol == "kinds" && n > 4 {
			pol = "jitter"
		}
		stop := cl.setPolicy(pol, rng)
		w := &Work{Id: uniqueId(rng), Kind: kind, Perm: 1 + rng.Int63n(1<<40)}
		if kind == "edsign" {
			w.Msgs = randMsgs(rng, kind, 1+rng.Intn(2))
			if n > 3 && rng.Intn(2) == 0 {
				// Only some of the nodes are parties.
				m := 2 + rng.Intn(n-2)
				w.Parties = sortedInts(rng.Perm(n)[:m])
				if w.Thr = thr; thr > m-1 {
					w.Parties = nil
				}
			}
		}
		cl.request(w, 0)
		var down []int
		ps := cl.parties(w)
		for _, x := range rng.Perm(len(ps))[:rng.Intn(len(ps))] {
			if rng.Intn(3) == 0 {
				down = append(down, ps[x])
			}
		}
		sort.Ints(down)
		t.SetCase(fmt.Sprintf("n=%d thr=%d %s parties=%v leader=%d down=%v policy=%s", n, thr, kind, cl.parties(w), cl.leaderOf(w), down, pol))
		c10Work(t, rng, cl, w, down, 40*time.Millisecond)
		t.State("agree", n, thr, kind, len(cl.parties(w)), len(down), pol)
		t.Sample(t.cur)
		stop()
		cl.Close()
	}
}

func c10AgreeEc(t *T) {
	for k := 0; t.More(k, 8, 150); k++ {
		rng := t.Sub()
		n := 3 + rng.Intn(2)
		thr := 1 + rng.Intn(n-1)
		if k%4 >= 2 {
			// More parties are there than are needed, but not all.
			n = 4 + rng.Intn(2)
			thr = 1 + rng.Intn(n-3)
		}
		cfg := fastTimeouts()
		cfg.SelectionLeaderTimeout, cfg.SelectionMemberTimeout = 600*time.Millisecond, 1200*time.Millisecond
		o := Opts{N: n, Thr: thr, Ec: true, Cfg: &cfg}
		presigns := rng.Intn(3) > 0 && k%4 != 3
		if presigns {
			o.Before = func(cl *Cluster) {
				for i := 0; i < 2; i++ {
					c := sortedInts(rng.Perm(n)[:thr+1])
					cl.givePresigns(fmt.Sprintf("pre%d%s", i, uniqueId(rng)), c, dealPresigns(cl.Members, cl.Ec, c, thr, 1))
				}
			}
		}
		cl := newCluster(t, rng, o)
		stop := cl.setPolicy([]string{"immediate", "jitter", "dup"}[rng.Intn(3)], rng)
		w := &Work{Id: uniqueId(rng), Kind: "ecsign", Perm: 1 + rng.Int63n(1<<40), Msgs: randMsgs(rng, "ecsign", 1)}
		var down []int
		if n > thr+1 && rng.Intn(2) == 0 {
			down = append(down, rng.Intn(n))
		}
		if k%4 >= 2 {
			down = []int{(cl.leaderOf(w) + 1 + rng.Intn(n-1)) % n}
		}
		t.SetCase(fmt.Sprintf("n=%d thr=%d ecsign leader=%d down=%v presigns=%v", n, thr, cl.leaderOf(w), down, presigns))
		c10Work(t, rng, cl, w, down, 30*time.Millisecond)
		t.State("agree-ec", n, thr, presigns, len(down))
		stop()
		cl.Close()
	}
}

// c10Answers: answers of nodes that are not parties of the work, and answers that come many times, make
// no committee. The remaining party comes later.
func c10Answers(t *T) {
	for k := 0; t.More(k, 20, 400); k++ {
		rng := t.Sub()
		n := 4 + rng.Intn(2)
		thr := 2
		cfg := fastTimeouts()
		cl := newCluster(t, rng, Opts{N: n, Thr: thr, Ed: true, Cfg: &cfg, Policy: jitter(rng, 3*time.Millisecond)})
		// The last node is no party of the work; outsider is a known party without a share.
		outsider := makeMembers(rng, 1, false)[0]
		for i := range cl.Nodes {
			cl.engine(i).AddNodes(nodesOf([]*Member{outsider}))
		}
		w := &Work{Id: uniqueId(rng), Kind: "edsign", Msgs: randMsgs(rng, "edsign", 1), Parties: cl.all()[:n-1]}
		leader := cl.leaderOf(w)
		members := othersOf(w.Parties, leader)
		answer := func(m *Member, times int) {
			for j := 0; j < times; j++ {
				msg := common.NewAvailabilityResponseMessage(m.Id, cl.Members[leader].Id, w.Id, common.AvailabilityResponseMessage_YES, 1)
				cl.deliver(m.Id, leader, signMsg(m, msg), nil)
				t.Count("extra answers", 1)
			}
		}
		many := rng.Intn(8)
		t.SetCase(fmt.Sprintf("n=%d parties=%v leader=%d: %d repeated answers, and answers of others", n, w.Parties, leader, many))
		early := rng.Intn(2) == 0
		say := func() {
			answer(cl.Members[members[0]], many)
			answer(cl.Members[n-1], 1+rng.Intn(3))
			answer(outsider, 1+rng.Intn(3))
		}
		if early {
			say()
		}
		cl.mustSubmit(w, leader)
		cl.mustSubmit(w, members[0])
		if !early {
			say()
		}
		time.Sleep(time.Duration(20+rng.Intn(40)) * time.Millisecond)
		for _, x := range members[1:] {
			cl.mustSubmit(w, x)
		}
		cl.Wait(w, w.Parties, 20*time.Second)
		cl.Quiesce(20*time.Millisecond, time.Second)
		succ, fail, notSel := cl.tally(w)
		if len(succ) != thr+1 || len(fail) > 0 {
			t.add(Viol{Prop: "C10", Key: "answers", Liveness: true, Detail: cl.workDetail(w), Msg: fmt.Sprintf("%v: success on %v, failure on %v, not selected %v", t.cur, succ, fail, notSel)})
		}
		cl.checkCommittee(w)
		t.State("answers", n, many, early)
		t.Eval(1)
		cl.Close()
	}
}

// c10Announce: wrong announcements, of a member or of the leader itself.
func c10Announce(t *T) {
	ways := []string{"unknown", "unknown-known-node", "repeated", "repeated-more", "too-few", "empty", "only-me", "empty-name", "member-success", "member-failure", "member-other", "outsider"}
	for k := 0; t.More(k, 36, 400); k++ {
		rng := t.Sub()
		n := 3 + rng.Intn(3)
		kind := []string{"edsign", "edgen"}[rng.Intn(2)]
		thr := 1 + rng.Intn(n-2)
		way := ways[(k+int(uint64(t.Seed)%12))%len(ways)]
		if way == "too-few" {
			n = 4 + rng.Intn(2)
			thr = 2 + rng.Intn(n-3)
		}
		cfg := fastTimeouts()
		cfg.SelectionLeaderTimeout, cfg.SelectionMemberTimeout = 1500*time.Millisecond, 3*time.Second
		cl := newCluster(t, rng, Opts{N: n, Thr: thr, Ed: true, Cfg: &cfg, Policy: jitter(rng, 3*time.Millisecond)})
		outsider := makeMembers(rng, 1, false)[0]
		for i := range cl.Nodes {
			cl.engine(i).AddNodes(nodesOf([]*Member{outsider}))
		}
		w := &Work{Id: uniqueId(rng), Kind: kind}
		if kind == "edsign" {
			w.Msgs = randMsgs(rng, kind, 1)
		}
		cl.request(w, 0)
		leader := cl.leaderOf(w)
		members := othersOf(cl.all(), leader)
		honest := n
		if kind == "edsign" {
			honest = thr + 1
		}
		victim := members[rng.Intn(len(members))]
		// A right committee with the victim.
		right := []string{cl.Members[leader].Id, cl.Members[victim].Id}
		for _, x := range members {
			if x != victim && len(right) < honest {
				right = append(right, cl.Members[x].Id)
			}
		}
		when := []string{"early", "during"}[rng.Intn(2)]
		t.SetCase(fmt.Sprintf("n=%d thr=%d %s leader=%d: announcement %s to node %d, %s", n, thr, kind, leader, way, victim, when))
		announce := func(m *Member, ok bool, pids []string, to int) {
			msg := common.NewPreExecOutputMessage(m.Id, "", w.Id, ok, nil, nil)
			msg.PreExecOutputMessage.Pids = pids
			cl.deliver(m.Id, to, signMsg(m, msg), nil)
			t.Count("wrong announcements", 1)
		}
		byLeader := true
		var pids []string
		who, ok := cl.Members[leader], true
		switch way {
		case "unknown":
			pids = append(append([]string{}, right[:honest-1]...), "16Uiu2HAmJ9SHrs5HFzZdBXsPCz4c22nmLQyXVpPFrBgXsTYGVTQx")
		case "unknown-known-node":
			pids = append(append([]string{}, right[:honest-1]...), outsider.Id)
			if honest > 2 || rng.Intn(2) == 0 {
				pids[0] = outsider.Id
				pids[len(pids)-1] = cl.Members[victim].Id
			}
		case "repeated":
			pids = append(append([]string{}, right[:honest-1]...), cl.Members[victim].Id)
			if honest == 2 {
				pids = []string{cl.Members[victim].Id, cl.Members[victim].Id}
			}
		case "repeated-more":
			pids = append(append([]string{}, right...), cl.Members[victim].Id)
		case "too-few":
			pids = append([]string{}, right[1:]...)
			if rng.Intn(2) == 0 {
				pids = append([]string{}, right[:honest-1]...)
				pids[len(pids)-1] = cl.Members[victim].Id
			}
		case "only-me":
			pids = []string{cl.Members[victim].Id}
		case "empty":
			pids = []string{}
		case "empty-name":
			pids = append(append([]string{}, right[1:]...), "")
		default:
			byLeader = false
			x := members[rng.Intn(len(members))]
			for x == victim {
				x = members[rng.Intn(len(members))]
			}
			who, ok, pids = cl.Members[x], true, right
			switch way {
			case "member-failure":
				ok, pids = false, nil
			case "member-other":
				// Without the victim.
				pids = nil
				for _, m := range cl.Members {
					if m.Id != cl.Members[victim].Id && len(pids) < honest {
						pids = append(pids, m.Id)
					}
				}
			case "outsider":
				who = outsider
			}
		}
		if byLeader {
			// The leader is hostile: it says nothing right.
			cl.Down(leader)
			if when == "early" {
				announce(who, ok, pids, victim)
			}
			cl.mustSubmit(w, victim)
			if when == "during" {
				time.Sleep(time.Duration(rng.Intn(20)) * time.Millisecond)
				announce(who, ok, pids, victim)
			}
			cl.Wait(w, []int{victim}, 15*time.Second)
			cl.Quiesce(20*time.Millisecond, time.Second)
			succ, _, _ := cl.tally(w)
			for _, s := range cl.Sends() {
				if s.From == victim && isUpdate(s) && s.Msg.TssMessage.WorkId == w.Id {
					t.Viol("C10", "follows:"+way, "%v: the node starts the protocol with the parties %v", t.cur, pids)
				}
			}
			if len(succ) > 0 {
				t.Viol("C10", "success:"+way, "%v: the node reports success", t.cur)
			}
		} else {
			if when == "early" {
				for _, x := range othersOf(cl.all(), cl.byIdOr(who.Id)) {
					announce(who, ok, pids, x)
				}
			}
			cl.submitAll([]*Work{w}, rng, 30*time.Millisecond, false)
			if when == "during" {
				time.Sleep(time.Duration(rng.Intn(35)) * time.Millisecond)
				for _, x := range othersOf(cl.all(), cl.byIdOr(who.Id)) {
					announce(who, ok, pids, x)
				}
			}
			cl.Wait(w, cl.all(), 20*time.Second)
			cl.Quiesce(20*time.Millisecond, time.Second)
			cl.checkAllSucceed("C10", w, "announcement-of-member:"+way)
			cl.checkCommittee(w)
		}
		t.State("announce", way, when, kind, n, thr)
		t.Eval(1)
		t.Sample(t.cur)
		cl.Close()
	}
}

// byIdOr is the number of a node, or -1.
func (cl *Cluster) byIdOr(id string) int {
	if i, ok := cl.byId[id]; ok {
		return i
	}
	return -1
}
