package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"time"

	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	"github.com/sisu-network/tss-lib/tss"
)

// Signing messages of all shapes. A message of an eddsa signing must not start with a zero byte: this
// is a known finding of C05.
func randMsgs(rng *rand.Rand, kind string, n int) [][]byte {
	msgs := make([][]byte, n)
	for i := range msgs {
		l := 32
		switch rng.Intn(8) {
		case 0:
			l = 1 + rng.Intn(31)
		case 1:
			l = 33 + rng.Intn(100)
		}
		if kind == "edsign" && rng.Intn(6) == 0 {
			l = 200 + rng.Intn(1200)
		}
		m := randBytes(rng, l)
		if kind == "ecsign" {
			if rng.Intn(5) == 0 {
				for k := 0; k <= rng.Intn(3) && k < l-1; k++ {
					m[k] = 0
				}
			}
			if m[l-1] == 0 {
				m[l-1] = 1
			}
		} else if m[0] == 0 {
			m[0] = 1
		}
		if i > 0 && rng.Intn(6) == 0 {
			m = append([]byte{}, msgs[rng.Intn(i)]...)
		}
		msgs[i] = m
	}
	return msgs
}

// givePresigns stores presigns of a committee in the databases of its members, before they start.
func (cl *Cluster) givePresigns(workId string, committee []int, data [][]*ecsigning.SignatureData_OneRoundData) {
	pids := pidsOf(cl.Members)
	sub := pids[:0:0]
	for _, c := range committee {
		sub = append(sub, pids[c])
	}
	for k, c := range committee {
		must(cl.Nodes[c].db().SavePresignData(workId, sub, data[k]))
	}
}

// forgeBatch gives count presigns with known nonces to a committee. It returns the nonces.
func (cl *Cluster) forgeBatch(rng *rand.Rand, workId string, committee []int, nonces []*big.Int) {
	data := make([][]*ecsigning.SignatureData_OneRoundData, len(committee))
	for _, k := range nonces {
		for i, d := range forgePresign(rng, cl.Members, committee, cl.EcSecret, k) {
			data[i] = append(data[i], d)
		}
	}
	cl.givePresigns(workId, committee, data)
}

func randNonce(rng *rand.Rand) *big.Int {
	return new(big.Int).Add(new(big.Int).Rand(rng, new(big.Int).Sub(tss.EC(tss.EcdsaScheme).Params().N, big.NewInt(1))), big.NewInt(1))
}

// subsets returns all subsets of size k of 0..n-1.
func subsets(n, k int) [][]int {
	var res [][]int
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		if len(cur) == k {
			res = append(res, append([]int{}, cur...))
			return
		}
		for i := from; i < n; i++ {
			rec(i+1, append(cur, i))
		}
	}
	rec(0, nil)
	return res
}

// Scenario is one run of one or several works under one delivery policy.
type Scenario struct {
	N, Thr   int
	Kinds    []string // works that run at the same time
	Batch    int
	Policy   string
	MaxStart time.Duration // nodes submit each work after a random delay
	Order    bool          // every node submits the works in an order of its own
	Presigns bool
	Cfg      func(*Opts)
	Wait     time.Duration
	Fault    Fault
	Ready    func(cl *Cluster) // before the first submission
}

func (sc Scenario) String() string {
	return fmt.Sprintf("n=%d thr=%d works=%v batch=%d policy=%s start<=%v presigns=%v", sc.N, sc.Thr, sc.Kinds, sc.Batch, sc.Policy, sc.MaxStart, sc.Presigns)
}

// uniqueId makes work ids, among them ones with unusual characters.
func uniqueId(rng *rand.Rand) string {
	id := fmt.Sprintf("%016x%016x", rng.Uint64(), rng.Uint64())
	switch rng.Intn(6) {
	case 0:
		return "work__" + id + "__x"
	case 1:
		return "wörk/" + id + "-"
	}
	return id
}

// idWithLeader makes a work id whose leader is the given node.
func (cl *Cluster) idWithLeader(rng *rand.Rand, leader int) string {
	for {
		if id := uniqueId(rng); cl.leader(id) == leader {
			return id
		}
	}
}

// run executes a scenario on a fresh cluster, waits for its outcomes and applies all monitors.
func (t *T) run(rng *rand.Rand, sc Scenario) (*Cluster, []*Work) {
	t.SetCase(sc.String())
	o := Opts{N: sc.N, Thr: sc.Thr, Policy: immediate, KeepData: true}
	for _, k := range sc.Kinds {
		switch k {
		case "ecsign":
			o.Ec = true
		case "edsign":
			o.Ed = true
		case "ecgen":
			o.Pre = true
		}
	}
	if sc.Presigns {
		o.NoEngine = map[int]bool{}
		for i := 0; i < sc.N; i++ {
			o.NoEngine[i] = true
		}
	}
	if sc.Cfg != nil {
		sc.Cfg(&o)
	}
	cl := newCluster(t, rng, o)
	if sc.Presigns {
		committee := rng.Perm(sc.N)[:cl.Thr+1]
		data := dealPresigns(cl.Members, cl.Ec, sortedInts(committee), cl.Thr, sc.Batch)
		cl.givePresigns("pre"+uniqueId(rng), sortedInts(committee), data)
		for i := 0; i < sc.N; i++ {
			cfg := fastTimeouts()
			if o.Cfg != nil {
				cfg = *o.Cfg
			}
			cl.Up(i, cfg)
		}
	}
	stop := cl.setPolicy(sc.Policy, rng)
	defer stop()
	if sc.Ready != nil {
		sc.Ready(cl)
	}
	works := make([]*Work, len(sc.Kinds))
	for i, k := range sc.Kinds {
		works[i] = &Work{Id: uniqueId(rng), Kind: k}
		if k == "ecsign" || k == "edsign" {
			b := sc.Batch
			if b == 0 {
				b = 1
			}
			works[i].Msgs = randMsgs(rng, k, b)
		}
		cl.request(works[i], 0) // sets the key type
	}
	cl.submitAll(works, rng, sc.MaxStart, sc.Order)
	if sc.Wait == 0 {
		sc.Wait = 60 * time.Second
	}
	for _, w := range works {
		cl.Wait(w, cl.all(), sc.Wait)
	}
	stop()
	cl.Quiesce(30*time.Millisecond, 2*time.Second)
	return cl, works
}

func (cl *Cluster) submitAll(works []*Work, rng *rand.Rand, maxStart time.Duration, order bool) {
	for i := 0; i < cl.N; i++ {
		perm := make([]int, len(works))
		for k := range perm {
			perm[k] = k
		}
		if order {
			perm = rng.Perm(len(works))
		}
		delays := make([]time.Duration, len(works))
		for k := range delays {
			if maxStart > 0 {
				delays[k] = time.Duration(rng.Intn(int(maxStart)))
			}
		}
		go func(i int) {
			for k, p := range perm {
				time.Sleep(delays[k])
				if err := cl.Submit(works[p], i); err != nil {
					cl.t.Viol("C05", "refused", "node %d refuses %s: %v", i, works[p].Id, err)
				}
			}
		}(i)
	}
}

// monitors applies the monitors of all properties that hold for every run.
func (cl *Cluster) monitors(works []*Work) {
	for _, w := range works {
		cl.checkSignatures(w)
		cl.checkOnce(w, cl.all())
		if w.Kind == "ecgen" || w.Kind == "edgen" {
			cl.checkKeygen(w, map[string]string{})
		}
		cl.checkCommittee(w)
	}
	cl.checkPrivate()
}

// checkAllSucceed is the monitor of C05: with all messages delivered, all selected nodes succeed.
func (cl *Cluster) checkAllSucceed(prop string, w *Work, key string) {
	t := cl.t
	succ, fail, notSel := cl.tally(w)
	want := cl.N
	thr := cl.Thr
	if w.Thr != 0 {
		thr = w.Thr
	}
	if w.Kind == "ecsign" || w.Kind == "edsign" {
		want = thr + 1
	}
	t.Count("works observed", 1)
	if len(succ) == want && len(fail) == 0 && len(succ)+len(notSel) == cl.N {
		return
	}
	t.add(Viol{Prop: prop, Key: key, Liveness: true, Detail: cl.workDetail(w),
		Msg: fmt.Sprintf("%s %s (%v): success on %v instead of %d nodes, failure on %v, not selected %v", w.Kind, w.Id, t.cur, succ, want, fail, notSel)})
}

// checkCommittee is the monitor of C10 over the round messages of a work: all nodes that report a
// result took part in one committee of the right size.
func (cl *Cluster) checkCommittee(w *Work) {
	t := cl.t
	leader := cl.leaderOf(w)
	var outputs [][]string
	senders := map[int]bool{}
	dests := map[int]map[int]bool{}
	for _, s := range cl.Sends() {
		if s.Msg == nil || s.Msg.TssMessage.WorkId != w.Id {
			continue
		}
		m := s.Msg.TssMessage
		if m.From != cl.Members[s.From].Id {
			continue // relayed
		}
		switch m.Type {
		case common.TssMessage_PRE_EXEC_OUTPUT:
			if s.From != leader {
				t.Viol("C10", "second-leader", "node %d announces a selection for %s, but node %d is the leader", s.From, w.Id, leader)
			}
			if m.PreExecOutputMessage != nil && m.PreExecOutputMessage.Success {
				outputs = append(outputs, m.PreExecOutputMessage.Pids)
			}
		case common.TssMessage_UPDATE_MESSAGES:
			senders[s.From] = true
			if dests[s.From] == nil {
				dests[s.From] = map[int]bool{s.From: true}
			}
			dests[s.From][s.To] = true
		}
	}
	succ, _, notSel := cl.tally(w)
	thr := cl.Thr
	if w.Thr != 0 {
		thr = w.Thr
	}
	want := thr + 1
	if w.Kind == "ecgen" || w.Kind == "edgen" {
		want = len(cl.parties(w))
	}
	// A node that does not succeed may have stopped before it had sent anything to some of the others.
	var committee map[int]bool
	for _, i := range succ {
		ds := dests[i]
		if ds == nil {
			continue
		}
		t.Count("committees observed", 1)
		if len(ds) != want {
			t.Viol("C10", "committee-size", "node %d runs %s with %d parties instead of %d", i, w.Id, len(ds), want)
		}
		if !ds[leader] {
			t.Viol("C10", "leader-not-in-committee", "node %d runs %s without its leader %d", i, w.Id, leader)
		}
		if committee == nil {
			committee = ds
		} else if fmt.Sprint(committee) != fmt.Sprint(ds) {
			t.Viol("C10", "committees-differ", "two nodes run %s with the committees %v and %v", w.Id, committee, ds)
		}
	}
	for i, ds := range dests {
		for j := range ds {
			if committee != nil && (!committee[j] || !committee[i]) {
				t.Viol("C10", "committees-differ", "nodes %d and %d run %s in another committee than %v", i, j, w.Id, committee)
			}
		}
		if len(ds) > want {
			t.Viol("C10", "committee-size", "node %d runs %s with %d parties instead of %d", i, w.Id, len(ds), want)
		}
	}
	known := map[string]bool{}
	for _, i := range cl.parties(w) {
		known[cl.Members[i].Id] = true
	}
	for _, p := range outputs {
		seen := map[string]bool{}
		for _, x := range p {
			if !known[x] || seen[x] {
				t.Viol("C10", "announced-committee", "the leader of %s announces the parties %v", w.Id, p)
			}
			seen[x] = true
		}
		if len(p) != want {
			t.Viol("C10", "announced-size", "the leader of %s announces %d parties instead of %d", w.Id, len(p), want)
		}
	}
	if committee != nil {
		for _, i := range succ {
			if !committee[i] {
				t.Viol("C10", "success-outside", "node %d reports success of %s but is not in the committee %v", i, w.Id, committee)
			}
		}
		for _, i := range notSel {
			if committee[i] {
				t.Viol("C10", "not-selected-inside", "node %d of the committee of %s reports that it was not selected", i, w.Id)
			}
		}
	}
}

func sortedInts(a []int) []int {
	b := append([]int{}, a...)
	for i := range b {
		for j := i + 1; j < len(b); j++ {
			if b[j] < b[i] {
				b[i], b[j] = b[j], b[i]
			}
		}
	}
	return b
}

var _ = htypes.OutcomeSuccess
