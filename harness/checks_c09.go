package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/sisu-network/dheart/types/common"
)

// C09: forged, altered and misdirected messages are mixed into honest works. All of them would do visible
// harm if a node acted on them, so the works have to end as if they had never arrived. Genuine messages
// are relayed unchanged by third parties meanwhile, and have to be accepted.

func init() {
	register(&Check{
		ID:   "C09",
		Rule: "a case is distinct by the way of the forgery, the type and round of the message, and whether it arrives before or after the genuine one or before the work has started",
		Assumptions: []string{"an accepted forgery is seen by its effect: it names a wrong committee, carries wrong protocol data, makes a node answer or makes an absent party look available",
			"every party signs with its node key; the forger has keys of a known party outside the group, of an unknown one and all signed messages that were sent"},
		Units: func(tier string, seed int64) []Unit {
			var us []Unit
			for i, k := range [][]string{{"edsign"}, {"edgen"}, {"edsign", "edgen"}, {"ecsign"}, {"ecsign", "edsign"}, {"presigned"}, {"ecgen"}} {
				i, k := i, k
				us = append(us, Unit{Name: fmt.Sprintf("forge-%s-%d", k[0], i), Run: func(t *T) { c09Forge(t, k) }})
			}
			return append(us, Unit{Name: "absent", Run: c09Absent}, Unit{Name: "early", Run: c09Early}, Unit{Name: "relay", Run: c09Relay})
		},
	})
}

// forger makes messages that no node may act on.
type forger struct {
	cl       *Cluster
	rng      *lockedRand
	known    *Member // a known party outside the group
	stranger *Member
	mu       sync.Mutex
	sigs     map[string][]byte // a signature of every party under another message
}

func newForger(cl *Cluster, rng *rand.Rand) *forger {
	ms := makeMembers(rng, 2, false)
	f := &forger{cl: cl, rng: newLocked(rng), known: ms[0], stranger: ms[1], sigs: map[string][]byte{}}
	for i := range cl.Nodes {
		cl.engine(i).AddNodes(nodesOf(ms[:1]))
	}
	return f
}

// forgeries are the ways to present a message in the name of its sender without its signature.
var forgeries = []string{"unsigned", "empty-signature", "zero-signature", "known-key", "unknown-key", "old-signature", "long-signature", "attributed", "attributed-by-stranger",
	"stranger-signs", "other-message", "cut-signature", "recipient-signs-nothing", "signed-by-known-from-known"}

// forge presents m (in the name of m.From, for node to). It returns the data and the peer that delivers it.
func (f *forger) forge(way string, m *common.TssMessage, old *common.SignedMessage, to int) ([]byte, string) {
	bz, err := json.Marshal(m)
	must(err)
	sign := func(x *Member) []byte {
		s, err := x.Priv.Sign(bz)
		must(err)
		return s
	}
	s := &common.SignedMessage{From: m.From, TssMessage: m}
	peer := []string{m.From, f.known.Id, f.cl.Members[to].Id}[f.rng.Intn(3)]
	switch way {
	case "unsigned":
	case "empty-signature", "recipient-signs-nothing":
		s.Signature = []byte{}
	case "zero-signature":
		s.Signature = make([]byte, 64)
	case "known-key":
		s.Signature = sign(f.known)
	case "unknown-key":
		s.Signature = sign(f.stranger)
	case "old-signature":
		if old != nil {
			s.Signature = old.Signature
		}
	case "long-signature":
		if old != nil {
			s.Signature = append(append([]byte{}, old.Signature...), 0)
		}
	case "cut-signature":
		if old != nil && len(old.Signature) > 0 {
			s.Signature = old.Signature[:len(old.Signature)-1]
		}
	case "other-message":
		f.mu.Lock()
		s.Signature = f.sigs[m.From]
		f.mu.Unlock()
	case "attributed":
		// Signed and sent by a known party, but the content is attributed to another one.
		s.From, s.Signature, peer = f.known.Id, sign(f.known), f.known.Id
	case "attributed-by-stranger", "stranger-signs":
		s.From, s.Signature = f.stranger.Id, sign(f.stranger)
		if way == "stranger-signs" {
			c := cloneMsg(m)
			c.From = f.stranger.Id
			bz, err = json.Marshal(c)
			must(err)
			s.TssMessage, s.Signature = c, sign(f.stranger)
		}
	case "signed-by-known-from-known":
		// The signature says that the known party sent it, the content too, but the envelope names the other.
		c := cloneMsg(m)
		c.From = f.known.Id
		bz, err = json.Marshal(c)
		must(err)
		s.TssMessage, s.Signature = c, sign(f.known)
	}
	data, err := json.Marshal(s)
	must(err)
	f.mu.Lock()
	if old != nil && f.rng.Intn(3) == 0 {
		f.sigs[m.From] = old.Signature
	}
	f.mu.Unlock()
	return data, peer
}

// harmful makes a harmful variant of a genuine message. nil: none of it.
func (f *forger) harmful(m *common.TssMessage, to int) *common.TssMessage {
	c := cloneMsg(m)
	ids := f.cl.ids()
	switch m.Type {
	case common.TssMessage_UPDATE_MESSAGES:
		for _, u := range c.UpdateMessages {
			u.Data = corruptWire(u.Data, rand.New(rand.NewSource(int64(f.rng.Intn(1<<30)))))
		}
	case common.TssMessage_PRE_EXEC_OUTPUT:
		o := c.PreExecOutputMessage
		if o == nil {
			return nil
		}
		switch f.rng.Intn(3) {
		case 0:
			o.Success, o.Pids = false, nil
		case 1:
			// Another committee of the same size.
			have := map[string]bool{}
			for _, p := range o.Pids {
				have[p] = true
			}
			for _, x := range ids {
				if !have[x] && len(o.Pids) > 0 {
					o.Pids[len(o.Pids)-1] = x
					break
				}
			}
			if len(o.Pids) == len(ids) {
				o.Pids = o.Pids[1:]
			}
		case 2:
			o.PresignIds = []string{"no such presign"}
		}
	case common.TssMessage_AVAILABILITY_RESPONSE:
		if c.AvailabilityResponseMessage == nil {
			return nil
		}
	case common.TssMessage_AVAILABILITY_REQUEST:
	default:
		return nil
	}
	return c
}

func (cl *Cluster) ids() []string {
	var ids []string
	for _, m := range cl.Members {
		ids = append(ids, m.Id)
	}
	return ids
}

// answersOnce: without honest questions, and as if the forged ones had never arrived, no protocol message
// is sent twice to the same party and no availability is told more often than asked for.
func (cl *Cluster) answersOnce() {
	type k struct {
		from, to int
		typ      common.TssMessage_Type
		work     string
		round    string
	}
	n := map[k]int{}
	for _, s := range cl.Sends() {
		if s.Msg != nil && s.Msg.TssMessage != nil {
			n[k{s.From, s.To, s.Msg.TssMessage.Type, s.Msg.TssMessage.WorkId, s.Msg.TssMessage.From + short(s.Round())}]++
		}
	}
	for x, c := range n {
		switch x.typ {
		case common.TssMessage_UPDATE_MESSAGES:
			if c > 1 {
				cl.t.Viol("C09", "answers-forgery", "node %d sends %s of %s %d times to node %d although no genuine question was asked (%v)", x.from, x.round, x.work, c, x.to, cl.t.cur)
			}
		case common.TssMessage_AVAILABILITY_RESPONSE:
			asked := 0
			for y, c := range n {
				if y.typ == common.TssMessage_AVAILABILITY_REQUEST && y.from == x.to && y.to == x.from && y.work == x.work {
					asked += c
				}
			}
			if !strings.Contains(cl.policyName, "dup") && c > 1+asked {
				cl.t.Viol("C09", "answers-forgery", "node %d tells node %d %d times that it is available for %s, asked %d times (%v)", x.from, x.to, c, x.work, asked, cl.t.cur)
			}
		case common.TssMessage_ASK_MESSAGE_REQUEST:
			cl.t.Count("honest questions", c)
		}
	}
}

func c09Forge(t *T, kinds []string) {
	quick := 14
	if kinds[0] == "ecgen" {
		quick = 6
	}
	for k := 0; t.More(k, quick, 300); k++ {
		rng := t.Sub()
		n := 3 + rng.Intn(2)
		if kinds[0] == "ecgen" || kinds[0] == "edgen" {
			n = 3
		}
		cfg := fastTimeouts()
		cfg.MonitorMessageTimeout = time.Hour
		sc := Scenario{N: n, Thr: 1 + rng.Intn(n-1), Batch: 1 + rng.Intn(2), Policy: policyNames[rng.Intn(len(policyNames))], MaxStart: time.Duration(1+rng.Intn(120)) * time.Millisecond}
		for _, x := range kinds {
			if x == "presigned" {
				x = "ecsign"
				sc.Presigns = true
			}
			sc.Kinds = append(sc.Kinds, x)
		}
		sc.Cfg = func(o *Opts) { o.Cfg = &cfg }
		ways := rng.Perm(len(forgeries))[:1+rng.Intn(4)]
		relay := rng.Intn(3) > 0
		// One unit of forging per genuine delivery; the engines are there before.
		var f *forger
		fr := rand.New(rand.NewSource(rng.Int63()))
		old := sc.Cfg
		prepare := func(cl *Cluster) {
			f = newForger(cl, fr)
			cl.SetTamper(func(s *Send, to int) [][]byte { return f.tamper(s, to, ways, relay) })
		}
		sc.Cfg = func(o *Opts) { old(o) }
		sc.Ready = prepare
		cl, works := t.run(rng, sc)
		for _, w := range works {
			cl.checkAllSucceed("C09", w, "forgery-has-effect")
		}
		cl.monitors(works)
		cl.answersOnce()
		t.Eval(len(works))
		t.Sample(t.cur)
		cl.Close()
	}
}

// tamper accompanies the delivery of a genuine message with forgeries, or relays it.
func (f *forger) tamper(s *Send, to int, ways []int, relay bool) [][]byte {
	cl, t := f.cl, f.cl.t
	if s.Msg == nil || s.Msg.TssMessage == nil {
		return nil
	}
	m := s.Msg.TssMessage
	genuine := []([]byte){}
	later := time.Duration(0)
	ms := func(n int) time.Duration { return time.Duration(f.rng.Intn(n*1000)) * time.Microsecond }
	for k := 0; k < 1+f.rng.Intn(2); k++ {
		way := forgeries[ways[f.rng.Intn(len(ways))]]
		bad := f.harmful(m, to)
		if bad == nil {
			continue
		}
		if (way == "old-signature" || way == "other-message") && toJson(bad) == toJson(m) {
			continue // genuine
		}
		data, peer := f.forge(way, bad, s.Msg, to)
		before := f.rng.Intn(2) == 0
		if before {
			// The genuine one follows.
			cl.deliver(peer, to, data, nil)
			later = ms(3)
		} else {
			cl.deliverAfter(ms(8), peer, to, data, nil)
		}
		t.Count("forgeries delivered: "+way, 1)
		t.State("forge", way, m.Type, short(s.Round()), before)
	}
	if m.Type == common.TssMessage_UPDATE_MESSAGES {
		// A question in the name of the recipient, which may have the message.
		if f.rng.Intn(3) == 0 {
			ask := askMsg(cl.Members[to].Id, m.From, m.WorkId, keyOf(m, s.Round()))
			way := forgeries[ways[f.rng.Intn(len(ways))]]
			if way != "stranger-signs" && way != "signed-by-known-from-known" {
				data, peer := f.forge(way, ask, nil, s.From)
				if peer == cl.Members[s.From].Id {
					peer = f.known.Id
				}
				cl.deliverAfter(ms(20), peer, s.From, data, nil)
				t.Count("forged questions", 1)
				t.State("ask", way, short(s.Round()))
			}
		}
		// A private message, and a harmful question of the recipient, at a node that they are not meant for.
		if m.To != "" && f.rng.Intn(2) == 0 {
			for x := 0; x < cl.N; x++ {
				if x != to && x != s.From {
					peer := []string{m.From, f.known.Id}[f.rng.Intn(2)]
					cl.deliverAfter(ms(5), peer, x, s.Data, nil)
					t.Count("messages delivered to another node", 1)
					t.State("misdelivered", m.Type, short(s.Round()))
				}
			}
		}
	}
	if (m.Type == common.TssMessage_AVAILABILITY_REQUEST || m.Type == common.TssMessage_AVAILABILITY_RESPONSE) && f.rng.Intn(2) == 0 {
		for x := 0; x < cl.N; x++ {
			if x != to && x != s.From {
				cl.deliverAfter(ms(5), m.From, x, s.Data, nil)
				t.Count("messages delivered to another node", 1)
				t.State("misdelivered", m.Type)
			}
		}
	}
	if relay && f.rng.Intn(2) == 0 {
		// A third party brings it.
		via := f.known.Id
		if x := f.rng.Intn(cl.N); x != to && x != s.From && f.rng.Intn(2) == 0 {
			via = cl.Members[x].Id
		}
		cl.deliverAfter(later, via, to, s.Data, s)
		t.Count("messages relayed by a third party", 1)
		return genuine
	}
	if later > 0 {
		cl.deliverAfter(later, m.From, to, s.Data, s)
		return genuine
	}
	return nil
}

// c09Absent: one party is down. Forged answers in its name must not make it a member of the committee.
func c09Absent(t *T) {
	for k := 0; t.More(k, 20, 300); k++ {
		rng := t.Sub()
		n := 3 + rng.Intn(2)
		thr := n - 2
		kind := []string{"edsign", "ecsign"}[k%2]
		cfg := fastTimeouts()
		cfg.MonitorMessageTimeout = time.Hour
		cfg.SelectionLeaderTimeout = 700 * time.Millisecond
		if kind == "ecsign" && thr > 1 {
			kind = "edsign"
		}
		cl := newCluster(t, rng, Opts{N: n, Thr: thr, Ec: kind == "ecsign", Ed: kind == "edsign", Cfg: &cfg, Policy: jitter(rng, 4*time.Millisecond)})
		f := newForger(cl, rng)
		absent := rng.Intn(n)
		leader := rng.Intn(n)
		for leader == absent {
			leader = rng.Intn(n)
		}
		w := &Work{Id: cl.idWithLeader(rng, leader), Kind: kind, Msgs: randMsgs(rng, kind, 1)}
		way := forgeries[rng.Intn(len(forgeries))]
		t.SetCase(fmt.Sprintf("n=%d thr=%d %s: node %d is down, answers in its name (%s) to the leader %d", n, thr, kind, absent, way, leader))
		cl.Down(absent)
		up := othersOf(cl.all(), absent)
		bad := common.NewAvailabilityResponseMessage(cl.Members[absent].Id, cl.Members[leader].Id, w.Id, common.AvailabilityResponseMessage_YES, 1)
		other := common.NewAvailabilityResponseMessage(cl.Members[absent].Id, cl.Members[leader].Id, w.Id+"x", common.AvailabilityResponseMessage_YES, 1)
		old := parseSigned(cl.signed(absent, other))
		give := func() {
			data, peer := f.forge(way, bad, old, leader)
			cl.deliver(peer, leader, data, nil)
			t.Count("forged availabilities", 1)
		}
		if rng.Intn(2) == 0 {
			give()
		}
		cl.mustSubmit(w, leader)
		give()
		go give()
		time.Sleep(time.Duration(rng.Intn(15)) * time.Millisecond)
		// A genuine answer to somebody else.
		for _, x := range up {
			if x != leader {
				o := common.NewAvailabilityResponseMessage(cl.Members[absent].Id, cl.Members[x].Id, w.Id, common.AvailabilityResponseMessage_YES, 1)
				cl.deliver(cl.Members[absent].Id, leader, cl.signed(absent, o), nil)
				t.Count("messages delivered to another node", 1)
			}
		}
		for _, x := range up {
			if x != leader {
				cl.mustSubmit(w, x)
			}
		}
		cl.Wait(w, up, 20*time.Second)
		succ, fail, notSel := cl.tally(w)
		if len(succ) != thr+1 || len(fail) > 0 {
			t.add(Viol{Prop: "C09", Key: "absent-party", Liveness: true, Detail: cl.workDetail(w), Msg: fmt.Sprintf("%v: success on %v, failure on %v, not selected %v", t.cur, succ, fail, notSel)})
		}
		cl.checkCommittee(w)
		t.State("absent", way, n, kind)
		t.Eval(1)
		cl.Close()
	}
}

// c09Early: before a node knows of the work, forged announcements and protocol messages in the name of the
// others arrive. The work then runs as if they had not.
func c09Early(t *T) {
	for k := 0; t.More(k, 20, 300); k++ {
		rng := t.Sub()
		n := 2 + rng.Intn(3)
		thr := 1 + rng.Intn(n-1)
		cfg := fastTimeouts()
		cfg.MonitorMessageTimeout = time.Hour
		cl := newCluster(t, rng, Opts{N: n, Thr: thr, Ed: true, Cfg: &cfg, KeepData: true, Policy: jitter(rng, 4*time.Millisecond)})
		f := newForger(cl, rng)
		kind := []string{"edsign", "edgen"}[k%2]
		first := &Work{Id: uniqueId(rng), Kind: kind}
		second := &Work{Id: uniqueId(rng), Kind: kind}
		if kind == "edsign" {
			first.Msgs, second.Msgs = randMsgs(rng, kind, 1), randMsgs(rng, kind, 1)
		}
		cl.request(first, 0)
		cl.request(second, 0)
		way := forgeries[rng.Intn(len(forgeries))]
		t.SetCase(fmt.Sprintf("n=%d thr=%d %s: all messages of a work are forged for the next one (%s) before it starts", n, thr, kind, way))
		cl.submitAll([]*Work{first}, rng, 0, false)
		cl.Wait(first, cl.all(), 20*time.Second)
		cl.Quiesce(20*time.Millisecond, time.Second)
		if kind == "edgen" {
			cl.mu.Lock()
			cl.outcomes = nil
			cl.mu.Unlock()
		}
		sends := cl.Sends()
		for _, s := range sends {
			if s.Msg == nil || s.To < 0 || s.Msg.TssMessage.WorkId != first.Id {
				continue
			}
			bad := cloneMsg(s.Msg.TssMessage)
			bad.WorkId = second.Id
			if rng.Intn(3) == 0 {
				if b := f.harmful(bad, s.To); b != nil {
					bad = b
				}
			}
			if o := bad.PreExecOutputMessage; o != nil {
				// In the name of the leader of the second work.
				bad.From = cl.Members[cl.leader(second.Id)].Id
			}
			if bad.From == cl.Members[s.To].Id {
				continue
			}
			data, peer := f.forge(way, bad, s.Msg, s.To)
			cl.deliver(peer, s.To, data, nil)
			t.Count("forgeries delivered: "+way, 1)
			t.State("early", way, bad.Type, short(s.Round()))
		}
		cl.submitAll([]*Work{second}, rng, 30*time.Millisecond, false)
		cl.Wait(second, cl.all(), 30*time.Second)
		cl.Quiesce(20*time.Millisecond, time.Second)
		cl.checkAllSucceed("C09", second, "early-forgery")
		cl.answersOnce()
		cl.checkSignatures(second)
		cl.checkCommittee(second)
		t.Eval(1)
		cl.Close()
	}
}

// c09Relay: a message that was rejected is not handed on to others who ask for it, and does not stand in
// the way of the genuine one.
func c09Relay(t *T) {
	for k := 0; t.More(k, 12, 200); k++ {
		rng := t.Sub()
		n := 3 + rng.Intn(3)
		cl := newCluster(t, rng, Opts{N: n, Thr: 1, Ed: true, KeepData: true})
		f := newForger(cl, rng)
		type item struct {
			to      int
			key     string
			genuine []byte // nil: never sent
			way     string
		}
		var items []*item
		for j := 0; j < 2*len(forgeries); j++ {
			to := rng.Intn(n)
			from := (to + 1 + rng.Intn(n-1)) % n
			work := uniqueId(rng)
			msg := func() *common.TssMessage {
				return &common.TssMessage{Type: common.TssMessage_UPDATE_MESSAGES, From: cl.Members[from].Id, WorkId: work,
					UpdateMessages: []*common.UpdateMessage{{Round: "SignRound1Message1", Data: randBytes(rng, 40), SerializedMessageRouting: randBytes(rng, 20)}}}
			}
			m, bad := msg(), msg()
			it := &item{to: to, key: keyOf(m, "SignRound1Message1"), way: forgeries[(k+j)%len(forgeries)]}
			genuine := cl.signed(from, m)
			give := func() {
				data, peer := f.forge(it.way, bad, parseSigned(genuine), to)
				cl.deliver(peer, to, data, nil)
				t.Count("forged messages that others ask for", 1)
			}
			switch j % 3 {
			case 0: // only the forgery
				give()
			case 1: // the forgery is first
				give()
				it.genuine = genuine
				cl.deliver(m.From, to, genuine, nil)
			case 2:
				it.genuine = genuine
				cl.deliver(m.From, to, genuine, nil)
				give()
			}
			items = append(items, it)
		}
		cl.Quiesce(5*time.Millisecond, time.Second)
		for _, it := range items {
			who := (it.to + 1 + rng.Intn(n-1)) % n
			ask := askMsg(cl.Members[who].Id, cl.Members[it.to].Id, "", it.key)
			t.SetCase(fmt.Sprintf("a broadcast message is forged (%s) for node %d, which node %d asks for; genuine one: %v", it.way, it.to, who, it.genuine != nil))
			before := len(cl.Sends())
			cl.deliver(ask.From, it.to, cl.signed(who, ask), nil)
			cl.Quiesce(3*time.Millisecond, time.Second)
			answers := 0
			for _, s := range cl.Sends()[before:] {
				if s.From != it.to || s.Msg == nil || s.Msg.TssMessage == nil || s.Msg.TssMessage.Type != common.TssMessage_UPDATE_MESSAGES {
					continue
				}
				answers++
				if it.genuine == nil || toJ(s.Msg) != toJ(parseSigned(it.genuine)) {
					t.Viol("C09", "forgery-relayed", "a node sends %s a message that was not signed by its author (%s)", it.key, it.way)
				}
			}
			if it.genuine != nil && answers == 0 {
				t.Viol("C09", "genuine-lost", "a genuine message cannot be had from a node that got it and a forgery (%s)", it.way)
			}
			t.Count("answers about forged messages", answers)
			t.State("relay", it.way, it.genuine != nil, answers)
		}
		t.Eval(1)
		cl.Close()
	}
}
