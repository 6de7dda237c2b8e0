package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/sisu-network/dheart/core/message"
	"github.com/sisu-network/dheart/types/common"
	wtypes "github.com/sisu-network/dheart/worker/types"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	edsigning "github.com/sisu-network/tss-lib/eddsa/signing"
	"github.com/sisu-network/tss-lib/tss"
	"google.golang.org/protobuf/proto"
)

func init() {
	register(&Check{
		ID:   "C21",
		Rule: "a case is distinct by work kind, number of parties, batch size and delivery order of an observed work, or by the parts of a message key",
		Units: func(tier string, seed int64) []Unit {
			return []Unit{{Name: "table", Run: c21Table}, {Name: "keys", Run: c21Keys}, {Name: "works-ed", Run: func(t *T) { c21Works(t, "ed") }},
				{Name: "works-ec", Run: func(t *T) { c21Works(t, "ec") }}, {Name: "works-gen", Run: func(t *T) { c21Works(t, "gen") }}}
		},
	})
}

// protoMsg is a message type of a protocol, as tss-lib documents it.
type protoMsg struct {
	step    int // round of the protocol
	private bool
	content tss.MessageContent
}

func (p protoMsg) name() string { return string(proto.MessageName(p.content.(proto.Message))) }

var protocols = map[wtypes.WorkType][]protoMsg{
	wtypes.EcKeygen: {
		{1, false, &eckeygen.KGRound1Message{}}, {2, true, &eckeygen.KGRound2Message1{}}, {2, false, &eckeygen.KGRound2Message2{}}, {3, false, &eckeygen.KGRound3Message{}},
	},
	wtypes.EcSigning: {
		{1, true, &ecsigning.SignRound1Message1{}}, {1, false, &ecsigning.SignRound1Message2{}}, {2, true, &ecsigning.SignRound2Message{}}, {3, false, &ecsigning.SignRound3Message{}},
		{4, false, &ecsigning.SignRound4Message{}}, {5, false, &ecsigning.SignRound5Message{}}, {6, false, &ecsigning.SignRound6Message{}}, {7, false, &ecsigning.SignRound7Message{}},
	},
	wtypes.EdKeygen: {
		{1, false, &edkeygen.KGRound1Message{}}, {2, true, &edkeygen.KGRound2Message1{}}, {2, false, &edkeygen.KGRound2Message2{}},
	},
	wtypes.EdSigning: {
		{1, false, &edsigning.SignRound1Message{}}, {2, false, &edsigning.SignRound2Message{}}, {3, false, &edsigning.SignRound3Message{}},
	},
}

func names(ms []protoMsg) []string {
	var res []string
	for _, m := range ms {
		res = append(res, m.name())
	}
	return res
}

// inOrder says whether list is a permutation of ms in which the rounds do not decrease.
func inOrder(list []string, ms []protoMsg) bool {
	if fmt.Sprint(sorted(list)) != fmt.Sprint(sorted(names(ms))) {
		return false
	}
	last := 0
	for _, l := range list {
		for _, m := range ms {
			if m.name() == l {
				if m.step < last {
					return false
				}
				last = m.step
			}
		}
	}
	return true
}

func c21Table(t *T) {
	for wt, ms := range protocols {
		t.Eval(len(ms))
		type sub struct {
			presigns, message bool
			want              []protoMsg
		}
		subs := []sub{{false, true, ms}}
		if wt == wtypes.EcSigning {
			// With presign data only the last round is left; without a message it is missing.
			subs = append(subs, sub{true, true, ms[7:]}, sub{false, false, ms[:7]})
		}
		for _, s := range subs {
			if got := message.GetMessageCountByWorkType(wt, s.presigns, s.message); got != len(s.want) {
				t.Viol("C21", "count", "work type %v, presigns %v, message %v: the work ends after %d instead of %d messages", wt, s.presigns, s.message, got, len(s.want))
			}
			if !s.message {
				continue
			}
			if got := message.GetMessagesByWorkType(wt, s.presigns); !inOrder(got, s.want) {
				t.Viol("C21", "list", "work type %v, presigns %v: expects %v instead of %v", wt, s.presigns, got, names(s.want))
			}
		}
		lastStep, lastRound := 0, message.Round(-1000)
		for _, m := range ms {
			t.State("type", m.name())
			if got := message.IsBroadcastMessage(m.name()); got == m.private {
				t.Viol("C21", "broadcast", "%s: broadcast is %v", m.name(), got)
			}
			r, err := message.GetMsgRound(m.content)
			if err != nil {
				t.Viol("C21", "round", "the round of %s is not known: %v", m.name(), err)
				continue
			}
			if (m.step == lastStep && r != lastRound) || (m.step > lastStep && r <= lastRound) {
				t.Viol("C21", "round", "%s of round %d of the protocol has round %d after %d", m.name(), m.step, r, lastRound)
			}
			lastStep, lastRound = m.step, r
			t.Count("message types", 1)
		}
	}
	for _, s := range []string{"", "x", "binance.tsslib.ecdsa.keygen.KGRound9Message"} {
		t.Eval(1)
		if message.IsBroadcastMessage(s) {
			t.Viol("C21", "broadcast", "the unknown type %q is a broadcast", s)
		}
	}
	if _, err := message.GetMsgRound(nil); err == nil {
		t.Viol("C21", "round", "something that is no message has a round")
	}
}

func keyText(rng *rand.Rand) string {
	parts := []string{"_", "__", "___", "a", "b", "work", ":", "/", "%s", "é", " ", "-", "0x", "", "12D3KooW", "binance.tsslib"}
	s := ""
	for i := 0; i < rng.Intn(7); i++ {
		s += parts[rng.Intn(len(parts))]
	}
	return s
}

func c21Keys(t *T) {
	var types []string
	for _, ms := range protocols {
		types = append(types, names(ms)...)
	}
	sort.Strings(types)
	rng := t.Sub()
	ms := makeMembers(rng, 5, false)
	seen := map[string]string{}
	for k := 0; t.More(k, 40000, 2000000); k++ {
		work := keyText(rng)
		if rng.Intn(4) == 0 {
			work = uniqueId(rng)
		}
		if rng.Intn(5) == 0 {
			// A work id that looks like a part of another key.
			work = common.GetMessageKey(keyText(rng), ms[rng.Intn(5)].Id, "", types[rng.Intn(len(types))])
		}
		from := ms[rng.Intn(5)].Id
		to := ""
		if rng.Intn(2) == 0 {
			to = ms[rng.Intn(5)].Id
		}
		typ := types[rng.Intn(len(types))]
		parts := []string{work, from, to, typ}
		t.SetCase(parts)
		key := common.GetMessageKey(work, from, to, typ)
		t.Eval(1)
		t.State(work, from, to, typ)
		if o, ok := seen[key]; ok && o != fmt.Sprintf("%q", parts) {
			t.Viol("C21", "key-collision", "the messages %s and %q have the same key", o, parts)
		}
		seen[key] = fmt.Sprintf("%q", parts)
		got, err := common.ExtractMessageKey(key)
		if err != nil || !reflect.DeepEqual(got, parts) {
			t.Viol("C21", "extract", "the key of %q is read as %q (%v)", parts, got, err)
		}
		m := &common.TssMessage{From: from, To: to, WorkId: work, Type: common.TssMessage_UPDATE_MESSAGES, UpdateMessages: []*common.UpdateMessage{{Round: typ}}}
		if mk, err := m.GetMessageKey(); err != nil || mk != key {
			t.Viol("C21", "message-key", "a message %q has the key %q (%v) instead of %q", parts, mk, err, key)
		}
		if m.IsBroadcast() != (to == "") {
			t.Viol("C21", "message-broadcast", "a message to %q: broadcast is %v", to, m.IsBroadcast())
		}
		t.Count("keys", 1)
	}
	// What is no key of a message.
	for _, bad := range []string{"", "a", "a__b", "a__b__c", "_", "____", "a_b_c_d"} {
		var err error
		t.Eval(1)
		if msg := noPanic(func() { _, err = common.ExtractMessageKey(bad) }); msg != "" {
			t.Viol("C21", "extract-panics", "reading the key %q panics: %s", bad, msg)
		} else if err == nil {
			t.Viol("C21", "extract-bad", "%q is read as a key", bad)
		}
	}
	if _, err := (&common.TssMessage{}).GetMessageKey(); err == nil {
		t.Viol("C21", "message-key", "a message without content has a key")
	}
}

// c21Works observes real works: which types each party sends, to whom, and in which rounds.
func c21Works(t *T, what string) {
	quick := map[string]int{"ed": 24, "ec": 8, "gen": 2}[what]
	for k := 0; t.More(k, quick, quick*30); k++ {
		rng := t.Sub()
		n := 2 + rng.Intn(3)
		sc := Scenario{N: n, Batch: 1 + rng.Intn(3), Policy: policyNames[rng.Intn(len(policyNames))]}
		presigns, nilMsg, leader := false, false, 0
		switch what {
		case "ed":
			sc.Kinds = []string{[]string{"edsign", "edgen"}[k%2]}
		case "ec":
			sc.Kinds = []string{"ecsign"}
			presigns = k%4 == 1
			nilMsg = k%4 == 2
			sc.N, sc.Thr = 3, 1
			if k%4 == 3 {
				sc.N, sc.Thr = 3, 2
			}
			if nilMsg {
				sc.Batch = 1
			}
		case "gen":
			sc.Kinds = []string{"ecgen"}
			sc.N = 2 + k%2
		}
		t.SetCase(sc.String())
		o := Opts{N: sc.N, Thr: sc.Thr, Ec: what == "ec", Ed: what == "ed", Pre: what == "gen", KeepData: true, Policy: immediate}
		if presigns {
			o.NoEngine = map[int]bool{0: true, 1: true, 2: true}
		}
		cl := newCluster(t, rng, o)
		if presigns {
			committee := sortedInts(rng.Perm(3)[:2])
			leader = committee[rng.Intn(2)]
			cl.givePresigns("p", committee, dealPresigns(cl.Members, cl.Ec, committee, cl.Thr, sc.Batch))
			for i := 0; i < 3; i++ {
				cl.Up(i, fastTimeouts())
			}
		}
		stop := cl.setPolicy(sc.Policy, rng)
		w := &Work{Id: uniqueId(rng), Kind: sc.Kinds[0]}
		if presigns {
			w.Id = cl.idWithLeader(rng, leader)
		}
		if w.Kind == "ecsign" || w.Kind == "edsign" {
			w.Msgs = randMsgs(rng, w.Kind, sc.Batch)
			if nilMsg {
				w.Msgs = [][]byte{nil}
			}
		}
		cl.request(w, 0)
		for i := 0; i < cl.N; i++ {
			cl.mustSubmit(w, i)
		}
		ended := cl.Wait(w, cl.all(), 40*time.Second)
		stop()
		cl.Quiesce(50*time.Millisecond, 2*time.Second)
		t.Eval(1)
		t.State(w.Kind, cl.N, sc.Batch, presigns, nilMsg, cl.Order())
		succ, fail, _ := cl.tally(w)
		if nilMsg {
			// There is nothing to report but a failure: a presign has no signature.
			succ, fail = fail, nil
		}
		if !ended || len(succ) == 0 || len(fail) > 0 {
			// Whether works succeed is another property. Nothing can be said about this one here, except
			// that it did not end although all was delivered: its messages are counted wrongly.
			t.Live("C21", w.Kind+":no-end", "%s: a work whose messages were all delivered does not succeed: success on %v, failure on %v", sc, succ, fail)
			cl.Close()
			continue
		}
		wt := map[string]wtypes.WorkType{"ecgen": wtypes.EcKeygen, "edgen": wtypes.EdKeygen, "ecsign": wtypes.EcSigning, "edsign": wtypes.EdSigning}[w.Kind]
		t.checkObserved(cl, w, wt, nilMsg)
		cl.Close()
	}
}

func (t *T) checkObserved(cl *Cluster, w *Work, wt wtypes.WorkType, nilMsg bool) {
	type link struct{ from, to int }
	byLink := map[link]map[string]bool{}
	dests := map[string]map[string]bool{} // author and type: To fields
	keys := map[string]string{}
	parts := map[int]bool{}
	for _, s := range cl.Sends() {
		if s.Msg == nil || s.Msg.TssMessage.Type != common.TssMessage_UPDATE_MESSAGES || s.Msg.TssMessage.WorkId != w.Id {
			continue
		}
		m := s.Msg.TssMessage
		if m.From != cl.Members[s.From].Id || len(m.UpdateMessages) == 0 {
			continue
		}
		parts[s.From], parts[s.To] = true, true
		r := s.Round()
		l := link{s.From, s.To}
		if byLink[l] == nil {
			byLink[l] = map[string]bool{}
		}
		byLink[l][r] = true
		a := fmt.Sprint(s.From, " ", r)
		if dests[a] == nil {
			dests[a] = map[string]bool{}
		}
		dests[a][m.To] = true
		if message.IsBroadcastMessage(r) != (m.To == "") {
			t.Viol("C21", "broadcast-observed", "%s is sent to %q, but broadcast is %v", r, m.To, message.IsBroadcastMessage(r))
		}
		for _, u := range m.UpdateMessages {
			if u.Round != r {
				t.Viol("C21", "mixed-types", "a message has content of the types %s and %s", r, u.Round)
			}
			mr := &tss.MessageRouting{}
			must(jsonDecode(u.SerializedMessageRouting, mr))
			pm, err := tss.ParseWireMessage(u.Data, mr.From, mr.IsBroadcast)
			if err != nil {
				t.Viol("C21", "unparsable", "a sent message of type %s cannot be parsed: %v", r, err)
				continue
			}
			rd, err := message.GetMsgRound(pm.Content())
			if err != nil {
				t.Viol("C21", "round-observed", "the round of a sent message of type %s is not known", r)
			}
			name := string(proto.MessageName(pm.Content().(proto.Message)))
			if name != r {
				t.Viol("C21", "type-name", "a message of type %s is sent as %s", name, r)
			}
			if mr.IsBroadcast != (m.To == "") {
				t.Viol("C21", "routing", "%s: the routing says broadcast %v, the message is to %q", r, mr.IsBroadcast, m.To)
			}
			t.Count(fmt.Sprintf("round %d", rd), 1)
		}
		k, err := m.GetMessageKey()
		if err != nil {
			t.Viol("C21", "message-key", "a sent message has no key: %v", err)
			continue
		}
		id := fmt.Sprint(m.WorkId, "|", m.From, "|", m.To, "|", r)
		if o, ok := keys[k]; ok && o != id {
			t.Viol("C21", "key-collision", "two messages have the key %s", k)
		}
		keys[k] = id
		t.Count("messages observed", 1)
	}
	hasPresigns := wt == wtypes.EcSigning && !nilMsg && func() bool {
		for _, s := range byLink {
			for r := range s {
				if strings.Contains(r, "SignRound1Message") {
					return false
				}
			}
		}
		return true
	}()
	// Each peer of the work gets exactly the types that it expects.
	for l, s := range byLink {
		var got []string
		for r := range s {
			got = append(got, r)
		}
		if n := message.GetMessageCountByWorkType(wt, hasPresigns, !nilMsg); n != len(got) {
			t.Viol("C21", "count-observed", "%s (presigns %v, message %v): node %d sends %d types to node %d, the node counts %d", w.Kind, hasPresigns, !nilMsg, l.from, len(got), l.to, n)
		}
		if nilMsg {
			continue
		}
		want := message.GetMessagesByWorkType(wt, hasPresigns)
		if fmt.Sprint(sorted(got)) != fmt.Sprint(sorted(want)) {
			t.Viol("C21", "list-observed", "%s (presigns %v): node %d sends %v to node %d, which expects %v", w.Kind, hasPresigns, l.from, got, l.to, want)
		}
		t.Count("links observed", 1)
		if hasPresigns {
			t.Count("links observed with presigns", 1)
		}
	}
	t.Sample(map[string]interface{}{"work": w.Kind, "links": len(byLink), "presigns": hasPresigns, "nil message": nilMsg})
}
