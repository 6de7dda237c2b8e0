package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/tss-lib/tss"
)

func init() {
	register(&Check{
		ID:   "C07",
		Rule: "a case is distinct by work kind, size of the group, who asks (member, outsider, stranger), when, and the kind of each question that was asked about each private message",
		Assumptions: []string{"what a node gives to its connection manager is what it transmits",
			"private are the messages of the types that the protocol sends to one party, and all messages whose routing names one receiver"},
		Units: func(tier string, seed int64) []Unit {
			var us []Unit
			for i := 0; i < 3; i++ {
				us = append(us, Unit{Name: fmt.Sprintf("ed-%d", i), Run: func(t *T) {
					for k := 0; t.More(k, 12, 400); k++ {
						c07Run(t, []string{"edgen"}, k)
					}
				}})
			}
			for i := 0; i < 3; i++ {
				us = append(us, Unit{Name: fmt.Sprintf("ec-%d", i), Run: func(t *T) {
					for k := 0; t.More(k, 6, 200); k++ {
						c07Run(t, [][]string{{"ecsign"}, {"ecgen"}, {"ecsign", "ecsign"}, {"ecsign", "edgen"}}[k%4], k)
					}
				}})
			}
			return us
		},
	})
}

// asker is a known party (or a stranger) that asks with its own key.
type asker struct {
	m    *Member
	kind string
}

// askBook records what each party could rightly be sent in answer to its questions.
type askBook struct {
	mu    sync.Mutex
	valid map[string]int // asked node, asking party, key -> number of properly signed questions
}

func (b *askBook) add(to int, from, key string) {
	b.mu.Lock()
	b.valid[fmt.Sprint(to, "|", from, "|", key)]++
	b.mu.Unlock()
}

func askMsg(from, to, work, key string) *common.TssMessage {
	return &common.TssMessage{Type: common.TssMessage_ASK_MESSAGE_REQUEST, From: from, To: to, WorkId: work,
		AskRequestMessage: &common.AskRequestMessage{MsgKey: key}}
}

func keyOf(m *common.TssMessage, round string) string {
	return common.GetMessageKey(m.WorkId, m.From, m.To, round)
}

func c07Run(t *T, kinds []string, k int) {
	rng := t.Sub()
	n := 3
	if kinds[0] == "edgen" || kinds[0] == "ecsign" && len(kinds) == 1 {
		n = 3 + rng.Intn(2)
	}
	o := Opts{N: n, Thr: 1 + rng.Intn(n-1), KeepData: true, Policy: jitter(rng, 10*time.Millisecond)}
	for _, x := range kinds {
		o.Ec = o.Ec || x == "ecsign"
		o.Pre = o.Pre || x == "ecgen"
	}
	cl := newCluster(t, rng, o)
	defer cl.Close()
	outsider, stranger := makeMembers(rng, 1, false)[0], makeMembers(rng, 1, false)[0]
	for i := range cl.Nodes {
		cl.engine(i).AddNodes(nodesOf([]*Member{outsider}))
	}
	t.SetCase(fmt.Sprintf("%v of %d nodes, threshold %d, hostile questions", kinds, n, cl.Thr))
	var works []*Work
	for _, x := range kinds {
		w := &Work{Id: uniqueId(rng), Kind: x}
		if x == "ecsign" {
			w.Msgs = randMsgs(rng, x, 1+rng.Intn(2))
		}
		cl.request(w, 0)
		works = append(works, w)
	}
	book := &askBook{valid: map[string]int{}}
	for _, w := range works {
		for i := 0; i < n; i++ {
			cl.mustSubmit(w, i)
		}
	}
	// While the works are running, and afterwards.
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		arng := t.Sub()
		wg.Add(1)
		go func() {
			defer wg.Done()
			seen := 0
			for {
				select {
				case <-stop:
					return
				default:
				}
				sends := cl.Sends()
				var us []*Send
				for _, s := range sends {
					if isUpdate(s) {
						us = append(us, s)
					}
				}
				if len(us) == 0 {
					time.Sleep(2 * time.Millisecond)
					continue
				}
				s := us[arng.Intn(len(us))]
				if arng.Intn(2) == 0 && seen < len(us) {
					s = us[seen]
					seen++
				}
				cl.hostileAsk(arng, s, book, outsider, stranger)
				time.Sleep(time.Duration(arng.Intn(3000)) * time.Microsecond)
			}
		}()
	}
	for _, w := range works {
		cl.Wait(w, cl.all(), 60*time.Second)
	}
	time.Sleep(50 * time.Millisecond)
	close(stop)
	wg.Wait()
	cl.Quiesce(20*time.Millisecond, time.Second)
	// Every party asks every node for every private message, also after it was shown to nodes that it is
	// not meant for.
	private := 0
	for _, s := range cl.Sends() {
		if !isUpdate(s) || s.Msg.TssMessage.To == "" || cl.byId[s.Msg.TssMessage.From] != s.From || s.To < 0 {
			continue
		}
		private++
		for to := 0; to < n; to++ {
			if to != s.To && to != s.From {
				cl.deliver([]string{cl.Members[s.From].Id, outsider.Id, cl.Members[s.To].Id}[rng.Intn(3)], to, s.Data, nil)
			}
			for _, a := range append(append([]*Member{}, cl.Members...), outsider, stranger) {
				if a.Id == cl.Members[to].Id {
					continue
				}
				cl.ask(a, a.Id, a.Id, "", to, s.Msg.TssMessage.WorkId, keyOf(s.Msg.TssMessage, s.Round()), book)
			}
		}
		if private%6 == 0 {
			cl.Quiesce(2*time.Millisecond, time.Second)
		}
	}
	cl.Quiesce(30*time.Millisecond, 2*time.Second)
	cl.checkPrivate()
	cl.checkPayloads()
	cl.checkAnswers(book)
	for _, w := range works {
		cl.checkSignatures(w)
		cl.checkAllSucceed("C08", w, "asks:"+w.Kind)
	}
	t.Eval(private)
	t.Count("private messages observed", private)
	t.Count("works observed", len(works))
	t.State(fmt.Sprint(kinds), n, cl.Thr, cl.Order())
	t.Sample(t.cur)
	t.Debug("%v: %d private, %d sends, %v", t.cur, private, len(cl.Sends()), time.Since(cl.start))
}

// ask sends a question. The signer, the named author of the question and the transmitting peer may differ.
func (cl *Cluster) ask(signer *Member, from, peer, dest string, to int, work, key string, book *askBook) {
	msg := askMsg(from, dest, work, key)
	bz, err := json.Marshal(msg)
	must(err)
	sig, err := signer.Priv.Sign(bz)
	must(err)
	data, err := json.Marshal(&common.SignedMessage{From: from, TssMessage: msg, Signature: sig})
	must(err)
	if signer.Id == from && (dest == "" || dest == cl.Members[to].Id) {
		book.add(to, from, key)
	}
	cl.t.Count("questions asked", 1)
	cl.deliver(peer, to, data, nil)
}

// hostileAsk asks for a message in one of many ways.
func (cl *Cluster) hostileAsk(rng *rand.Rand, s *Send, book *askBook, outsider, stranger *Member) {
	m := s.Msg.TssMessage
	ms := append(append([]*Member{}, cl.Members...), outsider)
	a := ms[rng.Intn(len(ms))]
	to := rng.Intn(cl.N)
	if rng.Intn(2) == 0 {
		to = s.From
	}
	work, from, dest, round := m.WorkId, m.From, m.To, s.Round()
	how := rng.Intn(9)
	key := common.GetMessageKey(work, from, dest, round)
	switch how {
	case 1:
		key = common.GetMessageKey(work, from, a.Id, round)
	case 2:
		key = common.GetMessageKey(work, from, "", round)
	case 3:
		key = common.GetMessageKey(work+"__"+from+"__"+dest, from, dest, round)
	case 4:
		key = common.GetMessageKey(work, a.Id, dest, round)
	case 5:
		key = common.GetMessageKey("", from, dest, round)
	}
	signer, claimed, peer, msgTo := a, a.Id, a.Id, ""
	if rng.Intn(2) == 0 {
		msgTo = cl.Members[to].Id
	}
	switch how {
	case 6:
		// In the name of somebody else.
		claimed = ms[rng.Intn(len(ms))].Id
	case 7:
		// By another party's connection.
		peer = ms[rng.Intn(len(ms))].Id
	case 8:
		signer, claimed = stranger, stranger.Id
		if rng.Intn(2) == 0 {
			peer = stranger.Id
		}
	}
	if claimed == cl.Members[to].Id {
		return
	}
	cl.t.State("question", how, signer.Id == claimed, signer == outsider, m.To != "", msgTo != "", m.From == cl.Members[to].Id)
	cl.ask(signer, claimed, peer, msgTo, to, work, key, book)
	if m.To != "" && rng.Intn(4) == 0 {
		// Show a private message to a node that it is not meant for.
		if x := rng.Intn(cl.N); cl.Members[x].Id != m.To {
			cl.deliver(a.Id, x, s.Data, nil)
			cl.t.Count("private messages shown to another node", 1)
		}
	}
}

// checkPayloads: the content of a private message reaches no other peer, whatever message carries it.
func (cl *Cluster) checkPayloads() {
	owner := map[string]string{}
	sends := cl.Sends()
	for _, s := range sends {
		if !isUpdate(s) {
			continue
		}
		for _, u := range s.Msg.TssMessage.UpdateMessages {
			r := tss.MessageRouting{}
			if u == nil || json.Unmarshal(u.SerializedMessageRouting, &r) != nil {
				continue
			}
			if !r.IsBroadcast && len(r.To) == 1 && r.To[0] != nil {
				owner[string(u.Data)] = r.To[0].Id
			}
		}
	}
	for _, s := range sends {
		if !isUpdate(s) {
			continue
		}
		for _, u := range s.Msg.TssMessage.UpdateMessages {
			if u == nil {
				continue
			}
			if o, ok := owner[string(u.Data)]; ok && o != s.ToPeer {
				cl.t.Viol("C07", "private-payload-to-other", "node %d sends content for %s to %s: %s", s.From, o, s.ToPeer, s)
			}
		}
	}
	cl.t.Count("private payloads tracked", len(owner))
}

// checkAnswers: apart from the first transmission by its author, a round message is only sent to a party
// that has asked this node for it.
func (cl *Cluster) checkAnswers(book *askBook) {
	first := map[string]bool{}
	answers := map[string]int{}
	for _, s := range cl.Sends() {
		if s.Msg == nil {
			continue
		}
		m := s.Msg.TssMessage
		if m.Type == common.TssMessage_ASK_MESSAGE_REQUEST && s.To >= 0 {
			book.add(s.To, cl.Members[s.From].Id, m.GetAskRequestMessage().GetMsgKey())
		}
		if !isUpdate(s) {
			continue
		}
		key := keyOf(m, s.Round())
		id := fmt.Sprint(s.From, "|", s.ToPeer, "|", key)
		if m.From == cl.Members[s.From].Id && !first[id] && s.To >= 0 {
			first[id] = true
			continue
		}
		answers[id]++
		cl.t.Count("answers observed", 1)
		if m.To != "" {
			cl.t.Count("private answers observed", 1)
		}
	}
	for id, k := range answers {
		if k > book.valid[id] {
			cl.t.Viol("C07", "unasked-answer", "node sends a round message %d times to a peer that asked for it %d times (node|peer|message: %s)", k, book.valid[id], id)
		}
	}
}
