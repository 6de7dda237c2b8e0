package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"time"

	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/tss-lib/tss"
)

func init() {
	register(&Check{
		ID:          "C01",
		Rule:        "a case is distinct by kind, group size, threshold, batch size, path (with or without stored presigns), lengths and leading zeros of messages and signature halves, and delivery order",
		Assumptions: []string{"presigns with chosen nonces are made by a trusted dealer of the harness in the format of tss-lib"},
		Units:       c01Units,
	})
}

func c01Units(tier string, seed int64) []Unit {
	var us []Unit
	for i := 0; i < 3; i++ {
		us = append(us, Unit{Name: fmt.Sprintf("ecpre-%d", i), Run: c01Presigned})
		us = append(us, Unit{Name: fmt.Sprintf("ed-%d", i), Run: c01Ed})
	}
	for i := 0; i < 2; i++ {
		us = append(us, Unit{Name: fmt.Sprintf("ecfull-%d", i), Run: c01Full})
	}
	us = append(us, Unit{Name: "corrupt", Run: c01Corrupt})
	return us
}

func zeros(b []byte) int {
	n := 0
	for n < len(b) && b[n] == 0 {
		n++
	}
	return n
}

// record notes what kind of signatures were observed.
func (cl *Cluster) recordSigs(w *Work, path string) {
	t := cl.t
	if w.Kind == "ecsign" {
		full := false
		for _, s := range cl.Sends() {
			full = full || (s.Msg != nil && s.Msg.TssMessage.WorkId == w.Id && short(s.Round()) == "SignRound1Message1")
		}
		t.Count(fmt.Sprintf("ecdsa works without stored presigns: %v", full), 1)
	}
	for _, os := range cl.of(w) {
		for _, o := range os {
			if o.Sign == nil {
				continue
			}
			for k, sig := range o.Sign.Signatures {
				if k >= len(w.Msgs) || len(sig) < 64 {
					continue
				}
				zr, zs := zeros(sig[:32]), zeros(sig[32:64])
				if w.Kind == "ecsign" && zr+zs > 0 {
					t.Count(fmt.Sprintf("signatures with leading zeros r=%d s=%d", zr, zs), 1)
				}
				t.State(w.Kind, path, cl.N, cl.Thr, len(w.Msgs), len(w.Msgs[k]), zeros(w.Msgs[k]), zr, zs)
			}
			return
		}
	}
}

// signAll runs works on a cluster, some of them at the same time, and checks the signatures.
func (cl *Cluster) signAll(rng *rand.Rand, works []*Work, path string, parallel int) {
	t := cl.t
	for len(works) > 0 {
		n := 1 + rng.Intn(parallel)
		if n > len(works) {
			n = len(works)
		}
		cur := works[:n]
		works = works[n:]
		cl.submitAll(cur, rng, time.Duration(rng.Intn(2))*20*time.Millisecond, false)
		for _, w := range cur {
			cl.Wait(w, cl.all(), 60*time.Second)
		}
		cl.Quiesce(10*time.Millisecond, time.Second)
		for _, w := range cur {
			cl.checkSignatures(w)
			succ, _, _ := cl.tally(w)
			t.Count("works with signatures", btoi(len(succ) > 0))
			t.Count("works without signatures", btoi(len(succ) == 0))
			if len(succ) == 0 {
				t.Debug("no signature: %v %v", t.cur, toJson(cl.workDetail(w)))
			}
			cl.recordSigs(w, path)
			t.Eval(1)
		}
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func c01Presigned(t *T) {
	for round := 0; t.More(round, 4, 60); round++ {
		rng := t.Sub()
		n := 2 + rng.Intn(3)
		if round%4 == 3 {
			n = 5
		}
		thr := 1 + rng.Intn(n-1)
		if n > 4 {
			thr = n - 2 + rng.Intn(2)
		}
		nonces := map[int][]*big.Int{}
		committees := subsets(n, thr+1)
		cl := newCluster(t, rng, Opts{N: n, Thr: thr, Ec: true, Before: func(cl *Cluster) {
			for c, committee := range committees {
				for k := 0; k < 95; k++ {
					nonce := randNonce(rng)
					if k%3 == 0 {
						nonce = nonceWithZeros(rng, 1)
					}
					nonces[c] = append(nonces[c], nonce)
				}
				cl.forgeBatch(rng, fmt.Sprintf("pre%d", c), committee, nonces[c])
			}
		}})
		policy := policyNames[rng.Intn(len(policyNames))]
		stop := cl.setPolicy(policy, rng)
		t.SetCase(fmt.Sprintf("n=%d thr=%d committees=%v policy=%s", n, thr, committees, policy))
		// One leader for all: works of two leaders that run at the same time can name the same presigns
		// (a known finding of C05).
		leader := rng.Intn(n)
		var works []*Work
		for k := 0; k < t.Pick(9, 14); k++ {
			w := &Work{Id: cl.idWithLeader(rng, leader), Kind: "ecsign", Msgs: randMsgs(rng, "ecsign", 1+rng.Intn(5))}
			// Some messages lead to a small s.
			for j := range w.Msgs {
				if rng.Intn(3) == 0 {
					c := rng.Intn(len(committees))
					s := new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), uint(256-8*(1+rng.Intn(4)))))
					if s.Sign() > 0 {
						w.Msgs[j] = messageForS(cl.EcSecret, nonces[c][rng.Intn(len(nonces[c]))], s)
					}
				}
			}
			works = append(works, w)
		}
		if round%2 == 0 {
			works[0].Msgs = manyMsgs(rng, "ecsign", 24)
		}
		// A message for a known presign: the first work of a group with one committee uses its first ones.
		if len(committees) == 1 {
			var msgs [][]byte
			for k := 0; k < 4; k++ {
				s := new(big.Int).Lsh(big.NewInt(int64(1+rng.Intn(200))), uint(240-8*k*7))
				msgs = append(msgs, messageForS(cl.EcSecret, nonces[0][k], s))
			}
			works = append([]*Work{{Id: cl.idWithLeader(rng, leader), Kind: "ecsign", Msgs: msgs}}, works...)
			cl.signAll(rng, works[:1], "presigns", 1)
			works = works[1:]
		}
		cl.signAll(rng, works, "presigns", 2)
		stop()
		t.Sample(t.cur)
		t.Debug("%v", t.cur)
		cl.Close()
	}
}

// manyMsgs makes a large batch in which some messages are the same.
func manyMsgs(rng *rand.Rand, kind string, max int) [][]byte {
	msgs := randMsgs(rng, kind, 11+rng.Intn(max-10))
	for i := range msgs {
		if rng.Intn(8) == 0 {
			msgs[i] = msgs[rng.Intn(len(msgs))]
		}
	}
	return msgs
}

func c01Full(t *T) {
	for k := 0; t.More(k, 5, 60); k++ {
		rng := t.Sub()
		n := 2 + rng.Intn(3)
		cl := newCluster(t, rng, Opts{N: n, Thr: 1 + rng.Intn(n-1), Ec: true})
		policy := policyNames[rng.Intn(6)]
		stop := cl.setPolicy(policy, rng)
		t.SetCase(fmt.Sprintf("n=%d thr=%d full signing policy=%s", n, cl.Thr, policy))
		var works []*Work
		for j := 0; j < 2; j++ {
			works = append(works, &Work{Id: uniqueId(rng), Kind: "ecsign", Msgs: randMsgs(rng, "ecsign", 1+rng.Intn(4))})
		}
		cl.signAll(rng, works, "full", 2)
		stop()
		t.Debug("%v", t.cur)
		cl.Close()
	}
}

func c01Ed(t *T) {
	for k := 0; t.More(k, 6, 100); k++ {
		rng := t.Sub()
		n := 2 + rng.Intn(5)
		cl := newCluster(t, rng, Opts{N: n, Thr: 1 + rng.Intn(n-1), Ed: true})
		policy := policyNames[rng.Intn(len(policyNames))]
		stop := cl.setPolicy(policy, rng)
		t.SetCase(fmt.Sprintf("n=%d thr=%d eddsa policy=%s", n, cl.Thr, policy))
		var works []*Work
		for j := 0; j < 4; j++ {
			works = append(works, &Work{Id: uniqueId(rng), Kind: "edsign", Msgs: randMsgs(rng, "edsign", 1+rng.Intn(5))})
		}
		if rng.Intn(2) == 0 {
			// A message that starts with zero bytes: whatever is reported must be valid.
			works[1].Msgs[0] = append(make([]byte, 1+rng.Intn(3)), randBytes(rng, 20)...)
		}
		if k%3 == 0 && n < 5 {
			works[2].Msgs = manyMsgs(rng, "edsign", 20)
		}
		cl.signAll(rng, works, "ed", 2)
		stop()
		t.Debug("%v", t.cur)
		cl.Close()
	}
}

// c01Corrupt: a member of the committee sends wrong shares. Nobody may report a wrong signature.
func c01Corrupt(t *T) {
	for k := 0; t.More(k, 16, 200); k++ {
		rng := t.Sub()
		n := 2 + rng.Intn(3)
		kind := []string{"edsign", "ecsign"}[k%2]
		o := Opts{N: n, Thr: n - 1, Ed: kind == "edsign", Ec: kind == "ecsign"}
		if o.Ec {
			o.Before = func(cl *Cluster) {
				cl.forgeBatch(rng, "pre", cl.all(), []*big.Int{randNonce(rng), randNonce(rng), randNonce(rng)})
			}
		}
		cl := newCluster(t, rng, o)
		bad := rng.Intn(n)
		w := &Work{Id: uniqueId(rng), Kind: kind, Msgs: randMsgs(rng, kind, 1+rng.Intn(3))}
		round := ""
		if kind == "edsign" {
			round = []string{"SignRound1Message", "SignRound2Message", "SignRound3Message"}[rng.Intn(3)]
		} else {
			round = "SignRound7Message"
		}
		t.SetCase(fmt.Sprintf("n=%d %s: node %d sends a wrong %s", n, kind, bad, round))
		var other [][]byte
		changed := 0
		cl.SetTamper(func(s *Send, to int) [][]byte {
			if s.From != bad || !isUpdate(s) || short(s.Round()) != round {
				return nil
			}
			m := cloneMsg(s.Msg.TssMessage)
			u := m.UpdateMessages[rand.Intn(len(m.UpdateMessages))]
			u.Data = corruptWire(u.Data, rand.New(rand.NewSource(int64(hash64(string(u.Data))>>1))))
			changed++
			_ = other
			return [][]byte{cl.signed(bad, m)}
		})
		cl.submitAll([]*Work{w}, rng, 0, false)
		cfg := 20 * time.Second
		cl.Wait(w, othersOf(cl.all(), bad), cfg)
		cl.Quiesce(50*time.Millisecond, time.Second)
		cl.checkSignatures(w)
		succ, fail, _ := cl.tally(w)
		t.Count("corrupted works", 1)
		t.Count("corrupted works: nodes that report failure", len(fail))
		t.Count("corrupted works: nodes that report success", len(succ))
		t.State("corrupt", kind, round, n, len(w.Msgs), len(succ), len(fail))
		t.Eval(1)
		t.Debug("%v changed=%d succ=%v fail=%v", t.cur, changed, succ, fail)
		cl.Close()
	}
}

func othersOf(all []int, not int) []int {
	var res []int
	for _, i := range all {
		if i != not {
			res = append(res, i)
		}
	}
	return res
}

func cloneMsg(m *common.TssMessage) *common.TssMessage {
	bz, err := json.Marshal(m)
	must(err)
	c := &common.TssMessage{}
	must(json.Unmarshal(bz, c))
	return c
}

// corruptWire changes the content of a protocol message so that it can still be parsed.
func corruptWire(data []byte, rng *rand.Rand) []byte {
	for try := 0; try < 200; try++ {
		c := append([]byte{}, data...)
		// The end of the message is the content, the start is its type.
		i := len(c) - 1 - rng.Intn(min(len(c)-1, 30))
		c[i] ^= byte(1 << uint(rng.Intn(8)))
		pid := tss.NewPartyID("x", "", big.NewInt(1))
		pid.Index = 0
		if m, err := tss.ParseWireMessage(c, pid, true); err == nil && m.ValidateBasic() {
			return c
		}
	}
	return data
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func toJson(v interface{}) string {
	bz, _ := json.Marshal(v)
	return string(bz)
}
