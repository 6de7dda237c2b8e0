package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/decred/dcrd/dcrec/edwards/v2"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/worker"
	"github.com/sisu-network/tss-lib/crypto"
	"github.com/sisu-network/tss-lib/tss"
)

func chooseLeader(workId string, pids []*tss.PartyID) string {
	return worker.ChooseLeader(workId, pids).Id
}

func ecPubBytes(p *crypto.ECPoint) []byte {
	return append(append([]byte{4}, pad32(p.X())...), pad32(p.Y())...)
}

func edPubBytes(p *crypto.ECPoint) []byte {
	return edwards.NewPublicKey(p.X(), p.Y()).Serialize()
}

func pad32(x *big.Int) []byte {
	b := x.Bytes()
	return append(make([]byte, 32-len(b)), b...)
}

// digest32 is how ecdsa reads a message: its leftmost 256 bits.
func digest32(msg []byte) []byte {
	if len(msg) >= 32 {
		return msg[:32]
	}
	return append(make([]byte, 32-len(msg)), msg...)
}

// verifyEc recovers the key from r||s||v. It does not use any code of the node.
func verifyEc(pub, msg, sig []byte) error {
	if len(sig) != 65 {
		return fmt.Errorf("length %d", len(sig))
	}
	got, err := ethcrypto.Ecrecover(digest32(msg), sig)
	if err != nil {
		return err
	}
	if !bytes.Equal(got, pub) {
		return fmt.Errorf("recovers another key %x", got)
	}
	if !ethcrypto.VerifySignature(pub, digest32(msg), sig[:64]) {
		return fmt.Errorf("does not verify")
	}
	return nil
}

func verifyEd(pub, msg, sig []byte) error {
	if len(sig) != 64 {
		return fmt.Errorf("length %d", len(sig))
	}
	if !ed25519.Verify(ed25519.PublicKey(pub), msg, sig) {
		return fmt.Errorf("does not verify")
	}
	return nil
}

// checkSignatures is the monitor of C01 over all reports of a work.
func (cl *Cluster) checkSignatures(w *Work) {
	t := cl.t
	if w.Kind != "ecsign" && w.Kind != "edsign" {
		return
	}
	var first *Outcome
	res := cl.of(w)
	for i := 0; i < cl.N; i++ {
		for _, o := range res[i] {
			if o.Kind != "sign" || o.Outcome != htypes.OutcomeSuccess {
				if o.Sign != nil && len(o.Sign.Signatures) > 0 {
					t.Viol("C01", "signatures-without-success", "node %d reports outcome %d with %d signatures", i, o.Outcome, len(o.Sign.Signatures))
				}
				continue
			}
			t.Count("signing successes checked", 1)
			sigs := o.Sign.Signatures
			if len(sigs) != len(w.Msgs) {
				t.Viol("C01", w.Kind+":count", "node %d reports %d signatures for %d messages", i, len(sigs), len(w.Msgs))
				continue
			}
			for k := range sigs {
				var err error
				if w.Kind == "ecsign" {
					err = verifyEc(ecPubBytes(cl.Ec[0].ECDSAPub), w.Msgs[k], sigs[k])
				} else {
					err = verifyEd(edPubBytes(cl.Ed[0].EDDSAPub), w.Msgs[k], sigs[k])
				}
				t.Count("signatures verified", 1)
				if err != nil {
					t.Viol("C01", w.Kind+":invalid", "node %d, signature %d of %d (%x) for message %x is invalid: %v", i, k, len(sigs), sigs[k], w.Msgs[k], err)
				}
			}
			if first == nil {
				first = o
			} else {
				for k := range sigs {
					if k < len(first.Sign.Signatures) && !bytes.Equal(first.Sign.Signatures[k], sigs[k]) {
						t.Viol("C01", w.Kind+":differ", "nodes %d and %d report different signatures for message %d", first.Node, i, k)
					}
				}
			}
		}
	}
}

// checkKeygen is the monitor of C02 over the reports of a key generation.
func (cl *Cluster) checkKeygen(w *Work, pubs map[string]string) {
	t := cl.t
	var first *Outcome
	res := cl.of(w)
	for i := 0; i < cl.N; i++ {
		for _, o := range res[i] {
			if o.Kind != "keygen" || o.Outcome != htypes.OutcomeSuccess {
				continue
			}
			pub := o.Keygen.PubKeyBytes
			if o.Keygen.KeyType != w.KeyType {
				t.Viol("C02", "key-type", "node %d reports key type %q instead of %q", i, o.Keygen.KeyType, w.KeyType)
			}
			if !o.Persisted {
				t.Viol("C02", w.Kind+":not-persisted", "node %d reports success before its share can be loaded: %s", i, o.PersistMsg)
				continue
			}
			var stored []byte
			if w.Kind == "ecgen" {
				if _, err := ethcrypto.UnmarshalPubkey(pub); err != nil {
					t.Viol("C02", "ecgen:invalid-key", "node %d reports an invalid ecdsa key %x: %v", i, pub, err)
				}
				k, err := cl.Nodes[i].Db.LoadEcKeygen(w.KeyType)
				if err != nil {
					t.Viol("C02", "ecgen:share-lost", "node %d: the share cannot be loaded: %v", i, err)
					continue
				}
				stored = ecPubBytes(k.ECDSAPub)
				checkShareEc(t, cl, i, k.Xi, k.ShareID, k.Ks, k.BigXj)
			} else {
				if _, err := edwards.ParsePubKey(pub); err != nil {
					t.Viol("C02", "edgen:invalid-key", "node %d reports an invalid eddsa key %x: %v", i, pub, err)
				}
				k, err := cl.Nodes[i].Db.LoadEdKeygen(w.KeyType)
				if err != nil {
					t.Viol("C02", "edgen:share-lost", "node %d: the share cannot be loaded: %v", i, err)
					continue
				}
				stored = edPubBytes(k.EDDSAPub)
				checkShareEd(t, cl, i, k.Xi, k.ShareID, k.Ks, k.BigXj)
			}
			t.Count("keygen successes checked", 1)
			if !bytes.Equal(stored, pub) {
				t.Viol("C02", w.Kind+":share-of-other-key", "node %d reports key %x but stored a share of %x", i, pub, stored)
			}
			if first == nil {
				first = o
				if prev, ok := pubs[hex.EncodeToString(pub)]; ok {
					t.Viol("C02", w.Kind+":key-repeated", "the key of %s is the key of %s", w.Id, prev)
				}
				pubs[hex.EncodeToString(pub)] = w.Id
			} else if !bytes.Equal(first.Keygen.PubKeyBytes, pub) {
				t.Viol("C02", w.Kind+":keys-differ", "nodes %d and %d report different keys", first.Node, i)
			}
		}
	}
}

func checkShareEc(t *T, cl *Cluster, i int, xi, shareId *big.Int, ks []*big.Int, bigX []*crypto.ECPoint) {
	checkShare(t, cl, i, tss.EcdsaScheme, "ecgen", xi, shareId, ks, bigX)
}

func checkShareEd(t *T, cl *Cluster, i int, xi, shareId *big.Int, ks []*big.Int, bigX []*crypto.ECPoint) {
	checkShare(t, cl, i, tss.EddsaScheme, "edgen", xi, shareId, ks, bigX)
}

func checkShare(t *T, cl *Cluster, i int, scheme, kind string, xi, shareId *big.Int, ks []*big.Int, bigX []*crypto.ECPoint) {
	if xi == nil || shareId == nil || len(ks) != cl.N || len(bigX) != cl.N {
		t.Viol("C02", kind+":share-incomplete", "node %d stored an incomplete share (%d keys, %d public shares for %d parties)", i, len(ks), len(bigX), cl.N)
		return
	}
	if shareId.Cmp(cl.Members[i].Pid.KeyInt()) != 0 {
		t.Viol("C02", kind+":share-of-other-party", "node %d stored the share of another party", i)
	}
	for j := range ks {
		if ks[j].Cmp(cl.Members[j].Pid.KeyInt()) != 0 {
			t.Viol("C02", kind+":parties", "node %d stored other parties than those of the key generation", i)
		}
	}
	x := crypto.ScalarBaseMult(tss.EC(scheme), xi)
	if x.X().Cmp(bigX[i].X()) != 0 || x.Y().Cmp(bigX[i].Y()) != 0 {
		t.Viol("C02", kind+":share-does-not-match", "node %d stored a share that does not belong to its public share", i)
	}
}

// checkPrivate is the monitor of C07 over everything that was sent.
func (cl *Cluster) checkPrivate() {
	t := cl.t
	for _, s := range cl.Sends() {
		if s.Msg == nil {
			continue
		}
		m := s.Msg.TssMessage
		if m.Type != common.TssMessage_UPDATE_MESSAGES {
			continue
		}
		t.Count("round messages observed", 1)
		if m.To != "" && m.To != s.ToPeer {
			t.Viol("C07", "private-to-other", "node %d sends a message for %s to %s: %s", s.From, m.To, s.ToPeer, s)
		}
		if m.To != "" && m.From != cl.Members[s.From].Id {
			t.Viol("C07", "private-relayed", "node %d sends a private message of %s: %s", s.From, m.From, s)
		}
		for _, u := range m.UpdateMessages {
			if u == nil {
				continue
			}
			r := tss.MessageRouting{}
			if json.Unmarshal(u.SerializedMessageRouting, &r) != nil {
				continue
			}
			if !r.IsBroadcast && len(r.To) == 1 && r.To[0] != nil && r.To[0].Id != s.ToPeer {
				t.Viol("C07", "private-content-to-other", "node %d sends content for %s to %s: %s", s.From, r.To[0].Id, s.ToPeer, s)
			}
			if !isBroadcastType(u.Round) && m.To == "" {
				t.Viol("C07", "private-broadcast", "node %d sends a message of the private type %s to everyone: %s", s.From, u.Round, s)
			}
		}
	}
}

// The types that the protocol defines as private (P2P), by the documentation of tss-lib.
func isBroadcastType(round string) bool {
	switch short2(round) {
	case "ecdsa.keygen.KGRound2Message1", "ecdsa.signing.SignRound1Message1", "ecdsa.signing.SignRound2Message", "eddsa.keygen.KGRound2Message1":
		return false
	}
	return true
}

func short2(r string) string {
	r = strings.TrimPrefix(r, "binance.tsslib.")
	parts := strings.Split(r, ".")
	if len(parts) >= 3 {
		return strings.Join(parts[len(parts)-3:], ".")
	}
	return r
}

// checkOnce is the monitor of C03: exactly one outcome for each accepted request.
func (cl *Cluster) checkOnce(w *Work, accepted []int) {
	res := cl.of(w)
	acc := map[int]bool{}
	for _, i := range accepted {
		acc[i] = true
	}
	for i := 0; i < cl.N; i++ {
		n := len(res[i])
		if acc[i] {
			cl.t.Count("accepted requests checked", 1)
		}
		switch {
		case acc[i] && n > 1:
			cl.t.Viol("C03", w.Kind+":several-outcomes", "node %d reports %d outcomes of %s: %s", i, n, w.Id, outStr(res[i]))
		case acc[i] && n == 0:
			cl.t.Live("C03", w.Kind+":no-outcome", "node %d reports no outcome of %s", i, w.Id)
		case !acc[i] && n > 0:
			cl.t.Viol("C03", w.Kind+":unasked-outcome", "node %d reports an outcome of %s that it was not asked for", i, w.Id)
		}
	}
}

func outStr(os []*Outcome) string {
	var s []string
	for _, o := range os {
		s = append(s, fmt.Sprintf("%s/%d at %v", o.Kind, o.Outcome, o.At))
	}
	return strings.Join(s, ", ")
}

// tally of a work: nodes with success, failure, not selected.
func (cl *Cluster) tally(w *Work) (succ, fail, notSel []int) {
	for i, os := range cl.of(w) {
		for _, o := range os {
			switch o.Outcome {
			case htypes.OutcomeSuccess:
				succ = append(succ, i)
			case htypes.OutcometNotSelected:
				notSel = append(notSel, i)
			default:
				fail = append(fail, i)
			}
		}
	}
	sort.Ints(succ)
	sort.Ints(fail)
	sort.Ints(notSel)
	return
}

func (cl *Cluster) trace(n int) []string {
	s := cl.Sends()
	var res []string
	for i, x := range s {
		if i < n/2 || i >= len(s)-n/2 {
			res = append(res, fmt.Sprintf("%v %s", x.At.Round(time.Millisecond), x))
		}
	}
	return res
}

// workDetail describes a run for a replay file.
func (cl *Cluster) workDetail(w *Work) interface{} {
	outs := map[string]string{}
	for i, os := range cl.of(w) {
		outs[fmt.Sprint(i)] = outStr(os)
	}
	return map[string]interface{}{"work": w.Id, "kind": w.Kind, "n": cl.N, "threshold": cl.Thr, "outcomes": outs,
		"sends": cl.trace(120), "logs": recentLogs()}
}

// leaderOf is the leader of a work.
func (cl *Cluster) leaderOf(w *Work) int {
	return cl.byId[chooseLeader(w.Id, cl.partyIds(w))]
}
