package main

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"net"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/utils"
)

func init() {
	register(&Check{
		ID:          "C16",
		Rule:        "a case is distinct by the sequence of calls and their answers",
		Assumptions: []string{"calls are made through the rpc server of the node, in the same process, and results are recorded at its client interface", "in-memory database"},
		Units: func(tier string, seed int64) []Unit {
			return []Unit{{Name: "calls-0", Run: c16Calls}, {Name: "calls-1", Run: c16Calls}, {Name: "keys", Run: c16Keys}, {Name: "echo-0", Run: func(t *T) { c16Echo(t, "eddsa") }}, {Name: "echo-1", Run: func(t *T) { c16Echo(t, "eddsa") }}, {Name: "echo-ec", Run: func(t *T) { c16Echo(t, "ecdsa") }},
				{Name: "offline", Run: c16Offline}}
		},
	})
}

func someMsgs(rng *rand.Rand, n int) []*htypes.KeysignMessage {
	var res []*htypes.KeysignMessage
	for i := 0; i < n; i++ {
		res = append(res, &htypes.KeysignMessage{Id: fmt.Sprintf("%s-%d", uniqueId(rng), i), InChain: randText(rng), OutChain: randText(rng), OutHash: fmt.Sprintf("%x", rng.Uint64()),
			Bytes: randBytes(rng, rng.Intn(50)), BytesToSign: append([]byte{byte(1 + rng.Intn(255))}, append(randBytes(rng, 30), 1)...)})
	}
	return res
}

// badPubs makes lists of public keys that cannot be used.
func badPubs(rng *rand.Rand, good []ctypes.PubKey) ([]htypes.PubKeyWrapper, string) {
	w := wrap(good)
	i := rng.Intn(len(w))
	switch rng.Intn(5) {
	case 0:
		w[i].KeyType = []string{"", "sr25519", "Secp256k1"}[rng.Intn(3)]
		return w, "unknown type"
	case 1:
		w[i].Key = w[i].Key[:len(w[i].Key)-1]
		return w, "too short"
	case 2:
		w[i].Key = append(append([]byte{}, w[i].Key...), 7)
		return w, "too long"
	case 3:
		w[i].Key = nil
		return w, "empty key"
	}
	w[i].KeyType = map[string]string{"secp256k1": "ed25519", "ed25519": "secp256k1"}[w[i].KeyType]
	return w, "other type"
}

func mustRefuse(t *T, key, what string, err error) {
	t.Eval(1)
	t.Count("refusals", 1)
	if err == nil {
		t.Viol("C16", key, "%s is not refused", what)
	}
}

// c16Calls makes random sequences of calls and compares the answers with a model of three variables.
func c16Calls(t *T) {
	for k := 0; t.More(k, 6, 200); k++ {
		rng := t.Sub()
		privs := []ctypes.PrivKey{randSecp(rng), []ctypes.PrivKey{randSecp(rng), randEd(rng)}[rng.Intn(2)]}
		if k%3 == 1 {
			privs[0] = randEd(rng)
		}
		p := newHeartPair(t, privs)
		h := p.h
		keySet, ready, haveEd, haveEc := false, false, false, false
		var hist []string
		step := func(f string, a ...interface{}) {
			hist = append(hist, fmt.Sprintf(f, a...))
			t.SetCase(hist)
		}
		expect := func(key, what string, err error, ok bool) {
			t.Eval(1)
			state := fmt.Sprintf("key set %v, ready %v, eddsa key %v", keySet, ready, haveEd)
			if ok {
				t.Count("acceptances", 1)
				if err != nil {
					t.Viol("C16", key, "%s (%s) is refused: %v", what, state, err)
				}
			} else {
				t.Count("refusals", 1)
				if err == nil {
					t.Viol("C16", key, "%s (%s) is not refused", what, state)
				}
			}
			t.State(what, state)
		}
		sent := 0
		var refused []*htypes.KeysignRequest
		steps := t.Pick(40, 60)
		for s := 0; s < steps && t.NumViol() < 5; s++ {
			can := keySet && ready
			op := rng.Intn(11)
			if s == steps/2 && !keySet {
				op = 1
			}
			if s == steps/2+1 && !ready {
				op = 0
			}
			switch op {
			case 0:
				ready = rng.Intn(3) > 0
				if s == steps/2+1 {
					ready = true
				}
				step("ready %v", ready)
				h.Ready(ready)
			case 1:
				step("good key")
				expect("good-key", "the private key", h.SetPrivKey(privs[0]), true)
				keySet = true
			case 2:
				o := privs[1]
				if rng.Intn(2) == 0 {
					o = randSecp(rng)
				}
				if !keySet {
					continue
				}
				step("other key")
				expect("other-key", "another private key", h.SetPrivKey(o), false)
			case 3:
				bz := privs[0].Bytes()
				enc, kt, what := encKey(bz, theAesKey), privs[0].Type(), ""
				switch x := rng.Intn(7); {
				case x == 0:
					enc, what = "zz"+enc, "no hex"
				case x == 1:
					enc, what = enc[:rng.Intn(20)], "truncated"
				case x == 2:
					enc, what = encKey(bz, []byte("another key of the same length!!")), "encrypted with another key"
				case x == 3:
					raw, _ := hex.DecodeString(enc)
					raw[rng.Intn(len(raw))] ^= 1 << rng.Intn(8)
					enc, what = hex.EncodeToString(raw), "altered"
				case x == 4 && !keySet:
					kt, what = []string{"", "sr25519", "SECP256K1"}[rng.Intn(3)], "unknown type"
				case x == 5:
					enc, what = encKey(append(bz, 1), theAesKey), "too long"
				case x == 6:
					enc, what = encKey(bz[:rng.Intn(len(bz))], theAesKey), "too short"
				default:
					continue
				}
				step("bad key: %s", what)
				expect("bad-key", "a private key that is "+what, h.call("setPrivKey", enc, kt), false)
			case 4:
				w, what := badPubs(rng, p.keys)
				step("keygen, bad public keys: %s", what)
				expect("keygen-bad-pubkeys", "a key generation with bad public keys ("+what+")", h.call("keyGen", "bad"+uniqueId(rng), "eddsa", w), false)
			case 5:
				kt := []string{"", "EDDSA", "schnorr", "ecdsa "}[rng.Intn(4)]
				step("keygen of %q", kt)
				expect("keygen-bad-type", "a key generation of an unknown key type", h.KeyGen("bad"+uniqueId(rng), kt, p.keys), false)
			case 6:
				w, what := badPubs(rng, p.keys)
				step("keysign, bad public keys: %s", what)
				expect("keysign-bad-pubkeys", "a signing with bad public keys ("+what+")", h.call("keySign", &htypes.KeysignRequest{KeyType: "eddsa", KeysignMessages: someMsgs(rng, 1)}, w), false)
			case 7:
				kt := []string{"", "EDDSA", "schnorr", "ecdsa "}[rng.Intn(4)]
				step("keysign of %q", kt)
				expect("keysign-bad-type", "a signing of an unknown key type", h.KeySign(&htypes.KeysignRequest{KeyType: kt, KeysignMessages: someMsgs(rng, 1)}, p.keys), false)
			case 8:
				if !haveEc && rng.Intn(2) == 0 {
					step("keysign ecdsa without key")
					req := &htypes.KeysignRequest{KeyType: "ecdsa", KeysignMessages: someMsgs(rng, 1+rng.Intn(2))}
					refused = append(refused, req)
					expect("keysign-no-keygen", "an ecdsa signing without key generation", h.KeySign(req, p.keys), false)
				} else {
					step("keysign without messages")
					expect("keysign-nothing", "a signing of nothing", h.KeySign(&htypes.KeysignRequest{KeyType: "eddsa"}, p.keys), false)
				}
			case 9:
				if can && haveEd {
					continue
				}
				step("keygen")
				if can {
					if !p.t.WaitFor(20*time.Second, func() bool {
						return p.s.net.cm.WriteToStream(coreId(p.keys[0]), pingProto, []byte("x")) == nil
					}) {
						t.Inconclusive("the peers are not connected")
						return
					}
					p.s.next("edgen", nil)
					n := len(h.sisu.Keygens())
					d := p.s.done()
					err := h.KeyGen("gen"+uniqueId(rng), "eddsa", p.keys)
					expect("keygen", "a key generation", err, true)
					if err == nil {
						if !t.WaitFor(40*time.Second, func() bool { return len(h.sisu.Keygens()) > n && p.s.done() > d }) {
							t.Live("C16", "keygen-no-result", "no result of an accepted key generation is posted")
							return
						}
						r := h.sisu.Keygens()[n]
						t.Eval(1)
						if r.KeyType != "eddsa" {
							t.Viol("C16", "keygen-type", "the result of an eddsa key generation is posted for %q", r.KeyType)
						}
						haveEd = r.Outcome == htypes.OutcomeSuccess
						t.Count("key generations", 1)
					}
				} else {
					expect("keygen-not-ready", "a key generation", h.KeyGen("early"+uniqueId(rng), []string{"eddsa", "ecdsa"}[rng.Intn(2)], p.keys), false)
				}
			case 10:
				req := &htypes.KeysignRequest{KeyType: "eddsa", KeysignMessages: someMsgs(rng, 1+rng.Intn(3))}
				step("keysign of %d", len(req.KeysignMessages))
				if can && haveEd {
					if len(refused) > 0 && rng.Intn(3) > 0 {
						// The client corrects a request that was refused: the same ids, other content.
						last := refused[len(refused)-1]
						refused = refused[:len(refused)-1]
						req.KeysignMessages = someMsgs(rng, len(last.KeysignMessages))
						for i, m := range last.KeysignMessages {
							req.KeysignMessages[i].Id = m.Id
						}
						t.Count("corrected requests", 1)
					}
					var msgs [][]byte
					for _, m := range req.KeysignMessages {
						msgs = append(msgs, m.BytesToSign)
					}
					p.s.next("edsign", msgs)
					n, d := len(h.sisu.Signs()), p.s.done()
					err := h.KeySign(req, p.keys)
					expect("keysign", "a signing", err, true)
					sent++
					if err == nil && !t.WaitFor(45*time.Second, func() bool { return len(h.sisu.Signs()) > n && p.s.done() > d }) {
						t.Live("C16", "keysign-no-result", "no result of an accepted signing is posted")
						return
					}
					if err == nil {
						t.checkEcho(req, h.sisu.Signs()[n])
					}
				} else {
					refused = append(refused, req)
					expect("keysign-not-ready", "a signing", h.KeySign(req, p.keys), false)
				}
			}
		}
		// Nothing that was refused has a result.
		if n := len(h.sisu.Signs()); n != sent {
			t.Viol("C16", "extra-result", "%d signings were accepted, %d results were posted", sent, n)
		}
		t.State(strings.Join(hist, ";"))
		t.Sample(hist)
	}
}

// checkEcho compares the request of a result with the request that it belongs to.
func (t *T) checkEcho(req *htypes.KeysignRequest, r *htypes.KeysignResult) {
	t.Eval(1)
	t.Count("results compared with their requests", 1)
	t.Count(fmt.Sprintf("outcome %d", r.Outcome), 1)
	if r.Request == nil {
		t.Viol("C16", "no-request", "a result (outcome %d) is posted without its request", r.Outcome)
		return
	}
	a, b := toJ(req), toJ(r.Request)
	if a != b {
		t.Viol("C16", "other-request", "the posted request is %s instead of %s", b, a)
	}
	if r.Outcome == htypes.OutcomeSuccess && len(r.Signatures) != len(req.KeysignMessages) {
		t.Viol("C16", "signature-count", "%d signatures are posted for %d messages", len(r.Signatures), len(req.KeysignMessages))
	}
}

// c16Keys: which private keys are accepted, one after the other and at the same time.
func c16Keys(t *T) {
	for k := 0; t.More(k, 24, 400); k++ {
		rng := t.Sub()
		port := freePorts(1)[0]
		h := newHeart(t, nil, 0, port, nil)
		good := []ctypes.PrivKey{randSecp(rng), randEd(rng)}[k%2]
		mode := (k / 2) % 4
		t.SetCase(fmt.Sprintf("mode %d, %s key", mode, good.Type()))
		switch mode {
		case 0: // a key of the right size that is none
			for _, bad := range []struct {
				bz []byte
				kt string
			}{{nil, "secp256k1"}, {make([]byte, 31), "secp256k1"}, {make([]byte, 33), "secp256k1"}, {make([]byte, 32), "ed25519"}, {make([]byte, 63), "ed25519"}, {randBytes(rng, 32), "ed25519"}, {good.Bytes(), "sr25519"}, {good.Bytes(), ""}} {
				mustRefuse(t, "bad-key", fmt.Sprintf("a private key of %d bytes as %q", len(bad.bz), bad.kt), h.call("setPrivKey", encKey(bad.bz, theAesKey), bad.kt))
			}
		case 1: // the network does not start
			l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port))
			must(err)
			h.Ready(true)
			mustRefuse(t, "port-in-use", "a private key, while the network cannot start,", h.SetPrivKey(good))
			mustRefuse(t, "keygen-after-bad-key", "a key generation after a private key that was refused", h.KeyGen("x", "eddsa", pubsOf([]ctypes.PrivKey{good, randSecp(rng)})))
			l.Close()
		case 2: // several different keys at the same time: one of them is taken
			keys := []ctypes.PrivKey{good, randSecp(rng), randSecp(rng), randEd(rng)}
			var wg sync.WaitGroup
			errs := make([]error, len(keys))
			for i := range keys {
				i := i
				wg.Add(1)
				go func() { defer wg.Done(); errs[i] = h.SetPrivKey(keys[i]) }()
			}
			wg.Wait()
			n := 0
			for i, e := range errs {
				if e == nil {
					n++
					good = keys[i]
				}
			}
			t.Eval(1)
			if n != 1 {
				t.Viol("C16", "several-keys", "of %d different keys that are set at the same time, %d are accepted", len(keys), n)
			}
		case 3: // the same key at the same time
			var wg sync.WaitGroup
			errs := make([]error, 4)
			for i := range errs {
				i := i
				wg.Add(1)
				go func() { defer wg.Done(); errs[i] = h.SetPrivKey(good) }()
			}
			wg.Wait()
			for _, e := range errs {
				t.Eval(1)
				if e != nil {
					t.Viol("C16", "same-key-refused", "the same key, set several times at once, is refused: %v", e)
				}
			}
		}
		for i := 0; i < 3; i++ {
			t.Eval(1)
			if err := h.SetPrivKey(good); err != nil {
				t.Viol("C16", "good-key-refused", "a good key (call %d, after mode %d) is refused: %v", i, mode, err)
			}
		}
		mustRefuse(t, "other-key", "another private key", h.SetPrivKey(randSecp(rng)))
		mustRefuse(t, "other-key", "another private key", h.SetPrivKey(randEd(rng)))
		t.Eval(1)
		if err := h.SetPrivKey(good); err != nil {
			t.Viol("C16", "good-key-refused", "the key is refused after another one was: %v", err)
		}
		t.State("keys", mode, good.Type(), k)
	}
}

// c16Echo: several whole nodes; concurrent requests; every result carries its request.
func c16Echo(t *T, kind string) {
	for k := 0; t.More(k, 1, 20); k++ {
		rng := t.Sub()
		n := 3
		var privs []ctypes.PrivKey
		for i := 0; i < n; i++ {
			privs = append(privs, randSecp(rng))
		}
		hs := startHearts(t, privs)
		if hs == nil {
			return
		}
		keys := pubsOf(privs)
		for _, h := range hs {
			must(h.KeyGen("gen", kind, keys))
		}
		ended := t.WaitFor(60*time.Second, func() bool {
			for _, h := range hs {
				if len(h.sisu.Keygens()) == 0 {
					return false
				}
			}
			return true
		})
		for i, h := range hs {
			for _, r := range h.sisu.Keygens() {
				t.Eval(1)
				t.Count("keygen results", 1)
				if r.KeyType != kind {
					t.Viol("C16", "keygen-type", "node %d posts the result of an %s key generation for %q", i, kind, r.KeyType)
				}
				if r.Outcome != htypes.OutcomeSuccess {
					ended = false
				}
			}
		}
		if !ended {
			t.Live("C16", "keygen-no-result", "an %s key generation of %d connected nodes does not succeed", kind, n)
			return
		}
		other := map[string]string{"eddsa": "ecdsa", "ecdsa": "eddsa"}[kind]
		for _, h := range hs {
			mustRefuse(t, "no-keygen", "a signing with an "+other+" key that was not generated", h.KeySign(&htypes.KeysignRequest{KeyType: other, KeysignMessages: someMsgs(rng, 1)}, keys))
		}
		// Waves of concurrent requests, in the same order on all nodes.
		total := 0
		all := map[string]*htypes.KeysignRequest{}
		for wave := 0; wave < t.Pick(map[string]int{"eddsa": 6, "ecdsa": 2}[kind], 20); wave++ {
			var reqs []*htypes.KeysignRequest
			for i := 0; i < 1+rng.Intn(4); i++ {
				r := &htypes.KeysignRequest{KeyType: kind, KeysignMessages: someMsgs(rng, 1+rng.Intn(3))}
				reqs = append(reqs, r)
				all[r.KeysignMessages[0].Id] = r
			}
			for _, h := range hs {
				for _, r := range reqs {
					t.Eval(1)
					if err := h.KeySign(r, keys); err != nil {
						t.Viol("C16", "refused", "a signing is refused: %v", err)
					}
					// The same request again while it runs or waits changes nothing.
					if rng.Intn(4) == 0 {
						h.KeySign(r, keys)
					}
				}
			}
			total += len(reqs)
			if !t.WaitFor(100*time.Second, func() bool {
				for _, h := range hs {
					if len(h.sisu.Signs()) < total {
						return false
					}
				}
				return true
			}) {
				t.Live("C16", "no-result", "after %d accepted signings, the nodes have posted %d, %d and %d results", total, len(hs[0].sisu.Signs()), len(hs[1].sisu.Signs()), len(hs[2].sisu.Signs()))
				return
			}
		}
		for i, h := range hs {
			seen := map[string]bool{}
			for _, r := range h.sisu.Signs() {
				if r.Request == nil || len(r.Request.KeysignMessages) == 0 {
					t.Viol("C16", "no-request", "node %d posts a result (outcome %d) without its request", i, r.Outcome)
					continue
				}
				id := r.Request.KeysignMessages[0].Id
				if all[id] == nil {
					t.Viol("C16", "other-request", "node %d posts a result of a request that nobody made", i)
					continue
				}
				t.checkEcho(all[id], r)
				seen[id] = true
				t.State("echo", i, id)
				if r.Outcome == htypes.OutcomeSuccess {
					for j, m := range all[id].KeysignMessages {
						if j >= len(r.Signatures) {
							break
						}
						pub := h.sisu.Keygens()[0].PubKeyBytes
						var err error
						if kind == "ecdsa" {
							err = verifyEc(pub, m.BytesToSign, r.Signatures[j])
						} else {
							err = verifyEd(pub, m.BytesToSign, r.Signatures[j])
						}
						if err != nil {
							t.Viol("C16", "signature-of-other-request", "node %d: signature %d does not belong to message %d of the posted request: %v", i, j, j, err)
						}
					}
				}
			}
			if len(seen) != len(all) {
				t.Viol("C16", "request-missing", "node %d posts results of %d of %d requests", i, len(seen), len(all))
			}
		}
	}
}

// c16Offline: the other parties do not take part: failures carry their request and key type, too.
func c16Offline(t *T) {
	var wg sync.WaitGroup
	for k := 0; k < t.Pick(4, 12); k++ {
		k := k
		rng := t.Sub()
		wg.Add(1)
		go func() {
			defer wg.Done()
			privs := []ctypes.PrivKey{randSecp(rng), randSecp(rng)}
			p := newHeartPair(t, privs)
			if !p.connect() || !p.keygen("gen") {
				t.Inconclusive("no key was generated")
				return
			}
			p.s.mu.Lock()
			p.s.passive = true
			p.s.mu.Unlock()
			gens := len(p.h.sisu.Keygens())
			var reqs []*htypes.KeysignRequest
			kind := []string{"ecdsa", "eddsa"}[k%2]
			if k%4 < 2 {
				must(p.h.KeyGen("gen2", kind, p.keys))
			}
			for i := 0; i < 2; i++ {
				r := &htypes.KeysignRequest{KeyType: "eddsa", KeysignMessages: someMsgs(rng, 1+i)}
				reqs = append(reqs, r)
				if k%4 >= 2 || i == 0 {
					must(p.h.KeySign(r, p.keys))
				}
			}
			if k%4 < 2 {
				reqs = reqs[:1]
			}
			// Requests are waiting for their peers. What Sisu says meanwhile counts all the same.
			if rng.Intn(4) > 0 {
				p.h.Ready(false)
				mustRefuse(t, "refuse-while-busy", "a signing after Sisu is not ready, while another request runs", p.h.KeySign(&htypes.KeysignRequest{KeyType: "eddsa", KeysignMessages: someMsgs(rng, 1)}, p.keys))
				mustRefuse(t, "refuse-while-busy", "a key generation after Sisu is not ready, while another request runs", p.h.KeyGen("gen3", "eddsa", p.keys))
				mustRefuse(t, "other-key-while-busy", "another private key, while a request runs", p.h.SetPrivKey(privs[1]))
				p.h.Ready(true)
				if err := p.h.SetPrivKey(privs[0]); err != nil {
					t.Viol("C16", "good-key", "the same private key is refused while a request runs: %v", err)
				}
			}
			ok := t.WaitFor(80*time.Second, func() bool {
				return len(p.h.sisu.Signs()) >= len(reqs) && (k%4 >= 2 || len(p.h.sisu.Keygens()) > gens)
			})
			if !ok {
				t.Live("C16", "offline-no-result", "no result of a request is posted when the peer takes no part")
				return
			}
			for _, r := range p.h.sisu.Signs() {
				t.Eval(1)
				found := false
				for _, q := range reqs {
					if r.Request != nil && reflect.DeepEqual(toJ(q), toJ(r.Request)) {
						found = true
					}
				}
				t.Count("failures compared with their requests", 1)
				t.State("offline", k, toJ(r.Request))
				if !found {
					t.Viol("C16", "failure-request", "a failed signing is posted with the request %s", toJ(r.Request))
				}
				if r.Outcome == htypes.OutcomeSuccess {
					t.Viol("C16", "failure-success", "a signing without the other parties is posted as a success")
				}
			}
			for _, g := range p.h.sisu.Keygens()[gens:] {
				t.Eval(1)
				if g.KeyType != kind || g.Outcome == htypes.OutcomeSuccess {
					t.Viol("C16", "failure-key-type", "a failed key generation of type %s is posted as type %q, outcome %d", kind, g.KeyType, g.Outcome)
				}
			}
		}()
	}
	wg.Wait()
}

var _ = ed25519.PrivKeySize
var _ = secp256k1.PrivKeySize
var _ = utils.GetThreshold
