package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"time"

	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/sisu-network/dheart/core"
	htypes "github.com/sisu-network/dheart/types"
	wtypes "github.com/sisu-network/dheart/worker/types"
)

func init() {
	register(&Check{
		ID:          "C17",
		Rule:        "a case is distinct by the list of message identifiers of the request and the order of the public keys",
		Assumptions: []string{"messages are identified by their Id, as Sisu does"},
		Units: func(tier string, seed int64) []Unit {
			return []Unit{{Name: "txs", Run: c17Txs}, {Name: "heart-0", Run: c17Heart}, {Name: "heart-1", Run: c17Heart}, {Name: "heart-2", Run: c17Heart}, {Name: "together", Run: c17Together}}
		},
	})
}

// idLists makes lists of message ids that are easily confused.
func idLists(rng *rand.Rand) [][]string {
	a, b, c := fmt.Sprintf("%x", rng.Uint32()), fmt.Sprintf("%x", rng.Uint32()), fmt.Sprintf("%x", rng.Uint32())
	long := strings.Repeat(a+b+c, 12)
	return [][]string{
		{long}, {long + "1"}, {long + "2"}, {"1" + long}, {"2" + long}, {long + "1" + long}, {long + "2" + long}, {a, long + "1"}, {a, long + "2"},
		{a}, {b}, {a, b}, {b, a}, {a, b, c}, {c, b, a}, {a, c, b}, {b, a, c}, {a + b}, {a + b, c}, {a, b + c}, {a + b + c}, {b + a},
		{a, a}, {a, a, b}, {a, b, b}, {b, b}, {a, "", b}, {"", a, b}, {a, b, ""}, {a, c}, {b, c}, {a, b, c, a},
		{a + "_" + b}, {a + "," + b}, {a + "__", b}, {" " + a}, {a + "\x00", b}, {a, "\x00" + b}, {"ä" + a}, {a + "1"}, {a, "1" + b}, {a + "1", b},
	}
}

func c17Heart(t *T) {
	rng := t.Sub()
	privs := []ctypes.PrivKey{randSecp(rng), randSecp(rng)}
	p := newHeartPair(t, privs)
	if !p.connect() || !p.keygen("k"+uniqueId(rng)) {
		t.Live("C17", "no-keygen", "the node and its peer generate no key together")
		return
	}
	byWork := map[string]string{} // work id to list of message ids
	byList := map[string]string{}
	observe := func(ids []string, order []int) {
		req := &htypes.KeysignRequest{KeyType: "eddsa"}
		var msgs [][]byte
		for i, id := range ids {
			m := append([]byte{byte(i + 1)}, []byte("message "+id)...)
			msgs = append(msgs, m)
			req.KeysignMessages = append(req.KeysignMessages, &htypes.KeysignMessage{Id: id, OutChain: "ganache1", OutHash: "hash" + id, BytesToSign: m})
		}
		keys := []ctypes.PubKey{p.keys[order[0]], p.keys[order[1]]}
		t.SetCase(map[string]interface{}{"ids": ids, "order": order})
		before, done := len(p.h.sisu.Signs()), p.s.done()
		p.s.next("edsign", msgs)
		if err := p.h.KeySign(req, keys); err != nil {
			t.Viol("C17", "refused", "the request %q is refused: %v", ids, err)
			return
		}
		ok := t.WaitFor(45*time.Second, func() bool { return len(p.h.sisu.Signs()) > before && p.s.done() > done })
		t.Eval(1)
		works := p.s.works()
		if !ok || len(works) != 1 {
			t.Live("C17", "no-work", "the request %q is seen as the works %v by the peer, and does not end: %v", ids, works, !ok)
			return
		}
		list := fmt.Sprintf("%q", ids)
		if o, ok := byWork[works[0]]; ok && o != list {
			t.Viol("C17", "same-work", "the different requests %s and %s are the same work %s", o, list, works[0])
		}
		byWork[works[0]] = list
		if o, ok := byList[list]; ok && o != works[0] {
			t.Viol("C17", "other-work", "the request %s is the work %s and, with another order of the keys, %s", list, o, works[0])
		}
		byList[list] = works[0]
		t.State(list, fmt.Sprint(order))
		t.Count("works observed", 1)
		t.Sample(map[string]string{"ids": list, "work": works[0]})
	}
	for k := 0; t.More(k, 4, 100); k++ {
		lists := idLists(rng)
		rng.Shuffle(len(lists), func(i, j int) { lists[i], lists[j] = lists[j], lists[i] })
		for _, ids := range lists {
			observe(ids, rng.Perm(2))
			if rng.Intn(4) == 0 {
				observe(ids, rng.Perm(2))
			}
			if t.NumViol() > 5 {
				return
			}
		}
	}
}

// c17Together: nodes that list the public keys in different orders sign together.
func c17Together(t *T) {
	for k := 0; k < t.Pick(1, 6); k++ {
		rng := t.Sub()
		n := 3
		var privs []ctypes.PrivKey
		for i := 0; i < n; i++ {
			privs = append(privs, []ctypes.PrivKey{randSecp(rng), randEd(rng)}[k%2])
		}
		hs := startHearts(t, privs)
		if hs == nil {
			return
		}
		keys := pubsOf(privs)
		perm := func() []ctypes.PubKey {
			res := make([]ctypes.PubKey, n)
			for i, j := range rng.Perm(n) {
				res[i] = keys[j]
			}
			return res
		}
		for _, h := range hs {
			must(h.KeyGen("gen", "eddsa", perm()))
		}
		if !t.WaitFor(40*time.Second, func() bool {
			for _, h := range hs {
				if len(h.sisu.Keygens()) == 0 {
					return false
				}
			}
			return true
		}) {
			t.Live("C17", "together-keygen", "%d nodes that list the keys in different orders do not end a key generation", n)
			return
		}
		for r := 0; r < t.Pick(6, 40); r++ {
			req := &htypes.KeysignRequest{KeyType: "eddsa"}
			for i := 0; i < 1+rng.Intn(3); i++ {
				req.KeysignMessages = append(req.KeysignMessages, &htypes.KeysignMessage{Id: fmt.Sprintf("id %d", rng.Uint64()), OutChain: "c", BytesToSign: append([]byte{1}, randBytes(rng, 31)...)})
			}
			for _, h := range hs {
				must(h.KeySign(req, perm()))
			}
			ended := t.WaitFor(60*time.Second, func() bool {
				for _, h := range hs {
					if len(h.sisu.Signs()) <= r {
						return false
					}
				}
				return true
			})
			t.Eval(1)
			t.State("together", k, r)
			succ := 0
			var first *htypes.KeysignResult
			for _, h := range hs {
				for i, s := range h.sisu.Signs() {
					if i != r {
						continue
					}
					if s.Outcome == htypes.OutcomeSuccess {
						succ++
						if first != nil && !bytes.Equal(first.Signatures[0], s.Signatures[0]) {
							t.Viol("C17", "together-differ", "two nodes report different signatures of one request")
						}
						first = s
					}
				}
			}
			t.Count("requests signed together", 1)
			if !ended || succ != 2 {
				t.Live("C17", "together", "%d nodes that list the public keys in different orders: %d instead of 2 succeed", n, succ)
			}
		}
	}
}

func c17Txs(t *T) {
	seen := map[string]string{}
	for k := 0; t.More(k, 3000, 100000); k++ {
		rng := t.Sub()
		var lists [][][]byte
		a, b := randBytes(rng, 1+rng.Intn(6)), randBytes(rng, 1+rng.Intn(6))
		ab := append(append([]byte{}, a...), b...)
		lists = append(lists, [][]byte{a}, [][]byte{b}, [][]byte{a, b}, [][]byte{b, a}, [][]byte{ab}, [][]byte{a, a}, [][]byte{a, b, a}, [][]byte{{1, 2}, {3}}, [][]byte{{1}, {2, 3}}, [][]byte{{12, 3}}, [][]byte{{1, 23}}, [][]byte{{1, 2, 3}}, [][]byte{{123}})
		for _, l := range lists {
			for _, wt := range []wtypes.WorkType{wtypes.EcSigning, wtypes.EdSigning} {
				block := []int64{0, 1, 12, 123, -1, 1 << 62, rng.Int63()}[rng.Intn(7)]
				chain := []string{"", "eth", "1", "eth-1", "-", "1-eth", "ganache1", "2"}[rng.Intn(8)]
				cp := make([][]byte, len(l))
				for i := range l {
					cp[i] = append([]byte{}, l[i]...)
				}
				desc := fmt.Sprintf("%v %v %d %q", wt, l, block, chain)
				t.SetCase(desc)
				id := core.GetKeysignWorkId(wt, l, block, chain)
				id2 := core.GetKeysignWorkId(wt, cp, block, chain)
				t.Eval(1)
				t.Count("work ids compared", 1)
				if id != id2 || id == "" {
					t.Viol("C17", "tx-not-same", "the same transactions give the work ids %q and %q", id, id2)
				}
				if o, ok := seen[id]; ok && o != desc {
					t.Viol("C17", "tx-same", "%s and %s have the same work id", o, desc)
				}
				seen[id] = desc
				t.State(desc)
			}
		}
	}
}

// startHearts starts whole nodes on the loopback network, connected and ready.
func startHearts(t *T, privs []ctypes.PrivKey) []*heartNode {
	ports := freePorts(len(privs))
	var hs []*heartNode
	for i := range privs {
		hs = append(hs, newHeart(t, privs[i], i, ports[i], peersOf(privs, ports, i)))
	}
	errs := make(chan error, len(hs))
	for i, h := range hs {
		i, h := i, h
		h.Ready(true)
		go func() { errs <- h.SetPrivKey(privs[i]) }()
	}
	n := 0
	var err error
	t.WaitFor(40*time.Second, func() bool {
		select {
		case e := <-errs:
			n++
			if e != nil {
				err = e
			}
		default:
		}
		return n == len(hs)
	})
	if n < len(hs) || err != nil {
		t.Inconclusive("the nodes do not start: %d of %d, %v", n, len(hs), err)
		return nil
	}
	return hs
}
