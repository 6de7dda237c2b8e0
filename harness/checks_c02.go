package main

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"time"

	"github.com/sisu-network/dheart/db"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/tss-lib/crypto"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

func init() {
	register(&Check{
		ID:   "C02",
		Rule: "a case is distinct by kind, group size, threshold, delivery policy and the order of all deliveries; for signings with the persisted shares by the subset of nodes",
		Assumptions: []string{"a node generates one key of a type (the database returns the first one)",
			"a deviating node sends the same broadcast to everyone"},
		Units: c02Units,
	})
}

func c02Units(tier string, seed int64) []Unit {
	var us []Unit
	for i := 0; i < 3; i++ {
		i := i
		us = append(us, Unit{Name: fmt.Sprintf("ed-%d", i), Run: func(t *T) {
			pubs := map[string]string{}
			var ms []*Member
			for k := 0; t.More(k, 8, 300); k++ {
				// The same group makes several keys: they must differ.
				if k%3 == 0 {
					ms = makeMembers(t.Rng, 2+t.Rng.Intn(3)+2*(t.Rng.Intn(4)/3), false)
				}
				t.keygenAndSign("edgen", ms, policyNames[(k+i*3)%len(policyNames)], pubs)
			}
		}})
	}
	for i := 0; i < 2; i++ {
		i := i
		us = append(us, Unit{Name: fmt.Sprintf("ec-%d", i), Weight: 2, Run: func(t *T) {
			pubs := map[string]string{}
			var ms []*Member
			for k := 0; t.More(k, 4, 100); k++ {
				if k%2 == 0 {
					ms = makeMembers(t.Rng, 2+t.Rng.Intn(t.Pick(2, 4)), true)
				}
				t.keygenAndSign("ecgen", ms, policyNames[(k*3+i)%len(policyNames)], pubs)
			}
		}})
	}
	return append(us, Unit{Name: "db-faults", Run: c02Db}, Unit{Name: "deviating", Run: c02Deviating})
}

// slowDb delays or refuses the writes of shares.
type slowDb struct {
	db.Database
	delay time.Duration
	fail  bool
}

func (d *slowDb) SaveEcKeygen(kt, id string, pids []*tss.PartyID, out *eckeygen.LocalPartySaveData) error {
	time.Sleep(d.delay)
	if d.fail {
		return errors.New("the disk is full")
	}
	return d.Database.SaveEcKeygen(kt, id, pids, out)
}

func (d *slowDb) SaveEdKeygen(kt, id string, pids []*tss.PartyID, out *edkeygen.LocalPartySaveData) error {
	time.Sleep(d.delay)
	if d.fail {
		return errors.New("the disk is full")
	}
	return d.Database.SaveEdKeygen(kt, id, pids, out)
}

// shares loads what all nodes persisted.
func (cl *Cluster) loadShares(w *Work) error {
	cl.Ec, cl.Ed = nil, nil
	for _, n := range cl.Nodes {
		if w.Kind == "ecgen" {
			k, err := n.Db.LoadEcKeygen(w.KeyType)
			if err != nil {
				return err
			}
			cl.Ec = append(cl.Ec, k)
		} else {
			k, err := n.Db.LoadEdKeygen(w.KeyType)
			if err != nil {
				return err
			}
			cl.Ed = append(cl.Ed, k)
		}
	}
	return nil
}

// checkSubsets: any threshold+1 of the persisted shares determine the secret of the reported key.
func (cl *Cluster) checkSubsets(w *Work) {
	t := cl.t
	scheme := tss.EcdsaScheme
	if w.Kind == "edgen" {
		scheme = tss.EddsaScheme
	}
	ec := tss.EC(scheme)
	q := ec.Params().N
	ids := make([]*big.Int, cl.N)
	xs := make([]*big.Int, cl.N)
	var pub *crypto.ECPoint
	for i := range cl.Nodes {
		if w.Kind == "ecgen" {
			ids[i], xs[i], pub = cl.Ec[i].ShareID, cl.Ec[i].Xi, cl.Ec[0].ECDSAPub
		} else {
			ids[i], xs[i], pub = cl.Ed[i].ShareID, cl.Ed[i].Xi, cl.Ed[0].EDDSAPub
		}
	}
	for _, sub := range subsets(cl.N, cl.Thr+1) {
		secret := big.NewInt(0)
		for _, i := range sub {
			num, den := big.NewInt(1), big.NewInt(1)
			for _, j := range sub {
				if j != i {
					num.Mul(num, ids[j]).Mod(num, q)
					den.Mul(den, new(big.Int).Sub(ids[j], ids[i])).Mod(den, q)
				}
			}
			l := num.Mul(num, new(big.Int).ModInverse(den, q))
			secret.Add(secret, l.Mul(l, xs[i])).Mod(secret, q)
		}
		p := crypto.ScalarBaseMult(ec, secret)
		t.Count("subsets of persisted shares combined", 1)
		if p.X().Cmp(pub.X()) != 0 || p.Y().Cmp(pub.Y()) != 0 {
			t.Viol("C02", w.Kind+":shares-do-not-combine", "the shares of the nodes %v (threshold %d) do not combine to the reported key", sub, cl.Thr)
		}
	}
	if w.Kind == "ecgen" {
		for i, k := range cl.Ec {
			for j, o := range cl.Ec {
				if k.NTildej[j].Cmp(o.NTildej[j]) != 0 || k.H1j[j].Cmp(o.H1j[j]) != 0 || k.H2j[j].Cmp(o.H2j[j]) != 0 ||
					k.PaillierPKs[j].N.Cmp(o.PaillierPKs[j].N) != 0 || o.PaillierSK.N.Cmp(k.PaillierPKs[j].N) != 0 {
					t.Viol("C02", "ecgen:parameters-differ", "node %d stored other public parameters of node %d than it uses itself", i, j)
				}
			}
		}
	}
}

// restart gives all nodes new engines over the same databases.
func (cl *Cluster) restart() {
	for i := range cl.Nodes {
		cl.Up(i, fastTimeouts())
	}
}

func (t *T) keygenAndSign(kind string, ms []*Member, policy string, pubs map[string]string) {
	rng := t.Sub()
	n := len(ms)
	cl := newCluster(t, rng, Opts{N: n, Thr: 1 + rng.Intn(n-1), Members: ms, KeepData: true})
	defer cl.Close()
	t.SetCase(fmt.Sprintf("%s n=%d thr=%d policy=%s", kind, n, cl.Thr, policy))
	stop := cl.setPolicy(policy, rng)
	w := &Work{Id: uniqueId(rng), Kind: kind}
	cl.request(w, 0)
	cl.submitAll([]*Work{w}, rng, time.Duration(1+rng.Intn(300))*time.Millisecond, false)
	cl.Wait(w, cl.all(), 60*time.Second)
	stop()
	cl.Quiesce(30*time.Millisecond, 2*time.Second)
	cl.monitors([]*Work{w})
	cl.checkKeygen(w, pubs)
	t.Eval(1)
	t.Count("key generations run", 1)
	t.State(kind, n, cl.Thr, policy, cl.Order())
	succ, _, _ := cl.tally(w)
	if len(succ) != n {
		// This is a violation of C05.
		cl.checkAllSucceed("C05", w, kind+":not-all-succeed")
		return
	}
	if err := cl.loadShares(w); err != nil {
		t.Viol("C02", kind+":share-lost", "a share cannot be loaded: %v", err)
		return
	}
	cl.checkSubsets(w)
	cl.SetPolicy(jitter(rng, 3*time.Millisecond))
	if rng.Intn(2) == 0 {
		cl.restart()
	}
	// Some committees sign.
	subs := subsets(n, cl.Thr+1)
	rng.Shuffle(len(subs), func(i, j int) { subs[i], subs[j] = subs[j], subs[i] })
	for k := 0; k < len(subs) && k < t.Pick(2, 10); k++ {
		t.signWith(cl, rng, kind, subs[k], w)
	}
	t.Debug("%v", t.cur)
}

// signWith signs with exactly the nodes of a subset.
func (t *T) signWith(cl *Cluster, rng *rand.Rand, kind string, sub []int, gen *Work) {
	skind := "edsign"
	if kind == "ecgen" {
		skind = "ecsign"
		// The leader waits for the others unless it has a short timeout.
		cfg := fastTimeouts()
		cfg.SelectionLeaderTimeout = time.Duration(500+200*len(sub)) * time.Millisecond
		for _, i := range sub {
			cl.Up(i, cfg)
		}
	}
	w := &Work{Id: cl.idWithLeader(rng, sub[rng.Intn(len(sub))]), Kind: skind, Msgs: randMsgs(rng, skind, 1+rng.Intn(2))}
	for _, i := range sub {
		cl.mustSubmit(w, i)
	}
	cl.Wait(w, sub, 60*time.Second)
	succ, fail, _ := cl.tally(w)
	if len(succ) != len(sub) {
		t.add(Viol{Prop: "C02", Key: kind + ":shares-do-not-sign", Liveness: true, Detail: cl.workDetail(w),
			Msg: fmt.Sprintf("%v: the nodes %v do not sign with their shares: success on %v, failure on %v", t.cur, sub, succ, fail)})
		return
	}
	// Verify under the key that was reported.
	var pub []byte
	for _, o := range cl.of(gen)[sub[0]] {
		pub = o.Keygen.PubKeyBytes
	}
	for _, i := range succ {
		for _, o := range cl.of(w)[i] {
			if len(o.Sign.Signatures) != len(w.Msgs) {
				t.Viol("C02", kind+":signature-count", "node %d reports %d signatures for %d messages", i, len(o.Sign.Signatures), len(w.Msgs))
				continue
			}
			for k, sig := range o.Sign.Signatures {
				err := error(nil)
				if skind == "ecsign" {
					err = verifyEc(pub, w.Msgs[k], sig)
				} else {
					err = verifyEd(pub, w.Msgs[k], sig)
				}
				t.Count("signatures of generated keys verified", 1)
				if err != nil {
					t.Viol("C02", kind+":signature-of-other-key", "a signature of the nodes %v does not verify under the reported key: %v", sub, err)
				}
			}
		}
	}
	t.State("sign", kind, cl.N, fmt.Sprint(sub))
}

// c02Db: a share that cannot be written is not reported as a success; a slow write is waited for.
func c02Db(t *T) {
	for k := 0; t.More(k, 8, 80); k++ {
		rng := t.Sub()
		kind := []string{"edgen", "edgen", "edgen", "ecgen"}[k%4]
		n := 2 + rng.Intn(3)
		if kind == "ecgen" {
			n = 2
		}
		failing, slow := map[int]bool{}, map[int]bool{}
		for i := 0; i < n; i++ {
			failing[i] = rng.Intn(2) == 0
			slow[i] = rng.Intn(2) == 0
		}
		if k%2 == 0 {
			failing[rng.Intn(n)] = true
		}
		desc := fmt.Sprintf("%s n=%d writes fail on %v and are slow on %v", kind, n, failing, slow)
		t.SetCase(desc)
		cl := newCluster(t, rng, Opts{N: n, Thr: n - 1, Pre: kind == "ecgen", Policy: immediate, Before: func(cl *Cluster) {
			for i, node := range cl.Nodes {
				d := &slowDb{Database: node.db(), fail: failing[i]}
				if slow[i] {
					d.delay = 400 * time.Millisecond
				}
				node.Db = d
			}
		}})
		w := &Work{Id: uniqueId(rng), Kind: kind}
		cl.request(w, 0)
		cl.submitAll([]*Work{w}, rng, 0, false)
		cl.Wait(w, cl.all(), 60*time.Second)
		cl.Quiesce(600*time.Millisecond, 3*time.Second)
		cl.checkKeygen(w, map[string]string{})
		cl.checkOnce(w, cl.all())
		for i, os := range cl.of(w) {
			for _, o := range os {
				if failing[i] && o.Outcome == htypes.OutcomeSuccess {
					t.Viol("C02", kind+":success-without-share", "node %d reports success although its share could not be written", i)
				}
				if !failing[i] && o.Outcome != htypes.OutcomeSuccess {
					t.Live("C02", kind+":failure-with-share", "node %d reports failure of a key generation that it could complete (%s)", i, desc)
				}
				t.Count(fmt.Sprintf("outcomes with a failing database: %v", failing[i]), 1)
			}
		}
		t.Eval(1)
		t.State("db", kind, n, fmt.Sprint(failing), fmt.Sprint(slow))
		cl.Close()
	}
}

// c02Deviating: a node sends wrong data in a round. Nodes that still report success agree.
func c02Deviating(t *T) {
	for k := 0; t.More(k, 9, 200); k++ {
		rng := t.Sub()
		kind := []string{"edgen", "edgen", "ecgen"}[k%3]
		n := 2 + rng.Intn(3)
		if kind == "ecgen" {
			n = 2 + rng.Intn(2)
		}
		cfg := fastTimeouts()
		cfg.KeygenJobTimeout = 6 * time.Second
		cl := newCluster(t, rng, Opts{N: n, Thr: 1 + rng.Intn(n-1), Pre: kind == "ecgen", Cfg: &cfg})
		bad := rng.Intn(n)
		round := []string{"KGRound1Message", "KGRound2Message1", "KGRound2Message2", "KGRound3Message"}[rng.Intn(3+btoi(kind == "ecgen"))]
		victim := -1
		if round == "KGRound2Message1" {
			victim = othersOf(cl.all(), bad)[rng.Intn(n-1)]
		}
		t.SetCase(fmt.Sprintf("%s n=%d thr=%d: node %d sends a wrong %s to %d", kind, n, cl.Thr, bad, round, victim))
		changed := 0
		cl.SetTamper(func(s *Send, to int) [][]byte {
			if s.From != bad || !isUpdate(s) || short(s.Round()) != round || (victim >= 0 && to != victim) {
				return nil
			}
			m := cloneMsg(s.Msg.TssMessage)
			u := m.UpdateMessages[0]
			u.Data = corruptWire(u.Data, rand.New(rand.NewSource(int64(hash64(string(u.Data))>>1))))
			changed++
			return [][]byte{cl.signed(bad, m)}
		})
		w := &Work{Id: uniqueId(rng), Kind: kind}
		cl.request(w, 0)
		cl.submitAll([]*Work{w}, rng, 0, false)
		cl.Wait(w, cl.all(), 25*time.Second)
		cl.Quiesce(50*time.Millisecond, time.Second)
		cl.checkKeygen(w, map[string]string{})
		cl.checkOnce(w, cl.all())
		succ, fail, _ := cl.tally(w)
		honest := othersOf(succ, bad)
		t.Count("deviating runs", 1)
		t.Count("deviating runs: honest nodes that report success", len(honest))
		t.Count("deviating runs: nodes that report failure", len(fail))
		t.Eval(1)
		t.State("deviating", kind, n, cl.Thr, round, len(succ), len(fail))
		t.Debug("%v changed=%d succ=%v fail=%v", t.cur, changed, succ, fail)
		cl.Close()
	}
}
