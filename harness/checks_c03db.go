package main

import (
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/sisu-network/dheart/db"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

// failDb is a database of which some calls fail, before or after they have done their work.
type failDb struct {
	db.Database
	mu    sync.Mutex
	fail  map[string]int // call -> 1: fails without an effect, 2: fails after it was done, 3: is slow
	calls map[string]int
}

var errDisk = errors.New("the database does not answer")

func (d *failDb) do(call string, f func() error) error {
	d.mu.Lock()
	mode := d.fail[call]
	if d.calls == nil {
		d.calls = map[string]int{}
	}
	d.calls[call]++
	d.mu.Unlock()
	switch mode {
	case 1:
		return errDisk
	case 2:
		f()
		return errDisk
	case 3:
		time.Sleep(300 * time.Millisecond)
	}
	return f()
}

func (d *failDb) set(fail map[string]int) {
	d.mu.Lock()
	d.fail = fail
	d.mu.Unlock()
}

func (d *failDb) SaveEcKeygen(kt, id string, pids []*tss.PartyID, out *eckeygen.LocalPartySaveData) error {
	return d.do("SaveEcKeygen", func() error { return d.Database.SaveEcKeygen(kt, id, pids, out) })
}

func (d *failDb) SaveEdKeygen(kt, id string, pids []*tss.PartyID, out *edkeygen.LocalPartySaveData) error {
	return d.do("SaveEdKeygen", func() error { return d.Database.SaveEdKeygen(kt, id, pids, out) })
}

func (d *failDb) LoadPreparams() (r *eckeygen.LocalPreParams, err error) {
	err = d.do("LoadPreparams", func() (e error) { r, e = d.Database.LoadPreparams(); return })
	if err != nil {
		r = nil
	}
	return
}

func (d *failDb) SavePresignData(id string, pids []*tss.PartyID, out []*ecsigning.SignatureData_OneRoundData) error {
	return d.do("SavePresignData", func() error { return d.Database.SavePresignData(id, pids, out) })
}

func (d *failDb) GetAvailablePresignShortForm() (a, b []string, err error) {
	err = d.do("GetAvailablePresignShortForm", func() (e error) { a, b, e = d.Database.GetAvailablePresignShortForm(); return })
	if err != nil {
		a, b = nil, nil
	}
	return
}

func (d *failDb) LoadPresign(ids []string) (r []*ecsigning.SignatureData_OneRoundData, err error) {
	err = d.do("LoadPresign", func() (e error) { r, e = d.Database.LoadPresign(ids); return })
	if err != nil {
		r = nil
	}
	return
}

func (d *failDb) LoadPresignStatus(ids []string) (r []string, err error) {
	err = d.do("LoadPresignStatus", func() (e error) { r, e = d.Database.LoadPresignStatus(ids); return })
	if err != nil {
		r = nil
	}
	return
}

func (d *failDb) UpdatePresignStatus(ids []string) error {
	return d.do("UpdatePresignStatus", func() error { return d.Database.UpdatePresignStatus(ids) })
}

// c03Db: the database of a node fails, or does not contain the presigns that the others have.
func c03Db(t *T) {
	for k := 0; t.More(k, 36, 600); k++ {
		rng := t.Sub()
		n := 2 + rng.Intn(3)
		cfg := fastTimeouts()
		cfg.SelectionLeaderTimeout, cfg.SelectionMemberTimeout = 1000*time.Millisecond, 2000*time.Millisecond
		cfg.SigningJobTimeout, cfg.KeygenJobTimeout = 3*time.Second, 3*time.Second
		kind := []string{"ecsign", "ecsign", "edgen", "ecsign", "ecgen", "ecsign"}[k%6]
		if kind == "ecgen" {
			n = 2
			cfg.KeygenJobTimeout = 10 * time.Second
		}
		victims := map[int]bool{rng.Intn(n): true}
		for i := 0; i < n; i++ {
			if rng.Intn(4) == 0 {
				victims[i] = true
			}
		}
		calls := []string{"LoadPresign", "UpdatePresignStatus", "LoadPresignStatus", "no-presigns", "other-presigns", "used-presigns"}
		if kind != "ecsign" {
			calls = []string{"SaveEcKeygen", "SaveEdKeygen", "LoadPreparams"}
		}
		what := calls[(k/2)%len(calls)]
		mode := 1 + rng.Intn(3)
		batch := 1 + rng.Intn(2)
		dbs := make([]*failDb, n)
		desc := fmt.Sprintf("%s n=%d: %s (mode %d) on %v", kind, n, what, mode, victims)
		t.SetCase(desc)
		thr := 1 + rng.Intn(n-1)
		cl := newCluster(t, rng, Opts{N: n, Thr: thr, Ec: kind == "ecsign", Pre: kind == "ecgen", Policy: immediate, Cfg: &cfg, Before: func(cl *Cluster) {
			var all []int
			for i := range cl.Nodes {
				all = append(all, i)
			}
			if kind == "ecsign" {
				// The signers are the first t+1 of those that are online; give every group its presigns.
				for g, sub := range subsets(n, thr+1) {
					data := make([][]*ecsigning.SignatureData_OneRoundData, len(sub))
					for b := 0; b < 3; b++ {
						for i, d := range forgePresign(rng, cl.Members, sub, cl.EcSecret, randNonce(rng)) {
							data[i] = append(data[i], d)
						}
					}
					pids := pidsOf(cl.Members)
					var group []*tss.PartyID
					for _, c := range sub {
						group = append(group, pids[c])
					}
					for i, c := range sub {
						id := fmt.Sprintf("p%d", g)
						if victims[c] && what == "no-presigns" {
							continue
						}
						if victims[c] && what == "other-presigns" {
							id = "q" + id
						}
						must(cl.Nodes[c].db().SavePresignData(id, group, data[i]))
						if victims[c] && what == "used-presigns" {
							must(cl.Nodes[c].db().UpdatePresignStatus([]string{id + "-0", id + "-1", id + "-2"}[:1+rng.Intn(3)]))
						}
					}
				}
			}
			for i, node := range cl.Nodes {
				dbs[i] = &failDb{Database: node.db()}
				node.Db = dbs[i]
			}
		}})
		for i := range victims {
			dbs[i].set(map[string]int{what: mode})
		}
		acc := &accepted{}
		var works []*Work
		for j := 0; j < 1+rng.Intn(2); j++ {
			w := &Work{Id: cl.idWithLeader(rng, rng.Intn(n)), Kind: kind, Msgs: randMsgs(rng, kind, batch)}
			if kind != "ecsign" && j > 0 {
				break
			}
			works = append(works, w)
			for i := 0; i < n; i++ {
				acc.submit(cl, w, i)
			}
		}
		t.WaitFor(25*time.Second, func() bool { return acc.done(cl, works, nil) })
		cl.Quiesce(50*time.Millisecond, time.Second)
		acc.check(cl, works, nil, "database", desc)
		for i := range dbs {
			dbs[i].set(nil)
			i := i
			if !t.WaitFor(5*time.Second, func() bool { return cl.engine(i).GetActiveWorkerCount() == 0 }) {
				t.Live("C03", "slot-not-free", "%s: node %d still has an active work", desc, i)
			}
			t.Count("database calls", dbs[i].calls[what])
		}
		succ, fail, not := cl.tally(works[0])
		t.State("db", kind, what, mode, len(succ), len(fail), len(not))
		// The database works again: a later request runs.
		if kind == "ecsign" {
			x := &Work{Id: uniqueId(rng), Kind: kind, Msgs: randMsgs(rng, kind, 1)}
			for i := 0; i < n; i++ {
				acc.submit(cl, x, i)
			}
			t.WaitFor(20*time.Second, func() bool { return acc.done(cl, []*Work{x}, nil) })
			acc.check(cl, []*Work{x}, nil, "after the database failed", desc)
		}
		t.Debug("%s succ=%v fail=%v not=%v", desc, succ, fail, not)
		t.Eval(1)
		cl.Close()
	}
}
