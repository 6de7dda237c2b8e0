package main

import (
	"database/sql"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/sisu-network/dheart/db"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/utils"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
)

// dbCase is a database of a case: the in-memory one or the code for MySQL with the server of the harness.
type dbCase struct {
	db.Database
	t   *T
	sim *mysqlSim
}

func openCase(t *T, sim bool) *dbCase {
	if !sim {
		return &dbCase{newDb(), t, nil}
	}
	s := newMysqlSim()
	d, err := s.open()
	if err != nil {
		t.Viol("C12", "mysql:init", "the node does not start with an empty database: %v", err)
		panic(err)
	}
	return &dbCase{d, t, s}
}

// restart may close the database and open it again, break its connections, or do nothing.
func (d *dbCase) restart(rng *rand.Rand) {
	if d.sim == nil {
		return
	}
	switch rng.Intn(4) {
	case 0:
		d.Database.Close()
		x, err := d.sim.open()
		if err != nil {
			d.t.Viol("C12", "mysql:restart", "the database cannot be opened again: %v", err)
			panic(err)
		}
		d.Database = x
		d.t.Count("restarts of the node", 1)
	case 1:
		d.sim.dropAll() // the pool has to notice that its idle connections are dead
		time.Sleep(2 * time.Millisecond)
		d.t.Count("connections broken while idle", 1)
	}
}

func (d *dbCase) Close() {
	d.Database.Close()
	if d.sim != nil {
		d.t.Count("statements at the server", int(d.sim.statements))
		d.sim.Close()
	}
}

// usable saves and loads one record of each kind.
func (t *T) usable(d db.Database, rng *rand.Rand, what string) {
	ms := makeMembers(rng, 2, true)
	pre := ms[0].Pre
	if err := d.SavePreparams(pre); err != nil {
		t.Viol("C12", "mysql:unusable", "%s: preparams are not saved: %v", what, err)
	} else if p, err := d.LoadPreparams(); err != nil || toJ(p) != toJ(pre) {
		t.Viol("C12", "mysql:unusable", "%s: preparams are not loaded: %v", what, err)
	}
	ec := dealEc(rng, ms, 1)[0]
	if err := d.SaveEcKeygen("ecdsa", "w", pidsOf(ms), ec); err != nil {
		t.Viol("C12", "mysql:unusable", "%s: a key share is not saved: %v", what, err)
	} else if x, err := d.LoadEcKeygen("ecdsa"); err != nil || x == nil || toJ(x) != toJ(ec) {
		t.Viol("C12", "mysql:unusable", "%s: a key share is not loaded: %v", what, err)
	}
	outs := []*ecsigning.SignatureData_OneRoundData{randPresign(rng, 0), randPresign(rng, 1)}
	if err := d.SavePresignData("w", pidsOf(ms), outs); err != nil {
		t.Viol("C12", "mysql:unusable", "%s: presigns are not saved: %v", what, err)
	} else if x, err := d.LoadPresign([]string{"w-1", "w-0"}); err != nil || len(x) != 2 || toJ(x[0]) != toJ(outs[1]) || toJ(x[1]) != toJ(outs[0]) {
		t.Viol("C12", "mysql:unusable", "%s: presigns are not loaded: %v", what, err)
	}
	p := &p2ptypes.Peer{Address: "a", PubKey: "b", PubKeyType: "c"}
	if err := d.SavePeers([]*p2ptypes.Peer{p}); err != nil {
		t.Viol("C12", "mysql:unusable", "%s: peers are not saved: %v", what, err)
	} else if l := d.LoadPeers(); len(l) != 1 || toJ(l[0]) != toJ(p) {
		t.Viol("C12", "mysql:unusable", "%s: peers are not loaded", what)
	}
}

// c12Start breaks every single statement of the start of the node in several ways. A start that is
// reported as successful has to leave a usable database.
func c12Start(t *T) {
	s := newMysqlSim()
	d, err := s.open()
	if err != nil {
		t.Viol("C12", "mysql:init", "the node does not start with an empty database: %v", err)
		return
	}
	t.usable(d, t.Sub(), "after a start without faults")
	d.Close()
	total := int(s.statements)
	s.Close()
	for k := 0; t.More(k, 60, 400); k++ {
		rng := t.Sub()
		s := newMysqlSim()
		at := k % 60
		if at >= total {
			at = rng.Intn(total)
		}
		f := []fault{fError, fDropBefore, fDropAfter, fDropRows}[(k/total+k)%4]
		if k >= 30 && k < 60 {
			f, at = fError, (k-30)*total/30
		}
		n := 0
		var hit string
		s.setFault(func(q string) fault {
			n++
			if n-1 == at {
				hit = q
				return f
			}
			return fNone
		})
		t.SetCase(fmt.Sprintf("fault %d at statement %d", f, at))
		var d db.Database
		var err error
		if !t.Within(100*time.Second, func() { d, err = s.open() }) {
			t.Live("C12", "mysql:start-stuck", "the start does not end when statement %d (%.60s) fails", at, hit)
			s.Close()
			continue
		}
		s.setFault(nil)
		if err == nil {
			t.Count("starts that recover", 1)
			t.usable(d, rng, fmt.Sprintf("after a start that is reported as successful although statement %d (%.60s) fails", at, hit))
		} else {
			t.Count("starts refused", 1)
			if x, err := s.open(); err == nil {
				t.usable(x, rng, fmt.Sprintf("after a second start, after statement %d (%.60s) failed in the first", at, hit))
				t.Count("second starts that succeed", 1)
				x.Close()
			}
		}
		if d != nil && err == nil {
			d.Close()
		}
		t.Eval(1)
		t.State("start", at, f, err == nil)
		s.Close()
	}
}

func bookkeeping(q string) bool {
	u := strings.ToUpper(q)
	for _, p := range []string{"SCHEMA_MIGRATIONS", "GET_LOCK", "RELEASE_LOCK", "SELECT DATABASE", "SET TRANSACTION", "SHOW TABLES", "CREATE DATABASE", "START TRANSACTION", "COMMIT", "ROLLBACK"} {
		if strings.Contains(u, p) {
			return true
		}
	}
	return false
}

// c12Upgrade starts a node with the database of an older version of its schema that holds data.
func c12Upgrade(t *T) {
	s := newMysqlSim()
	steps := 0
	s.setFault(func(q string) fault {
		if !bookkeeping(q) {
			steps++
		}
		return fNone
	})
	d, err := s.open()
	if err != nil {
		t.Viol("C12", "mysql:init", "the node does not start with an empty database: %v", err)
		return
	}
	d.Close()
	s.Close()
	for k := 0; t.More(k, 2*steps, 100); k++ {
		rng := t.Sub()
		version := 4 + k%(steps-3) // 4 is the oldest one that was released
		t.SetCase(fmt.Sprintf("version %d of %d", version, steps))
		s := newMysqlSim()
		// startUntil starts a node that stops after some migrations; somebody repairs the schema by hand.
		startUntil := func(steps, at int) {
			n := 0
			s.setFault(func(q string) fault {
				if !bookkeeping(q) {
					if n++; n > steps {
						return fError
					}
				}
				return fNone
			})
			if d, err := s.open(); err == nil {
				d.Close()
			}
			s.setFault(nil)
			_, err := s.back.Exec("UPDATE schema_migrations SET version=?, dirty=0", at)
			must(err)
		}
		startUntil(4, 4)
		ms := makeMembers(rng, 3, true)
		pre, ec := ms[0].Pre, dealEc(rng, ms, 1)[0]
		insert := func(table, cols string, args ...interface{}) bool {
			_, err := s.back.Exec("INSERT INTO "+table+" ("+cols+") VALUES ("+strings.TrimRight(strings.Repeat("?,", len(args)), ",")+")", args...)
			return err == nil
		}
		hasKey := insert("keygen", "key_type, work_id, pids_string, keygen_output", "ecdsa", "w", "p", []byte(toJ(ec)))
		hasPre := insert("preparams", "key_type, preparams", "ecdsa", []byte(toJ(pre)))
		hasPeer := insert("peers", "address, pubkey, pubkey_type", "addr", "key", "ed25519")
		var ids []string
		out := randPresign(rng, 0)
		pids := utils.GetPidString(pidsOf(ms))
		used := map[string]bool{}
		for i := 0; i < 1+rng.Intn(20); i++ {
			id, status := fmt.Sprintf("w%d-0", i), "not_used"
			if rng.Intn(3) == 0 {
				status = "used"
			}
			if insert("presign", "presign_id, work_id, pids_string, status, presign_output", id, fmt.Sprintf("w%d", i), pids, status, []byte(toJ(out))) {
				ids = append(ids, id)
				used[id] = status == "used"
			}
		}
		if version > 4 {
			startUntil(version-4, version)
		}
		d, err := s.open()
		if err != nil {
			t.Viol("C12", "mysql:upgrade-fails", "a database of version %d of %d that holds data is not opened: %v", version, steps, err)
			s.Close()
			continue
		}
		if x, err := d.LoadEcKeygen("ecdsa"); hasKey && (err != nil || x == nil || toJ(x) != toJ(ec)) {
			t.Viol("C12", "mysql:upgrade-lost", "the key share is gone after the upgrade from version %d (%v)", version, err)
		}
		if x, err := d.LoadPreparams(); hasPre && (err != nil || toJ(x) != toJ(pre)) {
			t.Viol("C12", "mysql:upgrade-lost", "the preparams are gone after the upgrade from version %d (%v)", version, err)
		}
		if l := d.LoadPeers(); hasPeer && (len(l) != 1 || l[0].PubKey != "key" || l[0].Address != "addr" || l[0].PubKeyType != "ed25519") {
			t.Viol("C12", "mysql:upgrade-lost", "the peers are gone after the upgrade from version %d", version)
		}
		if len(ids) > 0 {
			x, err := d.LoadPresign(ids)
			if err != nil || len(x) != len(ids) || toJ(x[0]) != toJ(out) {
				t.Viol("C12", "mysql:upgrade-lost", "the presigns are gone after the upgrade from version %d (%v)", version, err)
			}
			st, err := d.LoadPresignStatus(ids)
			for i := range ids {
				if err != nil || (st[i] == "used") != used[ids[i]] {
					t.Viol("C12", "mysql:upgrade-status", "the states of the presigns change in the upgrade from version %d (%v)", version, err)
					break
				}
			}
		}
		t.Count("records compared after an upgrade", 3+len(ids))
		t.Eval(1)
		t.State("upgrade", version, hasKey, hasPre, hasPeer, len(ids))
		d.Close()
		s.Close()
	}
}

// c12Faults makes random calls while statements fail and connections break. What is reported as saved
// is loaded; what is loaded without an error is complete; nothing is reported as missing that was saved.
func c12Faults(t *T) {
	for k := 0; t.More(k, 25, 400); k++ {
		rng := t.Sub()
		c := openCase(t, true)
		ms := makeMembers(rng, 3, true)
		sub := utils.GetPidString(pidsOf(ms))
		ec, ed := dealEc(rng, ms, 1)[0], dealEd(rng, ms, 1)[0]
		t.need("SavePreparams", c.SavePreparams(ms[0].Pre))
		t.need("SaveEcKeygen", c.SaveEcKeygen("ecdsa", "w", pidsOf(ms), ec))
		t.need("SaveEdKeygen", c.SaveEdKeygen("eddsa", "w", pidsOf(ms), ed))
		ecJ, edJ, preJ := toJ(ec), toJ(ed), toJ(ms[0].Pre)
		var mu sync.Mutex
		frng := rand.New(rand.NewSource(rng.Int63()))
		rate := 1 + rng.Intn(4)
		c.sim.setFault(func(q string) fault {
			mu.Lock()
			defer mu.Unlock()
			if frng.Intn(10) < rate {
				return fault(1 + frng.Intn(5))
			}
			return fNone
		})
		type rec struct {
			json      string
			sure      bool // certainly saved
			used      bool // certainly used
			maybeUsed bool
		}
		model := map[string]*rec{}
		groups := [][]string{} // presigns that are marked together
		var ids []string
		var hist []string
		for q := 0; q < 60; q++ {
			if rng.Intn(15) == 0 {
				func() { // a restart, with faults, until it works
					c.Database.Close()
					c.sim.setFault(nil)
					x, err := c.sim.open()
					must(err)
					c.Database = x
					c.sim.setFault(func(q string) fault {
						mu.Lock()
						defer mu.Unlock()
						if frng.Intn(10) < rate {
							return fault(1 + frng.Intn(5))
						}
						return fNone
					})
				}()
			}
			op := rng.Intn(7)
			var err error
			switch op {
			case 0, 1:
				work := fmt.Sprintf("%s%d", uniqueId(rng), q)
				var outs []*ecsigning.SignatureData_OneRoundData
				for i := 0; i < 1+rng.Intn(5); i++ {
					outs = append(outs, randPresign(rng, i))
				}
				err = c.SavePresignData(work, pidsOf(ms), outs)
				for i := range outs {
					id := fmt.Sprintf("%s-%d", work, i)
					model[id] = &rec{json: toJ(outs[i]), sure: err == nil}
					ids = append(ids, id)
				}
			case 2:
				ask := pick(rng, ids)
				if len(ask) == 0 {
					continue
				}
				var got []*ecsigning.SignatureData_OneRoundData
				got, err = c.LoadPresign(ask)
				if err == nil {
					if len(got) != len(ask) {
						t.Viol("C12", "faults:incomplete", "%d presigns are loaded instead of %d, without an error", len(got), len(ask))
						break
					}
					for i := range ask {
						if toJ(got[i]) != model[ask[i]].json {
							t.Viol("C12", "faults:changed", "a presign is loaded with other content")
						}
						model[ask[i]].sure = true
					}
				}
				if err != nil && errors.Is(err, db.ErrNotFound) && allSure(model[ask[0]].sure, ask, func(id string) bool { return model[id].sure }) {
					t.Viol("C12", "faults:presign-missing", "presigns that were saved are reported as missing when a connection breaks: %v", err)
				}
			case 3:
				ask := pick(rng, ids)
				if len(ask) == 0 {
					continue
				}
				var got []string
				got, err = c.LoadPresignStatus(ask)
				if err != nil && errors.Is(err, db.ErrNotFound) && allSure(true, ask, func(id string) bool { return model[id].sure }) {
					t.Viol("C12", "faults:status-missing", "presigns that were saved are reported as missing when a connection breaks: %v", err)
				}
				if err == nil && len(got) != len(ask) {
					t.Viol("C12", "faults:incomplete", "%d states are loaded instead of %d, without an error", len(got), len(ask))
					break
				}
				for i := range got {
					r := model[ask[i]]
					if r.used && got[i] != "used" || !r.used && !r.maybeUsed && got[i] != "not_used" {
						t.Viol("C12", "faults:status", "the state of a presign is %s; certainly used %v, possibly used %v", got[i], r.used, r.maybeUsed)
					}
				}
			case 4:
				ask := pick(rng, ids)
				if len(ask) == 0 {
					continue
				}
				was := false
				for _, id := range ask {
					was = was || model[id].used
				}
				err = c.UpdatePresignStatus(ask)
				if err == nil && was {
					t.Viol("C12", "faults:marked-twice", "a presign is marked as used for the second time")
				}
				for _, id := range ask {
					if err == nil {
						model[id].sure, model[id].used = true, true
					} else {
						model[id].maybeUsed = true
					}
				}
				if err != nil {
					groups = append(groups, ask)
				}
			case 5:
				var gotIds, gotPids []string
				gotIds, gotPids, err = c.GetAvailablePresignShortForm()
				if err != nil {
					break
				}
				have := map[string]bool{}
				for i, id := range gotIds {
					have[id] = true
					if r := model[id]; r == nil || r.used || gotPids[i] != sub {
						t.Viol("C12", "faults:short-form", "presign %s is listed; saved %v", id, r != nil)
					}
				}
				for id, r := range model {
					if r.sure && !r.used && !r.maybeUsed && !have[id] {
						t.Viol("C12", "faults:short-form-incomplete", "the list of %d unused presigns is incomplete, without an error", len(gotIds))
						break
					}
				}
			case 6:
				switch rng.Intn(3) {
				case 0:
					var x *eckeygen.LocalPartySaveData
					x, err = c.LoadEcKeygen("ecdsa")
					if err == nil && (x == nil || toJ(x) != ecJ) {
						t.Viol("C12", "faults:share-missing", "the ecdsa share is reported as missing (%v) when a connection breaks", x == nil)
					}
				case 1:
					x, e := c.LoadEdKeygen("eddsa")
					if err = e; err == nil && (x == nil || toJ(x) != edJ) {
						t.Viol("C12", "faults:share-missing", "the eddsa share is reported as missing (%v) when a connection breaks", x == nil)
					}
				case 2:
					x, e := c.LoadPreparams()
					err = e
					if errors.Is(err, db.ErrNotFound) || err == nil && toJ(x) != preJ {
						t.Viol("C12", "faults:preparams-missing", "the preparams are reported as missing when a connection breaks")
					}
				}
			}
			if err != nil {
				t.Count("calls that report a fault", 1)
			} else {
				t.Count("calls without an error", 1)
			}
			hist = append(hist, fmt.Sprintf("%d:%v", op, err == nil))
			t.State("faults", op, err == nil, q%7)
		}
		c.sim.setFault(nil)
		t.SetCase(hist)
		// Everything that is certain is still there; what is not certain was done as a whole or not at all.
		for id, r := range model {
			x, err := c.LoadPresign([]string{id})
			if r.sure && (err != nil || len(x) != 1 || toJ(x[0]) != r.json) {
				t.Viol("C12", "faults:lost", "a presign that was reported as saved is not loaded: %v", err)
			}
			if err != nil {
				continue
			}
			st, err := c.LoadPresignStatus([]string{id})
			if err != nil || r.used && st[0] != "used" || !r.used && !r.maybeUsed && st[0] != "not_used" {
				t.Viol("C12", "faults:final-status", "a presign is certainly used %v, possibly used %v, its state is %v (%v)", r.used, r.maybeUsed, st, err)
			}
			t.Count("records compared after the faults", 1)
		}
		for _, g := range groups {
			only := true // marked by this call at most
			var used, not int
			for _, id := range g {
				if model[id].used {
					only = false
				}
				for _, h := range groups {
					for _, o := range h {
						if o == id && &h[0] != &g[0] {
							only = false
						}
					}
				}
				if st, err := c.LoadPresignStatus([]string{id}); err == nil && st[0] == "used" {
					used++
				} else {
					not++
				}
			}
			if only && used > 0 && not > 0 {
				t.Viol("C12", "faults:part-marked", "a call that failed marked %d of %d presigns", used, used+not)
			}
		}
		t.Eval(1)
		t.Count("faults injected", int(c.sim.faults))
		c.Close()
	}
}

func allSure(ok bool, ids []string, f func(string) bool) bool {
	for _, id := range ids {
		ok = ok && f(id)
	}
	return ok
}

// pick returns some different elements.
func pick(rng *rand.Rand, ids []string) []string {
	var res []string
	for _, i := range rng.Perm(len(ids)) {
		if len(res) < 1+rng.Intn(5) {
			res = append(res, ids[i])
		}
	}
	return res
}

var _ = sql.ErrNoRows
