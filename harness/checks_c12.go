package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/sisu-network/dheart/db"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/store"
	"github.com/sisu-network/dheart/utils"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	"github.com/sisu-network/tss-lib/tss"
)

func init() {
	register(&Check{
		ID:          "C12",
		Rule:        "a case is distinct by kind of record, size of the batch, number and order of the requested identifiers, and number of concurrent users",
		Assumptions: []string{"the in-memory (sqlite) database with the real migrations, and the code for MySQL with a server of the harness that speaks its protocol and keeps the data in sqlite: SQL that only MySQL understands, its collations and its locking are not covered", "one key generation per key type is stored: the loading calls have no way to name another one"},
		Units: func(tier string, seed int64) []Unit {
			var res []Unit
			for _, x := range []struct {
				name string
				sim  bool
			}{{"", false}, {"mysql-", true}} {
				sim := x.sim
				res = append(res, Unit{Name: x.name + "records", Run: func(t *T) { c12Records(t, sim) }}, Unit{Name: x.name + "presigns", Run: func(t *T) { c12Presigns(t, sim) }},
					Unit{Name: x.name + "peers", Run: func(t *T) { c12Peers(t, sim) }}, Unit{Name: x.name + "concurrent", Run: func(t *T) { c12Concurrent(t, sim) }})
			}
			return append(res, Unit{Name: "engine", Run: c12Engine}, Unit{Name: "mysql-start", Run: c12Start}, Unit{Name: "mysql-upgrade", Run: c12Upgrade}, Unit{Name: "mysql-faults", Run: c12Faults})
		},
	})
	register(&Check{
		ID:   "C13",
		Rule: "a case is distinct by interface, key length, length of the value and kind of alteration (position of the flipped bit, length of the truncation)",
		Units: func(tier string, seed int64) []Unit {
			return []Unit{{Name: "aes", Run: c13Aes}, {Name: "store", Run: c13Store}}
		},
	})
}

func toJ(v interface{}) string {
	bz, err := json.Marshal(v)
	must(err)
	return string(bz)
}

// randText makes identifiers, among them empty ones, quotes, wildcards and non-ASCII characters.
func randText(rng *rand.Rand) string {
	switch rng.Intn(8) {
	case 0:
		return fmt.Sprintf("it's %%_ \"%x\" -- ;", rng.Uint32())
	case 1:
		return fmt.Sprintf("wörk-日本 %x", rng.Uint32())
	case 2:
		return fmt.Sprintf("%x", randBytes(rng, 100))
	case 3:
		return fmt.Sprintf("a-%d", rng.Intn(4))
	case 4:
		return fmt.Sprintf("A-%d", rng.Intn(4)) // differs from a-%d in case only
	}
	return fmt.Sprintf("%016x", rng.Uint64())
}

// nearTexts are texts that a loose comparison takes for s.
func nearTexts(rng *rand.Rand, s string) []string {
	res := []string{strings.ToUpper(s), strings.Title(s), "%", s + "%", "", s + " ", " " + s, s + "\x00", "_" + s, strings.Repeat("_", len([]rune(s)))}
	if r := []rune(s); len(r) > 0 {
		i := rng.Intn(len(r))
		res = append(res, string(r[:i])+"_"+string(r[i+1:]), string(r[:i])+"%", string(r[:len(r)-1]))
	}
	return res
}

func c12Records(t *T, sim bool) {
	for k := 0; t.More(k, map[bool]int{false: 60, true: 25}[sim], 1000); k++ {
		rng := t.Sub()
		n := 2 + rng.Intn(4)
		ms := makeMembers(rng, n, true)
		d := openCase(t, sim)
		if p, err := d.LoadPreparams(); err == nil || p != nil {
			t.Viol("C12", "preparams:phantom", "preparams are loaded that were never saved")
		}
		pre := ms[rng.Intn(n)].Pre
		before := toJ(pre)
		t.need("SavePreparams", d.SavePreparams(pre))
		for r := 0; r < 3; r++ {
			p, err := d.LoadPreparams()
			if err != nil || toJ(p) != before || p.NTildei.Cmp(pre.NTildei) != 0 || p.PaillierSK.N.Cmp(pre.PaillierSK.N) != 0 {
				t.Viol("C12", "preparams:changed", "the preparams are loaded with other content (%v)", err)
			}
			t.Count("preparams loads", 1)
		}
		// Key shares of several key types in one database.
		ec := dealEc(rng, ms, 1)
		ed := dealEd(rng, ms, 1)
		ecTypes := []string{"ecdsa", "ecdsa-" + randText(rng), "ECDSA2"}
		edTypes := []string{"eddsa", "eddsa-" + randText(rng)}
		type saved struct {
			ed   bool
			typ  string
			idx  int
			json string
		}
		var all []saved
		for i, typ := range ecTypes[:1+rng.Intn(3)] {
			all = append(all, saved{false, typ, i % n, toJ(ec[i%n])})
		}
		for i, typ := range edTypes[:1+rng.Intn(2)] {
			all = append(all, saved{true, typ, i % n, toJ(ed[i%n])})
		}
		rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		same := randText(rng)
		check := func(s saved, present bool) {
			var got string
			var err error
			var none bool
			if s.ed {
				x, e := d.LoadEdKeygen(s.typ)
				err, none = e, x == nil
				if x != nil {
					got = toJ(x)
					if present && (x.EDDSAPub == nil || !x.EDDSAPub.IsOnCurve()) {
						t.Viol("C12", "keygen:curve", "an eddsa key is loaded without its curve")
					}
				}
			} else {
				x, e := d.LoadEcKeygen(s.typ)
				err, none = e, x == nil
				if x != nil {
					got = toJ(x)
				}
			}
			t.Count("key share loads", 1)
			switch {
			case present && (err != nil || got != s.json):
				t.Viol("C12", "keygen:changed", "the share of key type %q is loaded with other content (%v)", s.typ, err)
			case !present && err == nil && !none:
				t.Viol("C12", "keygen:phantom", "a share of key type %q is loaded that was never saved", s.typ)
			}
		}
		for i, s := range all {
			d.restart(rng)
			check(s, false)
			work := same // the same work id for several key types
			if rng.Intn(2) == 0 {
				work = randText(rng)
			}
			var err error
			if s.ed {
				err = d.SaveEdKeygen(s.typ, work, pidsOf(ms), ed[s.idx])
			} else {
				err = d.SaveEcKeygen(s.typ, work, pidsOf(ms), ec[s.idx])
			}
			if err != nil {
				t.Viol("C12", "keygen:refused", "the share of key type %q cannot be saved: %v", s.typ, err)
			}
			for j := range all {
				check(all[j], j <= i)
			}
			for _, near := range nearTexts(rng, s.typ) {
				known := false
				for j := range all {
					known = known || all[j].typ == near
				}
				if !known {
					check(saved{s.ed, near, 0, ""}, false)
				}
			}
		}
		t.Eval(1)
		t.State("records", n, len(all))
		d.Close()
	}
}

func randPresign(rng *rand.Rand, i int) *ecsigning.SignatureData_OneRoundData {
	b := func() []byte {
		l := 32
		if rng.Intn(4) == 0 {
			l = rng.Intn(40)
		}
		if l == 0 {
			return nil
		}
		return randBytes(rng, l)
	}
	x := forgePresign(rng, makeMembers(rng, 2, false), []int{0, 1}, randNonce(rng), randNonce(rng))[0]
	x.T, x.KI, x.RSigmaI = int32(i), b(), b()
	return x
}

func c12Presigns(t *T, sim bool) {
	for k := 0; t.More(k, map[bool]int{false: 250, true: 60}[sim], 4000); k++ {
		rng := t.Sub()
		d := openCase(t, sim)
		ms := makeMembers(rng, 2+rng.Intn(8), false)
		type rec struct {
			json, pids string
			used       bool
		}
		model := map[string]*rec{}
		var ids []string
		for w := 0; w < 1+rng.Intn(4); w++ {
			work := randText(rng) + fmt.Sprint(w)
			batch := 1 + rng.Intn(6)
			if w == 0 && k%5 == 0 {
				batch = 12 + rng.Intn(30)
			}
			if w == 0 && k%10 == 3 {
				batch = 60 + rng.Intn(90)
			}
			var outs []*ecsigning.SignatureData_OneRoundData
			for i := 0; i < batch; i++ {
				outs = append(outs, randPresign(rng, i))
			}
			sub := pidsOf(ms)[:2+rng.Intn(len(ms)-1)]
			before := toJ(outs)
			if err := d.SavePresignData(work, sub, outs); err != nil {
				t.Viol("C12", "presign:refused", "a batch of %d presigns cannot be saved: %v", batch, err)
				continue
			}
			if toJ(outs) != before {
				t.Viol("C12", "presign:argument-changed", "saving changes the presigns")
			}
			for i := range outs {
				id := fmt.Sprintf("%s-%d", work, i)
				model[id] = &rec{json: toJ(outs[i]), pids: utils.GetPidString(sub)}
				ids = append(ids, id)
			}
		}
		for q := 0; q < 40; q++ {
			if q%8 == 0 {
				d.restart(rng)
			}
			var ask []string
			missing := false
			many := 1 + rng.Intn(12)
			if q%10 == 4 {
				many = 1 + len(ids)/2 + rng.Intn(len(ids)+1)
			}
			for j := 0; j < many; j++ {
				switch x := rng.Intn(12); {
				case x == 0 && q%3 == 0:
					id := randText(rng) + "none"
					if near := nearTexts(rng, ids[rng.Intn(len(ids))]); rng.Intn(2) == 0 {
						id = near[rng.Intn(len(near))]
					}
					ask = append(ask, id)
					missing = missing || model[id] == nil
				default:
					ask = append(ask, ids[rng.Intn(len(ids))])
				}
			}
			switch rng.Intn(3) {
			case 0:
				got, err := d.LoadPresign(ask)
				if missing {
					if err == nil {
						t.Viol("C12", "presign:phantom", "presigns are loaded although one was never saved")
					}
					break
				}
				if err != nil || len(got) != len(ask) {
					t.Viol("C12", "presign:lost", "%d presigns are loaded instead of %d: %v", len(got), len(ask), err)
					break
				}
				for i := range ask {
					if toJ(got[i]) != model[ask[i]].json {
						t.Viol("C12", "presign:changed-or-reordered", "presign %d of %v is loaded with other content", i, ask)
					}
				}
				t.Count("presign loads", 1)
			case 1:
				got, err := d.LoadPresignStatus(ask)
				if missing {
					if err == nil {
						t.Viol("C12", "status:phantom", "states are loaded although one presign was never saved")
					}
					break
				}
				if err != nil || len(got) != len(ask) {
					t.Viol("C12", "status:lost", "%d states are loaded instead of %d: %v", len(got), len(ask), err)
					break
				}
				for i := range ask {
					want := "not_used"
					if model[ask[i]].used {
						want = "used"
					}
					if got[i] != want {
						t.Viol("C12", "status:changed-or-reordered", "state %d of %v is %s instead of %s", i, ask, got[i], want)
					}
				}
				t.Count("status loads", 1)
			default:
				if missing || q%4 != 0 {
					break
				}
				one := ask[0]
				err := d.UpdatePresignStatus([]string{one})
				if (err == nil) == model[one].used {
					t.Viol("C12", "status:update", "marking a presign whose used state is %v: %v", model[one].used, err)
				}
				model[one].used = true
			}
			t.State("presigns", len(ask), missing, len(ids))
		}
		// The short form lists exactly the unused ones with their parties.
		gotIds, gotPids, err := d.GetAvailablePresignShortForm()
		t.need("GetAvailablePresignShortForm", err)
		listed := map[string]string{}
		for i := range gotIds {
			if _, dup := listed[gotIds[i]]; dup {
				t.Viol("C12", "short-form:twice", "presign %s is listed twice", gotIds[i])
			}
			listed[gotIds[i]] = gotPids[i]
		}
		for id, r := range model {
			p, ok := listed[id]
			if ok == r.used || (ok && p != r.pids) {
				t.Viol("C12", "short-form", "presign %s (used %v, parties %s) is listed: %v %s", id, r.used, r.pids, ok, p)
			}
			delete(listed, id)
		}
		if len(listed) > 0 {
			t.Viol("C12", "short-form:phantom", "unknown presigns are listed: %v", listed)
		}
		t.Eval(1)
		d.Close()
	}
}

func c12Peers(t *T, sim bool) {
	for k := 0; t.More(k, map[bool]int{false: 1500, true: 200}[sim], 20000); k++ {
		rng := t.Sub()
		d := openCase(t, sim)
		if l := d.LoadPeers(); len(l) != 0 {
			t.Viol("C12", "peers:phantom", "%d peers are loaded from an empty database", len(l))
		}
		var peers []*p2ptypes.Peer
		for i := 0; i < 1+rng.Intn(20); i++ {
			p := &p2ptypes.Peer{Address: "/ip4/127.0.0.1/tcp/1/p2p/" + randText(rng), PubKey: fmt.Sprintf("%s%d", randText(rng), i), PubKeyType: []string{"ed25519", "secp256k1", ""}[rng.Intn(3)]}
			if rng.Intn(6) == 0 {
				p.Address = ""
			}
			if rng.Intn(5) == 0 {
				// What is around it belongs to it.
				p.Address = []string{" ", "\t", "", "\n"}[rng.Intn(4)] + p.Address + []string{"/", " ", "\n", "\r\n"}[rng.Intn(4)]
			}
			if rng.Intn(8) == 0 {
				p.PubKey = " " + p.PubKey
			}
			peers = append(peers, p)
		}
		want := map[string]bool{}
		for _, p := range peers {
			want[toJ(p)] = true
		}
		cut := rng.Intn(len(peers) + 1)
		t.need("SavePeers", d.SavePeers(peers[:cut]))
		d.restart(rng)
		t.need("SavePeers", d.SavePeers(peers[cut:]))
		got := d.LoadPeers()
		have := map[string]bool{}
		for _, p := range got {
			have[toJ(p)] = true
		}
		if len(got) != len(peers) || !reflect.DeepEqual(have, want) {
			t.Viol("C12", "peers:changed", "%d peers are loaded instead of %d, or with other content", len(got), len(peers))
		}
		t.Eval(1)
		t.Count("peers compared", len(peers))
		t.State("peers", len(peers), cut)
		d.Close()
	}
}

func c12Concurrent(t *T, sim bool) {
	for k := 0; t.More(k, map[bool]int{false: 6, true: 3}[sim], 60); k++ {
		rng := t.Sub()
		d := openCase(t, sim)
		ms := makeMembers(rng, 3, true)
		ec := dealEc(rng, ms, 1)
		users := 4 + rng.Intn(12)
		ecJson := toJ(ec[0])
		t.need("SaveEcKeygen", d.SaveEcKeygen("ecdsa", "w", pidsOf(ms), ec[0]))
		outs := make([]*ecsigning.SignatureData_OneRoundData, 3)
		for i := range outs {
			outs[i] = randPresign(rng, i)
		}
		var jsons []string
		for _, o := range outs {
			jsons = append(jsons, toJ(o))
		}
		var wg sync.WaitGroup
		ok := t.Within(60*time.Second, func() {
			for u := 0; u < users; u++ {
				wg.Add(1)
				go func(u int) {
					defer wg.Done()
					for r := 0; r < 12; r++ {
						work := fmt.Sprintf("u%d-%d", u, r)
						if err := d.SavePresignData(work, pidsOf(ms), outs); err != nil {
							t.Viol("C12", "concurrent:refused", "user %d: %v", u, err)
							continue
						}
						got, err := d.LoadPresign([]string{work + "-2", work + "-0"})
						if err != nil || len(got) != 2 || toJ(got[0]) != jsons[2] || toJ(got[1]) != jsons[0] {
							t.Viol("C12", "concurrent:lost", "what user %d has saved is not loaded: %v", u, err)
						}
						x, err := d.LoadEcKeygen("ecdsa")
						if err != nil || x == nil || toJ(x) != ecJson {
							t.Viol("C12", "concurrent:share-lost", "the key share is gone: %v", err)
						}
						if u%3 == 0 {
							time.Sleep(time.Duration(u) * time.Millisecond)
						}
						t.Count("concurrent save-load pairs", 1)
					}
				}(u)
			}
			wg.Wait()
		})
		if !ok {
			t.Live("C12", "concurrent:stuck", "%d concurrent users of the database do not finish", users)
		} else {
			ids, _, err := d.GetAvailablePresignShortForm()
			if err != nil || len(ids) != users*12*3 {
				t.Viol("C12", "concurrent:count", "%d presigns are stored instead of %d (%v)", len(ids), users*36, err)
			}
		}
		t.Eval(1)
		t.State("concurrent", users)
		d.Close()
	}
	// Data of an idle database stays: connections are closed and opened again after some seconds.
	d := openCase(t, sim)
	rng := t.Sub()
	ms := makeMembers(rng, 2, true)
	t.need("SavePreparams", d.SavePreparams(ms[0].Pre))
	time.Sleep(7 * time.Second)
	if p, err := d.LoadPreparams(); err != nil || toJ(p) != toJ(ms[0].Pre) {
		t.Viol("C12", "idle:lost", "the data of a database that was idle for 7 s is gone: %v", err)
	}
	t.Eval(1)
	d.Close()
	_ = db.ErrNotFound
}

// c12Engine: what the works of an engine save is what a restarted engine finds.
func c12Engine(t *T) {
	for k := 0; t.More(k, 3, 40); k++ {
		rng := t.Sub()
		cl := newCluster(t, rng, Opts{N: 3, Thr: 1, Pre: true})
		for _, kind := range []string{"edgen", "ecgen"}[:1+k%2] {
			w := &Work{Id: uniqueId(rng), Kind: kind}
			cl.submitAll([]*Work{w}, rng, 0, false)
			cl.Wait(w, cl.all(), 60*time.Second)
			cl.checkKeygen(w, map[string]string{})
			for i := range cl.Nodes {
				for _, o := range cl.of(w)[i] {
					if o.Kind != "keygen" || o.Outcome != 1 {
						continue
					}
					var pub []byte
					if kind == "ecgen" {
						x, err := cl.Nodes[i].Db.LoadEcKeygen("ecdsa")
						if err != nil || x == nil {
							t.Viol("C12", "engine:share-lost", "node %d: %v", i, err)
							continue
						}
						pub = ecPubBytes(x.ECDSAPub)
						if y, _ := cl.Nodes[i].Db.LoadEdKeygen("ecdsa-x"); y != nil {
							t.Viol("C12", "engine:phantom", "another key type is found")
						}
					} else {
						x, err := cl.Nodes[i].Db.LoadEdKeygen("eddsa")
						if err != nil || x == nil {
							t.Viol("C12", "engine:share-lost", "node %d: %v", i, err)
							continue
						}
						pub = edPubBytes(x.EDDSAPub)
					}
					if !bytes.Equal(pub, o.Keygen.PubKeyBytes) {
						t.Viol("C12", "engine:other-share", "node %d stored a share of another key", i)
					}
					t.Count("shares of key generations loaded", 1)
				}
			}
			t.Eval(1)
			t.State("engine", kind)
		}
		cl.Close()
	}
}

// ---- C13

func randValue(rng *rand.Rand, k int) []byte {
	switch k % 8 {
	case 0:
		return []byte{}
	case 1:
		return randBytes(rng, 1)
	case 2:
		return bytes.Repeat([]byte("secret "), 1+rng.Intn(100))
	case 3:
		return make([]byte, 1+rng.Intn(300))
	case 4:
		if k%48 == 4 {
			return randBytes(rng, 1<<20+rng.Intn(1000))
		}
	}
	return randBytes(rng, 1+rng.Intn(600))
}

func (t *T) noPanic(prop, key string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			t.Viol(prop, key, "panic: %v", r)
		} else {
			ok = true
		}
	}()
	f()
	return
}

// alterations of a ciphertext
func alterations(rng *rand.Rand, c []byte, f func(what string, x []byte)) {
	flip := func(bit int) {
		x := append([]byte{}, c...)
		x[bit/8] ^= 1 << uint(bit%8)
		f("bit", x)
	}
	if len(c) <= 120 {
		for b := 0; b < len(c)*8; b++ {
			flip(b)
		}
	} else {
		for i := 0; i < 150; i++ {
			flip(rng.Intn(len(c) * 8))
		}
		for _, b := range []int{0, 8*11 + 7, 8 * 12, 8*12 + 1, len(c)*8 - 1, (len(c) - 16) * 8, (len(c)-16)*8 - 1} {
			flip(b)
		}
	}
	for l := 0; l < len(c); l++ {
		if l > 40 && l < len(c)-40 && rng.Intn(len(c)/20+1) != 0 {
			continue
		}
		f("prefix", append([]byte{}, c[:l]...))
		f("suffix", append([]byte{}, c[len(c)-l:]...))
	}
	f("nil", nil)
	f("appended", append(append([]byte{}, c...), 0))
	f("prepended", append([]byte{0}, c...))
	f("doubled", append(append([]byte{}, c...), c...))
	f("random", randBytes(rng, len(c)))
	f("zeros", make([]byte, len(c)))
	if len(c) > 30 {
		i, j := rng.Intn(len(c)), rng.Intn(len(c))
		x := append([]byte{}, c...)
		if x[i] != x[j] {
			x[i], x[j] = x[j], x[i]
			f("swapped", x)
		}
	}
}

func c13Aes(t *T) {
	for k := 0; t.More(k, 500, 6000); k++ {
		rng := t.Sub()
		key := randBytes(rng, []int{16, 24, 32}[rng.Intn(3)])
		val := randValue(rng, k)
		var c []byte
		var err error
		t.noPanic("C13", "aes:panic", func() { c, err = utils.AESDEncrypt(append([]byte{}, val...), key) })
		if err != nil || c == nil {
			t.Viol("C13", "aes:refused", "a value of %d bytes cannot be encrypted with a key of %d bytes: %v", len(val), len(key), err)
			continue
		}
		got, err := utils.AESDecrypt(append([]byte{}, c...), key)
		if err != nil || !bytes.Equal(got, val) {
			t.Viol("C13", "aes:roundtrip", "a value of %d bytes is not decrypted to itself: %v", len(val), err)
		}
		if len(val) >= 8 && bytes.Contains(c, val[:8]) && !bytes.Equal(val[:8], make([]byte, 8)) || len(val) >= 16 && bytes.Contains(c, val[len(val)-16:]) {
			t.Viol("C13", "aes:plaintext", "the ciphertext contains the plaintext")
		}
		c2, _ := utils.AESDEncrypt(val, key)
		if bytes.Equal(c, c2) {
			t.Viol("C13", "aes:deterministic", "encrypting a value twice gives the same bytes")
		}
		var ps, cs [][]byte
		for i := 0; i < 8; i++ {
			p := randBytes(rng, 16+rng.Intn(40))
			x, err := utils.AESDEncrypt(append([]byte{}, p...), key)
			t.need("encryption", err)
			ps, cs = append(ps, p), append(cs, x)
		}
		if i, j := sharedStream(ps, cs); i >= 0 {
			t.Viol("C13", "aes:difference", "the difference of two values (%d and %d) is the difference of their ciphertexts", i, j)
		}
		try := func(what string, x, key []byte) {
			if bytes.Equal(x, c) && what != "key" {
				return
			}
			t.noPanic("C13", "aes:panic-"+what, func() {
				if got, err := utils.AESDecrypt(x, key); err == nil {
					t.Viol("C13", "aes:"+what, "altered data (%s) is decrypted without an error to %d bytes", what, len(got))
				} else if len(got) > 0 {
					t.Viol("C13", "aes:data-with-error", "altered data (%s) yields data together with an error", what)
				}
			})
			t.Count("alterations rejected: "+what, 1)
			t.State("aes", what, len(x), len(key))
		}
		alterations(rng, c, func(what string, x []byte) { try(what, x, key) })
		for i := 0; i < 10; i++ {
			k2 := append([]byte{}, key...)
			k2[rng.Intn(len(k2))] ^= 1 << uint(rng.Intn(8))
			try("key", append([]byte{}, c...), k2)
		}
		for _, l := range []int{0, 1, 15, 17, 31, 33, 64} {
			bad := randBytes(rng, l)
			t.noPanic("C13", "aes:panic-keylen", func() {
				if _, err := utils.AESDEncrypt(val, bad); err == nil {
					t.Viol("C13", "aes:keylen", "a key of %d bytes is accepted", l)
				}
				if _, err := utils.AESDecrypt(c, bad); err == nil {
					t.Viol("C13", "aes:keylen", "a key of %d bytes is accepted", l)
				}
			})
		}
		t.Eval(1)
	}
}

// sharedStream finds two ciphertexts whose difference is that of the values (which reveals one value to
// whoever knows the other).
func sharedStream(ps, cs [][]byte) (int, int) {
	for i := range ps {
		for j := 0; j < i; j++ {
			d := make([]byte, 12)
			for b := range d {
				d[b] = ps[i][b] ^ ps[j][b]
			}
			for o := 0; o+len(d) <= len(cs[i]) && o+len(d) <= len(cs[j]); o++ {
				same := true
				for b := range d {
					same = same && cs[i][o+b]^cs[j][o+b] == d[b]
				}
				if same {
					return i, j
				}
			}
		}
	}
	return -1, -1
}

type rawStore interface {
	Put(key, value []byte) error
	Get(key []byte) ([]byte, error)
}

func copyDir(from, to string) {
	must(os.MkdirAll(to, 0755))
	files, err := os.ReadDir(from)
	must(err)
	for _, f := range files {
		if f.Name() == "LOCK" || f.IsDir() {
			continue
		}
		bz, err := os.ReadFile(filepath.Join(from, f.Name()))
		must(err)
		must(os.WriteFile(filepath.Join(to, f.Name()), bz, 0644))
	}
}

func c13Store(t *T) {
	base := os.Getenv("HARNESS_SCRATCH")
	for k := 0; t.More(k, 80, 600); k++ {
		rng := t.Sub()
		dir := filepath.Join(base, fmt.Sprint("s", k))
		key := randBytes(rng, []int{16, 24, 32}[rng.Intn(3)])
		s, err := store.NewStore(dir, key)
		t.need("NewStore", err)
		raw, _ := s.(rawStore)
		model := map[string][]byte{}
		for j := 0; j < 12; j++ {
			name := []byte(randText(rng))
			if j == 3 {
				name = []byte{}
			}
			val := randValue(rng, j)
			if err := s.PutEncrypted(name, val); err != nil {
				t.Viol("C13", "store:refused", "a value of %d bytes cannot be stored: %v", len(val), err)
				continue
			}
			model[string(name)] = val
		}
		check := func(s store.Store, where string) {
			for name, val := range model {
				got, err := s.GetEncrypted([]byte(name))
				if err != nil || !bytes.Equal(got, val) {
					t.Viol("C13", "store:roundtrip", "a stored value of %d bytes is not read back (%s): %v", len(val), where, err)
				}
				t.Count("stored values read", 1)
			}
		}
		check(s, "same process")
		if got, err := s.GetEncrypted([]byte("never stored " + randText(rng))); err == nil {
			t.Viol("C13", "store:phantom", "a value of %d bytes is read that was never stored", len(got))
		}
		// The files contain no plaintext.
		var disk []byte
		files, _ := os.ReadDir(dir)
		for _, f := range files {
			bz, _ := os.ReadFile(filepath.Join(dir, f.Name()))
			disk = append(disk, bz...)
		}
		for _, val := range model {
			if len(val) >= 16 && bytes.Contains(disk, val[:16]) && !bytes.Equal(val[:16], make([]byte, 16)) {
				t.Viol("C13", "store:plaintext", "the files of the store contain a stored value")
			}
		}
		// Another instance with the same key reads everything, one with another key nothing.
		copyDir(dir, dir+"copy")
		copyDir(dir, dir+"other")
		if s2, err := store.NewStore(dir+"copy", key); err == nil {
			check(s2, "after a restart")
		} else {
			t.Viol("C13", "store:reopen", "the store cannot be opened again: %v", err)
		}
		other := append([]byte{}, key...)
		other[rng.Intn(len(other))] ^= 4
		if s3, err := store.NewStore(dir+"other", other); err == nil {
			for name := range model {
				if got, err := s3.GetEncrypted([]byte(name)); err == nil || len(got) > 0 {
					t.Viol("C13", "store:other-key", "a value is returned under another key")
				}
				t.Count("reads with another key", 1)
			}
		}
		// The same value twice gives different bytes; alterations are detected.
		if raw != nil {
			val := randValue(rng, 2+k)
			t.need("PutEncrypted", s.PutEncrypted([]byte("a"), val))
			t.need("PutEncrypted", s.PutEncrypted([]byte("b"), val))
			ra, _ := raw.Get([]byte("a"))
			rb, _ := raw.Get([]byte("b"))
			if bytes.Equal(ra, rb) {
				t.Viol("C13", "store:deterministic", "storing a value twice gives the same bytes")
			}
			t.need("PutEncrypted", s.PutEncrypted([]byte("a"), val))
			if again, _ := raw.Get([]byte("a")); bytes.Equal(again, ra) {
				t.Viol("C13", "store:deterministic", "storing a value again under the same name gives the same bytes")
			}
			// Other values, under the same and other names and after restarts.
			var ps, cs [][]byte
			now, at := s, dir
			for j := 0; j < 12; j++ {
				if j%4 == 3 {
					copyDir(at, fmt.Sprint(at, "+"))
					at += "+"
					next, err := store.NewStore(at, key)
					t.need("NewStore", err)
					now = next
				}
				p, name := randBytes(rng, 16+rng.Intn(30)), []byte{"xyz"[rng.Intn(3)]}
				t.need("PutEncrypted", now.PutEncrypted(name, append([]byte{}, p...)))
				x, err := now.(rawStore).Get(name)
				t.need("encryption", err)
				ps, cs = append(ps, p), append(cs, append([]byte{}, x...))
				t.Count("ciphertexts compared with each other", 1)
			}
			if i, j := sharedStream(ps, cs); i >= 0 {
				t.Viol("C13", "store:difference", "the difference of two stored values (%d and %d) is the difference of what is stored", i, j)
			}
			ra, _ = raw.Get([]byte("a"))
			alterations(rng, ra, func(what string, x []byte) {
				if bytes.Equal(x, ra) {
					return
				}
				must(raw.Put([]byte("a"), x))
				t.noPanic("C13", "store:panic-"+what, func() {
					if got, err := s.GetEncrypted([]byte("a")); err == nil || len(got) > 0 {
						t.Viol("C13", "store:"+what, "altered data (%s) is returned as %d bytes (%v)", what, len(got), err)
					}
				})
				t.Count("stored alterations rejected: "+what, 1)
				t.State("store", what, len(x))
			})
		}
		t.Eval(1)
	}
}

var (
	_ = sort.Strings
	_ = strings.Join
	_ = big.NewInt
	_ *eckeygen.LocalPreParams
	_ tss.SortedPartyIDs
)
