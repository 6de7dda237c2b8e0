package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sisu-network/dheart/blame"
	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/core/cache"
	"github.com/sisu-network/dheart/core/config"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/tools"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/utils"
	"github.com/sisu-network/tss-lib/tss"

	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/libp2p/go-libp2p/core/crypto"
	"github.com/libp2p/go-libp2p/core/peer"
)

func init() {
	register(&Check{
		ID:   "C18",
		Rule: "a case is distinct by the numbers of works, rounds and parties and the hash of the history of calls",
		Units: func(tier string, seed int64) []Unit {
			return []Unit{{Name: "history", Run: c18History}, {Name: "concurrent", Run: c18Concurrent}}
		},
	})
	register(&Check{
		ID:   "C19",
		Rule: "a case is distinct by capacity, number of keys and the hash of the history of additions",
		Units: func(tier string, seed int64) []Unit {
			return []Unit{{Name: "queue", Run: c19Queue}, {Name: "cache", Run: c19Cache}, {Name: "concurrent", Run: c19Concurrent}}
		},
	})
	register(&Check{
		ID:          "C23",
		Rule:        "a case is distinct by the set of special characters in the strings of the configuration and the number of peers",
		Assumptions: []string{"strings are valid UTF-8, as TOML requires"},
		Units: func(tier string, seed int64) []Unit {
			return []Unit{{Name: "roundtrip", Run: c23Roundtrip}, {Name: "broken", Run: c23Broken}}
		},
	})
	register(&Check{
		ID:   "C25",
		Rule: "a case is distinct by key type, key and size and order of the group",
		Units: func(tier string, seed int64) []Unit {
			return []Unit{{Name: "identity", Run: c25Identity}, {Name: "groups", Run: c25Groups}, {Name: "malformed", Run: c25Malformed}, {Name: "network", Run: c25Network}}
		},
	})
}

// ---- C18

type blameModel struct {
	sent, culprits map[string]map[string]bool
	pre            []string
}

func newBlameModel() *blameModel {
	return &blameModel{sent: map[string]map[string]bool{}, culprits: map[string]map[string]bool{}}
}

func put(m map[string]map[string]bool, k, v string) {
	if m[k] == nil {
		m[k] = map[string]bool{}
	}
	m[k][v] = true
}

func bkey(work string, round uint32) string { return fmt.Sprintf("%q %d", work, round) }

func (b *blameModel) blamed(work string, round uint32, parties map[string]*tss.PartyID) []string {
	var res []string
	for id := range parties {
		if !b.sent[bkey(work, round)][id] || b.culprits[bkey(work, round)][id] {
			res = append(res, id)
		}
	}
	sort.Strings(res)
	return res
}

func idsOf(pids []*tss.PartyID) []string {
	var res []string
	for _, p := range pids {
		if p == nil {
			res = append(res, "<nil>")
		} else {
			res = append(res, p.Id)
		}
	}
	return res
}

func sorted(s []string) []string {
	s = append([]string{}, s...)
	sort.Strings(s)
	return s
}

// checkBlame compares one answer with the model.
func (t *T) checkBlame(m *blame.Manager, b *blameModel, work string, round uint32, parties map[string]*tss.PartyID) {
	got := m.GetRoundCulprits(work, round, parties)
	for _, p := range got {
		if p != nil && parties[p.Id] != p {
			t.Viol("C18", "other-party-object", "the blamed party %s of work %q is not the party that was given", p.Id, work)
		}
	}
	g, want := sorted(idsOf(got)), b.blamed(work, round, parties)
	t.Eval(1)
	t.Count("blame queries", 1)
	t.Count(fmt.Sprintf("answers with %d of %d", len(want), len(parties)), 1)
	if fmt.Sprint(g) != fmt.Sprint(want) {
		t.Viol("C18", "blamed", "work %q round %d, parties %v: blamed %v instead of %v", work, round, len(parties), g, want)
	}
}

func blameWorld(rng *rand.Rand) (works []string, pids []*tss.PartyID) {
	works = []string{"w", "w1", "w:1", "w:1:1", "1", "", ":", uniqueId(rng), uniqueId(rng)}[:2+rng.Intn(8)]
	n := 1 + rng.Intn(12)
	for i := 0; i < n; i++ {
		pids = append(pids, tss.NewPartyID(fmt.Sprintf("p%d", i), "", big.NewInt(int64(i+1))))
	}
	return
}

func partySet(rng *rand.Rand, pids []*tss.PartyID) map[string]*tss.PartyID {
	res := map[string]*tss.PartyID{}
	for _, p := range pids {
		if rng.Intn(4) > 0 {
			res[p.Id] = p
		}
	}
	return res
}

func c18History(t *T) {
	for k := 0; t.More(k, 4000, 400000); k++ {
		rng := t.Sub()
		m, b := blame.NewManager(), newBlameModel()
		works, pids := blameWorld(rng)
		rounds := []uint32{0, 1, 2, 3, 10, 11, 1<<32 - 1}
		var hist []string
		for s := 0; s < 5+rng.Intn(60); s++ {
			w, r, p := works[rng.Intn(len(works))], rounds[rng.Intn(len(rounds))], pids[rng.Intn(len(pids))]
			if rng.Intn(3) > 0 {
				w, r = works[0], rounds[0]
			}
			switch rng.Intn(6) {
			case 0, 1, 2:
				m.AddSender(w, r, p.Id)
				put(b.sent, bkey(w, r), p.Id)
				hist = append(hist, fmt.Sprintf("send %q %d %s", w, r, p.Id))
			case 3:
				var cs []*tss.PartyID
				for i := 0; i < rng.Intn(4); i++ {
					c := pids[rng.Intn(len(pids))]
					cs = append(cs, c)
					put(b.culprits, bkey(w, r), c.Id)
				}
				m.AddCulpritByRound(w, r, cs)
				hist = append(hist, fmt.Sprintf("culprits %q %d %v", w, r, idsOf(cs)))
				// The caller may use its slice again.
				for i := range cs {
					cs[i] = pids[rng.Intn(len(pids))]
				}
			case 4:
				var cs []*tss.PartyID
				for i := 0; i < rng.Intn(4); i++ {
					c := pids[rng.Intn(len(pids))]
					cs = append(cs, c)
					b.pre = append(b.pre, c.Id)
				}
				m.AddPreExecutionCulprit(cs)
				for i := range cs {
					cs[i] = nil
				}
			case 5:
				t.SetCase(hist)
				t.checkBlame(m, b, w, r, partySet(rng, pids))
			}
		}
		t.SetCase(hist)
		for _, w := range works {
			for _, r := range rounds {
				t.checkBlame(m, b, w, r, partySet(rng, pids))
			}
		}
		// All of them are remembered. A party that was reported twice may be listed twice.
		got := map[string]bool{}
		for _, p := range idsOf(m.GetPreExecutionCulprits()) {
			got[p] = true
		}
		want := map[string]bool{}
		for _, p := range b.pre {
			want[p] = true
		}
		t.Eval(1)
		if !reflect.DeepEqual(got, want) {
			t.Viol("C18", "pre-execution", "reported before execution: %v, remembered: %v", want, got)
		}
		t.State(len(works), len(pids), strings.Join(hist, ";"))
		t.Sample(hist)
	}
}

func c18Concurrent(t *T) {
	for k := 0; t.More(k, 150, 4000); k++ {
		rng := t.Sub()
		m, b := blame.NewManager(), newBlameModel()
		works, pids := blameWorld(rng)
		var wg sync.WaitGroup
		workers := 2 + rng.Intn(7)
		var stop int32
		for g := 0; g < workers; g++ {
			type op struct {
				kind int
				w    string
				r    uint32
				p    *tss.PartyID
			}
			var ops []op
			for i := 0; i < 40; i++ {
				o := op{rng.Intn(3), works[rng.Intn(len(works))], uint32(rng.Intn(3)), pids[rng.Intn(len(pids))]}
				ops = append(ops, o)
				switch o.kind {
				case 0:
					put(b.sent, bkey(o.w, o.r), o.p.Id)
				case 1:
					put(b.culprits, bkey(o.w, o.r), o.p.Id)
				case 2:
					b.pre = append(b.pre, o.p.Id)
				}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, o := range ops {
					switch o.kind {
					case 0:
						m.AddSender(o.w, o.r, o.p.Id)
					case 1:
						m.AddCulpritByRound(o.w, o.r, []*tss.PartyID{o.p})
					case 2:
						m.AddPreExecutionCulprit([]*tss.PartyID{o.p})
					}
				}
			}()
		}
		// A reader sees a report, once made, forever.
		parties := map[string]*tss.PartyID{}
		for _, p := range pids {
			parties[p.Id] = p
		}
		var rd sync.WaitGroup
		rd.Add(1)
		go func() {
			defer rd.Done()
			last := 0
			for atomic.LoadInt32(&stop) == 0 {
				n := len(m.GetPreExecutionCulprits())
				if n < last {
					t.Viol("C18", "report-lost", "%d parties were reported before execution, then only %d", last, n)
				}
				last = n
				for _, w := range works {
					m.GetRoundCulprits(w, 1, parties)
				}
			}
		}()
		wg.Wait()
		atomic.StoreInt32(&stop, 1)
		rd.Wait()
		t.SetCase(fmt.Sprintf("%d concurrent reporters, %d works, %d parties", workers, len(works), len(pids)))
		for _, w := range works {
			for r := uint32(0); r < 3; r++ {
				t.checkBlame(m, b, w, r, parties)
			}
		}
		if got := idsOf(m.GetPreExecutionCulprits()); fmt.Sprint(uniq(got)) != fmt.Sprint(uniq(b.pre)) {
			t.Viol("C18", "pre-execution", "reported before execution: %v, remembered: %v", uniq(b.pre), uniq(got))
		}
		t.State("conc", workers, len(works), len(pids), k)
	}
}

func uniq(s []string) []string {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	var res []string
	for x := range m {
		res = append(res, x)
	}
	sort.Strings(res)
	return res
}

// ---- C19

// queueModel is a list of all additions.
type queueModel struct {
	size int
	keys []string
	vals []int
}

func (q *queueModel) add(k string, v int) { q.keys = append(q.keys, k); q.vals = append(q.vals, v) }

func (q *queueModel) get(k string) (int, bool) {
	for i := len(q.keys) - 1; i >= 0 && i >= len(q.keys)-q.size; i-- {
		if q.keys[i] == k {
			return q.vals[i], true
		}
	}
	return 0, false
}

func c19Queue(t *T) {
	for k := 0; t.More(k, 1200, 100000); k++ {
		rng := t.Sub()
		size := 1 + rng.Intn(12)
		if rng.Intn(10) == 0 {
			size = 100 + rng.Intn(200)
		}
		nkeys := 1 + rng.Intn(3*size)
		q := tools.NewCircularQueue(size)
		m := &queueModel{size: size}
		steps := rng.Intn(6*size + 5)
		key := func(i int) string {
			if i == 0 {
				return ""
			}
			return fmt.Sprint("k", i)
		}
		h := uint64(0)
		for s := 0; s < steps; s++ {
			kk := key(rng.Intn(nkeys))
			if rng.Intn(4) == 0 && len(m.keys) > 0 {
				kk = m.keys[len(m.keys)-1-rng.Intn(min(len(m.keys), size+1))]
			}
			q.Add(kk, s)
			m.add(kk, s)
			h = hash64(h, kk)
			if rng.Intn(3) == 0 || s == steps-1 {
				for i := 0; i < nkeys+1; i++ {
					got := q.Get(key(i))
					want, ok := m.get(key(i))
					t.Eval(1)
					if (ok && got != interface{}(want)) || (!ok && got != nil) {
						t.SetCase(map[string]interface{}{"size": size, "added": m.keys})
						t.Viol("C19", "queue", "capacity %d after %d additions: key %q gives %v instead of %v (%v)", size, s+1, key(i), got, want, ok)
					}
					if ok {
						t.Count("hits", 1)
					} else {
						t.Count("misses", 1)
					}
				}
			}
		}
		t.State(size, nkeys, h)
		t.Sample(map[string]interface{}{"size": size, "keys": nkeys, "additions": steps})
	}
}

func c19Cache(t *T) {
	for k := 0; t.More(k, 3000, 100000); k++ {
		rng := t.Sub()
		size := 1 + rng.Intn(8)
		me := "me"
		c := cache.NewWorkMessageCache(size, tss.NewPartyID(me, "", big.NewInt(7)))
		senders := []string{me, "a", "b", "me2", ""}[:2+rng.Intn(4)]
		model := map[string]*queueModel{}
		var msgs []*common.SignedMessage
		h := uint64(0)
		flooder := senders[rng.Intn(len(senders))]
		ownKeys := []string{}
		for s := 0; s < 5+rng.Intn(20*size); s++ {
			from := senders[rng.Intn(len(senders))]
			if rng.Intn(2) == 0 {
				from = flooder
			}
			kk := fmt.Sprint("k", rng.Intn(4*size))
			if rng.Intn(3) == 0 {
				kk = fmt.Sprint("n", s)
			}
			msg := &common.SignedMessage{From: from}
			msgs = append(msgs, msg)
			c.Add(kk, msg)
			if model[from] == nil {
				model[from] = &queueModel{size: size}
			}
			model[from].add(kk, len(msgs)-1)
			if from == me {
				ownKeys = append(ownKeys, kk)
			}
			h = hash64(h, from, kk)
		}
		t.SetCase(map[string]interface{}{"size": size, "senders": senders, "flooder": flooder})
		for _, from := range append(append([]string{}, senders...), "never") {
			seen := map[string]bool{}
			m := model[from]
			if m == nil {
				m = &queueModel{size: size}
			}
			for _, kk := range append(append([]string{}, m.keys...), "k0", "k1", "k2", "n1", "x") {
				if seen[kk] {
					continue
				}
				seen[kk] = true
				got := c.Get(from, kk)
				want, ok := m.get(kk)
				t.Eval(1)
				if ok {
					t.Count("hits", 1)
					if got != msgs[want] {
						t.Viol("C19", "cache", "size %d: the message of %q with key %s is not the newest of the last additions", size, from, kk)
					}
				} else if got != nil {
					if from == me {
						// There is room for more of the own messages. What is there must be the newest one.
						last := &queueModel{size: 1 << 30, keys: m.keys, vals: m.vals}
						if v, ok := last.get(kk); !ok || got != msgs[v] {
							t.Viol("C19", "cache-own", "size %d: the own message with key %s is not the newest one", size, kk)
						}
						t.Count("own messages beyond the size", 1)
						continue
					}
					t.Viol("C19", "cache", "size %d: a message of %q with key %s is returned, which is not among the last additions", size, from, kk)
				}
			}
		}
		t.State(size, len(senders), h)
	}
	// The node keeps more of its own messages than of others: a work produces one for each peer and round.
	for size := 1; size <= 64; size++ {
		c := cache.NewWorkMessageCache(size, tss.NewPartyID("me", "", big.NewInt(7)))
		for i := 0; i < size*2; i++ {
			c.Add(fmt.Sprint(i), &common.SignedMessage{From: "me"})
			c.Add(fmt.Sprint(i), &common.SignedMessage{From: "other"})
		}
		t.Eval(1)
		if c.Get("me", "0") == nil {
			t.Viol("C19", "own-room", "there is no room for more than %d own messages", size)
		}
		if c.Get("other", "0") != nil || c.Get("other", fmt.Sprint(size)) == nil {
			t.Viol("C19", "other-room", "the room for messages of others is not %d", size)
		}
	}
}

// c19Concurrent: each sender adds its messages in order, all at the same time, while others read.
func c19Concurrent(t *T) {
	for k := 0; t.More(k, 200, 5000); k++ {
		rng := t.Sub()
		size := 1 + rng.Intn(10)
		c := cache.NewWorkMessageCache(size, tss.NewPartyID("me", "", big.NewInt(7)))
		n := 2 + rng.Intn(6)
		models := make([]*queueModel, n)
		all := make([][]*common.SignedMessage, n)
		var wg sync.WaitGroup
		var stop int32
		for i := 0; i < n; i++ {
			i := i
			models[i] = &queueModel{size: size}
			for s := 0; s < 100; s++ {
				models[i].add(fmt.Sprint("k", rng.Intn(3*size)), s)
				all[i] = append(all[i], &common.SignedMessage{From: fmt.Sprint("s", i), Signature: []byte{byte(s)}})
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for s, kk := range models[i].keys {
					c.Add(kk, all[i][s])
				}
			}()
		}
		var rd sync.WaitGroup
		for r := 0; r < 2; r++ {
			rd.Add(1)
			go func() {
				defer rd.Done()
				// What a reader sees for a key never becomes older.
				last := map[string]int{}
				for atomic.LoadInt32(&stop) == 0 {
					for i := 0; i < n; i++ {
						kk := fmt.Sprint("k", i%size)
						if m := c.Get(fmt.Sprint("s", i), kk); m != nil {
							id := fmt.Sprint(i, kk)
							v := int(m.Signature[0])
							if v < last[id] || models[i].keys[v] != kk || m != all[i][v] {
								t.Viol("C19", "concurrent-read", "a reader gets addition %d of sender %d for %s after addition %d", v, i, kk, last[id])
							}
							last[id] = v
						}
					}
				}
			}()
		}
		wg.Wait()
		atomic.StoreInt32(&stop, 1)
		rd.Wait()
		for i := 0; i < n; i++ {
			for x := 0; x < 3*size; x++ {
				kk := fmt.Sprint("k", x)
				got := c.Get(fmt.Sprint("s", i), kk)
				want, ok := models[i].get(kk)
				t.Eval(1)
				if (ok && got != all[i][want]) || (!ok && got != nil) {
					t.Viol("C19", "concurrent", "size %d, %d concurrent senders: the messages of sender %d are not its last ones", size, n, i)
				}
			}
		}
		t.State("conc", size, n, k)
	}
}

// ---- C23

var specials = []string{`"`, `\`, "\n", "\r", "\t", "\x00", "\x01", "\x1b", "\x7f", "'", `"""`, `\n`, `\u0041`, "#", "=", "[", "]", "{{", "}}", "{{ .Port }}", "%s", "<", ">", "&", "é", "日本", "😀", "\u2028", "\u2029", "\u0085", "\ufeff", "\ufffd", "$", "`", " ", "  x  ", "C:\\temp\\new", "p@ss:w/rd?#&="}

func cfgString(rng *rand.Rand) string {
	switch rng.Intn(4) {
	case 0:
		return fmt.Sprintf("plain%d", rng.Intn(1000))
	case 1:
		return specials[rng.Intn(len(specials))]
	case 2:
		var sb strings.Builder
		for i := 0; i < rng.Intn(12); i++ {
			r := rune(rng.Intn(0x300))
			if rng.Intn(4) == 0 {
				r = rune(rng.Intn(0x10ffff))
			}
			if r >= 0xd800 && r <= 0xdfff {
				r = 'x'
			}
			sb.WriteRune(r)
		}
		return sb.String()
	}
	s := ""
	for i := 0; i < 1+rng.Intn(5); i++ {
		s += specials[rng.Intn(len(specials))]
		if rng.Intn(2) == 0 {
			s += "a"
		}
	}
	return s
}

func (t *T) cfgRoundtrip(dir string, cfg config.HeartConfig) {
	path := filepath.Join(dir, "dheart.toml")
	os.Remove(path)
	t.SetCase(fmt.Sprintf("%+q", fmt.Sprintf("%+v", cfg)))
	if msg := noPanic(func() { config.WriteConfigFile(path, cfg) }); msg != "" {
		t.Viol("C23", "write-panics", "writing the configuration panics: %s", msg)
		return
	}
	got, err := config.ReadConfig(path)
	t.Eval(1)
	if err != nil {
		t.Viol("C23", "unreadable", "the written configuration cannot be read: %v", err)
		return
	}
	diff := func(name string, a, b interface{}) {
		if !reflect.DeepEqual(a, b) {
			t.Viol("C23", "field:"+name, "%s is %q, but was written as %q", name, fmt.Sprint(b), fmt.Sprint(a))
		}
	}
	diff("HomeDir", cfg.HomeDir, got.HomeDir)
	diff("UseOnMemory", cfg.UseOnMemory, got.UseOnMemory)
	diff("ShortcutPreparams", cfg.ShortcutPreparams, got.ShortcutPreparams)
	diff("SisuServerUrl", cfg.SisuServerUrl, got.SisuServerUrl)
	diff("Port", cfg.Port, got.Port)
	diff("Db.Host", cfg.Db.Host, got.Db.Host)
	diff("Db.Port", cfg.Db.Port, got.Db.Port)
	diff("Db.Username", cfg.Db.Username, got.Db.Username)
	diff("Db.Password", cfg.Db.Password, got.Db.Password)
	diff("Db.Schema", cfg.Db.Schema, got.Db.Schema)
	diff("number of peers", len(cfg.Connection.Peers), len(got.Connection.Peers))
	for i := range cfg.Connection.Peers {
		if i < len(got.Connection.Peers) {
			diff("peer", *cfg.Connection.Peers[i], *got.Connection.Peers[i])
		}
	}
	t.Count("fields compared", 10+len(cfg.Connection.Peers))
}

func c23Roundtrip(t *T) {
	dir, err := os.MkdirTemp("", "verif-c23-")
	must(err)
	defer os.RemoveAll(dir)
	// Every character of the basic plane's beginning, and every special string, in every field.
	var each []string
	for r := rune(0); r < 0x180; r++ {
		each = append(each, "a"+string(r)+"b", string(r))
	}
	each = append(each, specials...)
	for _, s := range each {
		cfg := config.HeartConfig{HomeDir: s, SisuServerUrl: s, Port: 5678,
			Db:         config.DbConfig{Host: s, Port: 3306, Username: s, Password: s, Schema: s},
			Connection: p2ptypes.ConnectionsConfig{Peers: []*p2ptypes.Peer{{Address: s, PubKey: s, PubKeyType: s}}}}
		t.cfgRoundtrip(dir, cfg)
		t.State("char", s)
	}
	for k := 0; t.More(k, 4000, 200000); k++ {
		rng := t.Sub()
		cfg := config.HeartConfig{HomeDir: cfgString(rng), UseOnMemory: rng.Intn(2) == 0, ShortcutPreparams: rng.Intn(2) == 0,
			SisuServerUrl: cfgString(rng), Port: rng.Intn(65536),
			Db: config.DbConfig{Host: cfgString(rng), Port: rng.Intn(65536), Username: cfgString(rng), Password: cfgString(rng), Schema: cfgString(rng)}}
		if rng.Intn(10) == 0 {
			cfg.Port, cfg.Db.Port = []int{0, -1, 1 << 40}[rng.Intn(3)], 0
		}
		n := rng.Intn(5)
		if rng.Intn(20) == 0 {
			n = 50
		}
		for i := 0; i < n; i++ {
			cfg.Connection.Peers = append(cfg.Connection.Peers, &p2ptypes.Peer{Address: cfgString(rng), PubKey: cfgString(rng), PubKeyType: cfgString(rng)})
		}
		t.cfgRoundtrip(dir, cfg)
		t.State(n, cfg.HomeDir, cfg.Db.Password)
		t.Sample(fmt.Sprintf("%+q", cfg.HomeDir))
	}
}

// c23Broken: a file that is no TOML is reported.
func c23Broken(t *T) {
	dir, err := os.MkdirTemp("", "verif-c23-")
	must(err)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "dheart.toml")
	config.WriteConfigFile(path, config.HeartConfig{HomeDir: "h", Port: 1, Connection: p2ptypes.ConnectionsConfig{Peers: []*p2ptypes.Peer{{Address: "a", PubKey: "b", PubKeyType: "c"}}}})
	good, err := os.ReadFile(path)
	must(err)
	bad := map[string]string{
		"missing value": "home-dir =\n", "unclosed string": "home-dir = \"x\n", "wrong type": "port = \"abc\"\n", "wrong type 2": "home-dir = 5\n",
		"no equals": "home-dir \"x\"\n", "unclosed table": "[db\nhost = \"x\"\n", "duplicate key": "port = 1\nport = 2\n", "binary": "\x00\x01\x02\xff\xfe",
		"json": "{\"port\": 1}", "appended": string(good) + "\n= = =\n", "bool": "use-on-memory = maybe\n", "wrong table": "db = 5\n",
		"peers no list": "[connection]\npeers = 5\n", "bad escape": "home-dir = \"\\q\"\n", "xml": "<config/>", "port float": "port = 1.5\n", "cut in string": string(good[:strings.Index(string(good), "home-dir")+12]),
	}
	for name, s := range bad {
		must(os.WriteFile(path, []byte(s), 0600))
		var err error
		t.Eval(1)
		t.State("bad", name)
		t.Count("broken files", 1)
		if msg := noPanic(func() { _, err = config.ReadConfig(path) }); msg != "" {
			t.Viol("C23", "read-panics", "reading a broken file (%s) panics: %s", name, msg)
		} else if err == nil {
			t.Viol("C23", "broken-accepted", "a file that cannot be parsed (%s) is accepted", name)
		}
	}
	os.Remove(path)
	if _, err := config.ReadConfig(path); err == nil {
		t.Viol("C23", "missing-accepted", "a missing file is accepted")
	}
	// Random damage must not crash.
	rng := t.Sub()
	for k := 0; k < t.Pick(2000, 100000); k++ {
		b := append([]byte{}, good...)
		for i := 0; i < 1+rng.Intn(4); i++ {
			b[rng.Intn(len(b))] = byte(rng.Intn(256))
		}
		must(os.WriteFile(path, b[:rng.Intn(len(b)+1)], 0600))
		t.Eval(1)
		if msg := noPanic(func() { config.ReadConfig(path) }); msg != "" {
			t.Viol("C23", "read-panics", "reading a damaged file panics: %s", msg)
		}
	}
}

// ---- C25

func (t *T) checkNode(priv ctypes.PrivKey) string {
	kt := priv.PubKey().Type()
	var lp crypto.PrivKey
	var err error
	if kt == "secp256k1" {
		lp, err = crypto.UnmarshalSecp256k1PrivateKey(priv.Bytes())
	} else {
		lp, err = crypto.UnmarshalEd25519PrivateKey(priv.Bytes())
	}
	must(err)
	want, err := peer.IDFromPrivateKey(lp)
	must(err)
	t.SetCase(fmt.Sprintf("%s %x", kt, priv.PubKey().Bytes()))
	t.Eval(1)
	t.State(kt, want.String())
	n := core.NewNode(priv.PubKey())
	if n == nil {
		t.Viol("C25", "no-node", "there is no identity for the %s key %x", kt, priv.PubKey().Bytes())
		return want.String()
	}
	pub, err := utils.GetCosmosPubKey(kt, priv.PubKey().Bytes())
	if err != nil || !pub.Equals(priv.PubKey()) {
		t.Viol("C25", "pubkey", "the public key is not rebuilt from its bytes and type: %v", err)
		return want.String()
	}
	n2 := core.NewNode(pub)
	for _, x := range []*core.Node{n, n2} {
		if x == nil {
			t.Viol("C25", "no-node", "there is no identity for the rebuilt %s key", kt)
			continue
		}
		if x.PeerId != want {
			t.Viol("C25", "peer-id", "the node of the %s key has peer id %s, the network layer knows it as %s", kt, x.PeerId, want)
		}
		if x.PartyId == nil || x.PartyId.Id != want.String() {
			t.Viol("C25", "party-id", "the party of peer %s is %v", want, x.PartyId)
		} else if x.PartyId.KeyInt().Cmp(n.PartyId.KeyInt()) != 0 {
			t.Viol("C25", "party-key", "two nodes of one key have the party keys %v and %v", x.PartyId.KeyInt(), n.PartyId.KeyInt())
		}
		if !x.PubKey.Equals(priv.PubKey()) {
			t.Viol("C25", "node-pubkey", "the node of a key has another key")
		}
	}
	if n2 != nil && n2.PartyId.Moniker != n.PartyId.Moniker {
		t.Viol("C25", "moniker", "the identity is not a function of the key")
	}
	return want.String()
}

func c25Identity(t *T) {
	ids := map[string]string{}
	keys := map[string]string{}
	for k := 0; t.More(k, 3000, 100000); k++ {
		rng := t.Sub()
		priv := randSecp(rng)
		if k%2 == 1 {
			priv = randEd(rng)
		}
		id := t.checkNode(priv)
		key := fmt.Sprintf("%s%x", priv.PubKey().Type(), priv.PubKey().Bytes())
		n := core.NewNode(priv.PubKey())
		if n == nil {
			continue
		}
		if o, ok := ids[n.PeerId.String()]; ok && o != key {
			t.Viol("C25", "same-identity", "two keys have the identity %s", id)
		}
		ids[n.PeerId.String()] = key
		pk := n.PartyId.KeyInt().String()
		if o, ok := keys[pk]; ok && o != key {
			t.Viol("C25", "same-party-key", "two keys have the party key %s", pk)
		}
		keys[pk] = key
		t.Count("identities of "+priv.PubKey().Type(), 1)
	}
}

func c25Groups(t *T) {
	for k := 0; t.More(k, 600, 20000); k++ {
		rng := t.Sub()
		n := 1 + rng.Intn(12)
		if rng.Intn(20) == 0 {
			n = 60
		}
		mode := rng.Intn(3)
		var pubs []ctypes.PubKey
		for i := 0; i < n; i++ {
			if mode == 0 || (mode == 2 && rng.Intn(2) == 0) {
				pubs = append(pubs, randSecp(rng).PubKey())
			} else {
				pubs = append(pubs, randEd(rng).PubKey())
			}
		}
		var first []string
		for p := 0; p < 3; p++ {
			perm := rng.Perm(n)
			in := make([]ctypes.PubKey, n)
			for i, j := range perm {
				in[i] = pubs[j]
			}
			before := append([]ctypes.PubKey{}, in...)
			nodes := core.NewNodes(in)
			t.Eval(1)
			t.SetCase(fmt.Sprintf("%d keys, kind %d", n, mode))
			if len(nodes) != n {
				t.Viol("C25", "group-size", "%d keys give %d nodes", n, len(nodes))
				continue
			}
			for i := range in {
				if in[i] != before[i] {
					t.Viol("C25", "keys-reordered", "the list of keys is changed")
				}
			}
			var ids []string
			pids := make([]*tss.PartyID, n)
			for i, nd := range nodes {
				ids = append(ids, nd.PeerId.String())
				pids[i] = tss.NewPartyID(nd.PartyId.Id, "", nd.PartyId.KeyInt())
				want := core.NewNode(nd.PubKey)
				if want == nil || want.PeerId != nd.PeerId || want.PartyId.Id != nd.PartyId.Id || nd.PartyId.Id != nd.PeerId.String() {
					t.Viol("C25", "group-node", "node %d of the group mixes the identities of several keys", i)
				}
				if nd.PartyId.Index != i {
					t.Viol("C25", "group-index", "node %d of the group has party index %d", i, nd.PartyId.Index)
				}
			}
			for i, sp := range tss.SortPartyIDs(pids) {
				if sp.Id != ids[i] {
					t.Viol("C25", "group-order", "the order of %d nodes is not the order of their parties", n)
					break
				}
			}
			if first == nil {
				first = ids
			} else if fmt.Sprint(first) != fmt.Sprint(ids) {
				t.Viol("C25", "order-differs", "the order of %d nodes depends on the order of the keys", n)
			}
			t.Count("groups listed", 1)
		}
		t.State("group", n, mode, fmt.Sprint(first))
	}
}

type otherKey struct{ ctypes.PubKey }

func (otherKey) Type() string { return "sr25519" }

func c25Malformed(t *T) {
	rng := t.Sub()
	good := randSecp(rng).PubKey()
	check := func(kind string, pub ctypes.PubKey) {
		t.Eval(1)
		t.State("malformed", kind, fmt.Sprintf("%x", pub.Bytes()))
		t.SetCase(fmt.Sprintf("%s: %x", kind, pub.Bytes()))
		t.Count("malformed keys", 1)
		var n *core.Node
		if msg := noPanic(func() { n = core.NewNode(pub) }); msg != "" {
			t.Viol("C25", "malformed-panics", "a malformed key (%s) panics: %s", kind, msg)
		} else if n != nil {
			t.Viol("C25", "malformed-accepted", "a malformed key (%s, %x) gets the identity %s", kind, pub.Bytes(), n.PeerId)
		}
		var ns []*core.Node
		if msg := noPanic(func() { ns = core.NewNodes([]ctypes.PubKey{good, pub}) }); msg != "" {
			t.Viol("C25", "malformed-panics", "a group with a malformed key (%s) panics: %s", kind, msg)
		} else if len(ns) != 0 {
			t.Viol("C25", "malformed-group", "a group with a malformed key (%s) is listed: %v", kind, ns)
		}
	}
	for k := 0; k < t.Pick(400, 20000); k++ {
		for _, kt := range []string{"secp256k1", "ed25519"} {
			l := rng.Intn(70)
			if kt == "ed25519" && l == 32 {
				l = 33
			}
			bz := randBytes(rng, l)
			if kt == "secp256k1" {
				// Not a compressed point.
				switch rng.Intn(3) {
				case 0:
					bz = append([]byte{2}, bz...)
					if len(bz) == 33 {
						bz = bz[:32]
					}
				case 1:
					bz = append([]byte{2}, []byte(strings.Repeat("\xff", 32))...)
				case 2:
					if len(bz) == 33 || len(bz) == 65 {
						bz[0] = 9
					}
				}
			}
			pub, err := utils.GetCosmosPubKey(kt, bz)
			if err != nil {
				t.Eval(1)
				continue
			}
			check(kt, pub)
		}
	}
	for _, kt := range []string{"", "sr25519", "Secp256k1", "ed25519 ", "SECP256K1", "bls", "eth_secp256k1"} {
		t.Eval(1)
		if pub, err := utils.GetCosmosPubKey(kt, good.Bytes()); err == nil || pub != nil {
			t.Viol("C25", "type-accepted", "the key type %q is accepted: %v", kt, pub)
		}
	}
	check("sr25519", otherKey{good})
}

// c25Network: real connection managers report a sender under the identity of its key.
func c25Network(t *T) {
	rng := t.Sub()
	for k := 0; k < t.Pick(2, 20); k++ {
		a, b := randSecp(rng), randEd(rng)
		if k%2 == 1 {
			a, b = randEd(rng), randSecp(rng)
		}
		net := startNet(t, []ctypes.PrivKey{a, b})
		for i, p := range []ctypes.PrivKey{a, b} {
			n := core.NewNode(p.PubKey())
			other := net.nodes[1-i]
			var err error
			ok := t.WaitFor(20*time.Second, func() bool {
				err = net.nodes[i].cm.WriteToStream(core.NewNode(other.priv.PubKey()).PeerId, tssProto, []byte("hello"))
				return err == nil
			})
			t.Eval(1)
			if !ok {
				t.Live("C25", "peer-not-reachable", "a node cannot reach the peer of a %s key: %v", other.priv.PubKey().Type(), err)
				continue
			}
			if !t.WaitFor(10*time.Second, func() bool { return len(other.received()) > 0 }) {
				t.Live("C25", "peer-not-reachable", "a message to the peer of a %s key does not arrive", other.priv.PubKey().Type())
				continue
			}
			if got := other.received()[0].from; got != n.PeerId.String() {
				t.Viol("C25", "network-identity", "the network layer reports the sender %s, its identity is %s", got, n.PeerId)
			}
			t.Count("real connections", 1)
			t.State("net", p.PubKey().Type(), k)
		}
	}
}
