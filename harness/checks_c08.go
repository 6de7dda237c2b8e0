package main

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/ptypes/any"
	"github.com/libp2p/go-libp2p"
	lcrypto "github.com/libp2p/go-libp2p/core/crypto"
	"github.com/libp2p/go-libp2p/core/host"
	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/libp2p/go-libp2p/core/protocol"
	maddr "github.com/multiformats/go-multiaddr"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/tss-lib/crypto"
	"github.com/sisu-network/tss-lib/crypto/commitments"
	"github.com/sisu-network/tss-lib/crypto/zkp"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	"github.com/sisu-network/tss-lib/tss"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() {
	register(&Check{
		ID:   "C08",
		Rule: "a case is distinct by the kind of hostile content: the altered place and value of a message, the message type and the moment at which it arrives",
		Assumptions: []string{"a crash is seen as the death of the process that runs the nodes, a block as a call that does not return or a work that does not end",
			"a work that the hostile peer takes part in may fail, unless only messages that cannot be parsed are added to the honest ones"},
		Units: func(tier string, seed int64) []Unit {
			us := []Unit{{Name: "bytes", Run: c08Bytes}, {Name: "structure-0", Run: c08Structure}, {Name: "structure-1", Run: c08Structure}, {Name: "unparsable", Run: c08Unparsable}, {Name: "stream", Run: c08Stream}}
			us = append(us, Unit{Name: "recommit-ed", Run: func(t *T) { c08Recommit(t, []string{"edsign", "edgen"}, 20) }},
				Unit{Name: "recommit-ecgen", Run: func(t *T) { c08Recommit(t, []string{"ecgen"}, 10) }}, Unit{Name: "recommit-ecsign", Run: func(t *T) { c08Recommit(t, []string{"ecsign"}, 10) }})
			for i := 0; i < 2; i++ {
				i := i
				us = append(us, Unit{Name: fmt.Sprintf("content-ed-%d", i), Run: func(t *T) { c08Content(t, []string{"edsign", "edgen"}, i, 2, 30, 600) }})
			}
			for i := 0; i < 3; i++ {
				i := i
				us = append(us, Unit{Name: fmt.Sprintf("content-ec-%d", i), Run: func(t *T) { c08Content(t, []string{"ecsign", "ecgen"}, i, 3, 14, 600) }})
			}
			us = append(us, Unit{Name: "announce", Run: c08Announce}, Unit{Name: "stalled", Run: c08Stalled})
			return append(us, Unit{Name: "content-pre", Run: func(t *T) { c08Content(t, []string{"presigned"}, 0, 1, 20, 300) }})
		},
	})
}

// c08Timeouts keep works with a hostile party short.
func c08Timeouts() config.TimeoutConfig {
	return config.TimeoutConfig{PresignJobTimeout: 3 * time.Second, KeygenJobTimeout: 5 * time.Second, SigningJobTimeout: 3 * time.Second,
		MonitorMessageTimeout: 300 * time.Millisecond, SelectionLeaderTimeout: time.Second, SelectionMemberTimeout: 2 * time.Second}
}

// hostileRig is a group of three honest nodes and a known hostile peer.
type hostileRig struct {
	t  *T
	cl *Cluster
	h  *Member
}

func newHostileRig(t *T, rng *rand.Rand) *hostileRig {
	cl := newCluster(t, rng, Opts{N: 3, Thr: 1, Ed: true, Policy: jitter(rng, 3*time.Millisecond)})
	h := makeMembers(rng, 1, false)[0]
	for i := range cl.Nodes {
		cl.engine(i).AddNodes(nodesOf([]*Member{h}))
	}
	return &hostileRig{t: t, cl: cl, h: h}
}

// give delivers hostile data. It must come back soon.
func (r *hostileRig) give(key, peer string, to int, data []byte) {
	if !r.t.Within(15*time.Second, func() { r.cl.deliver(peer, to, data, nil) }) {
		r.t.Live("C08", "blocks:"+key, "node %d does not come back from a message: %.300q", to, data)
	}
	r.t.Count("hostile messages delivered", 1)
}

// work runs an honest work while f sends hostile messages.
func (r *hostileRig) work(rng *rand.Rand, key string, f func(w *Work)) {
	cl, t := r.cl, r.t
	w := &Work{Id: uniqueId(rng), Kind: []string{"edsign", "edsign", "edgen"}[rng.Intn(3)]}
	if w.Kind == "edsign" {
		w.Msgs = randMsgs(rng, "edsign", 1+rng.Intn(2))
	}
	cl.request(w, 0)
	if rng.Intn(2) == 0 {
		f(w)
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		f(w)
	}()
	if rng.Intn(2) == 0 {
		time.Sleep(5 * time.Millisecond)
	}
	for i := 0; i < cl.N; i++ {
		i := i
		if !t.Within(15*time.Second, func() { cl.mustSubmit(w, i) }) {
			t.Live("C08", "submit-blocks:"+key, "node %d does not accept a request anymore after: %v", i, t.cur)
		}
	}
	wg.Wait()
	cl.Wait(w, cl.all(), 20*time.Second)
	if rng.Intn(3) == 0 {
		f(w)
	}
	t.Count("honest works beside hostile messages", 1)
	cl.checkAllSucceed("C08", w, "honest-work:"+key)
	cl.checkSignatures(w)
	// Reports of key generations do not name their work.
	cl.mu.Lock()
	cl.outcomes = nil
	cl.sends = nil
	cl.mu.Unlock()
}

// templates are messages of every type, with the identities of the group.
func (r *hostileRig) templates(rng *rand.Rand, w *Work) []*common.TssMessage {
	cl := r.cl
	id := r.h.Id
	round := "sisu.tss_lib.eddsa.signing.SignRound1Message"
	ids := []string{}
	for _, m := range cl.Members {
		ids = append(ids, m.Id)
	}
	upd := &common.UpdateMessage{Data: randBytes(rng, 40), SerializedMessageRouting: []byte(`{"From":null,"To":null,"IsBroadcast":true}`), Round: round}
	return []*common.TssMessage{
		{Type: common.TssMessage_UPDATE_MESSAGES, UpdateMessages: []*common.UpdateMessage{upd}},
		{Type: common.TssMessage_UPDATE_MESSAGES, UpdateMessages: []*common.UpdateMessage{upd, nil}},
		{Type: common.TssMessage_AVAILABILITY_REQUEST},
		{Type: common.TssMessage_AVAILABILITY_RESPONSE, AvailabilityResponseMessage: &common.AvailabilityResponseMessage{Answer: common.AvailabilityResponseMessage_YES, MaxJob: 1}},
		{Type: common.TssMessage_AVAILABILITY_RESPONSE, AvailabilityResponseMessage: &common.AvailabilityResponseMessage{Answer: common.AvailabilityResponseMessage_NO, MaxJob: 1}},
		{Type: common.TssMessage_PRE_EXEC_OUTPUT, PreExecOutputMessage: &common.PreExecOutputMessage{Success: true, Pids: ids}},
		{Type: common.TssMessage_PRE_EXEC_OUTPUT, PreExecOutputMessage: &common.PreExecOutputMessage{Success: true, Pids: []string{id, ids[0]}, PresignIds: []string{"x-0"}}},
		{Type: common.TssMessage_PRE_EXEC_OUTPUT, PreExecOutputMessage: &common.PreExecOutputMessage{}},
		{Type: common.TssMessage_ASK_MESSAGE_REQUEST, AskRequestMessage: &common.AskRequestMessage{MsgKey: common.GetMessageKey(w.Id, ids[rng.Intn(3)], "", round)}},
		{Type: common.TssMessage_ASK_MESSAGE_REQUEST, AskRequestMessage: &common.AskRequestMessage{MsgKey: []string{"", "__", "____", "______", "a__b", strings.Repeat("_", 1000)}[rng.Intn(6)]}},
		{Type: common.TssMessage_Type(rng.Intn(100) - 20)},
	}
}

// alterJson changes one place of a decoded JSON value.
func alterJson(rng *rand.Rand, v interface{}) interface{} {
	odd := func() interface{} {
		return []interface{}{nil, 0.0, -1.0, 1e30, "", "x", true, []interface{}{}, map[string]interface{}{}, []interface{}{nil}, []interface{}{nil, nil, nil},
			strings.Repeat("A", 1+rng.Intn(5000)), "AAAA", "\x00\xff", []interface{}{""}, map[string]interface{}{"type": nil}, float64(int32(rng.Uint32()))}[rng.Intn(17)]
	}
	switch x := v.(type) {
	case map[string]interface{}:
		if len(x) == 0 || rng.Intn(12) == 0 {
			return odd()
		}
		keys := []string{}
		for k := range x {
			keys = append(keys, k)
		}
		k := sorted(keys)[rng.Intn(len(keys))]
		switch rng.Intn(6) {
		case 0:
			delete(x, k)
		case 1:
			x[k] = odd()
		default:
			x[k] = alterJson(rng, x[k])
		}
		return x
	case []interface{}:
		if len(x) == 0 || rng.Intn(6) == 0 {
			return odd()
		}
		i := rng.Intn(len(x))
		switch rng.Intn(5) {
		case 0:
			return append(x, x[i])
		case 1:
			return x[:i]
		case 2:
			for len(x) < 500 {
				x = append(x, x[i])
			}
			return x
		}
		x[i] = alterJson(rng, x[i])
		return x
	}
	return odd()
}

// c08Bytes: bytes that are no signed message of the sender.
func c08Bytes(t *T) {
	rng := t.Sub()
	r := newHostileRig(t, rng)
	defer r.cl.Close()
	for k := 0; t.More(k, 40, 1500); k++ {
		t.SetCase("raw bytes")
		mine := t.Sub()
		r.work(rng, "bytes", func(w *Work) {
			lr := rand.New(rand.NewSource(int64(mine.Uint32())))
			for j := 0; j < 12; j++ {
				ts := r.templates(lr, w)
				m := ts[lr.Intn(len(ts))]
				m.From, m.WorkId = r.h.Id, w.Id
				data := signMsg(r.h, m)
				how := lr.Intn(9)
				switch how {
				case 0:
					data = randBytes(lr, lr.Intn(2000))
				case 1:
					data = data[:lr.Intn(len(data))]
				case 2:
					for x := 0; x <= lr.Intn(20); x++ {
						data[lr.Intn(len(data))] ^= byte(1 << uint(lr.Intn(8)))
					}
				case 3:
					data = []byte(strings.Repeat("[", 1+lr.Intn(20000)))
				case 4:
					data = []byte(strings.Repeat(`{"tss_message":`, 1+lr.Intn(3000)))
				case 5:
					var v interface{}
					must(json.Unmarshal(data, &v))
					for x := 0; x <= lr.Intn(3); x++ {
						v = alterJson(lr, v)
					}
					data, _ = json.Marshal(v)
				case 6:
					data = []byte([]string{"", "null", "{}", "[]", "0", `""`, `{"tss_message":{}}`, `{"tss_message":null}`, `{"from":"x","tss_message":{"update_messages":[null]}}`}[lr.Intn(9)])
				case 7:
					if lr.Intn(10) == 0 {
						data = append([]byte(`{"from":"`), append(randBytes(lr, 3000000), '"', '}')...)
					}
				case 8:
					data = append(data, data...)
				}
				t.State("bytes", how, j, k%50)
				t.Eval(1)
				peer := r.h.Id
				if lr.Intn(5) == 0 {
					peer = []string{"", "x", r.cl.Members[lr.Intn(3)].Id, string(randBytes(lr, 30))}[lr.Intn(4)]
				}
				r.give("bytes", peer, lr.Intn(3), data)
			}
		})
	}
	t.Sample("random bytes, truncated, bit-flipped, nested, huge and altered messages")
}

// c08Structure: well-signed messages of a known peer with any structure.
func c08Structure(t *T) {
	rng := t.Sub()
	r := newHostileRig(t, rng)
	defer r.cl.Close()
	for k := 0; t.More(k, 40, 1500); k++ {
		mine := t.Sub()
		var last sync.Map
		t.SetCase(&last)
		r.work(rng, "structure", func(w *Work) {
			lr := rand.New(rand.NewSource(int64(mine.Uint32())))
			for j := 0; j < 15; j++ {
				ts := r.templates(lr, w)
				m := ts[lr.Intn(len(ts))]
				m.From, m.WorkId = r.h.Id, w.Id
				switch lr.Intn(5) {
				case 0:
					m.WorkId = ""
				case 1:
					m.WorkId = uniqueId(lr)
				}
				if lr.Intn(3) > 0 {
					bz, _ := json.Marshal(m)
					var v interface{}
					must(json.Unmarshal(bz, &v))
					v = alterJson(lr, v)
					bz, _ = json.Marshal(v)
					x := &common.TssMessage{}
					if json.Unmarshal(bz, x) == nil {
						m = x
						m.From = r.h.Id
					}
				}
				to := lr.Intn(3)
				if lr.Intn(3) == 0 {
					m.To = r.cl.Members[to].Id
				}
				t.State("structure", m.Type, len(m.UpdateMessages), m.AvailabilityResponseMessage == nil, m.PreExecOutputMessage == nil, m.AskRequestMessage == nil, m.WorkId == w.Id, m.To == "")
				t.Eval(1)
				r.give("structure", r.h.Id, to, signMsg(r.h, m))
			}
		})
	}
	// Many messages at once, for works that do not exist.
	for k := 0; t.More(k, 3, 30); k++ {
		t.SetCase("flood of messages of works that do not exist")
		lr := t.Sub()
		r.work(rng, "flood", func(w *Work) {
			for j := 0; j < 400; j++ {
				m := r.templates(lr, w)[lr.Intn(8)]
				m.From, m.WorkId = r.h.Id, fmt.Sprint("flood", j%100)
				r.give("flood", r.h.Id, j%3, signMsg(r.h, m))
			}
		})
	}
}

// c08Unparsable: a member of the work adds messages that cannot be parsed to its honest ones.
func c08Unparsable(t *T) {
	for k := 0; t.More(k, 24, 700); k++ {
		rng := t.Sub()
		kind := []string{"edsign", "edgen", "ecsign", "edsign", "edgen"}[k%5]
		n := 2 + rng.Intn(2)
		cl := newCluster(t, rng, Opts{N: n, Thr: n - 1, Ed: kind == "edsign", Ec: kind == "ecsign"})
		h := rng.Intn(n)
		w := &Work{Id: uniqueId(rng), Kind: kind}
		if kind != "edgen" {
			w.Msgs = randMsgs(rng, kind, 1+rng.Intn(2))
		}
		cl.request(w, 0)
		lr := newLocked(rng)
		t.SetCase(fmt.Sprintf("%s of %d nodes, node %d adds messages that cannot be parsed", kind, n, h))
		cl.SetTamper(func(s *Send, to int) [][]byte {
			if s.From != h || !isUpdate(s) {
				return nil
			}
			m := cloneMsg(s.Msg.TssMessage)
			i := lr.Intn(len(m.UpdateMessages))
			u := m.UpdateMessages[i]
			how := lr.Intn(7)
			switch how {
			case 0:
				m.UpdateMessages[i] = nil
			case 1:
				u.Data = nil
			case 2:
				u.Data = u.Data[:lr.Intn(len(u.Data))]
			case 3:
				u.Data = []byte{0xff, 0xff, 0xff}
			case 4:
				u.SerializedMessageRouting = []byte("{")
			case 5:
				u.SerializedMessageRouting = nil
			case 6:
				u.Data = append([]byte{0x0a, 5}, "hello"...)
			}
			if how == 1 || how == 2 || how == 3 || how == 6 {
				if m2, err := tss.ParseWireMessage(u.Data, cl.Members[h].Pid, s.Msg.TssMessage.To == ""); err == nil && m2 != nil {
					return nil // it can be parsed
				}
			}
			t.State("unparsable", kind, short(s.Round()), how, i)
			t.Eval(1)
			t.Count("messages that cannot be parsed", 1)
			bad := signMsg(cl.Members[h], m)
			if lr.Intn(2) == 0 {
				return [][]byte{bad, s.Data}
			}
			return [][]byte{s.Data, bad}
		})
		for i := 0; i < n; i++ {
			cl.mustSubmit(w, i)
		}
		cl.Wait(w, cl.all(), 40*time.Second)
		cl.checkAllSucceed("C08", w, "unparsable:"+kind)
		cl.Close()
	}
}

// protoEdit is a change of one place of a protocol message.
type protoEdit struct {
	path string
	do   func()
}

var oddBytes = []struct {
	name string
	v    []byte
}{
	{"empty", nil}, {"0", []byte{0}}, {"1", []byte{1}}, {"2", []byte{2}},
	{"ec-order", tss.EC(tss.EcdsaScheme).Params().N.Bytes()}, {"ec-prime", tss.EC(tss.EcdsaScheme).Params().P.Bytes()},
	{"ed-order", tss.EC(tss.EddsaScheme).Params().N.Bytes()}, {"ed-prime", tss.EC(tss.EddsaScheme).Params().P.Bytes()},
	{"ff", new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)).Bytes()},
	{"2048", new(big.Int).Lsh(big.NewInt(1), 2047).Bytes()}, {"even-2048", new(big.Int).Lsh(big.NewInt(3), 2046).Bytes()},
	{"zeros", make([]byte, 32)}, {"long", append([]byte{1}, make([]byte, 5000)...)},
}

// protoEdits lists the changes of a message.
func protoEdits(m protoreflect.Message, path string) []protoEdit {
	var res []protoEdit
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		p := path + "/" + string(fd.Name())
		if !m.Has(fd) && fd.ContainingOneof() != nil {
			continue
		}
		add := func(name string, f func()) { res = append(res, protoEdit{p + ":" + name, f}) }
		add("cleared", func() { m.Clear(fd) })
		switch {
		case fd.IsList():
			l := m.Mutable(fd).List()
			n := l.Len()
			if n == 0 {
				continue
			}
			add("one-less", func() { l.Truncate(n - 1) })
			add("one-more", func() {
				if fd.Kind() == protoreflect.BytesKind {
					l.Append(l.Get(0))
				} else {
					l.Append(l.NewElement())
				}
			})
			add("one", func() { l.Truncate(1) })
			if fd.Kind() == protoreflect.BytesKind {
				for at := 0; at < n; at++ {
					at := at
					if n > 20 && at > 1 && at != n/2 && at < n-2 {
						continue
					}
					for _, o := range oddBytes {
						o := o
						add(fmt.Sprintf("[%d]=%s", at, o.name), func() { l.Set(at, protoreflect.ValueOfBytes(o.v)) })
					}
				}
			} else if fd.Kind() == protoreflect.MessageKind {
				res = append(res, protoEdits(l.Get(0).Message(), p+"[0]")...)
			}
		case fd.Kind() == protoreflect.BytesKind:
			for _, o := range oddBytes {
				o := o
				add("="+o.name, func() { m.Set(fd, protoreflect.ValueOfBytes(o.v)) })
			}
			old := append([]byte{}, m.Get(fd).Bytes()...)
			if len(old) > 0 {
				add("+1", func() {
					m.Set(fd, protoreflect.ValueOfBytes(new(big.Int).Add(new(big.Int).SetBytes(old), big.NewInt(1)).Bytes()))
				})
			}
		case fd.Kind() == protoreflect.MessageKind:
			if m.Has(fd) {
				res = append(res, protoEdits(m.Mutable(fd).Message(), p)...)
			}
			add("empty", func() { m.Set(fd, m.NewField(fd)) })
		case fd.Kind() == protoreflect.Int32Kind:
			add("=-1", func() { m.Set(fd, protoreflect.ValueOfInt32(-1)) })
			add("=max", func() { m.Set(fd, protoreflect.ValueOfInt32(1<<31-1)) })
		}
	}
	return res
}

// editWire applies edit number k to the content of a protocol message.
func editWire(data []byte, k int) ([]byte, string) {
	a := &any.Any{}
	if proto.Unmarshal(data, a) != nil {
		return data, ""
	}
	pid := tss.NewPartyID("x", "", big.NewInt(1))
	pid.Index = 0
	pm, err := tss.ParseWireMessage(data, pid, true)
	if err != nil {
		return data, ""
	}
	c, ok := pm.Content().(proto.Message)
	if !ok {
		return data, ""
	}
	c = proto.Clone(c)
	edits := protoEdits(proto.MessageReflect(c), "")
	if len(edits) == 0 {
		return data, ""
	}
	e := edits[k%len(edits)]
	e.do()
	bz, err := proto.Marshal(c)
	if err != nil {
		return data, ""
	}
	out, err := proto.Marshal(&any.Any{TypeUrl: a.TypeUrl, Value: bz})
	if err != nil {
		return data, ""
	}
	return out, e.path
}

// c08Content: a member sends protocol messages with strange contents. The work may fail.
func c08Content(t *T, kinds []string, part, parts, quick, thorough int) {
	type place struct{ kind, round string }
	var places []place
	for _, k := range kinds {
		for _, r := range roundTypes[k] {
			places = append(places, place{k, r})
		}
	}
	base := int(uint64(t.Seed) % 1000003)
	for k := 0; t.More(k, quick, thorough); k++ {
		rng := t.Sub()
		p := places[(k*parts+part)%len(places)]
		kind := p.kind
		n := 2
		cfg := c08Timeouts()
		cfg.MonitorMessageTimeout = time.Hour
		// The change is in one of the messages of a batch.
		batch, at := 1, 0
		if kind == "ecsign" || kind == "edsign" || kind == "presigned" {
			batch = 2 - btoi(rng.Intn(4) == 0)
			at = batch - 1 - btoi(batch > 1 && rng.Intn(3) == 0)
		}
		o := Opts{N: n, Thr: 1, Cfg: &cfg, Ed: kind == "edsign", Ec: kind == "ecsign" || kind == "presigned", Pre: kind == "ecgen"}
		if kind == "presigned" {
			kind = "ecsign"
			o.Before = func(cl *Cluster) {
				cl.givePresigns("pre"+uniqueId(rng), cl.all(), dealPresigns(cl.Members, cl.Ec, cl.all(), 1, batch))
			}
		}
		cl := newCluster(t, rng, o)
		h := rng.Intn(n)
		w := &Work{Id: uniqueId(rng), Kind: kind}
		if kind == "ecsign" || kind == "edsign" {
			w.Msgs = randMsgs(rng, kind, batch)
		}
		cl.request(w, 0)
		// Later visits of a place continue with its next changes.
		edit := base + (k*parts+part)/len(places)*t.Pick(17, 1)
		path := ""
		var mu sync.Mutex
		cl.SetTamper(func(s *Send, to int) [][]byte {
			if s.From != h || !isUpdate(s) || short(s.Round()) != p.round {
				return nil
			}
			m := cloneMsg(s.Msg.TssMessage)
			if at >= len(m.UpdateMessages) {
				return nil
			}
			out, where := editWire(m.UpdateMessages[at].Data, edit)
			if where == "" {
				return nil
			}
			m.UpdateMessages[at].Data = out
			mu.Lock()
			path = where
			mu.Unlock()
			t.SetCase(fmt.Sprintf("%s: node %d changes %s%s of message %d of %d", p.kind, h, p.round, where, at+1, batch))
			return [][]byte{signMsg(cl.Members[h], m)}
		})
		for i := 0; i < n; i++ {
			cl.mustSubmit(w, i)
		}
		victim := 1 - h
		if !cl.Wait(w, []int{victim}, 15*time.Second) {
			t.Live("C08", "content-blocks:"+p.round, "%v: node %d has no outcome", t.cur, victim)
		}
		// Its slot is free again and it still answers.
		if !t.Within(5*time.Second, func() {
			t.WaitFor(4*time.Second, func() bool { return cl.engine(victim).GetActiveWorkerCount() == 0 })
		}) || cl.engine(victim).GetActiveWorkerCount() != 0 {
			t.Live("C08", "content-slot:"+p.round, "%v: node %d keeps the work", t.cur, victim)
		}
		succ, _, _ := cl.tally(w)
		cl.checkSignatures(w)
		mu.Lock()
		if path != "" {
			t.Eval(1)
			t.Count("altered protocol messages", 1)
			t.State(p.kind, p.round, path)
			if len(succ) == 2 {
				t.Count("works that succeed in spite of it", 1)
			}
		}
		t.Debug("%s %s %s succ=%v %v", p.kind, p.round, path, succ, time.Since(cl.start).Round(time.Millisecond))
		mu.Unlock()
		t.Sample(t.cur)
		cl.Close()
	}
}

// flatPoints makes coordinates of random points with known logarithms.
func flatPoints(rng *rand.Rand, scheme string, n int) (flat []*big.Int, logs []*big.Int) {
	for i := 0; i < n; i++ {
		k := new(big.Int).Add(big.NewInt(1), new(big.Int).Rand(rng, new(big.Int).Sub(tss.EC(scheme).Params().N, big.NewInt(1))))
		p := crypto.ScalarBaseMult(tss.EC(scheme), k)
		flat = append(flat, p.X(), p.Y())
		logs = append(logs, k)
	}
	return
}

// recommits are the works with a commitment of a list of points in one message and the list in another.
var recommits = map[string]struct{ first, second, scheme string }{
	"ecgen":  {"KGRound1Message", "KGRound2Message2", tss.EcdsaScheme},
	"edgen":  {"KGRound1Message", "KGRound2Message2", tss.EddsaScheme},
	"edsign": {"SignRound1Message", "SignRound2Message", tss.EddsaScheme},
	"ecsign": {"SignRound1Message2", "SignRound4Message", tss.EcdsaScheme},
}

var recommitWays = []string{"no-points", "one-less", "one-more", "one", "one-coordinate", "off-curve", "zeros", "negated", "many", "hash-only"}

// setWire changes fields of the content of a protocol message by their names.
func setWire(data []byte, f func(m protoreflect.Message)) []byte {
	a := &any.Any{}
	must(proto.Unmarshal(data, a))
	pid := tss.NewPartyID("x", "", big.NewInt(1))
	pid.Index = 0
	pm, err := tss.ParseWireMessage(data, pid, true)
	must(err)
	c := proto.Clone(pm.Content().(proto.Message))
	f(proto.MessageReflect(c))
	bz, err := proto.Marshal(c)
	must(err)
	out, err := proto.Marshal(&any.Any{TypeUrl: a.TypeUrl, Value: bz})
	must(err)
	return out
}

// c08Recommit: a member commits itself to something else than points of the right number, and reveals
// exactly that.
func c08Recommit(t *T, kinds []string, quick int) {
	for k := 0; t.More(k, quick, 300); k++ {
		rng := t.Sub()
		kind := kinds[k%len(kinds)]
		way := recommitWays[(k/len(kinds)+int(uint64(t.Seed)%10))%len(recommitWays)]
		n := 2
		if kind == "edgen" {
			n = 3
		}
		cfg := c08Timeouts()
		cfg.MonitorMessageTimeout = time.Hour
		thr := 1
		cl := newCluster(t, rng, Opts{N: n, Thr: thr, Cfg: &cfg, Ed: kind == "edsign", Ec: kind == "ecsign", Pre: kind == "ecgen"})
		h := rng.Intn(n)
		w := &Work{Id: uniqueId(rng), Kind: kind}
		if kind == "ecsign" || kind == "edsign" {
			w.Msgs = randMsgs(rng, kind, 1)
		}
		cl.request(w, 0)
		rc := recommits[kind]
		points := thr + 1
		if kind == "ecsign" || kind == "edsign" {
			points = 1
		}
		flat, logs := flatPoints(rng, rc.scheme, points)
		var x *big.Int
		if len(logs) > 0 {
			x = logs[0]
		}
		switch way {
		case "no-points":
			flat = nil
		case "one-less":
			flat = flat[:len(flat)-2]
		case "one-more":
			more, _ := flatPoints(rng, rc.scheme, 1)
			flat = append(flat, more...)
		case "one":
			flat = flat[:2]
		case "one-coordinate":
			flat = flat[:len(flat)-1]
		case "off-curve":
			flat[len(flat)-1] = new(big.Int).Add(flat[len(flat)-1], big.NewInt(1))
		case "zeros":
			for i := range flat {
				flat[i] = big.NewInt(0)
			}
		case "negated":
			if len(flat) == 4 {
				flat[2], flat[3] = flat[0], new(big.Int).Sub(tss.EC(rc.scheme).Params().P, flat[1])
			}
		case "many":
			more, _ := flatPoints(rng, rc.scheme, 200)
			flat = append(flat, more...)
		}
		cmt := commitments.NewHashCommitment(flat...)
		d := cmt.D
		if way == "hash-only" {
			d = nil
		}
		var deCommit [][]byte
		for _, b := range d {
			deCommit = append(deCommit, b.Bytes())
		}
		t.SetCase(fmt.Sprintf("%s: node %d commits to and reveals %s", kind, h, way))
		var mu sync.Mutex
		changed := 0
		cl.SetTamper(func(s *Send, to int) [][]byte {
			if s.From != h || !isUpdate(s) {
				return nil
			}
			rd := short(s.Round())
			if rd != rc.first && rd != rc.second {
				return nil
			}
			m := cloneMsg(s.Msg.TssMessage)
			m.UpdateMessages[0].Data = setWire(m.UpdateMessages[0].Data, func(p protoreflect.Message) {
				fds := p.Descriptor().Fields()
				if rd == rc.first {
					p.Set(fds.ByName("commitment"), protoreflect.ValueOfBytes(cmt.C.Bytes()))
					return
				}
				fd := fds.ByName("de_commitment")
				p.Clear(fd)
				l := p.Mutable(fd).List()
				for _, b := range deCommit {
					l.Append(protoreflect.ValueOfBytes(b))
				}
				// The proof of knowledge of the first point is right.
				if fd := fds.ByName("proof_t"); fd != nil && x != nil {
					if pf, err := zkp.NewDLogProof(rc.scheme, x, crypto.ScalarBaseMult(tss.EC(rc.scheme), x)); err == nil {
						p.Set(fd, protoreflect.ValueOfBytes(pf.T.Bytes()))
						al := p.Mutable(fds.ByName("proof_alpha")).Message()
						al.Set(al.Descriptor().Fields().ByName("x"), protoreflect.ValueOfBytes(pf.Alpha.X().Bytes()))
						al.Set(al.Descriptor().Fields().ByName("y"), protoreflect.ValueOfBytes(pf.Alpha.Y().Bytes()))
					}
				}
			})
			mu.Lock()
			changed++
			mu.Unlock()
			return [][]byte{signMsg(cl.Members[h], m)}
		})
		for i := 0; i < n; i++ {
			cl.mustSubmit(w, i)
		}
		victims := othersOf(cl.all(), h)
		if !cl.Wait(w, victims, 15*time.Second) {
			t.Live("C08", "recommit-blocks:"+kind, "%v: nodes %v have no outcome", t.cur, victims)
		}
		t.WaitFor(4*time.Second, func() bool { return cl.engine(victims[0]).GetActiveWorkerCount() == 0 })
		if cl.engine(victims[0]).GetActiveWorkerCount() != 0 {
			t.Live("C08", "recommit-slot:"+kind, "%v: node %d keeps the work", t.cur, victims[0])
		}
		cl.checkSignatures(w)
		mu.Lock()
		if changed > 0 {
			t.Eval(1)
			t.Count("altered commitments", 1)
			t.State("recommit", kind, way)
		}
		t.Debug("recommit %s %s changed=%d %v", kind, way, changed, time.Since(cl.start).Round(time.Millisecond))
		mu.Unlock()
		cl.Close()
	}
}

// rawHost is a peer with its own key that speaks libp2p, but no protocol of the node.
func rawHost(priv ctypes.PrivKey, port int) host.Host {
	var k lcrypto.PrivKey
	var err error
	if priv.Type() == "ed25519" {
		k, err = lcrypto.UnmarshalEd25519PrivateKey(priv.Bytes())
	} else {
		k, err = lcrypto.UnmarshalSecp256k1PrivateKey(priv.Bytes())
	}
	must(err)
	h, err := libp2p.New(libp2p.ListenAddrStrings(fmt.Sprintf("/ip4/127.0.0.1/tcp/%d", port)), libp2p.Identity(k))
	must(err)
	return h
}

func dial(h host.Host, priv ctypes.PrivKey, port int) (peer.ID, error) {
	a, err := maddr.NewMultiaddr(addrOf(priv, port))
	must(err)
	info, err := peer.AddrInfoFromP2pAddr(a)
	must(err)
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	return info.ID, h.Connect(ctx, *info)
}

// c08Stream: a peer writes anything to the streams of a real connection manager.
func c08Stream(t *T) {
	rng := t.Sub()
	privs := []ctypes.PrivKey{randSecp(rng), randEd(rng), randSecp(rng)}
	ports := freePorts(3)
	hostile := rawHost(privs[2], ports[2])
	defer hostile.Close()
	var nodes []*netNode
	for i := 0; i < 2; i++ {
		n := newNetNode(t, privs, ports, i)
		nodes = append(nodes, n)
		go n.cm.Start(n.priv.Bytes(), n.priv.Type())
	}
	ok := t.WaitFor(60*time.Second, func() bool {
		return nodes[0].cm.IsReady() && nodes[1].cm.IsReady() && nodes[1].cm.WriteToStream(nodes[0].id, pingProto, []byte("hello")) == nil
	})
	if !ok {
		t.Inconclusive("the nodes do not connect")
		return
	}
	var id peer.ID
	if !t.WaitFor(30*time.Second, func() bool {
		var err error
		id, err = dial(hostile, privs[0], ports[0])
		return err == nil
	}) {
		t.Inconclusive("the hostile peer does not connect")
		return
	}
	head := func(n uint32) []byte {
		b := make([]byte, 4)
		binary.LittleEndian.PutUint32(b, n)
		return b
	}
	for k := 0; t.More(k, 60, 2000); k++ {
		how := k % 10
		proto := []protocol.ID{tssProto, pingProto}[rng.Intn(2)]
		t.SetCase(fmt.Sprintf("stream of %s, hostile way %d", proto, how))
		for c := 0; c < 1+rng.Intn(4); c++ {
			ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
			s, err := hostile.NewStream(ctx, id, proto)
			cancel()
			if err != nil {
				t.Live("C08", "stream-refused", "no stream can be opened: %v (%v)", err, t.cur)
				continue
			}
			s.SetWriteDeadline(time.Now().Add(5 * time.Second))
			switch how {
			case 0:
				s.Write(randBytes(rng, 1+rng.Intn(5000)))
			case 1:
				s.Write(head(uint32(rng.Uint32()) | 1<<31))
			case 2:
				s.Write(head(20000001))
				s.Write(randBytes(rng, 1000))
			case 3:
				s.Write(append(head(1000), randBytes(rng, rng.Intn(999))...))
				s.Close()
			case 4:
				s.Write(append(head(1000), randBytes(rng, rng.Intn(999))...))
				s.Reset()
			case 5:
				s.Write(head(0)[:1+rng.Intn(3)])
			case 6:
				for j := 0; j < 300; j++ {
					s.Write(head(0))
				}
			case 7:
				s.Close()
			case 8:
				s.Write(head(19999999)) // and never more
			case 9:
				for j := 0; j < 50; j++ {
					x := randBytes(rng, rng.Intn(300))
					s.Write(append(head(uint32(len(x))), x...))
				}
			}
			t.Eval(1)
			t.State("stream", how, proto, c)
			t.Count("hostile streams", 1)
			if rng.Intn(2) == 0 {
				s.Reset()
			}
		}
		// Honest payloads still arrive.
		want := string(randBytes(rng, 1+rng.Intn(3000)))
		if err := nodes[1].cm.WriteToStream(nodes[0].id, tssProto, []byte(want)); err != nil {
			t.Live("C08", "stream-honest-error", "an honest peer cannot send anymore: %v (%v)", err, t.cur)
			continue
		}
		if !t.WaitFor(10*time.Second, func() bool {
			for _, m := range nodes[0].received() {
				if m.proto == tssProto && string(m.data) == want {
					return true
				}
			}
			return false
		}) {
			t.Live("C08", "stream-honest-lost", "a payload of an honest peer does not arrive (%v)", t.cur)
		}
		nodes[0].mu.Lock()
		nodes[0].msgs = nil
		nodes[0].mu.Unlock()
	}
}

// c08Announce: the leader of a signing is hostile and announces something else than it has found.
// c08Stalled: a hostile party takes part in a work, but does not read what it is sent, so that sending to it
// does not return. Other works of the others, with new requests all the time, do not wait for that.
func c08Stalled(t *T) {
	for k := 0; t.More(k, 3, 30); k++ {
		rng := t.Sub()
		n := 4
		cfg := c08Timeouts()
		cfg.SigningJobTimeout, cfg.KeygenJobTimeout = 20*time.Second, 20*time.Second
		cfg.SelectionLeaderTimeout, cfg.SelectionMemberTimeout = 10*time.Second, 15*time.Second
		cl := newCluster(t, rng, Opts{N: n, Thr: 1, Ed: true, Cfg: &cfg, Policy: immediate})
		h := rng.Intn(n)
		from := []string{"availability", "round", "answer"}[k%3]
		t.SetCase(fmt.Sprintf("node %d does not read after: %s", h, from))
		release := make(chan struct{})
		stalls := int64(0)
		var bad *Work
		cl.mu.Lock()
		cl.block = func(s *Send) {
			if s.To != h || s.From == h || s.Msg == nil {
				return
			}
			if from == "round" && !isUpdate(s) {
				return
			}
			atomic.AddInt64(&stalls, 1)
			<-release
		}
		cl.mu.Unlock()
		bad = &Work{Id: uniqueId(rng), Kind: "edgen"}
		for i := 0; i < n; i++ {
			cl.mustSubmit(bad, i)
		}
		t.WaitFor(3*time.Second, func() bool { return atomic.LoadInt64(&stalls) > 0 })
		if from == "answer" {
			// It asks for messages, too.
			for _, v := range othersOf(cl.all(), h) {
				for _, r := range []string{"KGRound1Message", "KGRound2Message2"} {
					key := common.GetMessageKey(bad.Id, cl.Members[v].Id, "", "eddsa.keygen."+r)
					cl.deliver(cl.Members[h].Id, v, cl.signed(h, common.NewRequestMessage(cl.Members[h].Id, cl.Members[v].Id, bad.Id, key)), nil)
				}
			}
		}
		honest := othersOf(cl.all(), h)
		for j := 0; j < 3; j++ {
			w := &Work{Id: uniqueId(rng), Kind: "edsign", Msgs: randMsgs(rng, "edsign", 1), Parties: honest}
			cl.request(w, honest[0])
			for _, i := range honest {
				i := i
				if !t.Within(8*time.Second, func() {
					// What a node does for every request.
					cl.engine(i).AddNodes(nodesOf(cl.Members))
					cl.mustSubmit(w, i)
				}) {
					t.Live("C08", "stalled-blocks-requests", "%v: node %d does not accept a request while node %d does not read", t.cur, i, h)
					close(release)
					return
				}
			}
			cl.Wait(w, honest, 10*time.Second)
			succ, fail, notSel := cl.tally(w)
			if len(succ) != 2 || len(fail) > 0 {
				t.add(Viol{Prop: "C08", Key: "stalled-stops-works", Liveness: true, Detail: cl.workDetail(w),
					Msg: fmt.Sprintf("%v: a signing of the others: success on %v, failure on %v, not selected %v", t.cur, succ, fail, notSel)})
				break
			}
			t.Count("works beside a peer that does not read", 1)
			t.Eval(1)
		}
		t.Count("sends that do not return", int(atomic.LoadInt64(&stalls)))
		t.State("stalled", from, h, k)
		close(release)
		cl.Close()
	}
}

func c08Announce(t *T) {
	for k := 0; t.More(k, 36, 800); k++ {
		rng := t.Sub()
		cfg := c08Timeouts()
		cl := newCluster(t, rng, Opts{N: 3, Thr: 1, Ec: true, Ed: true, Cfg: &cfg, Policy: jitter(rng, 3*time.Millisecond), Before: func(cl *Cluster) {
			pids := pidsOf(cl.Members)
			for g, sub := range subsets(3, 2) {
				for b := 0; b < 4; b++ {
					for i, d := range forgePresign(rng, cl.Members, sub, cl.EcSecret, randNonce(rng)) {
						must(cl.Nodes[sub[i]].db().SavePresignData(fmt.Sprintf("p%d%c", g, 'a'+b), []*tss.PartyID{pids[sub[0]], pids[sub[1]]}, []*ecsigning.SignatureData_OneRoundData{d}))
					}
				}
			}
		}})
		leader := rng.Intn(3)
		others := othersOf(cl.all(), leader)
		batch := 1 + (k+k/16+1)%3
		w := &Work{Id: cl.idWithLeader(rng, leader), Kind: "ecsign", Msgs: randMsgs(rng, "ecsign", batch)}
		honest := &Work{Id: uniqueId(rng), Kind: "edsign", Msgs: randMsgs(rng, "edsign", 1)}
		group := 0
		for g, sub := range subsets(3, 2) {
			if sub[0] == leader || sub[1] == leader {
				group = g
			}
		}
		id := func(j int) string { return fmt.Sprintf("p%d%c-0", group, 'a'+j) }
		ways := []string{"too few presigns", "too many presigns", "repeated presign", "empty presign", "unknown presign", "presigns of others", "all empty",
			"no parties", "leader twice", "only the leader", "unknown party", "all parties", "members only", "failure with parties", "no presigns", "null"}
		way := ways[k%len(ways)]
		t.SetCase(fmt.Sprintf("the leader %d of a signing of %d messages announces: %s", leader, batch, way))
		announced := 0
		cl.SetTamper(func(s *Send, to int) [][]byte {
			if s.From != leader || s.Msg == nil || s.Msg.TssMessage.Type != common.TssMessage_PRE_EXEC_OUTPUT || s.Msg.TssMessage.WorkId != w.Id {
				return nil
			}
			m := cloneMsg(s.Msg.TssMessage)
			o := m.PreExecOutputMessage
			if o == nil || !o.Success {
				return nil
			}
			var ids []string
			for j := 0; j < batch; j++ {
				ids = append(ids, id(j))
			}
			switch way {
			case "too few presigns":
				o.PresignIds = ids[:batch-1]
				if batch == 1 {
					o.PresignIds = []string{""}
				}
			case "too many presigns":
				o.PresignIds = append(ids, id(3))
			case "repeated presign":
				for j := range ids {
					ids[j] = id(0)
				}
				o.PresignIds = ids
			case "empty presign":
				ids[batch-1] = ""
				o.PresignIds = ids
			case "unknown presign":
				ids[0] = "nothing-0"
				o.PresignIds = ids
			case "presigns of others":
				ids[0] = fmt.Sprintf("p%da-0", (group+1)%3)
				o.PresignIds = ids
			case "all empty":
				o.PresignIds = make([]string, batch)
			case "no parties":
				o.Pids = nil
			case "leader twice":
				o.Pids = []string{cl.Members[leader].Id, cl.Members[leader].Id}
			case "only the leader":
				o.Pids = []string{cl.Members[leader].Id}
			case "unknown party":
				o.Pids = append(o.Pids, "nobody")
			case "all parties":
				o.Pids = cl.ids()
			case "members only":
				o.Pids = []string{cl.Members[others[0]].Id, cl.Members[others[1]].Id}
			case "failure with parties":
				o.Success = false
			case "no presigns":
				o.PresignIds = nil
			case "null":
				m.PreExecOutputMessage = nil
			}
			cl.mu.Lock()
			announced++
			cl.mu.Unlock()
			return [][]byte{cl.signed(leader, m)}
		})
		for i := 0; i < 3; i++ {
			cl.mustSubmit(w, i)
			cl.mustSubmit(honest, i)
		}
		cl.Wait(honest, others, 20*time.Second)
		cl.Wait(w, others, 20*time.Second)
		cl.Quiesce(20*time.Millisecond, time.Second)
		succ, _, not := cl.tally(honest)
		if len(succ) != 2 || len(not) != 1 {
			t.add(Viol{Prop: "C08", Key: "other-work", Liveness: true, Detail: cl.workDetail(honest), Msg: fmt.Sprintf("%v: a signing beside it does not succeed: success on %v, not selected %v", t.cur, succ, not)})
		}
		for _, i := range others {
			if n := len(cl.of(w)[i]); n != 1 {
				t.add(Viol{Prop: "C08", Key: "announce-outcomes", Liveness: true, Detail: cl.workDetail(w), Msg: fmt.Sprintf("%v: node %d reports %d outcomes", t.cur, i, n)})
			}
		}
		cl.checkSignatures(w)
		t.Count("hostile announcements", announced)
		s2, f2, n2 := cl.tally(w)
		t.State("announce", way, batch, len(s2), len(f2), len(n2))
		t.Eval(1)
		cl.Close()
	}
}
