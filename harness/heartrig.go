package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"time"

	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/ethereum/go-ethereum/rpc"
	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/libp2p/go-libp2p/core/protocol"
	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/db"
	"github.com/sisu-network/dheart/p2p"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/server"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/utils"
	wtypes "github.com/sisu-network/dheart/worker/types"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

// fakeSisu is the client of a node: it records what is posted.
type fakeSisu struct {
	mu      sync.Mutex
	keygens []*htypes.KeygenResult
	signs   []*htypes.KeysignResult
	fail    bool
}

func (c *fakeSisu) TryDial() {}

func (c *fakeSisu) PostKeygenResult(r *htypes.KeygenResult) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	x := *r
	c.keygens = append(c.keygens, &x)
	if c.fail {
		return fmt.Errorf("not connected")
	}
	return nil
}

func (c *fakeSisu) PostPresignResult(r *htypes.PresignResult) error { return nil }

func (c *fakeSisu) PostKeysignResult(r *htypes.KeysignResult) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	x := *r
	c.signs = append(c.signs, &x)
	if c.fail {
		return fmt.Errorf("not connected")
	}
	return nil
}

func (c *fakeSisu) Keygens() []*htypes.KeygenResult {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]*htypes.KeygenResult{}, c.keygens...)
}

func (c *fakeSisu) Signs() []*htypes.KeysignResult {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]*htypes.KeysignResult{}, c.signs...)
}

// heartNode is a whole node, as run.go puts it together, behind its rpc server.
type heartNode struct {
	t    *T
	idx  int
	priv ctypes.PrivKey
	cfg  config.HeartConfig
	sisu *fakeSisu
	rpc  *rpc.Client
	port int
}

var theAesKey = []byte("0123456789abcdef0123456789abcdef")

func newHeart(t *T, priv ctypes.PrivKey, idx, port int, peers []*p2ptypes.Peer) *heartNode {
	h := &heartNode{t: t, idx: idx, priv: priv, sisu: &fakeSisu{}, port: port}
	h.cfg = config.HeartConfig{
		ShortcutPreparams: true, AesKey: theAesKey,
		Db:         config.DbConfig{InMemory: true, Schema: fmt.Sprintf("dheart%d", idx)},
		Connection: p2ptypes.ConnectionsConfig{Host: "127.0.0.1", Port: port, Rendezvous: "rendezvous", Peers: peers},
	}
	api := server.GetApi(h.cfg, h.sisu)
	api.Init()
	srv := rpc.NewServer()
	must(srv.RegisterName("tss", api))
	h.rpc = rpc.DialInProc(srv)
	return h
}

func encKey(priv, aes []byte) string {
	bz, err := utils.AESDEncrypt(priv, aes)
	must(err)
	return hex.EncodeToString(bz)
}

func (h *heartNode) call(method string, args ...interface{}) error {
	var r interface{}
	err := h.rpc.Call(&r, "tss_"+method, args...)
	if err != nil && strings.Contains(err.Error(), "method handler crashed") {
		h.t.Viol("C16", "handler-crashed:"+method, "%v: a call of %s crashes (the rpc server keeps the node alive)", h.t.cur, method)
	}
	return err
}

func (h *heartNode) SetPrivKey(priv ctypes.PrivKey) error {
	return h.call("setPrivKey", encKey(priv.Bytes(), theAesKey), priv.Type())
}

func wrap(keys []ctypes.PubKey) []htypes.PubKeyWrapper {
	var res []htypes.PubKeyWrapper
	for _, k := range keys {
		res = append(res, htypes.PubKeyWrapper{KeyType: k.Type(), Key: k.Bytes()})
	}
	return res
}

func (h *heartNode) KeyGen(id, kind string, keys []ctypes.PubKey) error {
	return h.call("keyGen", id, kind, wrap(keys))
}

func (h *heartNode) KeySign(req *htypes.KeysignRequest, keys []ctypes.PubKey) error {
	return h.call("keySign", req, wrap(keys))
}

func (h *heartNode) Ready(r bool) {
	if err := h.call("setSisuReady", r); err != nil {
		h.t.Viol("C16", "ready-refused", "%v: the node cannot be told whether Sisu is ready: %v", h.t.cur, err)
	}
}

// shadow is a peer of a node that consists of a real connection manager and a real engine. It sees every
// message for it and takes part in every work that it sees.
type shadow struct {
	t      *T
	net    *netNode
	priv   ctypes.PrivKey
	engine core.Engine
	db     db.Database
	parts  tss.SortedPartyIDs
	thr    int

	mu      sync.Mutex
	seen    []string // work ids in the order of the messages
	started map[string]int
	kind    string // what the next unknown work is
	msgs    [][]byte
	share   *edkeygen.LocalPartySaveData
	results int
	bytes   []*common.TssMessage
	passive bool
}

type shadowCM struct{ cm p2p.ConnectionManager }

func (s *shadowCM) Start([]byte, string) error                   { return nil }
func (s *shadowCM) AddListener(protocol.ID, p2p.P2PDataListener) {}
func (s *shadowCM) IsReady() bool                                { return true }
func (s *shadowCM) WriteToStream(to peer.ID, p protocol.ID, data []byte) error {
	return s.cm.WriteToStream(to, p, data)
}

func (s *shadow) OnWorkKeygenFinished(r *htypes.KeygenResult) {
	k, err := s.db.LoadEdKeygen("eddsa")
	s.mu.Lock()
	defer s.mu.Unlock()
	if err == nil {
		s.share = k
	}
	s.results++
}
func (s *shadow) OnWorkSigningFinished(request *wtypes.WorkRequest, r *htypes.KeysignResult) {
	s.mu.Lock()
	s.results++
	s.mu.Unlock()
}
func (s *shadow) OnWorkFailed(request *wtypes.WorkRequest, c []*tss.PartyID) {
	s.mu.Lock()
	s.results++
	s.mu.Unlock()
}

// newShadow replaces the listener of a real connection manager.
func newShadow(t *T, privs []ctypes.PrivKey, ports []int, i int) *shadow {
	s := &shadow{t: t, priv: privs[i], started: map[string]int{}, thr: utils.GetThreshold(len(privs))}
	s.net = newNetNode(t, privs, ports, i)
	s.db = newDb()
	pubs := pubsOf(privs)
	nodes := core.NewNodes(pubs)
	pids := make([]*tss.PartyID, len(nodes))
	for k, n := range nodes {
		pids[k] = tss.NewPartyID(n.PartyId.Id, "", n.PartyId.KeyInt())
	}
	s.parts = tss.SortPartyIDs(pids)
	s.engine = core.NewEngine(core.NewNode(s.priv.PubKey()), &shadowCM{s.net.cm}, s.db, s, s.priv, fastTimeouts())
	must(s.engine.Init())
	s.engine.AddNodes(nodes)
	s.net.hook = func(m netMsg) {
		if m.proto != tssProto {
			return
		}
		sm := &common.SignedMessage{}
		if json.Unmarshal(m.data, sm) == nil && sm.TssMessage != nil {
			s.saw(sm.TssMessage)
		}
		s.engine.OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: m.from, Data: m.data})
	}
	return s
}

func (s *shadow) saw(m *common.TssMessage) {
	s.mu.Lock()
	id := m.WorkId
	s.seen = append(s.seen, id)
	s.bytes = append(s.bytes, m)
	if s.passive || s.kind == "" || s.started[id] > 0 {
		s.mu.Unlock()
		return
	}
	s.started[id]++
	var req *wtypes.WorkRequest
	chains := make([]string, len(s.msgs))
	switch s.kind {
	case "edgen":
		req = wtypes.NewEdKeygenRequest(id, s.parts, s.thr)
	case "edsign":
		req = wtypes.NewEdSigningRequest(id, s.parts, s.thr, s.msgs, chains, s.share)
	}
	s.kind = ""
	s.mu.Unlock()
	if err := s.engine.AddRequest(req); err != nil {
		s.t.Inconclusive("the shadow cannot take part: %v", err)
	}
}

// next prepares the shadow for the next work. Works that it took part in before may be repeated.
func (s *shadow) next(kind string, msgs [][]byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.kind, s.msgs = kind, msgs
	s.seen = nil
	s.started = map[string]int{}
}

func (s *shadow) works() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return uniq(s.seen)
}

func (s *shadow) done() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.results
}

func pubsOf(privs []ctypes.PrivKey) []ctypes.PubKey {
	var res []ctypes.PubKey
	for _, p := range privs {
		res = append(res, p.PubKey())
	}
	return res
}

// heartPair is a node and a shadow, connected, with an eddsa key.
type heartPair struct {
	t    *T
	h    *heartNode
	s    *shadow
	keys []ctypes.PubKey
	priv []ctypes.PrivKey
}

func newHeartPair(t *T, privs []ctypes.PrivKey) *heartPair {
	ports := freePorts(len(privs))
	p := &heartPair{t: t, keys: pubsOf(privs), priv: privs}
	p.h = newHeart(t, privs[0], 0, ports[0], peersOf(privs, ports, 0)[:1])
	p.s = newShadow(t, privs, ports, 1)
	go p.s.net.cm.Start(p.s.priv.Bytes(), p.s.priv.Type())
	return p
}

// connect sets the key and makes both sides reachable for each other.
func (p *heartPair) connect() bool {
	if err := p.h.SetPrivKey(p.priv[0]); err != nil {
		p.t.Inconclusive("the private key cannot be set: %v", err)
		return false
	}
	p.h.Ready(true)
	id := core.NewNode(p.keys[0]).PeerId
	return p.t.WaitFor(20*time.Second, func() bool { return p.s.net.cm.WriteToStream(id, pingProto, []byte("x")) == nil })
}

// keygen makes an eddsa key.
func (p *heartPair) keygen(id string) bool {
	n := p.s.done()
	p.s.next("edgen", nil)
	if err := p.h.KeyGen(id, "eddsa", p.keys); err != nil {
		p.t.Inconclusive("key generation is refused: %v", err)
		return false
	}
	return p.t.WaitFor(40*time.Second, func() bool {
		ks := p.h.sisu.Keygens()
		return p.s.done() > n && len(ks) > 0 && ks[len(ks)-1].Outcome == htypes.OutcomeSuccess
	})
}
