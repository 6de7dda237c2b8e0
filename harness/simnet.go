package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/libp2p/go-libp2p/core/protocol"
	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/db"
	"github.com/sisu-network/dheart/p2p"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"
	wtypes "github.com/sisu-network/dheart/worker/types"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

// Send is one message that a node gives to its connection manager.
type Send struct {
	Seq      int
	At       time.Duration
	From, To int // To is -1 for a peer that is not a member
	ToPeer   string
	Proto    protocol.ID
	Data     []byte
	Msg      *common.SignedMessage // nil if it cannot be parsed
}

func (s *Send) Type() common.TssMessage_Type { return s.Msg.TssMessage.Type }

func (s *Send) Round() string {
	if s.Msg == nil || s.Msg.TssMessage == nil || len(s.Msg.TssMessage.UpdateMessages) == 0 {
		return ""
	}
	return s.Msg.TssMessage.UpdateMessages[0].Round
}

func (s *Send) String() string {
	if s.Msg == nil || s.Msg.TssMessage == nil {
		return fmt.Sprintf("#%d %d->%d unparsable", s.Seq, s.From, s.To)
	}
	m := s.Msg.TssMessage
	x := ""
	if m.Type == common.TssMessage_ASK_MESSAGE_REQUEST {
		x = " " + m.GetAskRequestMessage().GetMsgKey()
	}
	return fmt.Sprintf("#%d %d->%d %s %s work=%s bcast=%v%s", s.Seq, s.From, s.To, m.Type, short(s.Round()), m.WorkId, m.To == "", x)
}

func short(r string) string {
	for i := len(r) - 1; i >= 0; i-- {
		if r[i] == '.' {
			return r[i+1:]
		}
	}
	return r
}

// Policy decides what happens to a message: it returns the delays of its deliveries.
type Policy func(s *Send) []time.Duration

// Outcome is one report of a node to its client.
type Outcome struct {
	Node       int
	Kind       string // keygen, sign, fail
	WorkId     string // not known for a keygen
	KeyType    string
	Outcome    htypes.OutcomeType
	Req        *wtypes.WorkRequest
	Keygen     *htypes.KeygenResult
	Sign       *htypes.KeysignResult
	At         time.Duration
	Persisted  bool // the share was in the database when the result came
	PersistMsg string
	Active     int // GetActiveWorkerCount at the time of the report
}

type Cluster struct {
	policyName string
	t          *T
	N          int
	Members    []*Member
	Nodes      []*SimNode
	Ec         []*eckeygen.LocalPartySaveData
	Ed         []*edkeygen.LocalPartySaveData
	EcSecret   *big.Int
	Thr        int
	byId       map[string]int
	start      time.Time

	pub      sync.RWMutex // publishes engines
	mu       sync.Mutex
	sends    []*Send
	keepData bool
	policy   Policy
	block    func(s *Send)                  // is called before sending returns
	tamper   func(s *Send, to int) [][]byte // replaces the data of a delivery, nil: unchanged
	fromPeer func(s *Send) string
	closed   bool
	sendErr  bool // a message that the policy drops is an error of the sender

	inflight int64 // calls of OnNetworkMessage that have not returned
	pending  int64 // deliveries that are scheduled
	deliv    int64
	order    uint64 // hash over the order of deliveries

	roundDeliv []roundDeliv

	outcomes []*Outcome
	onOut    func(o *Outcome)
}

// roundDeliv is the delivery of a round message.
type roundDeliv struct {
	work string
	to   int
	at   time.Duration
}

type SimNode struct {
	cl     *Cluster
	Idx    int
	M      *Member
	Engine core.Engine
	Db     db.Database
	up     int32
	life   int32 // number of engines that were started
}

func fastTimeouts() config.TimeoutConfig {
	return config.TimeoutConfig{
		PresignJobTimeout: 100 * time.Second, KeygenJobTimeout: 100 * time.Second, SigningJobTimeout: 100 * time.Second,
		MonitorMessageTimeout: 15 * time.Second, SelectionLeaderTimeout: 30 * time.Second, SelectionMemberTimeout: 60 * time.Second,
	}
}

type Opts struct {
	N, Thr   int
	Ec, Ed   bool
	Pre      bool
	Cfg      *config.TimeoutConfig
	Policy   Policy
	NoEngine map[int]bool // nodes that are down from the start
	Members  []*Member
	KeepData bool
	Before   func(cl *Cluster) // runs before the nodes start
}

func newDb() db.Database {
	d := db.NewDatabase(&config.DbConfig{InMemory: true})
	must(d.Init())
	return d
}

func newCluster(t *T, rng *rand.Rand, o Opts) *Cluster {
	if o.Thr == 0 {
		o.Thr = (o.N+1)*2/3 - 1
	}
	cl := &Cluster{t: t, N: o.N, Thr: o.Thr, byId: map[string]int{}, start: time.Now(), policy: o.Policy, keepData: o.KeepData}
	cl.Members = o.Members
	if cl.Members == nil {
		cl.Members = makeMembers(rng, o.N, o.Ec || o.Pre)
	}
	for i, m := range cl.Members {
		cl.byId[m.Id] = i
	}
	if o.Ec {
		cl.Ec, cl.EcSecret = dealEcSecret(rng, cl.Members, o.Thr)
	}
	if o.Ed {
		cl.Ed = dealEd(rng, cl.Members, o.Thr)
	}
	for i := range cl.Members {
		cl.Nodes = append(cl.Nodes, &SimNode{cl: cl, Idx: i, M: cl.Members[i]})
	}
	if o.Before != nil {
		o.Before(cl)
	}
	for i := range cl.Nodes {
		if !o.NoEngine[i] {
			cfg := fastTimeouts()
			if o.Cfg != nil {
				cfg = *o.Cfg
			}
			cl.Up(i, cfg)
		}
	}
	return cl
}

func (n *SimNode) db() db.Database {
	if n.Db == nil {
		n.Db = newDb()
		if n.M.Pre != nil {
			must(n.Db.SavePreparams(n.M.Pre))
		}
	}
	return n.Db
}

// Up starts (or restarts) a node. Its database survives.
func (cl *Cluster) Up(i int, cfg config.TimeoutConfig) {
	n := cl.Nodes[i]
	n.db()
	// Every node gets its own node objects.
	nodes := make([]*core.Node, cl.N)
	for j, m := range cl.Members {
		nodes[j] = core.NewNode(m.Priv.PubKey())
	}
	// A former engine has no effect anymore.
	life := atomic.AddInt32(&n.life, 1)
	e := core.NewEngine(core.NewNode(n.M.Priv.PubKey()), &simCM{n: n, life: life}, n.Db, &recorder{n: n, life: life}, n.M.Priv, cfg)
	must(e.Init())
	e.AddNodes(nodes)
	cl.pub.Lock()
	n.Engine = e
	cl.pub.Unlock()
	atomic.StoreInt32(&n.up, 1)
}

// Down makes a node unreachable and silent.
func (cl *Cluster) Down(i int) { atomic.StoreInt32(&cl.Nodes[i].up, 0) }

func (cl *Cluster) engine(i int) core.Engine {
	cl.pub.RLock()
	defer cl.pub.RUnlock()
	return cl.Nodes[i].Engine
}

func (cl *Cluster) isUp(i int) bool { return atomic.LoadInt32(&cl.Nodes[i].up) == 1 }

func (cl *Cluster) Close() {
	cl.mu.Lock()
	cl.closed = true
	cl.mu.Unlock()
}

func (cl *Cluster) SetPolicy(p Policy) {
	cl.mu.Lock()
	cl.policy = p
	cl.mu.Unlock()
}

func (cl *Cluster) SetTamper(f func(s *Send, to int) [][]byte) {
	cl.mu.Lock()
	cl.tamper = f
	cl.mu.Unlock()
}

// simCM is the connection manager of a node.
type simCM struct {
	n    *SimNode
	life int32
}

func (c *simCM) Start([]byte, string) error                   { return nil }
func (c *simCM) AddListener(protocol.ID, p2p.P2PDataListener) {}
func (c *simCM) IsReady() bool                                { return true }
func (c *simCM) WriteToStream(to peer.ID, proto protocol.ID, data []byte) error {
	if atomic.LoadInt32(&c.n.life) != c.life {
		return fmt.Errorf("gone")
	}
	return c.n.cl.send(c.n.Idx, to.String(), proto, data)
}

func parseSigned(data []byte) *common.SignedMessage {
	m := &common.SignedMessage{}
	if json.Unmarshal(data, m) != nil || m.TssMessage == nil {
		return nil
	}
	return m
}

func (cl *Cluster) send(from int, toPeer string, proto protocol.ID, data []byte) error {
	if !cl.isUp(from) {
		return fmt.Errorf("down")
	}
	data = append([]byte{}, data...)
	to, ok := cl.byId[toPeer]
	if !ok {
		to = -1
	}
	s := &Send{At: time.Since(cl.start), From: from, To: to, ToPeer: toPeer, Proto: proto, Data: data, Msg: parseSigned(data)}
	// What the harness does here must not order what the engines do (for the race detector).
	raceOff()
	cl.mu.Lock()
	s.Seq = len(cl.sends)
	cl.sends = append(cl.sends, s)
	policy, tamper, block := cl.policy, cl.tamper, cl.block
	closed := cl.closed
	cl.mu.Unlock()
	raceOn()
	if closed || to < 0 {
		return nil
	}
	delays := []time.Duration{0}
	if policy != nil {
		delays = policy(s)
	}
	if cl.sendErr && len(delays) == 0 {
		return fmt.Errorf("stream reset")
	}
	for _, d := range delays {
		payloads := [][]byte{data}
		if tamper != nil {
			if x := tamper(s, to); x != nil {
				payloads = x
			}
		}
		for _, p := range payloads {
			cl.deliverAfter(d, cl.Members[from].Id, to, p, s)
		}
	}
	if block != nil {
		block(s)
	}
	return nil
}

func (cl *Cluster) deliverAfter(d time.Duration, fromPeer string, to int, data []byte, s *Send) {
	raceOff()
	atomic.AddInt64(&cl.pending, 1)
	raceOn()
	f := func() {
		defer func() {
			raceOff()
			atomic.AddInt64(&cl.pending, -1)
			raceOn()
		}()
		cl.deliver(fromPeer, to, data, s)
	}
	if d <= 0 {
		go f()
	} else {
		time.AfterFunc(d, f)
	}
}

// received is the receiver's own copy of what was sent; as on a network, it is not memory of the sender.
//go:norace
func received(data []byte) []byte {
	res := make([]byte, len(data))
	copy(res, data)
	return res
}

// deliver hands a message to a node, like the connection manager does.
func (cl *Cluster) deliver(fromPeer string, to int, data []byte, s *Send) {
	e := cl.engine(to)
	h := uint64(0)
	if s != nil && s.Msg != nil {
		h = hash64(s.From, to, s.Msg.TssMessage.Type, s.Round(), s.Msg.TssMessage.WorkId)
	}
	raceOff()
	cl.mu.Lock()
	closed := cl.closed
	if s != nil && s.Msg != nil {
		cl.order = cl.order*1099511628211 ^ h
		if isUpdate(s) {
			cl.roundDeliv = append(cl.roundDeliv, roundDeliv{s.Msg.TssMessage.WorkId, to, time.Since(cl.start)})
		}
	}
	cl.deliv++
	cl.mu.Unlock()
	if closed || !cl.isUp(to) || e == nil {
		raceOn()
		return
	}
	atomic.AddInt64(&cl.inflight, 1)
	raceOn()
	e.OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: fromPeer, Data: received(data)})
	raceOff()
	atomic.AddInt64(&cl.inflight, -1)
	raceOn()
}

func (cl *Cluster) Sends() []*Send {
	cl.mu.Lock()
	defer cl.mu.Unlock()
	return append([]*Send{}, cl.sends...)
}

func (cl *Cluster) Order() uint64 {
	cl.mu.Lock()
	defer cl.mu.Unlock()
	return cl.order
}

// signed builds a message that is properly signed by a member.
func (cl *Cluster) signed(from int, msg *common.TssMessage) []byte {
	return signMsg(cl.Members[from], msg)
}

func signMsg(m *Member, msg *common.TssMessage) []byte {
	bz, err := json.Marshal(msg)
	must(err)
	sig, err := m.Priv.Sign(bz)
	must(err)
	data, err := json.Marshal(&common.SignedMessage{From: m.Id, TssMessage: msg, Signature: sig})
	must(err)
	return data
}

// recorder is the client of an engine.
type recorder struct {
	n    *SimNode
	life int32
}

func (r *recorder) add(o *Outcome) {
	cl := r.n.cl
	if atomic.LoadInt32(&r.n.life) != r.life {
		return
	}
	o.Node = r.n.Idx
	o.At = time.Since(cl.start)
	cl.mu.Lock()
	cl.outcomes = append(cl.outcomes, o)
	f := cl.onOut
	cl.mu.Unlock()
	if f != nil {
		f(o)
	}
}

func (r *recorder) OnWorkKeygenFinished(result *htypes.KeygenResult) {
	o := &Outcome{Kind: "keygen", KeyType: result.KeyType, Keygen: result, Outcome: result.Outcome}
	if result.Outcome == htypes.OutcomeSuccess {
		// The share must be in the database when the result is reported.
		if result.KeyType == "eddsa" {
			k, err := r.n.Db.LoadEdKeygen(result.KeyType)
			o.Persisted = err == nil && k != nil && k.EDDSAPub != nil
			o.PersistMsg = fmt.Sprint(err)
		} else {
			k, err := r.n.Db.LoadEcKeygen(result.KeyType)
			o.Persisted = err == nil && k != nil && k.ECDSAPub != nil
			o.PersistMsg = fmt.Sprint(err)
		}
	}
	r.add(o)
}

func (r *recorder) OnWorkSigningFinished(request *wtypes.WorkRequest, result *htypes.KeysignResult) {
	r.add(&Outcome{Kind: "sign", WorkId: request.WorkId, Req: request, Sign: result, Outcome: result.Outcome})
}

func (r *recorder) OnWorkFailed(request *wtypes.WorkRequest, culprits []*tss.PartyID) {
	r.add(&Outcome{Kind: "fail", WorkId: request.WorkId, KeyType: request.KeygenType, Req: request, Outcome: htypes.OutcomeFailure})
}

func (cl *Cluster) Outcomes() []*Outcome {
	cl.mu.Lock()
	defer cl.mu.Unlock()
	return append([]*Outcome{}, cl.outcomes...)
}

// Work is a request that is given to some nodes.
type Work struct {
	Id      string
	Kind    string // ecgen, edgen, ecsign, edsign
	KeyType string
	Msgs    [][]byte
	Thr     int
	Parties []int // nil: all nodes
	Perm    int64 // not 0: every node lists the parties in an order of its own
}

// parties are the nodes of a work.
func (cl *Cluster) parties(w *Work) []int {
	if w.Parties == nil {
		return cl.all()
	}
	return w.Parties
}

func (cl *Cluster) partyIds(w *Work) tss.SortedPartyIDs {
	var ms []*Member
	for _, i := range cl.parties(w) {
		ms = append(ms, cl.Members[i])
	}
	return pidsOf(ms)
}

func (cl *Cluster) request(w *Work, i int) *wtypes.WorkRequest {
	pids := cl.partyIds(w)
	if w.Perm != 0 {
		r := rand.New(rand.NewSource(w.Perm + int64(i)))
		r.Shuffle(len(pids), func(a, b int) { pids[a], pids[b] = pids[b], pids[a] })
	}
	thr := cl.Thr
	if w.Thr != 0 {
		thr = w.Thr
	}
	msgs := make([][]byte, len(w.Msgs))
	chains := make([]string, len(w.Msgs))
	for k := range msgs {
		if w.Msgs[k] != nil {
			msgs[k] = append([]byte{}, w.Msgs[k]...)
		}
		chains[k] = "ganache1"
	}
	switch w.Kind {
	case "ecgen":
		if w.KeyType == "" {
			w.KeyType = "ecdsa"
		}
		return wtypes.NewEcKeygenRequest(w.KeyType, w.Id, pids, thr, nil)
	case "edgen":
		w.KeyType = "eddsa"
		return wtypes.NewEdKeygenRequest(w.Id, pids, thr)
	case "ecsign":
		return wtypes.NewEcSigningRequest(w.Id, pids, thr, msgs, chains, cl.Ec[i])
	case "edsign":
		return wtypes.NewEdSigningRequest(w.Id, pids, thr, msgs, chains, cl.Ed[i])
	}
	panic(w.Kind)
}

// Submit gives a work to a node.
func (cl *Cluster) Submit(w *Work, i int) error {
	return cl.engine(i).AddRequest(cl.request(w, i))
}

// Requests that every node accepts: without them, these properties have no content.
var needsSubmit = map[string]bool{"C03": true, "C04": true, "C05": true, "C06": true, "C08": true, "C10": true, "C20": true}

func (cl *Cluster) mustSubmit(w *Work, i int) {
	if err := cl.Submit(w, i); err != nil {
		prop := "C05"
		if needsSubmit[cl.t.Prop] {
			prop = cl.t.Prop
		}
		cl.t.Viol(prop, "refused", "%v: node %d refuses %s: %v", cl.t.cur, i, w.Id, err)
	}
}

// of returns the outcomes of a work by node.
func (cl *Cluster) of(w *Work) map[int][]*Outcome {
	res := map[int][]*Outcome{}
	for _, o := range cl.Outcomes() {
		if o.WorkId == w.Id || (o.Kind == "keygen" && (w.Kind == "ecgen" || w.Kind == "edgen") && o.KeyType == w.KeyType) {
			res[o.Node] = append(res[o.Node], o)
		}
	}
	return res
}

// Wait waits until each of the nodes has an outcome of the work.
func (cl *Cluster) Wait(w *Work, nodes []int, d time.Duration) bool {
	return cl.t.WaitFor(d, func() bool {
		res := cl.of(w)
		for _, i := range nodes {
			if len(res[i]) == 0 {
				return false
			}
		}
		return true
	})
}

func (cl *Cluster) all() []int {
	res := make([]int, cl.N)
	for i := range res {
		res[i] = i
	}
	return res
}

// Quiesce waits until no message is under way and nothing has been sent for a while.
func (cl *Cluster) Quiesce(quiet, max time.Duration) {
	last, since := -1, cl.t.clock.Now()
	cl.t.WaitFor(max, func() bool {
		cl.mu.Lock()
		n := len(cl.sends) + len(cl.outcomes)*100000
		cl.mu.Unlock()
		if n != last || atomic.LoadInt64(&cl.pending) > 0 {
			last, since = n, cl.t.clock.Now()
		}
		return cl.t.clock.Now()-since >= quiet
	})
}

func (cl *Cluster) leader(workId string) int {
	// The leader is observed by its messages in the checks that depend on it. Here it is only used to
	// choose scenarios.
	return cl.byId[chooseLeader(workId, pidsOf(cl.Members))]
}
