package main

import (
	"encoding/json"
	"fmt"
	"net"
	"sync"
	"time"

	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/libp2p/go-libp2p/core/protocol"
	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/p2p"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
)

const (
	tssProto  = protocol.ID("/p2p-tss")
	pingProto = protocol.ID("/p2p-ping")
)

type netMsg struct {
	proto protocol.ID
	from  string
	data  []byte
	at    time.Time
}

// netNode is a real connection manager on the loopback network.
type netNode struct {
	t    *T
	priv ctypes.PrivKey
	id   peer.ID
	port int
	cm   p2p.ConnectionManager

	mu   sync.Mutex
	msgs []netMsg
	hook func(netMsg)
}

type netListener struct {
	n     *netNode
	proto protocol.ID
}

func (l *netListener) OnNetworkMessage(m *p2ptypes.P2PMessage) {
	x := netMsg{proto: l.proto, from: m.FromPeerId, data: m.Data, at: time.Now()}
	l.n.mu.Lock()
	l.n.msgs = append(l.n.msgs, x)
	h := l.n.hook
	l.n.mu.Unlock()
	if h != nil {
		h(x)
	}
}

func (n *netNode) received() []netMsg {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]netMsg{}, n.msgs...)
}

type netCluster struct {
	t     *T
	nodes []*netNode
}

// freePorts returns ports of the loopback network that nobody uses.
func freePorts(n int) []int {
	var res []int
	var ls []net.Listener
	for i := 0; i < n; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		ls = append(ls, l)
		res = append(res, l.Addr().(*net.TCPAddr).Port)
	}
	for _, l := range ls {
		l.Close()
	}
	return res
}

func addrOf(priv ctypes.PrivKey, port int) string {
	return fmt.Sprintf("/ip4/127.0.0.1/tcp/%d/p2p/%s", port, core.NewNode(priv.PubKey()).PeerId)
}

// peersOf makes the configured peers of node i.
func peersOf(privs []ctypes.PrivKey, ports []int, i int) []*p2ptypes.Peer {
	var res []*p2ptypes.Peer
	for j, p := range privs {
		if j != i {
			res = append(res, &p2ptypes.Peer{Address: addrOf(p, ports[j]), PubKey: fmt.Sprintf("%x", p.PubKey().Bytes()), PubKeyType: p.PubKey().Type()})
		}
	}
	return res
}

func newNetNode(t *T, privs []ctypes.PrivKey, ports []int, i int) *netNode {
	n := &netNode{t: t, priv: privs[i], id: core.NewNode(privs[i].PubKey()).PeerId, port: ports[i]}
	n.cm = p2p.NewConnectionManager(p2ptypes.ConnectionsConfig{Host: "127.0.0.1", Port: ports[i], Rendezvous: "rendezvous", Peers: peersOf(privs, ports, i)})
	n.cm.AddListener(tssProto, &netListener{n, tssProto})
	n.cm.AddListener(pingProto, &netListener{n, pingProto})
	return n
}

// startNet starts one real connection manager for each key. Start blocks until the peers are connected,
// so that it runs beside the caller.
func startNet(t *T, privs []ctypes.PrivKey) *netCluster {
	ports := freePorts(len(privs))
	c := &netCluster{t: t}
	for i := range privs {
		c.nodes = append(c.nodes, newNetNode(t, privs, ports, i))
	}
	for _, n := range c.nodes {
		n := n
		go func() {
			if err := n.cm.Start(n.priv.Bytes(), n.priv.Type()); err != nil {
				t.Inconclusive("a connection manager does not start: %v", err)
			}
		}()
	}
	return c
}

// noPanic runs f and returns the message of its panic, or "".
func noPanic(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint(r)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

func jsonDecode(bz []byte, v interface{}) error { return json.Unmarshal(bz, v) }

func coreId(k ctypes.PubKey) peer.ID { return core.NewNode(k).PeerId }
