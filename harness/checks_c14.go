package main

import (
	"bufio"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/libp2p/go-libp2p/core/host"
	"github.com/libp2p/go-libp2p/core/network"
	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/libp2p/go-libp2p/core/protocol"

	"github.com/sisu-network/dheart/p2p"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
)

// C14: real connection managers exchange payloads over the loopback network. Every payload that was sent
// successfully is looked for at its receiver, byte for byte.

const maxPayload = 20000000

func init() {
	register(&Check{
		ID:   "C14",
		Rule: "a case is distinct by the size class, protocol and concurrency of payloads, by the way the bytes are split, or by the disturbance of the connection and its moment",
		Assumptions: []string{"libp2p over the loopback network; payloads that are on their way when a connection breaks or a peer stalls may be lost, but not altered or repeated",
			"after a break, sending has to work again within 40 s", "a send to a stalled peer has to return within 25 s"},
		Units: func(tier string, seed int64) []Unit {
			us := []Unit{{Name: "sizes-0", Run: func(t *T) { c14Sizes(t, false) }}, {Name: "sizes-1", Run: func(t *T) { c14Sizes(t, false) }}, {Name: "large", Run: func(t *T) { c14Sizes(t, true) }},
				{Name: "split", Run: c14Split}, {Name: "slow", Run: c14Slow}, {Name: "format", Run: c14Format},
				{Name: "reset", Run: c14Reset}, {Name: "restart", Run: c14Restart}, {Name: "listener", Run: c14Listener}, {Name: "busy", Run: c14Busy}, {Name: "stall", Run: c14Stall}}
			return us
		},
	})
}

// wire knows what was sent and what arrived.
type wire struct {
	t     *T
	mu    sync.Mutex
	ok    map[string]int // sent successfully while nothing was disturbed
	maybe map[string]int // sent, may be lost
	got   map[string]int
	desc  map[string]string
	seq   uint64
}

func newWire(t *T) *wire {
	return &wire{t: t, ok: map[string]int{}, maybe: map[string]int{}, got: map[string]int{}, desc: map[string]string{}}
}

func wireKey(to, from string, proto protocol.ID, data []byte) string {
	h := sha256.Sum256(data)
	return fmt.Sprintf("%s|%s|%s|%x", to, from, proto, h[:12])
}

// payload makes a payload of a size. Longer ones are unique.
func (w *wire) payload(rng *rand.Rand, n int) []byte {
	x := randBytes(rng, n)
	if n >= 12 {
		binary.BigEndian.PutUint64(x, atomic.AddUint64(&w.seq, 1))
	}
	return x
}

func (w *wire) sent(to, from string, proto protocol.ID, data []byte, sure bool) {
	k := wireKey(to, from, proto, data)
	w.mu.Lock()
	defer w.mu.Unlock()
	if sure {
		w.ok[k]++
	} else {
		w.maybe[k]++
	}
	w.desc[k] = fmt.Sprintf("%d bytes from %s to %s on %s", len(data), short8(from), short8(to), proto)
}

func short8(s string) string {
	if len(s) > 8 {
		return s[len(s)-8:]
	}
	return s
}

func (w *wire) receive(to, from string, proto protocol.ID, n int, key string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.got[key]++
	if w.desc[key] == "" {
		w.desc[key] = fmt.Sprintf("%d bytes from %s to %s on %s", n, short8(from), short8(to), proto)
	}
}

func (w *wire) missing() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	var res []string
	for k, n := range w.ok {
		if w.got[k] < n {
			res = append(res, w.desc[k])
		}
	}
	return res
}

// settle waits for all payloads and judges them.
func (w *wire) settle(d time.Duration) {
	if w.t.NumViol() >= 2 {
		d = time.Second // it has been found
	}
	w.t.WaitFor(d, func() bool { return len(w.missing()) == 0 })
	time.Sleep(20 * time.Millisecond)
	if m := w.missing(); len(m) > 0 {
		w.t.Live("C14", "lost", "%v: %d payloads that were sent do not arrive, among them %s", w.t.cur, len(m), m[0])
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for k, n := range w.got {
		if w.ok[k]+w.maybe[k] == 0 {
			w.t.Viol("C14", "altered", "%v: a payload arrives that was not sent like that: %s", w.t.cur, w.desc[k])
		} else if n > w.ok[k]+w.maybe[k] {
			w.t.Viol("C14", "repeated", "%v: a payload arrives %d times, sent %d times: %s", w.t.cur, n, w.ok[k]+w.maybe[k], w.desc[k])
		}
	}
	total := 0
	for _, n := range w.got {
		total += n
	}
	w.t.Count("payloads received", total)
	w.ok, w.maybe, w.got, w.desc = map[string]int{}, map[string]int{}, map[string]int{}, map[string]string{}
}

// wireNode is a connection manager whose received payloads go to the wire.
type wireNode struct {
	w    *wire
	priv ctypes.PrivKey
	id   peer.ID
	port int
	cm   p2p.ConnectionManager
}

type wireListener struct {
	n     *wireNode
	proto protocol.ID
}

func (l *wireListener) OnNetworkMessage(m *p2ptypes.P2PMessage) {
	l.n.w.receive(l.n.id.String(), m.FromPeerId, l.proto, len(m.Data), wireKey(l.n.id.String(), m.FromPeerId, l.proto, m.Data))
}

func newWireNode(w *wire, privs []ctypes.PrivKey, ports []int, i int) *wireNode {
	n := &wireNode{w: w, priv: privs[i], id: coreId(privs[i].PubKey()), port: ports[i]}
	n.cm = p2p.NewConnectionManager(p2ptypes.ConnectionsConfig{Host: "127.0.0.1", Port: ports[i], Rendezvous: "rendezvous", Peers: peersOf(privs, ports, i)})
	n.cm.AddListener(tssProto, &wireListener{n, tssProto})
	n.cm.AddListener(pingProto, &wireListener{n, pingProto})
	go n.cm.Start(n.priv.Bytes(), n.priv.Type())
	return n
}

func (n *wireNode) send(to peer.ID, proto protocol.ID, data []byte) error {
	c := append([]byte{}, data...)
	n.w.sent(to.String(), n.id.String(), proto, data, false)
	err := n.cm.WriteToStream(to, proto, c)
	if err == nil {
		// It has to arrive.
		k := wireKey(to.String(), n.id.String(), proto, data)
		n.w.mu.Lock()
		n.w.maybe[k]--
		n.w.ok[k]++
		n.w.mu.Unlock()
	}
	// The payload belongs to the caller again.
	for i := range c {
		c[i] = 0xEE
	}
	return err
}

// try sends something that may be lost.
func (n *wireNode) try(to peer.ID, proto protocol.ID, data []byte) error {
	n.w.sent(to.String(), n.id.String(), proto, data, false)
	return n.cm.WriteToStream(to, proto, data)
}

// connected waits until payloads pass between all nodes.
func (w *wire) connected(nodes []*wireNode) bool {
	for _, a := range nodes {
		for _, b := range nodes {
			if a == b {
				continue
			}
			a, b := a, b
			x := []byte("hello " + a.id.String() + b.id.String())
			if !w.t.WaitFor(60*time.Second, func() bool {
				if !a.cm.IsReady() || a.try(b.id, pingProto, x) != nil {
					time.Sleep(100 * time.Millisecond)
					return false
				}
				return true
			}) {
				w.t.Live("C14", "connect", "%s cannot send to %s within 60 s of their start", short8(a.id.String()), short8(b.id.String()))
				return false
			}
		}
	}
	w.settle(0)
	return true
}

func c14Keys(rng *rand.Rand, n int) []ctypes.PrivKey {
	var res []ctypes.PrivKey
	for i := 0; i < n; i++ {
		if rng.Intn(2) == 0 {
			res = append(res, randSecp(rng))
		} else {
			res = append(res, randEd(rng))
		}
	}
	return res
}

// c14Listener: payloads come before anybody listens to their protocol. Those that are sent afterwards arrive.
func c14Listener(t *T) {
	for k := 0; t.More(k, 4, 60); k++ {
		rng := t.Sub()
		w := newWire(t)
		privs := c14Keys(rng, 2)
		ports := freePorts(2)
		a := &wireNode{w: w, priv: privs[0], id: coreId(privs[0].PubKey()), port: ports[0]}
		a.cm = p2p.NewConnectionManager(p2ptypes.ConnectionsConfig{Host: "127.0.0.1", Port: ports[0], Rendezvous: "rendezvous", Peers: peersOf(privs, ports, 0)})
		go a.cm.Start(privs[0].Bytes(), privs[0].Type())
		b := newWireNode(w, privs, ports, 1)
		protos := []protocol.ID{tssProto, pingProto}
		rng.Shuffle(2, func(i, j int) { protos[i], protos[j] = protos[j], protos[i] })
		t.SetCase(fmt.Sprintf("payloads arrive before there is a listener for %s, then for %s", protos[0], protos[1]))
		early := 0
		for _, p := range protos {
			p := p
			if !t.WaitFor(60*time.Second, func() bool {
				if b.try(a.id, p, w.payload(rng, 20)) != nil {
					time.Sleep(50 * time.Millisecond)
					return false
				}
				return true
			}) {
				t.Live("C14", "connect", "%v: nothing can be sent within 60 s of the start", t.cur)
				return
			}
			for i := 0; i < rng.Intn(5); i++ {
				b.try(a.id, p, w.payload(rng, rng.Intn(5000)))
				early++
			}
		}
		t.Count("payloads without a listener", 2+early)
		time.Sleep(time.Duration(rng.Intn(200)) * time.Millisecond)
		for i, p := range protos {
			a.cm.AddListener(p, &wireListener{a, p})
			for j := 0; j < 6; j++ {
				if err := b.send(a.id, p, w.payload(rng, rng.Intn(5000))); err != nil {
					t.Live("C14", "no-send", "%v: nothing can be sent on a working connection: %v", t.cur, err)
				}
				if i == 0 {
					b.try(a.id, protos[1], w.payload(rng, 50))
				}
			}
			t.WaitFor(15*time.Second, func() bool { return len(w.missing()) == 0 })
		}
		w.settle(15 * time.Second)
		t.State("listener", protos[0], early)
		t.Eval(1)
	}
}

// c14Busy: a listener is busy with its first payloads for a while. All payloads that come meanwhile arrive.
func c14Busy(t *T) {
	for k := 0; t.More(k, 1, 8); k++ {
		rng := t.Sub()
		w := newWire(t)
		privs := c14Keys(rng, 3)
		ports := freePorts(3)
		var nodes []*wireNode
		gate := make(chan struct{})
		for i := 0; i < 3; i++ {
			if i > 0 {
				nodes = append(nodes, newWireNode(w, privs, ports, i))
				continue
			}
			a := &wireNode{w: w, priv: privs[0], id: coreId(privs[0].PubKey()), port: ports[0]}
			a.cm = p2p.NewConnectionManager(p2ptypes.ConnectionsConfig{Host: "127.0.0.1", Port: ports[0], Rendezvous: "rendezvous", Peers: peersOf(privs, ports, 0)})
			for _, p := range []protocol.ID{tssProto, pingProto} {
				a.cm.AddListener(p, &busyListener{wireListener{a, p}, gate})
			}
			go a.cm.Start(privs[0].Bytes(), privs[0].Type())
			nodes = append(nodes, a)
		}
		busy := time.Duration(7+rng.Intn(4)) * time.Second
		t.SetCase(fmt.Sprintf("the listener of a node is busy for %v", busy))
		for _, b := range nodes[1:] {
			b := b
			if !t.WaitFor(60*time.Second, func() bool { return b.try(nodes[0].id, pingProto, w.payload(rng, 30)) == nil }) {
				t.Live("C14", "connect", "%v: nothing can be sent within 60 s of the start", t.cur)
				close(gate)
				return
			}
		}
		end := time.After(busy)
		sent := 0
		for i := 0; i < t.Pick(150, 1500); i++ {
			for _, b := range nodes[1:] {
				p := []protocol.ID{tssProto, pingProto}[rng.Intn(2)]
				if b.send(nodes[0].id, p, w.payload(rng, 12+rng.Intn(300))) == nil {
					sent++
				}
			}
		}
		// The busy node still sends.
		for _, b := range nodes[1:] {
			nodes[0].try(b.id, tssProto, w.payload(rng, 100))
		}
		<-end
		close(gate)
		t.Count("payloads sent to a busy listener", sent)
		if sent == 0 {
			t.Live("C14", "no-send", "%v: nothing can be sent on a working connection", t.cur)
		}
		w.settle(30 * time.Second)
		t.State("busy", busy, sent)
		t.Eval(1)
	}
}

// busyListener works on what it gets once its gate is open.
type busyListener struct {
	wireListener
	gate chan struct{}
}

func (l *busyListener) OnNetworkMessage(m *p2ptypes.P2PMessage) {
	<-l.gate
	l.wireListener.OnNetworkMessage(m)
}

// c14Sizes: three nodes send payloads of all sizes, also too large ones, one after another and at once.
func c14Sizes(t *T, large bool) {
	rng := t.Sub()
	w := newWire(t)
	privs := c14Keys(rng, 3)
	ports := freePorts(3)
	var nodes []*wireNode
	for i := range privs {
		nodes = append(nodes, newWireNode(w, privs, ports, i))
	}
	if !w.connected(nodes) {
		return
	}
	size := func(rng *rand.Rand) int {
		switch rng.Intn(8) {
		case 0:
			return rng.Intn(6)
		case 1:
			return []int{4091, 4092, 4093, 4095, 4096, 4097, 8192, 65535, 65536, 65537}[rng.Intn(10)]
		case 2:
			return 250000 + rng.Intn(20000)
		case 3:
			return rng.Intn(1500000)
		default:
			return rng.Intn(3000)
		}
	}
	if large {
		size = func(rng *rand.Rand) int {
			switch rng.Intn(6) {
			case 0:
				return maxPayload
			case 1:
				return maxPayload - rng.Intn(5)
			case 2:
				return maxPayload + 1 + rng.Intn(4)
			case 3:
				return maxPayload + rng.Intn(10000000)
			case 4:
				return 1 << 24
			default:
				return rng.Intn(5000)
			}
		}
	}
	for k := 0; t.More(k, t.Pick(14, 200), 200); k++ {
		senders := 1 + rng.Intn(6)
		each := 1 + rng.Intn(12)
		if large {
			senders, each = 1+rng.Intn(3), 1+rng.Intn(3)
		}
		one := rng.Intn(2) == 0 // all to one peer
		t.SetCase(fmt.Sprintf("%d senders, %d payloads each, to one peer: %v, large: %v", senders, each, one, large))
		var wg sync.WaitGroup
		target := rng.Intn(3)
		for s := 0; s < senders; s++ {
			r := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for e := 0; e < each; e++ {
					to := target
					if !one {
						to = r.Intn(3)
					}
					from := (to + 1 + r.Intn(2)) % 3
					proto := []protocol.ID{tssProto, pingProto}[r.Intn(2)]
					n := size(r)
					x := w.payload(r, n)
					err := nodes[from].send(nodes[to].id, proto, x)
					if n > maxPayload {
						if err == nil {
							t.Viol("C14", "too-large-accepted", "%v: a payload of %d bytes is sent", t.cur, n)
						}
						t.Count("too large payloads refused", 1)
					} else if err != nil {
						t.Live("C14", "send-error", "%v: a payload of %d bytes cannot be sent: %v", t.cur, n, err)
					}
					t.Count("payloads sent", 1)
					t.Eval(1)
					t.State("size", sizeClass(n), proto, senders, one)
				}
			}()
		}
		wg.Wait()
		w.settle(30 * time.Second)
		t.Sample(t.cur)
	}
	// A peer that is not known.
	stranger := coreId(randSecp(rng).PubKey())
	if nodes[0].try(stranger, tssProto, []byte("x")) == nil {
		t.Viol("C14", "unknown-peer", "a payload to an unknown peer is sent without an error")
	}
}

func sizeClass(n int) int {
	c := 0
	for x := 1; x < n; x *= 4 {
		c++
	}
	if n == maxPayload {
		return 100
	}
	if n > maxPayload {
		return 101
	}
	return c
}

// rawPeer is a peer of a node that handles its streams itself.
type rawPeer struct {
	h    host.Host
	id   peer.ID
	priv ctypes.PrivKey
	port int
}

func frame(x []byte) []byte {
	b := make([]byte, 4, 4+len(x))
	binary.LittleEndian.PutUint32(b, uint32(len(x)))
	return append(b, x...)
}

// rawPair starts one node and a raw peer that is connected to it.
func rawPair(t *T, w *wire, rng *rand.Rand) (*wireNode, *rawPeer, bool) {
	privs := c14Keys(rng, 2)
	ports := freePorts(2)
	p := &rawPeer{h: rawHost(privs[1], ports[1]), id: coreId(privs[1].PubKey()), priv: privs[1], port: ports[1]}
	n := newWireNode(w, privs, ports, 0)
	ok := t.WaitFor(60*time.Second, func() bool { return n.cm.IsReady() })
	if ok {
		ok = t.WaitFor(30*time.Second, func() bool { _, err := dial(p.h, privs[0], ports[0]); return err == nil })
	}
	if !ok {
		t.Inconclusive("the node and the raw peer do not connect")
	}
	return n, p, ok
}

func (p *rawPeer) open(to peer.ID, proto protocol.ID) (network.Stream, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 15*time.Second)
	defer cancel()
	return p.h.NewStream(ctx, to, proto)
}

// c14Split: a peer writes frames in pieces of all sizes on several streams.
func c14Split(t *T) {
	rng := t.Sub()
	w := newWire(t)
	n, p, ok := rawPair(t, w, rng)
	if !ok {
		return
	}
	for k := 0; t.More(k, 160, 3000); k++ {
		way := k % 6
		t.SetCase(fmt.Sprintf("way %d to split frames", way))
		streams := 1 + rng.Intn(3)
		var wg sync.WaitGroup
		var smu sync.Mutex
		var open []network.Stream
		for s := 0; s < streams; s++ {
			r := rand.New(rand.NewSource(rng.Int63()))
			proto := []protocol.ID{tssProto, pingProto}[r.Intn(2)]
			wg.Add(1)
			go func() {
				defer wg.Done()
				st, err := p.open(n.id, proto)
				if err != nil {
					t.Live("C14", "no-stream", "%v: a stream cannot be opened: %v", t.cur, err)
					return
				}
				smu.Lock()
				open = append(open, st)
				smu.Unlock()
				write := func(b []byte) {
					if _, err := st.Write(b); err != nil {
						t.Live("C14", "stream-broken", "%v: the node breaks a stream on which nothing is wrong: %v", t.cur, err)
					}
				}
				var all []byte
				var pieces []int
				for f := 0; f < 1+r.Intn(12); f++ {
					x := w.payload(r, []int{0, 1, 3, 20, 300, 5000, 70000}[r.Intn(7)])
					w.sent(n.id.String(), p.id.String(), proto, x, true)
					all = append(all, frame(x)...)
					pieces = append(pieces, len(frame(x)))
					t.Count("frames written", 1)
				}
				pause := func() {
					if r.Intn(4) == 0 {
						time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
					}
				}
				switch way {
				case 0: // all at once
					write(all)
				case 1: // frame by frame
					for _, l := range pieces {
						write(all[:l])
						all = all[l:]
						pause()
					}
				case 2: // byte by byte at the start
					for i := 0; i < 300 && len(all) > 0; i++ {
						write(all[:1])
						all = all[1:]
					}
					write(all)
				case 3: // the head is split
					for _, l := range pieces {
						h := 1 + r.Intn(3)
						write(all[:h])
						pause()
						write(all[h:l])
						all = all[l:]
					}
				case 4: // pieces of any size
					for len(all) > 0 {
						l := min(len(all), 1+r.Intn(4000))
						write(all[:l])
						all = all[l:]
						pause()
					}
				case 5: // the end of a frame comes with the start of the next one
					off := 0
					for _, l := range pieces[:len(pieces)-1] {
						cut := l + 2
						if cut > len(all)-off {
							cut = len(all) - off
						}
						write(all[off : off+cut])
						off += cut
						pieces[0] = 0
						pause()
					}
					write(all[off:])
				}
				if r.Intn(2) == 0 {
					st.CloseWrite()
				}
				t.State("split", way, proto, len(pieces))
				t.Eval(1)
			}()
		}
		bad := rng.Intn(3) == 0
		if bad {
			// Meanwhile, another stream announces a payload that is too large.
			st, err := p.open(n.id, tssProto)
			if err == nil {
				h := make([]byte, 4)
				binary.LittleEndian.PutUint32(h, uint32(maxPayload+1+rng.Intn(1000)))
				st.Write(h)
				st.Write(randBytes(rng, 500))
				smu.Lock()
				open = append(open, st)
				smu.Unlock()
				t.Count("too large payloads announced", 1)
			}
		}
		wg.Wait()
		w.settle(20 * time.Second)
		for _, st := range open {
			if rng.Intn(2) == 0 {
				st.Reset()
			} else {
				st.Close()
			}
		}
		t.Count("streams opened and closed by the peer", len(open))
	}
}

// c14Slow: the bytes of a payload arrive with long pauses.
func c14Slow(t *T) {
	rng := t.Sub()
	w := newWire(t)
	n, p, ok := rawPair(t, w, rng)
	if !ok {
		return
	}
	pauses := []time.Duration{2, 6, 12, 17}
	if t.Thorough() {
		pauses = append(pauses, 35, 65, 130)
	}
	t.SetCase("payloads whose bytes arrive with long pauses")
	var wg sync.WaitGroup
	for i := 0; i < 3*len(pauses); i++ {
		i := i
		r := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			st, err := p.open(n.id, tssProto)
			if err != nil {
				t.Live("C14", "no-stream", "a stream cannot be opened: %v", err)
				return
			}
			x := w.payload(r, 20+r.Intn(5000))
			y := w.payload(r, 20+r.Intn(5000))
			f := frame(x)
			cut := []int{4, 2, 4 + len(x)/2}[i%3]
			st.Write(f[:cut])
			time.Sleep(pauses[i/3] * time.Second)
			w.sent(n.id.String(), p.id.String(), tssProto, x, true)
			w.sent(n.id.String(), p.id.String(), tssProto, y, true)
			st.Write(f[cut:])
			st.Write(frame(y))
			t.Eval(1)
			t.Count("slow payloads", 1)
			t.State("slow", pauses[i/3], i%3)
		}()
	}
	wg.Wait()
	w.settle(15 * time.Second)
}

// c14Format: what a node writes can be read by a peer that knows the format only.
func c14Format(t *T) {
	rng := t.Sub()
	w := newWire(t)
	n, p, ok := rawPair(t, w, rng)
	if !ok {
		return
	}
	for _, proto := range []protocol.ID{tssProto, pingProto} {
		proto := proto
		p.h.SetStreamHandler(proto, func(st network.Stream) {
			for {
				h := make([]byte, 4)
				if _, err := io.ReadFull(st, h); err != nil {
					return
				}
				l := binary.LittleEndian.Uint32(h)
				if l > maxPayload {
					t.Viol("C14", "format", "%v: the node announces a payload of %d bytes", t.cur, l)
					st.Reset()
					return
				}
				x := make([]byte, l)
				if _, err := io.ReadFull(st, x); err != nil {
					return
				}
				from := st.Conn().RemotePeer().String()
				w.receive(p.id.String(), from, proto, len(x), wireKey(p.id.String(), from, proto, x))
			}
		})
	}
	for k := 0; t.More(k, 40, 1000); k++ {
		t.SetCase("payloads to a peer that knows the format only")
		var wg sync.WaitGroup
		for s := 0; s < 1+rng.Intn(4); s++ {
			r := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 1+r.Intn(5); j++ {
					l := []int{0, 1, 100, 4096, 100000, 1000000}[r.Intn(6)]
					proto := []protocol.ID{tssProto, pingProto}[r.Intn(2)]
					if r.Intn(8) == 0 {
						if n.try(p.id, proto, make([]byte, maxPayload+1+r.Intn(100))) == nil {
							t.Viol("C14", "too-large-accepted", "%v: a payload that is too large is sent", t.cur)
						}
						t.Count("too large payloads refused", 1)
					}
					if err := n.send(p.id, proto, w.payload(r, l)); err != nil {
						t.Live("C14", "send-error", "a payload of %d bytes cannot be sent: %v", l, err)
					}
					t.Eval(1)
					t.State("format", l, proto)
				}
			}()
		}
		wg.Wait()
		w.settle(20 * time.Second)
	}
}

// c14Reset: the peer resets streams and connections at any point.
func c14Reset(t *T) {
	rng := t.Sub()
	w := newWire(t)
	n, p, ok := rawPair(t, w, rng)
	if !ok {
		return
	}
	var mu sync.Mutex
	var streams []network.Stream
	mode := "" // what the peer does with a stream
	handler := func(proto protocol.ID) func(st network.Stream) {
		return func(st network.Stream) {
			mu.Lock()
			streams = append(streams, st)
			m := mode
			cut := 0
			if m == "reset-inside" {
				cut = rng.Intn(3000)
			}
			mu.Unlock()
			if m == "reset-inside" {
				io.ReadFull(st, make([]byte, cut))
				st.Reset()
				return
			}
			for {
				h := make([]byte, 4)
				if _, err := io.ReadFull(st, h); err != nil {
					return
				}
				x := make([]byte, min(int(binary.LittleEndian.Uint32(h)), maxPayload))
				if _, err := io.ReadFull(st, x); err != nil {
					return
				}
				from := st.Conn().RemotePeer().String()
				w.receive(p.id.String(), from, proto, len(x), wireKey(p.id.String(), from, proto, x))
			}
		}
	}
	for _, proto := range []protocol.ID{tssProto, pingProto} {
		p.h.SetStreamHandler(proto, handler(proto))
	}
	ways := []string{"streams", "connection", "reset-inside", "both"}
	for k := 0; t.More(k, 25, 1000); k++ {
		way := ways[k%len(ways)]
		proto := []protocol.ID{tssProto, pingProto}[rng.Intn(2)]
		t.SetCase(fmt.Sprintf("the peer breaks: %s", way))
		mu.Lock()
		if way == "reset-inside" {
			mode = way
			for _, s := range streams {
				s.Reset()
			}
			streams = nil
		}
		mu.Unlock()
		// Payloads in flight while it breaks.
		done := make(chan bool)
		go func() {
			defer close(done)
			r := rand.New(rand.NewSource(int64(k)))
			for j := 0; j < 1+r.Intn(4); j++ {
				n.try(p.id, proto, w.payload(r, []int{30, 5000, 400000}[r.Intn(3)]))
			}
		}()
		time.Sleep(time.Duration(rng.Intn(5000)) * time.Microsecond)
		mu.Lock()
		for _, s := range streams {
			switch way {
			case "streams", "both":
				s.Reset()
			}
		}
		streams = nil
		mu.Unlock()
		if way == "connection" || way == "both" {
			p.h.Network().ClosePeer(n.id)
		}
		if !t.Within(40*time.Second, func() { <-done }) {
			t.Live("C14", "blocked", "%v: sending is blocked for 40 s", t.cur)
			return
		}
		time.Sleep(time.Duration(rng.Intn(20)) * time.Millisecond)
		mu.Lock()
		mode = ""
		for _, s := range streams {
			if way == "reset-inside" {
				s.Reset()
			}
		}
		mu.Unlock()
		w.recovers(n, p.id, rng, "break:"+way)
		t.State("reset", way, proto)
		t.Eval(1)
	}
}

// recovers checks that sending works again after a disturbance: on both protocols, after some attempts.
func (w *wire) recovers(n *wireNode, to peer.ID, rng *rand.Rand, key string) {
	for _, proto := range []protocol.ID{tssProto, pingProto} {
		good := 0
		attempts := 0
		start := time.Now()
		limit := 40 * time.Second
		if w.t.NumViol() >= 2 {
			limit = 4 * time.Second // it has been found
		}
		ok := w.t.WaitFor(limit, func() bool {
			attempts++
			x := w.payload(rng, 20+rng.Intn(2000))
			if n.try(to, proto, x) != nil {
				good = 0
				time.Sleep(100 * time.Millisecond)
				return attempts >= 400
			}
			k := wireKey(to.String(), n.id.String(), proto, x)
			if w.t.WaitFor(2*time.Second, func() bool { w.mu.Lock(); defer w.mu.Unlock(); return w.got[k] > 0 }) {
				good++
			} else {
				good = 0
			}
			return good >= 2
		})
		if !ok || good < 2 {
			w.t.Live("C14", "no-recovery:"+key, "%v: after %d attempts in %v, nothing that is sent on %s arrives", w.t.cur, attempts, time.Since(start).Round(time.Second), proto)
		}
		w.t.Count("attempts until sending works again", attempts-1)
		w.t.Count("recoveries", 1)
		// From now on, everything arrives.
		for j := 0; j < 3; j++ {
			if err := n.send(to, proto, w.payload(rng, rng.Intn(30000))); err != nil {
				w.t.Live("C14", "error-after-recovery:"+key, "%v: %v", w.t.cur, err)
			}
		}
	}
	w.settle(20 * time.Second)
}

// ---- nodes in processes of their own

type netChildArgs struct {
	Type, Key string
	Port      int
	Peers     []*p2ptypes.Peer
}

// runNetChild is a connection manager that prints what it receives.
func runNetChild() {
	in := bufio.NewReader(os.Stdin)
	line, err := in.ReadString('\n')
	must(err)
	a := netChildArgs{}
	must(json.Unmarshal([]byte(line), &a))
	key, err := hex.DecodeString(a.Key)
	must(err)
	cm := p2p.NewConnectionManager(p2ptypes.ConnectionsConfig{Host: "127.0.0.1", Port: a.Port, Rendezvous: "rendezvous", Peers: a.Peers})
	out := &childOut{}
	cm.AddListener(tssProto, &childListener{out, tssProto})
	cm.AddListener(pingProto, &childListener{out, pingProto})
	go cm.Start(key, a.Type)
	go func() {
		for !cm.IsReady() {
			time.Sleep(5 * time.Millisecond)
		}
		out.say("READY")
	}()
	for {
		if line, err = in.ReadString('\n'); err != nil {
			os.Exit(0)
		}
		var to, proto, data string
		fmt.Sscan(line, &to, &proto, &data)
		id, err := peer.Decode(to)
		must(err)
		bz, err := hex.DecodeString(data)
		must(err)
		go func() {
			err := cm.WriteToStream(id, protocol.ID(proto), bz)
			out.say(fmt.Sprintf("SENT %s %v", data, err == nil))
		}()
	}
}

type childOut struct{ mu sync.Mutex }

func (o *childOut) say(s string) {
	o.mu.Lock()
	defer o.mu.Unlock()
	fmt.Printf("\n@@ %s\n", s)
}

type childListener struct {
	o     *childOut
	proto protocol.ID
}

func (l *childListener) OnNetworkMessage(m *p2ptypes.P2PMessage) {
	h := sha256.Sum256(m.Data)
	l.o.say(fmt.Sprintf("GOT %s %s %d %x", m.FromPeerId, l.proto, len(m.Data), h[:12]))
}

// netProc is such a process.
type netProc struct {
	w     *wire
	cmd   *exec.Cmd
	in    io.WriteCloser
	id    peer.ID
	ready int32
	gone  chan bool
}

func startProc(w *wire, privs []ctypes.PrivKey, ports []int, i int) *netProc {
	p := &netProc{w: w, id: coreId(privs[i].PubKey()), gone: make(chan bool)}
	self, err := os.Executable()
	must(err)
	p.cmd = exec.Command(self, "netchild")
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	p.in, err = p.cmd.StdinPipe()
	must(err)
	out, err := p.cmd.StdoutPipe()
	must(err)
	must(p.cmd.Start())
	a, err := json.Marshal(netChildArgs{Type: privs[i].Type(), Key: hex.EncodeToString(privs[i].Bytes()), Port: ports[i], Peers: peersOf(privs, ports, i)})
	must(err)
	fmt.Fprintf(p.in, "%s\n", a)
	go func() {
		r := bufio.NewScanner(out)
		r.Buffer(make([]byte, 1<<20), 1<<26)
		for r.Scan() {
			f := strings.Fields(r.Text())
			if len(f) < 2 || f[0] != "@@" {
				continue
			}
			switch f[1] {
			case "READY":
				atomic.StoreInt32(&p.ready, 1)
			case "GOT":
				if len(f) == 6 {
					k := fmt.Sprintf("%s|%s|%s|%s", p.id.String(), f[2], f[3], f[5])
					l := 0
					fmt.Sscan(f[4], &l)
					w.receive(p.id.String(), f[2], protocol.ID(f[3]), l, k)
				}
			}
		}
		p.cmd.Wait()
		close(p.gone)
	}()
	return p
}

func (p *netProc) send(to peer.ID, proto protocol.ID, data []byte, sure bool) {
	p.w.sent(to.String(), p.id.String(), proto, data, sure)
	fmt.Fprintf(p.in, "%s %s %x\n", to.String(), proto, data)
}

func (p *netProc) kill() {
	p.cmd.Process.Signal(syscall.SIGKILL)
	<-p.gone
}

// twoAndProc starts two nodes in this process and one in its own.
func twoAndProc(t *T, w *wire, rng *rand.Rand) (nodes []*wireNode, p *netProc, restart func() *netProc, ok bool) {
	privs := c14Keys(rng, 3)
	ports := freePorts(3)
	nodes = []*wireNode{newWireNode(w, privs, ports, 0), newWireNode(w, privs, ports, 1)}
	p = startProc(w, privs, ports, 2)
	restart = func() *netProc { return startProc(w, privs, ports, 2) }
	if !t.WaitFor(60*time.Second, func() bool { return atomic.LoadInt32(&p.ready) == 1 }) || !w.connected(nodes) {
		t.Inconclusive("the nodes do not connect")
		return nodes, p, restart, false
	}
	for _, n := range nodes {
		w.recovers(n, p.id, rng, "start")
	}
	return nodes, p, restart, true
}

// c14Restart: a peer is killed at any moment and started again.
func c14Restart(t *T) {
	rng := t.Sub()
	w := newWire(t)
	nodes, p, restart, ok := twoAndProc(t, w, rng)
	defer func() { p.kill() }()
	if !ok {
		return
	}
	pid := p.id
	for k := 0; t.More(k, 4, 60); k++ {
		t.SetCase("a peer is killed while payloads are sent to it, and started again")
		var stop int32
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			i := i
			r := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for atomic.LoadInt32(&stop) == 0 {
					nodes[i].try(pid, []protocol.ID{tssProto, pingProto}[r.Intn(2)], w.payload(r, 12+r.Intn(100000)))
					// The others are not disturbed.
					start := time.Now()
					if err := nodes[i].send(nodes[1-i].id, tssProto, w.payload(r, 12+r.Intn(2000))); err != nil {
						t.Live("C14", "others-disturbed", "%v: sending to another peer fails: %v", t.cur, err)
					} else if d := time.Since(start); d > 5*time.Second {
						t.Live("C14", "others-delayed", "%v: sending to another peer takes %v", t.cur, d)
					}
					time.Sleep(time.Millisecond)
				}
			}()
		}
		time.Sleep(time.Duration(20+rng.Intn(60)) * time.Millisecond)
		p.kill()
		time.Sleep(time.Duration(rng.Intn(1500)) * time.Millisecond)
		p = restart()
		atomic.StoreInt32(&stop, 1)
		if !t.Within(60*time.Second, wg.Wait) {
			t.Live("C14", "blocked", "%v: sending is blocked for 60 s", t.cur)
			return
		}
		t.Count("restarts", 1)
		for _, n := range nodes {
			w.recovers(n, p.id, rng, "restart")
		}
		// The restarted peer sends, too.
		if t.WaitFor(40*time.Second, func() bool { return atomic.LoadInt32(&p.ready) == 1 }) {
			for j := 0; j < 3; j++ {
				p.send(nodes[j%2].id, tssProto, w.payload(rng, 20+rng.Intn(1000)), j > 0)
			}
			w.settle(20 * time.Second)
		} else {
			t.Live("C14", "restarted-peer", "%v: the restarted peer is not ready after 40 s", t.cur)
		}
		t.State("restart", k)
		t.Eval(1)
	}
}

// c14Stall: a peer does not read for longer than the time limit of a write.
func c14Stall(t *T) {
	rng := t.Sub()
	w := newWire(t)
	nodes, p, _, ok := twoAndProc(t, w, rng)
	defer func() { p.cmd.Process.Signal(syscall.SIGCONT); p.kill() }()
	if !ok {
		return
	}
	for k := 0; t.More(k, 1, 12); k++ {
		hold := time.Duration(29+rng.Intn(3)) * time.Second
		t.SetCase(fmt.Sprintf("a peer stalls for %v while payloads are sent to it", hold))
		p.cmd.Process.Signal(syscall.SIGSTOP)
		stalled := time.Now()
		var wg sync.WaitGroup
		longest := int64(0)
		// One sender to the stalled peer, others to the other one.
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; time.Since(stalled) < hold; j++ {
				start := time.Now()
				err := nodes[0].try(p.id, tssProto, w.payload(rand.New(rand.NewSource(int64(j))), 3000000))
				if d := int64(time.Since(start)); d > atomic.LoadInt64(&longest) {
					atomic.StoreInt64(&longest, d)
				}
				t.Count("payloads to the stalled peer", 1)
				t.Count("payloads to the stalled peer: errors", btoi(err != nil))
			}
		}()
		r := rand.New(rand.NewSource(rng.Int63()))
		for time.Since(stalled) < hold {
			i := r.Intn(2)
			start := time.Now()
			if err := nodes[i].send(nodes[1-i].id, []protocol.ID{tssProto, pingProto}[r.Intn(2)], w.payload(r, 12+r.Intn(20000))); err != nil {
				t.Live("C14", "others-disturbed", "%v: sending to another peer fails: %v", t.cur, err)
			} else if d := time.Since(start); d > 5*time.Second {
				t.Live("C14", "others-delayed", "%v: sending to another peer takes %v", t.cur, d)
			}
			time.Sleep(10 * time.Millisecond)
		}
		p.cmd.Process.Signal(syscall.SIGCONT)
		if !t.Within(60*time.Second, wg.Wait) {
			t.Live("C14", "blocked", "%v: sending is blocked", t.cur)
			return
		}
		if l := time.Duration(longest); l > 25*time.Second {
			t.Live("C14", "blocked", "%v: sending to the stalled peer takes %v", t.cur, l)
		}
		for _, n := range nodes {
			w.recovers(n, p.id, rng, "stall")
		}
		t.Count("stalls", 1)
		t.State("stall", k)
		t.Eval(1)
	}
}
