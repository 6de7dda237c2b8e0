package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/ethereum/go-ethereum/rpc"
	"github.com/sisu-network/dheart/core/components"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/db"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/utils"
	"github.com/sisu-network/dheart/worker"
	"github.com/sisu-network/tss-lib/tss"
)

func init() {
	register(&Check{
		ID:          "C26",
		Rule:        "a case is distinct by group size, the nodes that are killed, the moment at which they are killed and what follows the restart",
		Assumptions: []string{"the whole program in a process of its own that is killed with SIGKILL, with a configuration file and the default settings; the database is a server of the harness that speaks the protocol of MySQL and outlives the node", "one key generation per key type is stored"},
		Units: func(tier string, seed int64) []Unit {
			us := []Unit{{Name: "preparams", Run: c26Preparams, Timeout: 600 * time.Second}, {Name: "presigns", Run: c26Presigns}}
			for i := 0; i < 6; i++ {
				i := i
				us = append(us, Unit{Name: fmt.Sprintf("restarts-%d", i), Timeout: 500 * time.Second, Run: func(t *T) {
					for k := 0; t.More(k, 1, 12); k++ {
						c26Restarts(t, i+6*k)
					}
				}})
			}
			return us
		},
	})
}

// tailBuf keeps the end of what is written.
type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (x *tailBuf) Write(b []byte) (int, error) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.b = append(x.b, b...)
	if len(x.b) > 400000 {
		x.b = append([]byte{}, x.b[len(x.b)-200000:]...)
	}
	return len(b), nil
}

func (x *tailBuf) String() string {
	x.mu.Lock()
	defer x.mu.Unlock()
	return string(x.b)
}

// program is the whole node in a process of its own, with its database and its Sisu server.
type program struct {
	t       *T
	idx     int
	priv    ctypes.PrivKey
	dir     string
	sim     *mysqlSim
	sisu    *progSisu
	hs      *http.Server
	apiPort int
	peers   []*p2ptypes.Peer
	p2pPort int
	sisuUrl string
	short   bool
	starts  int

	cmd    *exec.Cmd
	in     interface{ Close() error }
	out    *tailBuf
	exited chan bool
	rpc    *rpc.Client
}

// progSisu is the Sisu server. onGen is called before a result of a key generation is acknowledged.
type progSisu struct {
	rec   *recSisu
	mu    sync.Mutex
	onGen func(r *htypes.KeygenResult)
}

func (s *progSisu) Ping(source string) {}

func (s *progSisu) KeygenResult(r *htypes.KeygenResult) error {
	err := s.rec.PostKeygenResult(r)
	s.mu.Lock()
	f := s.onGen
	s.mu.Unlock()
	if f != nil {
		f(r)
	}
	return err
}

func (s *progSisu) KeysignResult(r *htypes.KeysignResult) error { return s.rec.PostKeysignResult(r) }

func (s *progSisu) setOnGen(f func(r *htypes.KeygenResult)) {
	s.mu.Lock()
	s.onGen = f
	s.mu.Unlock()
}

func newProgram(t *T, priv ctypes.PrivKey, idx, p2pPort, apiPort int, peers []*p2ptypes.Peer) *program {
	p := &program{t: t, idx: idx, priv: priv, sim: newMysqlSim(), sisu: &progSisu{rec: &recSisu{}}, p2pPort: p2pPort, apiPort: apiPort, peers: peers, short: true}
	srv := rpc.NewServer()
	must(srv.RegisterName("tss", p.sisu))
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	p.hs = &http.Server{Handler: srv}
	go p.hs.Serve(l)
	p.sisuUrl = "http://" + l.Addr().String()
	p.dir, err = os.MkdirTemp("", "dheart")
	must(err)
	return p
}

// dbConfig is what the node has in its configuration.
func (p *program) dbConfig() config.DbConfig {
	c := p.sim.config()
	c.Schema = fmt.Sprintf("dheart%d", p.idx)
	return c
}

func (p *program) db() db.Database {
	c := p.dbConfig()
	d := db.NewDatabase(&c)
	must(d.Init())
	return d
}

func (p *program) spawn() {
	home := filepath.Join(p.dir, "home")
	must(os.MkdirAll(home, 0o755))
	must(os.WriteFile(filepath.Join(p.dir, ".env"), []byte(fmt.Sprintf("HOME_DIR=%s\nAES_KEY_HEX=%x\n", home, theAesKey)), 0o644))
	c := p.dbConfig()
	toml := fmt.Sprintf("use-on-memory = false\nshortcut-preparams = %v\nsisu-server-url = %q\nport = %d\n[db]\nhost = %q\nport = %d\nusername = %q\npassword = %q\nschema = %q\n[connection]\nhost = \"127.0.0.1\"\nport = %d\nrendezvous = \"rendezvous\"\n",
		p.short, p.sisuUrl, p.apiPort, c.Host, c.Port, c.Username, c.Password, c.Schema, p.p2pPort)
	for _, x := range p.peers {
		toml += fmt.Sprintf("[[connection.peers]]\naddress = %q\npubkey = %q\npubkey_type = %q\n", x.Address, x.PubKey, x.PubKeyType)
	}
	must(os.WriteFile(filepath.Join(home, "dheart.toml"), []byte(toml), 0o644))
	self, err := os.Executable()
	must(err)
	p.cmd = exec.Command(self, "nodechild")
	p.cmd.Dir = p.dir
	p.cmd.Env = append(os.Environ(), "HOME_DIR="+home, fmt.Sprintf("AES_KEY_HEX=%x", theAesKey))
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	p.in, err = p.cmd.StdinPipe()
	must(err)
	p.out = &tailBuf{}
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
	must(p.cmd.Start())
	p.exited = make(chan bool)
	go func(cmd *exec.Cmd, ch chan bool) { cmd.Wait(); close(ch) }(p.cmd, p.exited)
}

// answers waits until the node answers to its client.
func (p *program) answers(d time.Duration) bool {
	return p.t.WaitFor(d, func() bool {
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		defer cancel()
		c, err := rpc.DialContext(ctx, fmt.Sprintf("http://127.0.0.1:%d", p.apiPort))
		if err != nil {
			return false
		}
		var r interface{}
		if c.CallContext(ctx, &r, "tss_ping", "sisu") != nil {
			c.Close()
			return false
		}
		p.rpc = c
		return true
	})
}

func (p *program) call(method string, args ...interface{}) error {
	var r interface{}
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	return p.rpc.CallContext(ctx, &r, "tss_"+method, args...)
}

// up starts the node and makes it ready.
func (p *program) up() bool {
	p.spawn()
	if !p.answers(30 * time.Second) {
		if p.alive() {
			p.t.Live("C26", "no-answer", "%v: node %d does not answer after its start: %s", p.t.cur, p.idx, cut(p.out.String(), 200))
		} else {
			p.t.Live("C26", "start-refused", "%v: node %d ends when it is started: %s", p.t.cur, p.idx, cut(p.out.String(), 200))
		}
		return false
	}
	key := func() bool {
		if err := p.call("setPrivKey", encKey(p.priv.Bytes(), theAesKey), p.priv.Type()); err != nil {
			if strings.Contains(err.Error(), "address already in use") {
				p.t.Inconclusive("%v: another process uses the port of node %d", p.t.cur, p.idx)
				return false
			}
			p.t.Live("C26", "key-refused", "%v: node %d refuses its private key: %v", p.t.cur, p.idx, err)
			return false
		}
		return true
	}
	ready := func() bool {
		if err := p.call("setSisuReady", true); err != nil {
			p.t.Live("C26", "ready-refused", "%v: node %d cannot be told that Sisu is ready: %v", p.t.cur, p.idx, err)
			return false
		}
		return true
	}
	p.starts++
	if (p.starts+p.idx)%2 == 0 {
		key, ready = ready, key
	}
	if !key() || !ready() {
		return false
	}
	p.t.Count("starts of a node", 1)
	return true
}

func (p *program) alive() bool {
	select {
	case <-p.exited:
		return false
	default:
		return true
	}
}

func (p *program) kill() {
	p.cmd.Process.Kill()
	<-p.exited
	p.in.Close()
}

func (p *program) close() {
	p.kill()
	p.hs.Close()
	p.sim.Close()
	os.RemoveAll(p.dir)
}

// lowPorts returns free ports that the system does not use for outgoing connections.
func lowPorts(rng *rand.Rand, n int) []int {
	var res []int
	for len(res) < n {
		port := 11000 + rng.Intn(19000)
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err != nil {
			continue
		}
		l.Close()
		for _, x := range res {
			if x == port {
				port = 0
			}
		}
		if port > 0 {
			res = append(res, port)
		}
	}
	return res
}

// c26Preparams: the pre-parameters that are stored are not replaced.
func c26Preparams(t *T) {
	for k := 0; t.More(k, 3, 20); k++ {
		rng := t.Sub()
		p := newProgram(t, randSecp(rng), 0, freePorts(1)[0], freePorts(1)[0], nil)
		p.short = false
		pre := worker.LoadEcPreparams(rng.Intn(10))
		d := p.db()
		must(d.SavePreparams(pre))
		want := toJ(pre)
		same := func(what string) {
			got, err := d.LoadPreparams()
			if err != nil || toJ(got) != want {
				t.Viol("C26", "preparams-changed", "%v: the stored pre-parameters have changed %s: %v", t.cur, what, err)
			}
		}
		t.SetCase(fmt.Sprintf("start %d with stored pre-parameters", k))
		faulty := k%3 > 0
		if faulty {
			// The first time they cannot be read.
			n := 0
			f := []fault{fError, fDropBefore, fDropRows}[rng.Intn(3)]
			p.sim.setFault(func(q string) fault {
				if strings.Contains(strings.ToLower(q), "preparams") && strings.Contains(strings.ToLower(q), "select") {
					n++
					if n <= 3 {
						return f
					}
				}
				return fNone
			})
			p.spawn()
			// The start is refused. If it is not, the node could be about to generate others.
			if !t.WaitFor(8*time.Second, func() bool { return !p.alive() }) && !p.answers(time.Second) {
				t.WaitFor(100*time.Second, func() bool { return !p.alive() || p.answers(time.Second) })
			}
			p.kill()
			p.sim.setFault(nil)
			same("when they could not be read")
			t.Debug("refused start: %d reads fail, %s", n, p.out.String())
			t.Count("starts with pre-parameters that cannot be read", 1)
			t.Count("reads of pre-parameters that fail", n)
		}
		for i := 0; i < 2; i++ {
			p.spawn()
			if !p.answers(30 * time.Second) {
				t.Live("C26", "no-answer", "%v: the node does not start: %s", t.cur, cut(p.out.String(), 200))
			}
			same("after a start")
			p.kill()
			t.Count("starts with stored pre-parameters", 1)
		}
		t.Eval(1)
		t.State("preparams", faulty, k)
		d.Close()
		p.close()
	}
}

// progSign lets all nodes sign and checks the result.
type progCase struct {
	t    *T
	rng  *rand.Rand
	ps   []*program
	keys []ctypes.PubKey
	pubs map[string][]byte
	need int
}

func (c *progCase) sign(kind, when string) {
	t := c.t
	req := &htypes.KeysignRequest{KeyType: kind}
	n := 1 + c.rng.Intn(2)
	for i := 0; i < n; i++ {
		req.KeysignMessages = append(req.KeysignMessages, &htypes.KeysignMessage{Id: uniqueId(c.rng), OutChain: "ganache1", OutHash: uniqueId(c.rng), BytesToSign: append([]byte{1}, randBytes(c.rng, 31)...)})
	}
	for _, i := range c.rng.Perm(len(c.ps)) {
		if err := c.ps[i].call("keySign", req, wrap(c.keys)); err != nil {
			t.Live("C26", "sign-refused:"+when, "%v: node %d refuses a signing of type %s %s: %v", t.cur, i, kind, when, err)
			return
		}
		time.Sleep(time.Duration(c.rng.Intn(300)*(1+3*c.rng.Intn(2))) * time.Millisecond)
	}
	id := req.KeysignMessages[0].Id
	find := func(p *program) *htypes.KeysignResult {
		p.sisu.rec.mu.Lock()
		defer p.sisu.rec.mu.Unlock()
		for i := range p.sisu.rec.signs {
			r := &p.sisu.rec.signs[i].r
			if r.Request != nil && len(r.Request.KeysignMessages) > 0 && r.Request.KeysignMessages[0].Id == id {
				return r
			}
		}
		return nil
	}
	succ := 0
	t.WaitFor(75*time.Second, func() bool {
		succ = 0
		for _, p := range c.ps {
			if r := find(p); r != nil && r.Outcome == htypes.OutcomeSuccess {
				succ++
			}
		}
		return succ >= c.need
	})
	t.Eval(1)
	if succ < c.need {
		var o []string
		for _, p := range c.ps {
			if r := find(p); r == nil {
				o = append(o, fmt.Sprintf("none (alive %v)", p.alive()))
			} else {
				o = append(o, fmt.Sprintf("%d %s", r.Outcome, r.ErrMesage))
			}
		}
		if d := os.Getenv("HARNESS_LOGS"); d != "" {
			for i, p := range c.ps {
				os.WriteFile(fmt.Sprintf("%s/%s-%d.log", d, id, i), []byte(p.out.String()), 0o644)
			}
		}
		t.Live("C26", "no-signature:"+kind+":"+when, "%v: a signing of type %s %s succeeds on %d instead of %d nodes: %v", t.cur, kind, when, succ, c.need, o)
		return
	}
	for i, p := range c.ps {
		r := find(p)
		if r == nil || r.Outcome != htypes.OutcomeSuccess {
			continue
		}
		for j, m := range req.KeysignMessages {
			if j >= len(r.Signatures) {
				t.Viol("C01", "program:missing", "%v: node %d reports %d signatures for %d messages", t.cur, i, len(r.Signatures), n)
				break
			}
			err := verifyEd(c.pubs[kind], m.BytesToSign, r.Signatures[j])
			if kind == "ecdsa" {
				err = verifyEc(c.pubs[kind], m.BytesToSign, r.Signatures[j])
			}
			if err != nil {
				t.Viol("C26", "other-key:"+kind, "%v: node %d reports a signature %s that is not one under the key of the key generation: %v", t.cur, i, when, err)
			}
			t.Count("signatures checked", 1)
		}
	}
	t.State(kind, when, t.cur)
}

// keygen lets all nodes generate a key; a node is killed while it reports it.
func (c *progCase) keygen(kind string, victim int) bool {
	t := c.t
	died := make(chan bool, 1)
	if victim >= 0 {
		p := c.ps[victim]
		var once sync.Once
		p.sisu.setOnGen(func(r *htypes.KeygenResult) {
			if r.Outcome == htypes.OutcomeSuccess {
				once.Do(func() {
					p.cmd.Process.Kill()
					died <- true
				})
			}
		})
		defer p.sisu.setOnGen(nil)
	}
	id := "keygen" + uniqueId(c.rng)
	for _, i := range c.rng.Perm(len(c.ps)) {
		if err := c.ps[i].call("keyGen", id, kind, wrap(c.keys)); err != nil {
			t.Live("C26", "keygen-refused", "%v: node %d refuses a key generation: %v", t.cur, i, err)
			return false
		}
	}
	result := func(p *program) *htypes.KeygenResult {
		p.sisu.rec.mu.Lock()
		defer p.sisu.rec.mu.Unlock()
		for i := range p.sisu.rec.keygens {
			if r := &p.sisu.rec.keygens[i].r; r.KeyType == kind {
				return r
			}
		}
		return nil
	}
	all := t.WaitFor(90*time.Second, func() bool {
		for _, p := range c.ps {
			if result(p) == nil {
				return false
			}
		}
		return true
	})
	for i, p := range c.ps {
		r := result(p)
		if r == nil || r.Outcome != htypes.OutcomeSuccess {
			if victim >= 0 {
				t.Inconclusive("%v: node %d has not ended the key generation when node %d is killed", t.cur, i, victim)
			} else {
				t.Live("C26", "no-keygen:"+kind, "%v: node %d does not generate a key (all %v)", t.cur, i, all)
			}
			return false
		}
		if old := c.pubs[kind]; old != nil && !bytes.Equal(old, r.PubKeyBytes) {
			t.Viol("C02", "program:other-key", "%v: two nodes report different keys", t.cur)
		}
		c.pubs[kind] = r.PubKeyBytes
	}
	if victim >= 0 {
		<-died
		<-c.ps[victim].exited
		t.Count("nodes killed while they report a key", 1)
		if !c.ps[victim].up() {
			return false
		}
	}
	return true
}

func c26Restarts(t *T, variant int) {
	rng := t.Sub()
	n := 3 + variant/6%2
	var privs []ctypes.PrivKey
	for i := 0; i < n; i++ {
		privs = append(privs, []ctypes.PrivKey{randSecp(rng), randEd(rng)}[variant/2%2])
	}
	own := rand.New(rand.NewSource(time.Now().UnixNano() ^ int64(os.Getpid())<<32))
	ports := lowPorts(own, 2*n)
	c := &progCase{t: t, rng: rng, keys: pubsOf(privs), pubs: map[string][]byte{}, need: (2*n + 2) / 3}
	t.SetCase(fmt.Sprintf("variant %d with %d nodes", variant, n))
	for i := range privs {
		c.ps = append(c.ps, newProgram(t, privs[i], i, ports[i], ports[n+i], peersOf(privs, ports[:n], i)))
	}
	defer func() {
		for _, p := range c.ps {
			p.close()
		}
	}()
	// With stagger, those that start first do not find the others for a while.
	stagger := false
	upAll := func(which []int) bool {
		var wg sync.WaitGroup
		ok := make([]bool, len(which))
		for j, i := range which {
			wg.Add(1)
			d := time.Duration(0)
			if stagger {
				d = time.Duration(j*rng.Intn(2500)) * time.Millisecond
			}
			go func(j, i int) { time.Sleep(d); ok[j] = c.ps[i].up(); wg.Done() }(j, i)
		}
		wg.Wait()
		for _, o := range ok {
			if !o {
				return false
			}
		}
		return true
	}
	all := rng.Perm(n)
	stagger = variant%3 == 1
	if !upAll(all) {
		return
	}
	stagger = false
	kinds := []string{"eddsa", "ecdsa"}
	for j, kind := range kinds {
		victim := -1
		if (variant+j)%2 == 0 {
			victim = rng.Intn(n)
		}
		if !c.keygen(kind, victim) {
			return
		}
		if victim >= 0 && variant%4 < 2 {
			c.sign(kind, "after a kill in the report")
		}
	}
	pre := make([]string, n)
	look := func(when string) {
		for i, p := range c.ps {
			d := p.db()
			x, err := d.LoadPreparams()
			s := toJ(x)
			if err != nil || (pre[i] != "" && pre[i] != s) {
				t.Viol("C26", "preparams-changed", "%v: the pre-parameters of node %d have changed %s: %v", t.cur, i, when, err)
			}
			pre[i] = s
			ed, err1 := d.LoadEdKeygen("eddsa")
			ec, err2 := d.LoadEcKeygen("ecdsa")
			if err1 != nil || err2 != nil || ed == nil || ec == nil || !bytes.Equal(edPubBytes(ed.EDDSAPub), c.pubs["eddsa"]) || !bytes.Equal(ecPubBytes(ec.ECDSAPub), c.pubs["ecdsa"]) {
				t.Viol("C26", "share-lost", "%v: the shares of node %d are not those of the reported keys %s: %v %v", t.cur, i, when, err1, err2)
			}
			d.Close()
		}
	}
	look("before the restarts")
	for _, p := range c.ps {
		// From now on, the stored pre-parameters count.
		p.short = rng.Intn(2) == 0
	}
	modes := []string{"all", "one while idle", "one while signing", "two in turn", "database connections", "not ready for a while"}
	for r := 0; r < t.Pick(3, 10); r++ {
		mode := modes[(variant+r*(1+variant/6))%6]
		when := "after a kill (" + mode + ")"
		switch mode {
		case "all":
			for _, i := range rng.Perm(n) {
				c.ps[i].kill()
			}
			if !upAll(rng.Perm(n)) {
				return
			}
		case "one while idle":
			i := rng.Intn(n)
			c.ps[i].kill()
			time.Sleep(time.Duration(rng.Intn(2000)) * time.Millisecond)
			if !upAll([]int{i}) {
				return
			}
		case "one while signing":
			req := &htypes.KeysignRequest{KeyType: kinds[rng.Intn(2)], KeysignMessages: []*htypes.KeysignMessage{{Id: uniqueId(rng), OutChain: "ganache1", BytesToSign: append([]byte{1}, randBytes(rng, 31)...)}}}
			for _, p := range c.ps {
				p.call("keySign", req, wrap(c.keys))
			}
			time.Sleep(time.Duration(rng.Intn(1500)) * time.Millisecond)
			i := rng.Intn(n)
			c.ps[i].kill()
			if !upAll([]int{i}) {
				return
			}
		case "two in turn":
			a := rng.Perm(n)[:2]
			for _, i := range a {
				c.ps[i].kill()
				if !upAll([]int{i}) {
					return
				}
			}
		case "database connections":
			when = "after the connections to the database broke"
			for _, p := range c.ps {
				p.sim.dropAll()
			}
			time.Sleep(time.Duration(rng.Intn(500)) * time.Millisecond)
		case "not ready for a while":
			when = "after a time in which Sisu was not ready"
			a := rng.Perm(n)[:1+rng.Intn(n)]
			for _, x := range []bool{false, true} {
				for _, i := range a {
					if err := c.ps[i].call("setSisuReady", x); err != nil {
						t.Live("C26", "ready-refused", "%v: node %d cannot be told whether Sisu is ready: %v", t.cur, i, err)
					}
				}
				time.Sleep(time.Duration(rng.Intn(1500)) * time.Millisecond)
			}
		}
		t.Count("restarts: "+mode, 1)
		look(when)
		for _, j := range rng.Perm(2) {
			c.sign(kinds[j], when)
		}
		if t.NumViol() > 0 {
			return
		}
	}
	for i, p := range c.ps {
		if !p.alive() {
			t.Viol("C26", "crash", "%v: node %d has ended: %s", t.cur, i, cut(p.out.String(), 300))
		}
	}
	t.Sample(t.cur)
}

// c26Presigns: after each restart, what was not used is available, all of it.
func c26Presigns(t *T) {
	for k := 0; t.More(k, 60, 1500); k++ {
		rng := t.Sub()
		d := openCase(t, k%3 == 0)
		ms := makeMembers(rng, 3+rng.Intn(4), false)
		all := map[string]*tss.PartyID{}
		for _, p := range pidsOf(ms) {
			all[p.Id] = p
		}
		unused := map[string]string{} // to the parties
		m := components.NewAvailPresignManager(d.Database)
		t.need("Load", m.Load())
		add := func() {
			sub := pidsOf(ms)[:2+rng.Intn(len(ms)-1)]
			work := uniqueId(rng)
			outs := dummyPresigns(1 + rng.Intn(12))
			if k%12 == 5 {
				outs = dummyPresigns(100 + rng.Intn(400))
			}
			m.AddPresign(work, sub, outs)
			for i := range outs {
				unused[fmt.Sprintf("%s-%d", work, i)] = utils.GetPidString(sub)
			}
		}
		take := func(n int) int {
			ids, pids := m.GetAvailablePresigns(n, len(all), all)
			for _, id := range ids {
				if want, ok := unused[id]; !ok || want != utils.GetPidString(pids) {
					t.Viol("C26", "presign-phantom", "%v: presign %s is handed out for %v", t.cur, id, pids)
				}
				delete(unused, id)
			}
			return len(ids)
		}
		restarts := 1 + rng.Intn(4)
		t.SetCase(fmt.Sprintf("%d restarts with stored presigns", restarts))
		for r := 0; r < restarts; r++ {
			for i := 0; i < 1+rng.Intn(5); i++ {
				add()
			}
			for i := 0; i < rng.Intn(8); i++ {
				take(1 + rng.Intn(4))
			}
			if rng.Intn(2) == 0 {
				d.restart(rng)
			}
			m = components.NewAvailPresignManager(d.Database)
			if err := m.Load(); err != nil {
				t.Viol("C26", "presigns-lost", "%v: the presigns cannot be loaded: %v", t.cur, err)
			}
		}
		// Batches as large as what is left of a party set, and then one by one.
		left := map[string]int{}
		for _, p := range unused {
			left[p]++
		}
		max := 0
		for _, n := range left {
			if n > max {
				max = n
			}
		}
		total := len(unused)
		if max > 0 && take(max) != max {
			t.Viol("C26", "presigns-lost", "%v: a batch of %d presigns is refused after the restart although that many are left for one party set", t.cur, max)
		}
		for take(1) > 0 {
		}
		if len(unused) > 0 {
			t.Viol("C26", "presigns-lost", "%v: %d of %d unused presigns are not available after the restart", t.cur, len(unused), total)
		}
		t.Eval(1)
		t.Count("unused presigns found after restarts", total-len(unused))
		t.State("presigns", restarts, total, len(left))
		d.Close()
	}
}
