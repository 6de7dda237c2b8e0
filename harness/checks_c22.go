package main

import (
	"bytes"
	"context"
	stded "crypto/ed25519"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rpc"

	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/run"
	"github.com/sisu-network/dheart/server"
	htypes "github.com/sisu-network/dheart/types"
)

// C22: the single-node mode. A model knows which calls have to be answered how, and which keys were
// announced when; every posted signature is verified with the standard library or with libsecp256k1.

func init() {
	register(&Check{
		ID:          "C22",
		Rule:        "a case is distinct by the sequence of calls, key types, numbers and lengths of messages and waiting times",
		Assumptions: []string{"a signing counts as called with the keys that were announced before the call or within 4 s after it; of keys that are announced within 2 s, any one counts as the last"},
		Units: func(tier string, seed int64) []Unit {
			return []Unit{{Name: "calls-0", Run: func(t *T) { c22Calls(t, false) }}, {Name: "calls-1", Run: func(t *T) { c22Calls(t, false) }}, {Name: "concurrent", Run: func(t *T) { c22Calls(t, true) }}, {Name: "process", Run: c22Process}}
		},
	})
}

// recSisu records what is posted, with the time.
type recSisu struct {
	mu      sync.Mutex
	keygens []recKeygen
	signs   []recSign
	fail    bool
}

type recKeygen struct {
	at time.Time
	r  htypes.KeygenResult
}

type recSign struct {
	at time.Time
	r  htypes.KeysignResult
}

func (c *recSisu) TryDial() {}

func (c *recSisu) PostKeygenResult(r *htypes.KeygenResult) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.fail {
		return fmt.Errorf("not connected")
	}
	c.keygens = append(c.keygens, recKeygen{time.Now(), *r})
	return nil
}

func (c *recSisu) PostPresignResult(r *htypes.PresignResult) error { return nil }

func (c *recSisu) PostKeysignResult(r *htypes.KeysignResult) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.fail {
		return fmt.Errorf("not connected")
	}
	c.signs = append(c.signs, recSign{time.Now(), *r})
	return nil
}

// soloCall is a call that was made.
type soloCall struct {
	at   time.Time
	done time.Time
	sign bool
	kind string
	id   string // of the first message
	msgs []*htypes.KeysignMessage
	err  error
}

type solo struct {
	t    *T
	what string
	sisu *recSisu
	call func(method string, args ...interface{}) error
	mu   sync.Mutex
	log  []*soloCall
}

func (s *solo) keygen(rng *rand.Rand, kind string) {
	keys := wrap(pubsOf(c14Keys(rng, rng.Intn(4))))
	c := &soloCall{at: time.Now(), kind: kind}
	c.err = s.call("keyGen", uniqueId(rng), kind, keys)
	c.done = time.Now()
	s.add(c)
}

func (s *solo) sign(rng *rand.Rand, kind string, msgs []*htypes.KeysignMessage) {
	c := &soloCall{at: time.Now(), sign: true, kind: kind, msgs: msgs, id: msgs[0].Id}
	c.err = s.call("keySign", &htypes.KeysignRequest{KeyType: kind, KeysignMessages: msgs}, wrap(pubsOf(c14Keys(rng, rng.Intn(4)))))
	c.done = time.Now()
	s.add(c)
}

func (s *solo) add(c *soloCall) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.log = append(s.log, c)
}

// soloMsgs makes messages. good is false if they cannot be signed.
func soloMsgs(rng *rand.Rand, kind string) (msgs []*htypes.KeysignMessage) {
	for i := 0; i < 1+rng.Intn(5); i++ {
		l := 32
		if kind == "eddsa" {
			l = []int{1, 20, 32, 33, 64, 200, 5000}[rng.Intn(7)]
		}
		b := randBytes(rng, l)
		if rng.Intn(6) == 0 {
			b[0] = 0
		}
		msgs = append(msgs, &htypes.KeysignMessage{Id: fmt.Sprintf("%s-%d", uniqueId(rng), i), InChain: randText(rng), OutChain: randText(rng), OutHash: fmt.Sprintf("%x", rng.Uint64()), Bytes: randBytes(rng, rng.Intn(60)), BytesToSign: b})
	}
	return msgs
}

func soloVerify(kind string, pub, msg, sig []byte) bool {
	if kind == "eddsa" {
		return len(pub) == stded.PublicKeySize && stded.Verify(pub, msg, sig)
	}
	if len(sig) != 65 || !ethcrypto.VerifySignature(pub, msg, sig[:64]) {
		return false
	}
	// The last byte allows to recover the key.
	rec, err := ethcrypto.Ecrecover(msg, sig)
	return err == nil && bytes.Equal(rec, pub)
}

// judge compares all calls with all results, after everything has come to rest.
func (s *solo) judge() {
	t := s.t
	s.sisu.mu.Lock()
	defer s.sisu.mu.Unlock()
	s.mu.Lock()
	defer s.mu.Unlock()
	want := map[string]int{}
	signs := map[string]*soloCall{}
	for _, c := range s.log {
		if !c.sign {
			if c.kind == "ecdsa" || c.kind == "eddsa" {
				want[c.kind]++
				if c.err != nil {
					t.Viol("C22", "keygen-refused", "%s: a key generation of type %s fails: %v", s.what, c.kind, c.err)
				}
			} else if c.err == nil {
				t.Viol("C22", "type-accepted", "%s: a key generation of type %q is accepted", s.what, c.kind)
			}
			continue
		}
		signs[c.id] = c
	}
	got := map[string]int{}
	for _, k := range s.sisu.keygens {
		got[k.r.KeyType]++
		bad := ""
		switch k.r.KeyType {
		case "ecdsa":
			if x, err := ethcrypto.UnmarshalPubkey(k.r.PubKeyBytes); err != nil || x == nil {
				bad = "not an uncompressed point of secp256k1"
			}
		case "eddsa":
			if len(k.r.PubKeyBytes) != stded.PublicKeySize {
				bad = "not an ed25519 key"
			}
		default:
			bad = "of an unknown type"
		}
		if k.r.Outcome != htypes.OutcomeSuccess {
			bad = "not a success"
		}
		if bad != "" {
			t.Viol("C22", "keygen-result", "%s: the result of a key generation of type %q is %s", s.what, k.r.KeyType, bad)
		}
		t.Count("keygen results", 1)
	}
	for _, kind := range []string{"ecdsa", "eddsa"} {
		if got[kind] > want[kind] {
			t.Viol("C22", "keygen-count", "%s: %d results of %d key generations of type %s are posted", s.what, got[kind], want[kind], kind)
		} else if got[kind] < want[kind] {
			t.Live("C22", "keygen-missing", "%s: %d results of %d key generations of type %s are posted", s.what, got[kind], want[kind], kind)
		}
	}
	results := map[string]int{}
	for _, r := range s.sisu.signs {
		if r.r.Request == nil || len(r.r.Request.KeysignMessages) == 0 {
			t.Viol("C22", "no-request", "%s: a signing result without its request is posted", s.what)
			continue
		}
		id := r.r.Request.KeysignMessages[0].Id
		c := signs[id]
		if c == nil {
			t.Viol("C22", "other-request", "%s: a result for a request that was not made is posted", s.what)
			continue
		}
		results[id]++
		if r.r.Outcome != htypes.OutcomeSuccess {
			t.Count("posted failures", 1)
			continue
		}
		if c.err != nil {
			t.Viol("C22", "refused-but-posted", "%s: the signing that was answered with %v is posted as a success", s.what, c.err)
			continue
		}
		want, _ := json.Marshal(&htypes.KeysignRequest{KeyType: c.kind, KeysignMessages: c.msgs})
		have, _ := json.Marshal(r.r.Request)
		if !bytes.Equal(want, have) {
			t.Viol("C22", "request-changed", "%s: the posted request is not the one that was made", s.what)
			continue
		}
		if len(r.r.Signatures) != len(c.msgs) {
			t.Viol("C22", "signature-count", "%s: %d signatures for %d messages", s.what, len(r.r.Signatures), len(c.msgs))
			continue
		}
		// Which keys may have been used.
		var keys [][]byte
		var last *recKeygen
		for i, k := range s.sisu.keygens {
			if k.r.KeyType != c.kind {
				continue
			}
			if k.at.Before(c.at) {
				last = &s.sisu.keygens[i]
			} else if k.at.Before(c.done.Add(4 * time.Second)) {
				keys = append(keys, k.r.PubKeyBytes)
			}
		}
		for _, k := range s.sisu.keygens {
			// Which of two keys that are announced at the same time is the last one is open.
			if last != nil && k.r.KeyType == c.kind && k.at.Before(c.at) && k.at.After(last.at.Add(-2*time.Second)) {
				keys = append(keys, k.r.PubKeyBytes)
			}
		}
		for i, m := range c.msgs {
			ok := false
			for _, k := range keys {
				ok = ok || soloVerify(c.kind, k, m.BytesToSign, r.r.Signatures[i])
			}
			if !ok {
				t.Viol("C22", "signature", "%s: signature %d of %d (%s, %d bytes) is not valid under the last announced key (%d keys come into question)", s.what, i, len(c.msgs), c.kind, len(m.BytesToSign), len(keys))
			}
			t.Count("signatures verified", 1)
		}
	}
	for id, c := range signs {
		ok, clear := s.signable(c)
		n := results[id]
		switch {
		case !clear:
			t.Count("signings close to a key generation", 1)
		case ok && c.err != nil:
			t.Viol("C22", "sign-refused", "%s: a signing of type %s is refused though there is a key: %v", s.what, c.kind, c.err)
		case !ok && c.err == nil:
			t.Viol("C22", "sign-accepted", "%s: a signing of type %q with %d messages that cannot be signed is accepted", s.what, c.kind, len(c.msgs))
		}
		if n > 1 {
			t.Viol("C22", "sign-repeated", "%s: %d results of one signing are posted", s.what, n)
		}
		if n == 0 && c.err == nil {
			t.Live("C22", "sign-missing", "%s: no result of an accepted signing is posted", s.what)
		}
		t.Count(fmt.Sprintf("signings of known result: %v", ok), btoi(clear))
	}
}

// signable tells if a signing has to succeed. clear is false if that depends on the moment.
func (s *solo) signable(c *soloCall) (ok, clear bool) {
	if c.kind != "ecdsa" && c.kind != "eddsa" {
		return false, true
	}
	for _, m := range c.msgs {
		if c.kind == "ecdsa" && len(m.BytesToSign) != 32 {
			return false, true
		}
	}
	// A key that has been announced is there; none is there before the first key generation.
	for _, k := range s.sisu.keygens {
		if k.r.KeyType == c.kind && k.at.Before(c.at) {
			return true, true
		}
	}
	for _, k := range s.log {
		if !k.sign && k.kind == c.kind && k.at.Before(c.done) {
			return false, false
		}
	}
	return false, true
}

func (s *solo) step(rng *rand.Rand) string {
	kind := []string{"ecdsa", "eddsa"}[rng.Intn(2)]
	switch rng.Intn(10) {
	case 0:
		kind = []string{"", "ECDSA", "sr25519", "eth"}[rng.Intn(4)]
		if rng.Intn(2) == 0 {
			s.keygen(rng, kind)
			return "keygen of unknown type"
		}
		s.sign(rng, kind, soloMsgs(rng, "ecdsa"))
		return "signing of unknown type"
	case 1:
		msgs := soloMsgs(rng, "ecdsa")
		i := rng.Intn(len(msgs))
		msgs[i].BytesToSign = randBytes(rng, []int{0, 31, 33}[rng.Intn(3)])
		s.sign(rng, "ecdsa", msgs)
		return "signing of a bad hash"
	case 2, 3, 4:
		s.keygen(rng, kind)
		return "keygen " + kind
	default:
		s.sign(rng, kind, soloMsgs(rng, kind))
		return "signing " + kind
	}
}

// c22Calls runs many single nodes beside each other, each with a random history of calls.
func c22Calls(t *T, concurrent bool) {
	for round := 0; t.More(round, 1, 40); round++ {
		t.SetCase(fmt.Sprintf("single nodes, concurrent calls: %v", concurrent))
		var wg sync.WaitGroup
		var all []*solo
		for i := 0; i < 60; i++ {
			i := i
			rng := t.Sub()
			s := &solo{t: t, sisu: &recSisu{}, what: fmt.Sprint(t.cur)}
			api := server.GetApi(config.HeartConfig{UseOnMemory: true}, s.sisu)
			api.Init()
			srv := rpc.NewServer()
			must(srv.RegisterName("tss", api))
			cl := rpc.DialInProc(srv)
			s.call = func(method string, args ...interface{}) error {
				var r interface{}
				return cl.Call(&r, "tss_"+method, args...)
			}
			all = append(all, s)
			wg.Add(1)
			go func() {
				defer wg.Done()
				hist := []string{}
				if concurrent {
					var in sync.WaitGroup
					for g := 0; g < 4; g++ {
						r := rand.New(rand.NewSource(rng.Int63()))
						in.Add(1)
						go func() {
							defer in.Done()
							for j := 0; j < 12; j++ {
								s.step(r)
								t.Eval(1)
								time.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
							}
						}()
					}
					in.Wait()
				} else {
					for j := 0; j < 9; j++ {
						x := s.step(rng)
						hist = append(hist, x)
						t.Eval(1)
						if strings.HasPrefix(x, "keygen") && rng.Intn(3) > 0 {
							time.Sleep(3300 * time.Millisecond)
							hist = append(hist, "wait")
						}
					}
				}
				t.State(concurrent, fmt.Sprint(hist), i)
			}()
		}
		wg.Wait()
		time.Sleep(5 * time.Second)
		for _, s := range all {
			s.judge()
		}
		t.Sample(t.cur)
	}
	// The results cannot be posted: nothing may crash.
	s := &recSisu{fail: true}
	api := server.GetApi(config.HeartConfig{UseOnMemory: true}, s)
	rng := t.Sub()
	api.KeyGen("x", "ecdsa", nil)
	api.KeyGen("x", "eddsa", nil)
	time.Sleep(3500 * time.Millisecond)
	api.KeySign(&htypes.KeysignRequest{KeyType: "ecdsa", KeysignMessages: soloMsgs(rng, "ecdsa")}, nil)
	api.KeySign(&htypes.KeysignRequest{KeyType: "eddsa", KeysignMessages: soloMsgs(rng, "eddsa")}, nil)
	time.Sleep(3500 * time.Millisecond)
}

// runNodeChild runs the whole program in the current directory.
func runNodeChild() {
	run.Run()
	b := make([]byte, 1)
	os.Stdin.Read(b)
}

// tssServer is a Sisu server over http that passes everything to a recorder.
type tssServer struct {
	rec *recSisu
}

func (s *tssServer) Ping(source string) {}

func (s *tssServer) KeygenResult(r *htypes.KeygenResult) error { return s.rec.PostKeygenResult(r) }

func (s *tssServer) KeysignResult(r *htypes.KeysignResult) error { return s.rec.PostKeysignResult(r) }

// c22Process runs the program itself, with a configuration file, a Sisu server and a client over http.
func c22Process(t *T) {
	for k := 0; t.More(k, 2, 20); k++ {
		rng := t.Sub()
		t.SetCase("the program in single-node mode")
		rec := &recSisu{}
		srv := rpc.NewServer()
		must(srv.RegisterName("tss", &tssServer{rec}))
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		hs := &http.Server{Handler: srv}
		go hs.Serve(l)
		port := freePorts(1)[0]
		dir, err := os.MkdirTemp("", "dheart")
		must(err)
		home := filepath.Join(dir, "home")
		must(os.MkdirAll(home, 0o755))
		must(os.WriteFile(filepath.Join(dir, ".env"), []byte(fmt.Sprintf("HOME_DIR=%s\nAES_KEY_HEX=%x\n", home, theAesKey)), 0o644))
		must(os.WriteFile(filepath.Join(home, "dheart.toml"), []byte(fmt.Sprintf("use-on-memory = true\nsisu-server-url = \"http://%s\"\nport = %d\n", l.Addr(), port)), 0o644))
		self, err := os.Executable()
		must(err)
		cmd := exec.Command(self, "nodechild")
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "HOME_DIR="+home, fmt.Sprintf("AES_KEY_HEX=%x", theAesKey))
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		in, err := cmd.StdinPipe()
		must(err)
		out := &bytes.Buffer{}
		cmd.Stdout, cmd.Stderr = out, out
		must(cmd.Start())
		exited := make(chan bool)
		go func() { cmd.Wait(); close(exited) }()
		func() {
			defer func() {
				in.Close()
				cmd.Process.Kill()
				<-exited
				hs.Close()
				os.RemoveAll(dir)
			}()
			var cl *rpc.Client
			if !t.WaitFor(30*time.Second, func() bool {
				ctx, cancel := context.WithTimeout(context.Background(), time.Second)
				defer cancel()
				c, err := rpc.DialContext(ctx, fmt.Sprintf("http://127.0.0.1:%d", port))
				if err != nil {
					return false
				}
				var r interface{}
				if c.CallContext(ctx, &r, "tss_ping", "sisu") != nil {
					return false
				}
				cl = c
				return true
			}) {
				t.Live("C22", "process", "the program does not answer: %s", cut(out.String(), 300))
				return
			}
			s := &solo{t: t, sisu: rec, what: fmt.Sprint(t.cur), call: func(method string, args ...interface{}) error {
				var r interface{}
				return cl.Call(&r, "tss_"+method, args...)
			}}
			time.Sleep(500 * time.Millisecond)
			for _, kind := range []string{"ecdsa", "eddsa"} {
				s.sign(rng, kind, soloMsgs(rng, kind))
				s.keygen(rng, kind)
			}
			time.Sleep(4 * time.Second)
			for j := 0; j < 12; j++ {
				s.step(rng)
				t.Eval(1)
			}
			time.Sleep(5 * time.Second)
			select {
			case <-exited:
				t.Viol("C22", "process-crash", "the program has ended: %s", cut(out.String(), 300))
			default:
			}
			s.judge()
			t.State("process", k)
			t.Count("processes", 1)
		}()
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
