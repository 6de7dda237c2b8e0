package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ethereum/go-ethereum/rpc"

	"github.com/sisu-network/dheart/client"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/tss-lib/tss"
)

// C24: the real client posts to a Sisu server over http. The server records every call; everything that
// was posted is compared with what arrived.

func init() {
	register(&Check{
		ID:          "C24",
		Rule:        "a case is distinct by the kind and shape of the result, the number of concurrent postings, and by the way in which and the moment at which the server fails",
		Assumptions: []string{"loopback http", "the client tries to connect every 10 s; 30 s are allowed"},
		Units: func(tier string, seed int64) []Unit {
			return []Unit{{Name: "content-http", Run: func(t *T) { c24Content(t, "http") }}, {Name: "content-ws", Run: func(t *T) { c24Content(t, "ws") }},
				{Name: "failing", Run: c24Failing}, {Name: "late", Run: c24Late}, {Name: "restart", Run: c24Restart}, {Name: "stored", Run: c24Stored}, {Name: "slow", Run: c24SlowAnswer}}
		},
	})
}

// sisuSrv is a Sisu server that can misbehave.
type sisuSrv struct {
	t     *T
	addr  string
	hs    *http.Server
	mode  atomic.Value // how it answers
	mu    sync.Mutex
	pings int
	kgs   []htypes.KeygenResult
	kss   []htypes.KeysignResult
	other int
}

type sisuApi struct{ s *sisuSrv }

func (a *sisuApi) Ping(source string) error {
	a.s.mu.Lock()
	defer a.s.mu.Unlock()
	a.s.pings++
	return a.s.err()
}

func (s *sisuSrv) err() error {
	if strings.HasSuffix(s.mode.Load().(string), " error") || s.mode.Load().(string) == "error" {
		return fmt.Errorf("an error of Sisu")
	}
	return nil
}

// after is the answer to a result that has arrived.
func (s *sisuSrv) after() error {
	if s.mode.Load().(string) == "stored-error" {
		return fmt.Errorf("an error of Sisu after the result was taken")
	}
	return nil
}

func (a *sisuApi) KeygenResult(r *htypes.KeygenResult) error {
	a.s.mu.Lock()
	defer a.s.mu.Unlock()
	if err := a.s.err(); err != nil {
		return err
	}
	a.s.kgs = append(a.s.kgs, *r)
	return a.s.after()
}

func (a *sisuApi) KeysignResult(r *htypes.KeysignResult) error {
	a.s.mu.Lock()
	defer a.s.mu.Unlock()
	if err := a.s.err(); err != nil {
		return err
	}
	a.s.kss = append(a.s.kss, *r)
	return a.s.after()
}

func (a *sisuApi) PresignResult(r *htypes.PresignResult) error {
	a.s.mu.Lock()
	defer a.s.mu.Unlock()
	a.s.other++
	return a.s.err()
}

// startSisu listens at an address (any, if empty).
func startSisu(t *T, addr string) *sisuSrv {
	s := &sisuSrv{t: t}
	s.mode.Store("")
	s.listen(addr)
	return s
}

func (s *sisuSrv) listen(addr string) {
	if addr == "" {
		addr = "127.0.0.1:0"
	}
	var l net.Listener
	if !s.t.WaitFor(10*time.Second, func() bool { var err error; l, err = net.Listen("tcp", addr); return err == nil }) {
		panic("cannot listen at " + addr)
	}
	s.addr = l.Addr().String()
	srv := rpc.NewServer()
	must(srv.RegisterName("tss", &sisuApi{s}))
	ws := srv.WebsocketHandler([]string{"*"})
	s.hs = &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.Header.Get("Upgrade") != "" {
			ws.ServeHTTP(w, r)
			return
		}
		switch m := s.mode.Load().(string); m {
		case "500", "404", "403", "503":
			code := 0
			fmt.Sscan(m, &code)
			http.Error(w, "failing", code)
		case "garbage":
			w.Write([]byte("<html>no json"))
		case "empty":
		case "hangup":
			c, _, err := w.(http.Hijacker).Hijack()
			if err == nil {
				c.Close()
			}
		case "stored-hangup", "stored-short", "stored-500", "stored-garbage":
			// The result arrives, but not the answer.
			rec := httptest.NewRecorder()
			srv.ServeHTTP(rec, r)
			switch m {
			case "stored-500":
				http.Error(w, "failing", 500)
				return
			case "stored-garbage":
				w.Write([]byte("<html>no json"))
				return
			}
			c, b, err := w.(http.Hijacker).Hijack()
			if err == nil {
				if m == "stored-short" {
					b.WriteString("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: 500\r\n\r\n{\"jsonrpc\":\"2.0\",")
					b.Flush()
				}
				c.Close()
			}
		case "short":
			c, b, err := w.(http.Hijacker).Hijack()
			if err == nil {
				b.WriteString("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: 500\r\n\r\n{\"jsonrpc\":\"2.0\",")
				b.Flush()
				c.Close()
			}
		case "nomethod":
			body, _ := io.ReadAll(r.Body)
			var q struct {
				Id json.RawMessage `json:"id"`
			}
			json.Unmarshal(body, &q)
			w.Header().Set("Content-Type", "application/json")
			fmt.Fprintf(w, `{"jsonrpc":"2.0","id":%s,"error":{"code":-32601,"message":"the method does not exist"}}`, q.Id)
		default:
			if strings.HasPrefix(m, "slow ") {
				d, err := time.ParseDuration(strings.Fields(m)[1])
				must(err)
				time.Sleep(d)
			}
			srv.ServeHTTP(w, r)
		}
	})}
	go s.hs.Serve(l)
}

func (s *sisuSrv) stop() { s.hs.Close() }

func (s *sisuSrv) count() (pings, kgs, kss int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.pings, len(s.kgs), len(s.kss)
}

// ---- results

func randCulprits(rng *rand.Rand) []*tss.PartyID {
	var res []*tss.PartyID
	for i := 0; i < rng.Intn(4); i++ {
		p := tss.NewPartyID(uniqueId(rng), randText(rng), new(big.Int).SetBytes(randBytes(rng, 1+rng.Intn(40))))
		p.Index = rng.Intn(10) - 1
		res = append(res, p)
	}
	return res
}

func randKeygenResult(rng *rand.Rand) *htypes.KeygenResult {
	return &htypes.KeygenResult{KeyType: []string{"ecdsa", "eddsa", randText(rng)}[rng.Intn(3)], KeygenIndex: rng.Intn(100) - 3, PubKeyBytes: randBytes(rng, []int{0, 32, 33, 65, 300}[rng.Intn(5)]),
		Outcome: htypes.OutcomeType(rng.Intn(3)), Culprits: randCulprits(rng)}
}

func randKeysignResult(rng *rand.Rand) *htypes.KeysignResult {
	r := &htypes.KeysignResult{Outcome: htypes.OutcomeType(rng.Intn(3)), ErrMesage: []string{"", randText(rng)}[rng.Intn(2)], Culprits: randCulprits(rng)}
	n := []int{0, 1, 2, 10, 50}[rng.Intn(5)]
	r.Request = &htypes.KeysignRequest{KeyType: []string{"ecdsa", "eddsa"}[rng.Intn(2)], KeysignMessages: someMsgs(rng, n)}
	for i := 0; i < n; i++ {
		r.Signatures = append(r.Signatures, randBytes(rng, []int{0, 64, 65}[rng.Intn(3)]))
	}
	if rng.Intn(8) == 0 && n > 0 {
		r.Request.KeysignMessages[0].Bytes = randBytes(rng, 500000)
	}
	return r
}

// flat is all of a value, as one string.
func flat(x interface{}) string {
	var b strings.Builder
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil;")
				return
			}
			walk(v.Elem())
		case reflect.Slice:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				fmt.Fprintf(&b, "%x;", v.Bytes())
				return
			}
			fmt.Fprintf(&b, "[%d", v.Len())
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
			b.WriteString("]")
		case reflect.Struct:
			b.WriteString("{")
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.PkgPath == "" && !strings.HasPrefix(f.Name, "XXX") {
					b.WriteString(f.Name + ":")
					walk(v.Field(i))
				}
			}
			b.WriteString("}")
		default:
			fmt.Fprintf(&b, "%v;", v.Interface())
		}
	}
	walk(reflect.ValueOf(x))
	return b.String()
}

// tally compares what was sent with what arrived.
func (s *sisuSrv) tally(what string, kgs, kss map[string]int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	cmp := func(kind string, sent, got map[string]int) {
		for k, n := range sent {
			if got[k] < n {
				s.t.Viol("C24", "lost:"+kind, "%s: a %s result that was posted without an error did not arrive as it was (%s)", what, kind, cutTo(k, 120))
			} else if got[k] > n {
				s.t.Viol("C24", "repeated:"+kind, "%s: a %s result arrived %d times, posted %d times", what, kind, got[k], n)
			}
		}
		for k := range got {
			if sent[k] == 0 {
				s.t.Viol("C24", "altered:"+kind, "%s: a %s result arrived that was not posted like that (%s)", what, kind, cutTo(k, 120))
			}
		}
	}
	g, k := map[string]int{}, map[string]int{}
	for i := range s.kgs {
		g[flat(&s.kgs[i])]++
	}
	for i := range s.kss {
		k[flat(&s.kss[i])]++
	}
	cmp("keygen", kgs, g)
	cmp("keysign", kss, k)
	s.t.Count("results compared", len(s.kgs)+len(s.kss))
	s.kgs, s.kss = nil, nil
}

func cutTo(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// dialNow makes a client that is connected.
func dialNow(t *T, url string) client.Client {
	c := client.NewClient(url)
	if !t.Within(30*time.Second, c.TryDial) {
		t.Live("C24", "connect", "the client does not connect to %s within 30 s", url)
		return nil
	}
	return c
}

func c24Content(t *T, scheme string) {
	s := startSisu(t, "")
	defer s.stop()
	c := dialNow(t, scheme+"://"+s.addr)
	if c == nil {
		return
	}
	for k := 0; t.More(k, 60, 4000); k++ {
		rng := t.Sub()
		routines := 1 + rng.Intn(8)
		what := fmt.Sprintf("%d routines post results over %s", routines, scheme)
		t.SetCase(what)
		kgs, kss := map[string]int{}, map[string]int{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		for g := 0; g < routines; g++ {
			r := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 1+r.Intn(5); j++ {
					t.Eval(1)
					var err error
					kind := "keygen"
					if r.Intn(3) == 0 {
						x := randKeygenResult(r)
						mu.Lock()
						kgs[flat(x)]++
						mu.Unlock()
						err = c.PostKeygenResult(x)
						t.State(scheme, kind, routines, len(x.PubKeyBytes), x.Outcome, len(x.Culprits))
					} else {
						kind = "keysign"
						x := randKeysignResult(r)
						mu.Lock()
						kss[flat(x)]++
						mu.Unlock()
						err = c.PostKeysignResult(x)
						t.State(scheme, kind, routines, len(x.Signatures), x.Outcome, len(x.Culprits))
					}
					if err != nil {
						t.Viol("C24", "error:"+kind, "%s: posting a %s result fails: %v", what, kind, err)
					}
				}
			}()
		}
		wg.Wait()
		s.tally(what, kgs, kss)
		if k < 3 {
			t.Sample(what)
		}
	}
	if s.other > 0 {
		t.Viol("C24", "presign-call", "%d calls for presign results arrived", s.other)
	}
}

// post posts one result and tells what happened. It must not panic.
func post(t *T, c client.Client, rng *rand.Rand, sign bool, what string) (err error, desc string) {
	defer func() {
		if r := recover(); r != nil {
			t.Viol("C24", "panic", "%s: posting panics: %v", what, r)
			err = fmt.Errorf("panic")
		}
	}()
	t.Eval(1)
	if sign {
		x := randKeysignResult(rng)
		return c.PostKeysignResult(x), flat(x)
	}
	x := randKeygenResult(rng)
	return c.PostKeygenResult(x), flat(x)
}

// c24Failing: the server fails in many ways. Posting returns an error then, and works again afterwards.
func c24Failing(t *T) {
	s := startSisu(t, "")
	defer s.stop()
	c := dialNow(t, "http://"+s.addr)
	if c == nil {
		return
	}
	modes := []string{"error", "500", "404", "403", "503", "garbage", "empty", "hangup", "short", "nomethod"}
	for k := 0; t.More(k, 40, 2000); k++ {
		rng := t.Sub()
		mode := modes[k%len(modes)]
		what := "the server fails: " + mode
		t.SetCase(what)
		s.mode.Store(mode)
		for j := 0; j < 4; j++ {
			sign := rng.Intn(2) == 0
			if err, _ := post(t, c, rng, sign, what); err == nil {
				t.Viol("C24", "success:"+mode, "%s: posting a result (signing: %v) returns no error", what, sign)
			}
			t.State("failing", mode, sign)
			t.Count("failing posts", 1)
		}
		s.mode.Store("")
		kgs, kss := map[string]int{}, map[string]int{}
		s.mu.Lock()
		s.kgs, s.kss = nil, nil
		s.mu.Unlock()
		for j := 0; j < 3; j++ {
			sign := rng.Intn(2) == 0
			var err error
			var d string
			// The connections that broke may have to be found out first.
			if !t.WaitFor(10*time.Second, func() bool { err, d = post(t, c, rng, sign, what); return err == nil }) {
				t.Live("C24", "no-recovery:"+mode, "%s: posting fails when the server works again: %v", what, err)
				return
			}
			map[bool]map[string]int{true: kss, false: kgs}[sign][d]++
		}
		s.tally(what, kgs, kss)
	}
}

// c24Stored: the results arrive, but the answers do not, or they are errors. Posting returns an error, and
// nothing arrives again.
func c24Stored(t *T) {
	s := startSisu(t, "")
	defer s.stop()
	c := dialNow(t, "http://"+s.addr)
	if c == nil {
		return
	}
	modes := []string{"stored-error", "stored-hangup", "stored-short", "stored-500", "stored-garbage"}
	for k := 0; t.More(k, 20, 1000); k++ {
		rng := t.Sub()
		mode := modes[k%len(modes)]
		what := "the server takes the results and fails: " + mode
		t.SetCase(what)
		kgs, kss := map[string]int{}, map[string]int{}
		s.mode.Store(mode)
		for j := 0; j < 4; j++ {
			sign := rng.Intn(2) == 0
			err, d := post(t, c, rng, sign, what)
			if err == nil {
				t.Viol("C24", "success:"+mode, "%s: posting a result (signing: %v) returns no error", what, sign)
			}
			map[bool]map[string]int{true: kss, false: kgs}[sign][d]++
			t.State("stored", mode, sign)
			t.Count("failing posts of results that arrive", 1)
		}
		s.mode.Store("")
		time.Sleep(time.Duration(rng.Intn(100)) * time.Millisecond)
		s.tally(what, kgs, kss)
	}
}

// c24SlowAnswer: the server takes its time.
func c24SlowAnswer(t *T) {
	var wg sync.WaitGroup
	waits := []string{"500ms", "3s", "7s", "13s"}
	if t.Thorough() {
		waits = append(waits, "35s", "65s", "125s")
	}
	for i := 0; i < 2*len(waits); i++ {
		d, failing := waits[i/2], i%2 == 1
		rng := t.Sub()
		s := startSisu(t, "")
		defer s.stop()
		c := dialNow(t, "http://"+s.addr)
		if c == nil {
			return
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			what := fmt.Sprintf("the server answers after %s, with an error: %v", d, failing)
			s.mode.Store("slow " + d + map[bool]string{true: " error"}[failing])
			sign := rng.Intn(2) == 0
			err, desc := post(t, c, rng, sign, what)
			if failing && err == nil {
				t.Viol("C24", "success:slow", "%s: posting a result (signing: %v) returns no error", what, sign)
			}
			if !failing && err != nil {
				t.Count("slow answers that are not waited for", 1)
			}
			if !failing {
				// What is given up may still be under way.
				n := func() int { _, a, b := s.count(); return a + b }
				t.WaitFor(130*time.Second, func() bool { return n() > 0 })
				time.Sleep(300 * time.Millisecond)
				m := map[bool]map[string]int{true: {}, false: {}}
				m[sign][desc]++
				s.tally(what, m[false], m[true])
			}
			t.State("slow", d, failing, sign)
			t.Eval(1)
		}()
	}
	wg.Wait()
}

// c24Late: the client starts before Sisu, or Sisu answers with errors at first.
func c24Late(t *T) {
	var wg sync.WaitGroup
	n := 12
	if t.Thorough() {
		n = 100
	}
	for i := 0; i < n; i++ {
		i := i
		rng := t.Sub()
		wg.Add(1)
		go func() {
			defer wg.Done()
			scheme := []string{"http", "http", "ws"}[i%3]
			failing := i%4 == 1 && scheme == "http"
			what := fmt.Sprintf("the client starts before Sisu, %s, Sisu fails at first: %v", scheme, failing)
			addr := fmt.Sprintf("127.0.0.1:%d", freePorts(1)[0])
			c := client.NewClient(scheme + "://" + addr)
			for j := 0; j < 2; j++ {
				if err, _ := post(t, c, rng, j == 0, what); err == nil {
					t.Viol("C24", "success:unconnected", "%s: posting without a connection returns no error", what)
				}
			}
			done := make(chan bool)
			go func() { c.TryDial(); close(done) }()
			until := time.Now().Add(time.Duration(rng.Intn(14000)) * time.Millisecond)
			for time.Now().Before(until) {
				if err, _ := post(t, c, rng, rng.Intn(2) == 0, what); err == nil {
					t.Viol("C24", "success:unconnected", "%s: posting while Sisu is away returns no error", what)
				}
				t.Count("posts without a connection", 1)
				select {
				case <-done:
					t.Viol("C24", "connected-to-nothing", "%s: the client stops dialing though nothing was there", what)
				default:
				}
				time.Sleep(time.Duration(rng.Intn(400)) * time.Millisecond)
			}
			s := startSisu(t, addr)
			defer s.stop()
			if failing {
				s.mode.Store([]string{"error", "500", "hangup", "nomethod"}[rng.Intn(4)])
				time.Sleep(time.Duration(10500+rng.Intn(3000)) * time.Millisecond)
				select {
				case <-done:
					t.Viol("C24", "connected-to-failing", "%s: the client stops dialing though Sisu fails", what)
				default:
				}
				s.mode.Store("")
			}
			if !t.Within(30*time.Second, func() { <-done }) {
				t.Live("C24", "connect", "%s: the client is not connected 30 s after Sisu has started", what)
				return
			}
			s.mu.Lock()
			s.kgs, s.kss = nil, nil // those from before it noticed
			s.mu.Unlock()
			kgs, kss := map[string]int{}, map[string]int{}
			for j := 0; j < 3; j++ {
				err, d := post(t, c, rng, j%2 == 0, what)
				if err != nil {
					t.Viol("C24", "error-connected", "%s: posting fails when the client is connected: %v", what, err)
				}
				map[bool]map[string]int{true: kss, false: kgs}[j%2 == 0][d]++
			}
			s.tally(what, kgs, kss)
			t.State("late", scheme, failing, i)
			t.Count("late servers", 1)
		}()
	}
	wg.Wait()
}

// c24Restart: the server is stopped and started again while results are posted.
func c24Restart(t *T) {
	for k := 0; t.More(k, 12, 300); k++ {
		rng := t.Sub()
		scheme := []string{"http", "ws"}[k%2]
		what := "Sisu restarts, " + scheme
		t.SetCase(what)
		s := startSisu(t, "")
		c := dialNow(t, scheme+"://"+s.addr)
		if c == nil {
			s.stop()
			return
		}
		var wg sync.WaitGroup
		var stop int32
		var mu sync.Mutex
		kgs, kss := map[string]int{}, map[string]int{}
		mkgs, mkss := map[string]int{}, map[string]int{} // posted with an error
		for g := 0; g < 3; g++ {
			r := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for atomic.LoadInt32(&stop) == 0 {
					sign := r.Intn(2) == 0
					err, d := post(t, c, r, sign, what)
					mu.Lock()
					switch {
					case sign && err == nil:
						kss[d]++
					case sign:
						mkss[d]++
					case err == nil:
						kgs[d]++
					default:
						mkgs[d]++
					}
					mu.Unlock()
					t.Count(fmt.Sprintf("posts around a restart, error: %v", err != nil), 1)
					time.Sleep(time.Millisecond)
				}
			}()
		}
		time.Sleep(time.Duration(10+rng.Intn(60)) * time.Millisecond)
		s.stop()
		time.Sleep(time.Duration(rng.Intn(80)) * time.Millisecond)
		addr := s.addr
		s.listen(addr)
		// It works again.
		var err error
		if !t.WaitFor(20*time.Second, func() bool {
			sign := rng.Intn(2) == 0
			var d string
			err, d = post(t, c, rng, sign, what)
			mu.Lock()
			defer mu.Unlock()
			if sign {
				mkss[d]++
			} else {
				mkgs[d]++
			}
			return err == nil
		}) {
			t.Live("C24", "no-recovery:restart:"+scheme, "%s: posting fails 20 s after the restart: %v", what, err)
		}
		time.Sleep(10 * time.Millisecond)
		atomic.StoreInt32(&stop, 1)
		wg.Wait()
		// What was posted with an error may have arrived once.
		s.mu.Lock()
		for i := range s.kgs {
			if d := flat(&s.kgs[i]); mkgs[d] > 0 {
				mkgs[d]--
				kgs[d]++
			}
		}
		for i := range s.kss {
			if d := flat(&s.kss[i]); mkss[d] > 0 {
				mkss[d]--
				kss[d]++
			}
		}
		s.mu.Unlock()
		s.tally(what, kgs, kss)
		s.stop()
		t.State("restart", scheme, k)
		t.Count("restarts", 1)
	}
}
