package main

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/types/common"
)

func init() {
	register(&Check{
		ID:   "C06",
		Rule: "a case is distinct by work kind, pattern of loss, round type, nodes concerned and the set of messages that were lost; runs in which nothing was lost do not count",
		Assumptions: []string{"the selection messages are delivered", "transmissions succeed again after the first one or two of a message, unless another holder of a broadcast can pass it on",
			"the monitor timeout is shortened (300 to 500 ms) while the timeout of a work stays at 100 s"},
		Units: func(tier string, seed int64) []Unit {
			us := []Unit{}
			for i := 0; i < 3; i++ {
				i := i
				us = append(us, Unit{Name: fmt.Sprintf("ed-%d", i), Run: func(t *T) { c06Run(t, i, 3, 14, []string{"edsign", "edgen"}) }})
			}
			for i := 0; i < 3; i++ {
				i := i
				us = append(us, Unit{Name: fmt.Sprintf("ecsign-%d", i), Run: func(t *T) { c06Run(t, i, 3, 8, []string{"ecsign"}) }})
			}
			us = append(us, Unit{Name: "ecgen-0", Run: func(t *T) { c06Run(t, 0, 2, 4, []string{"ecgen"}) }},
				Unit{Name: "ecgen-1", Run: func(t *T) { c06Run(t, 1, 2, 4, []string{"ecgen"}) }},
				Unit{Name: "rounds", Run: c06Rounds},
				Unit{Name: "presigned", Run: func(t *T) { c06Run(t, 0, 1, 10, []string{"presigned"}) }})
			return us
		},
	})
}

// The types of the round messages of a work, by the end of their names.
var roundTypes = map[string][]string{
	"edsign":    {"SignRound1Message", "SignRound2Message", "SignRound3Message"},
	"edgen":     {"KGRound1Message", "KGRound2Message1", "KGRound2Message2"},
	"ecgen":     {"KGRound1Message", "KGRound2Message1", "KGRound2Message2", "KGRound3Message"},
	"ecsign":    {"SignRound1Message1", "SignRound1Message2", "SignRound2Message", "SignRound3Message", "SignRound4Message", "SignRound5Message", "SignRound6Message", "SignRound7Message"},
	"presigned": {"SignRound7Message"},
}

var lossPatterns = []string{"link", "to-one", "from-one", "all", "relay", "twice", "random", "two-rounds", "errors", "answers", "every", "slow-answers"}

type lossCase struct{ kind, pattern, round string }

// lossCases are all combinations. The order is the same in every run but starts elsewhere.
func lossCases(kinds []string) []lossCase {
	var res []lossCase
	for _, k := range kinds {
		for _, p := range lossPatterns {
			for _, r := range roundTypes[k] {
				res = append(res, lossCase{k, p, r})
			}
		}
	}
	rand.New(rand.NewSource(42)).Shuffle(len(res), func(i, j int) { res[i], res[j] = res[j], res[i] })
	return res
}

func c06Run(t *T, part, parts, quick int, kinds []string) {
	cases := lossCases(kinds)
	start := int(uint64(t.Seed)%1000) * quick
	for k := 0; t.More(k, quick, 6*len(cases)/parts); k++ {
		c := cases[((start+k)*parts+part)%len(cases)]
		if k == 0 {
			c.pattern = "all"
		}
		c06Case(t, c)
	}
}

// c06Rounds: two whole rounds of a large committee are lost. The intervals of the questions and the time of
// the work have the proportion of the default settings.
func c06Rounds(t *T) {
	for k := 0; t.More(k, 2, 20); k++ {
		rng := t.Sub()
		def := config.NewDefaultTimeoutConfig()
		cfg := fastTimeouts()
		cfg.MonitorMessageTimeout = time.Second
		scale := float64(cfg.MonitorMessageTimeout) / float64(def.MonitorMessageTimeout)
		cfg.SigningJobTimeout = time.Duration(float64(def.SigningJobTimeout) * scale)
		n := 8 + rng.Intn(2)
		r := rng.Perm(3)
		x, y := roundTypes["edsign"][r[0]], roundTypes["edsign"][r[1]]
		lost := int64(0)
		// In half of the cases the messages of one node arrive.
		lucky := -1
		if k%2 == 1 {
			lucky = rng.Intn(n)
		}
		pol := faulty(immediate, func(s *Send, nth int) bool {
			return nth == 1 && s.Msg != nil && isUpdate(s) && s.From != lucky && (short(s.Round()) == x || short(s.Round()) == y)
		}, func(s *Send) { atomic.AddInt64(&lost, 1) })
		cl := newCluster(t, rng, Opts{N: n, Thr: n - 1, Ed: true, Cfg: &cfg, Policy: pol})
		w := &Work{Id: uniqueId(rng), Kind: "edsign", Msgs: randMsgs(rng, "edsign", 1)}
		cl.request(w, 0)
		t.SetCase(fmt.Sprintf("edsign of %d nodes: lost all of the rounds %s and %s but those of node %d", n, x, y, lucky))
		for i := 0; i < n; i++ {
			cl.mustSubmit(w, i)
		}
		cl.Wait(w, cl.all(), cfg.SigningJobTimeout+10*time.Second)
		cl.Quiesce(30*time.Millisecond, time.Second)
		t.Eval(1)
		cl.monitors([]*Work{w})
		t.Count("messages lost", int(atomic.LoadInt64(&lost)))
		t.State("rounds", n, x, y)
		t.Debug("%v: %v", t.cur, time.Since(cl.start))
		cl.checkAllSucceed("C06", w, "edsign:not-recovered:rounds")
		cl.Close()
	}
}

func c06Case(t *T, c lossCase) {
	rng := t.Sub()
	n := 3 + rng.Intn(2)
	if c.kind == "ecgen" {
		n = 3
	}
	thr := 1 + rng.Intn(n-1)
	if c.pattern == "relay" && c.kind != "ecgen" && c.kind != "edgen" {
		thr = 2 + rng.Intn(n-2) // there is a third member of the committee
	}
	cfg := fastTimeouts()
	cfg.MonitorMessageTimeout = 300 * time.Millisecond
	if c.kind == "ecgen" {
		cfg.MonitorMessageTimeout = 500 * time.Millisecond
	}
	kind := c.kind
	o := Opts{N: n, Thr: thr, Cfg: &cfg, KeepData: true, Ed: kind == "edsign", Ec: kind == "ecsign" || kind == "presigned", Pre: kind == "ecgen"}
	batch := 1 + rng.Intn(3)
	if kind == "presigned" {
		kind = "ecsign"
		o.Before = func(cl *Cluster) {
			committee := sortedInts(rng.Perm(n)[:thr+1])
			cl.givePresigns("pre"+uniqueId(rng), committee, dealPresigns(cl.Members, cl.Ec, committee, thr, batch))
		}
	}
	a := rng.Intn(n)
	b := (a + 1 + rng.Intn(n-1)) % n
	second := roundTypes[c.kind][rng.Intn(len(roundTypes[c.kind]))]
	p := 0.2 + 0.6*rng.Float64()
	r := newLocked(rng)
	times := 1
	if c.pattern == "twice" {
		times = 2
	}
	private := func(s *Send) bool { return s.Msg.TssMessage.To != "" }
	var cl *Cluster
	fromAuthor := func(s *Send) bool { return cl.byId[s.Msg.TssMessage.From] == s.From }
	match := func(s *Send) bool {
		rd := short(s.Round())
		switch c.pattern {
		case "link":
			return rd == c.round && s.To == b && cl.byId[s.Msg.TssMessage.From] == a
		case "to-one":
			return s.To == b
		case "from-one":
			return cl.byId[s.Msg.TssMessage.From] == a
		case "all", "errors", "answers", "slow-answers":
			return rd == c.round
		case "twice":
			return rd == c.round && (s.To == b || r.Float() < 0.3)
		case "random":
			return r.Float() < p
		case "two-rounds":
			return rd == c.round || rd == second
		case "every":
			return true
		}
		return false
	}
	var mu sync.Mutex
	lost := map[string]int{}
	fixed := false
	drop := func(s *Send, nth int) bool {
		if s.Msg == nil {
			return false
		}
		if c.pattern == "answers" && s.Msg.TssMessage.Type == common.TssMessage_ASK_MESSAGE_REQUEST {
			return nth == 1 // the first question is lost, too
		}
		if !isUpdate(s) {
			return false
		}
		// The nodes concerned are of the committee.
		mu.Lock()
		if rd := short(s.Round()); !fixed && rd == c.round && (c.pattern == "link" || c.pattern == "to-one" || c.pattern == "relay" && !private(s)) {
			fixed, a, b = true, s.From, s.To
		}
		mu.Unlock()
		if c.pattern == "relay" {
			// The author never reaches the receiver with a broadcast of this round (of any round in half of
			// the cases), but others do.
			return !private(s) && fromAuthor(s) && s.From == a && s.To == b && (short(s.Round()) == c.round || p > 0.5)
		}
		return nth <= times && match(s)
	}
	isLost := func(s *Send) {
		if isUpdate(s) {
			mu.Lock()
			lost[fmt.Sprintf("%d-%d %s", s.From, s.To, short(s.Round()))]++
			mu.Unlock()
		}
	}
	inner := immediate
	if c.pattern == "slow-answers" {
		// Answers take longer than the interval of the questions.
		inner = func(s *Send) []time.Duration {
			if isUpdate(s) && (s.At > 0 && r.Float() < 0.5) {
				return []time.Duration{time.Duration(r.Intn(int(2 * cfg.MonitorMessageTimeout)))}
			}
			return []time.Duration{0}
		}
	}
	pol := faulty(inner, drop, isLost)
	o.Policy = pol
	noEngine := map[int]bool{}
	for i := 0; i < n; i++ {
		noEngine[i] = true
	}
	o.NoEngine = noEngine
	cl = newCluster(t, rng, o)
	defer cl.Close()
	if c.pattern == "errors" {
		cl.sendErr = true
	}
	for i := 0; i < n; i++ {
		cl.Up(i, cfg)
	}
	w := &Work{Id: uniqueId(rng), Kind: kind}
	if kind == "ecsign" || kind == "edsign" {
		w.Msgs = randMsgs(rng, kind, batch)
	}
	cl.request(w, 0)
	t.SetCase(fmt.Sprintf("%s of %d nodes, threshold %d: lost %s, round %s, nodes %d and %d", c.kind, n, thr, c.pattern, c.round, a, b))
	for i := 0; i < n; i++ {
		cl.mustSubmit(w, i)
	}
	cl.Wait(w, cl.all(), 30*time.Second)
	cl.Quiesce(30*time.Millisecond, time.Second)
	t.Eval(1)
	cl.monitors([]*Work{w})
	mu.Lock()
	nLost := len(lost)
	ls := fmt.Sprint(lost)
	mu.Unlock()
	asks, relays := 0, 0
	for _, s := range cl.Sends() {
		if s.Msg == nil {
			continue
		}
		if s.Msg.TssMessage.Type == common.TssMessage_ASK_MESSAGE_REQUEST {
			asks++
		}
		if isUpdate(s) && !fromAuthor(s) {
			relays++
		}
	}
	t.Count("messages lost", nLost)
	t.Count("questions observed", asks)
	t.Count("broadcasts passed on by another node", relays)
	t.Debug("%v: %d lost, %d asks, %d relays, %v", t.cur, nLost, asks, relays, time.Since(cl.start).Round(time.Millisecond))
	if nLost > 0 {
		t.State(c.kind, c.pattern, c.round, n, thr, ls)
		t.Count("works with losses: "+c.kind, 1)
		t.Count("works with losses, pattern "+c.pattern, 1)
	}
	t.Sample(t.cur)
	cl.checkAllSucceed("C06", w, c.kind+":not-recovered:"+c.pattern)
}
