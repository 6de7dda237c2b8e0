package main

import (
	"fmt"
	"sync"
	"time"

	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/utils"
)

func init() {
	register(&Check{
		ID:          "C20",
		Rule:        "a case is distinct by group size, kind of signing, number of nodes online, position of the leader and delay of the starts",
		Assumptions: []string{"the default settings of the repository (selection 15 s and 30 s)", "messages between online nodes take at most 50 ms; nodes that are offline neither receive nor send"},
		Units: func(tier string, seed int64) []Unit {
			return []Unit{{Name: "formula", Run: c20Formula}, {Name: "ed", Run: func(t *T) { c20Run(t, "edsign") }, Timeout: 400 * time.Second},
				{Name: "ec", Run: func(t *T) { c20Run(t, "ecsign") }, Timeout: 400 * time.Second}}
		},
	})
}

func c20Formula(t *T) {
	max := t.Pick(20000, 1000000)
	for n := 1; n <= max; n++ {
		// The smallest number of nodes that is at least two thirds.
		k := 1
		if n > 1 {
			k = 2 * n / 3
			for 3*k < 2*n {
				k++
			}
		}
		got := utils.GetThreshold(n) + 1
		t.Eval(1)
		if got != k {
			t.Viol("C20", "formula", "of %d nodes, %d sign instead of %d", n, got, k)
		}
		if n < 2000 {
			t.State("n", n)
		}
	}
}

func c20Run(t *T, kind string) {
	type cs struct {
		n, online    int
		leaderOnline bool
		late         time.Duration
		presigns     bool
	}
	var cases []cs
	rng := t.Sub()
	top := 7
	if kind == "ecsign" {
		top = 4
	}
	if t.Thorough() {
		top += 3
	}
	for n := 2; n <= top; n++ {
		q := (2*n + 2) / 3
		for online := 1; online <= n; online++ {
			if online > q && !t.Thorough() && online < n {
				continue
			}
			if online < q-1 && !t.Thorough() {
				continue
			}
			cases = append(cases, cs{n: n, online: online, leaderOnline: true, late: time.Duration(rng.Intn(8000)) * time.Millisecond})
			if online >= 1 && online < n {
				cases = append(cases, cs{n: n, online: online, leaderOnline: true, presigns: kind == "ecsign"})
				if t.Thorough() || rng.Intn(3) == 0 {
					cases = append(cases, cs{n: n, online: online, leaderOnline: false})
				}
			}
		}
	}
	slots := make(chan bool, t.Pick(20, 12))
	var wg sync.WaitGroup
	for _, c := range cases {
		c := c
		rng := t.Sub()
		wg.Add(1)
		slots <- true
		go func() {
			defer wg.Done()
			defer func() { <-slots }()
			thr := utils.GetThreshold(c.n)
			leaderNode := rng.Intn(c.n)
			on := []int{}
			if c.leaderOnline {
				on = append(on, leaderNode)
			}
			for _, i := range rng.Perm(c.n) {
				if i != leaderNode && len(on) < c.online {
					on = append(on, i)
				}
			}
			off := map[int]bool{}
			isOn := map[int]bool{}
			for _, i := range on {
				isOn[i] = true
			}
			none := map[int]bool{}
			for i := 0; i < c.n; i++ {
				off[i] = !isOn[i]
				none[i] = true
			}
			cfg := config.NewDefaultTimeoutConfig()
			cl := newCluster(t, rng, Opts{N: c.n, Thr: thr, Ec: kind == "ecsign", Ed: kind == "edsign", NoEngine: none, Policy: immediate})
			defer cl.Close()
			if c.presigns {
				// Presigns of a set that is not online.
				com := sortedInts(append([]int{leaderNode}, othersOf(cl.all(), leaderNode)...)[:thr+1])
				if off[com[0]] || off[com[len(com)-1]] {
					cl.givePresigns("pre", com, dealPresigns(cl.Members, cl.Ec, com, thr, 1))
				}
			}
			for _, i := range on {
				cl.Up(i, cfg)
			}
			w := &Work{Id: cl.idWithLeader(rng, leaderNode), Kind: kind, Msgs: randMsgs(rng, kind, 1)}
			for _, i := range on {
				i := i
				d := time.Duration(0)
				if c.late > 0 {
					d = time.Duration(rng.Int63n(int64(c.late)))
				}
				time.AfterFunc(d, func() {
					if i == leaderNode && kind == "ecsign" && len(on) > 1 {
						go repeatAnswers(cl, w, leaderNode, on, cfg.SelectionLeaderTimeout)
					}
					cl.mustSubmit(w, i)
				})
			}
			cl.Wait(w, on, 75*time.Second)
			cl.Quiesce(50*time.Millisecond, 2*time.Second)
			succ, fail, notSel := cl.tally(w)
			desc := fmt.Sprintf("%s: %d of %d nodes online (%v, leader %d), started within %v", kind, len(on), c.n, on, leaderNode, c.late)
			t.Eval(1)
			t.State(kind, c.n, c.online, c.leaderOnline, c.presigns, c.late > 0, fmt.Sprint(on), leaderNode)
			q := (2*c.n + 2) / 3
			if c.leaderOnline && c.online >= q {
				t.Count("runs with enough nodes", 1)
				if len(succ) != q || len(fail) > 0 || len(notSel) != c.online-q {
					t.add(Viol{Prop: "C20", Key: kind + ":enough-but-failed", Liveness: true, Detail: cl.workDetail(w),
						Msg: fmt.Sprintf("%s: success on %v, failure on %v, not selected %v", desc, succ, fail, notSel)})
				}
			} else if c.online < q {
				t.Count("runs with too few nodes", 1)
				if len(succ) > 0 {
					t.add(Viol{Prop: "C20", Key: kind + ":too-few-but-signed", Detail: cl.workDetail(w), Msg: fmt.Sprintf("%s: success on %v", desc, succ)})
				} else if len(fail) != len(on) {
					t.add(Viol{Prop: "C20", Key: kind + ":too-few-no-failure", Liveness: true, Detail: cl.workDetail(w),
						Msg: fmt.Sprintf("%s: failure on %v, not selected %v", desc, fail, notSel)})
				}
			} else {
				t.Count("runs without the leader", 1)
			}
			cl.monitors([]*Work{w})
			t.Sample(desc)
		}()
	}
	wg.Wait()
}

// repeatAnswers lets answers of the members that are online arrive again when the wait of the leader ends.
func repeatAnswers(cl *Cluster, w *Work, leader int, on []int, wait time.Duration) {
	start := time.Now()
	var data [][]byte
	var from []string
	for _, i := range on {
		if i != leader {
			m := common.NewAvailabilityResponseMessage(cl.Members[i].Id, cl.Members[leader].Id, w.Id, common.AvailabilityResponseMessage_YES, 1)
			data, from = append(data, cl.signed(i, m)), append(from, cl.Members[i].Id)
		}
	}
	time.Sleep(wait - 4*time.Millisecond - time.Since(start))
	for time.Since(start) < wait+8*time.Millisecond && len(cl.of(w)[leader]) == 0 {
		for j := range data {
			cl.deliver(from[j], leader, data[j], nil)
		}
		cl.t.Count("answers at the end of the wait", len(data))
	}
}
