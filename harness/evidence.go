package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"
)

type evidence struct {
	prop, tier string
	seed       int64
	check      *Check
	evals      int64
	states     map[uint64]bool
	counters   map[string]int64
	samples    []interface{}
	units      []map[string]interface{}
	known      int
	violations int
	inconcl    []string
	maxGap     int64
}

func newEvidence(prop, tier string, seed int64, c *Check) *evidence {
	return &evidence{prop: prop, tier: tier, seed: seed, check: c, states: map[uint64]bool{}, counters: map[string]int64{}}
}

func (e *evidence) add(r *unitResult) {
	e.evals += r.rep.Evaluations
	for _, s := range r.rep.States {
		e.states[s] = true
	}
	for k, v := range r.rep.Counters {
		e.counters[k] += v
	}
	if len(e.samples) < 12 {
		for i, s := range r.rep.Samples {
			if i < 2 {
				e.samples = append(e.samples, map[string]interface{}{"unit": r.unit.Name, "case": s})
			}
		}
	}
	for _, s := range r.rep.Inconclusive {
		e.inconcl = append(e.inconcl, r.unit.Name+": "+s)
	}
	if r.rep.MaxGapMs > e.maxGap {
		e.maxGap = r.rep.MaxGapMs
	}
	if len(e.races(r)) > 0 {
		e.counters["race reports outside of the code under test"] += int64(len(e.races(r)))
	}
	e.units = append(e.units, map[string]interface{}{"unit": r.unit.Name, "evaluations": r.rep.Evaluations,
		"distinct": len(r.rep.States), "wall_s": float64(int(r.elapsed.Seconds()*10)) / 10})
}

func (e *evidence) races(r *unitResult) []raceReport {
	var res []raceReport
	for _, x := range r.races {
		if !x.mine {
			res = append(res, x)
		}
	}
	return res
}

func (e *evidence) write(wall time.Duration) {
	units := e.units
	if len(units) > 80 {
		units = units[:80]
	}
	if e.samples == nil {
		e.samples = []interface{}{}
	}
	cov := map[string]interface{}{
		"evaluations": e.evals, "distinct_nontrivial": len(e.states), "rule": e.check.Rule,
		"samples": e.samples, "observed": e.counters, "units": units, "longest_pause_ms": e.maxGap,
	}
	if len(e.inconcl) > 0 {
		if len(e.inconcl) > 20 {
			e.inconcl = e.inconcl[:20]
		}
		cov["inconclusive"] = e.inconcl
	}
	doc := map[string]interface{}{
		"property": e.prop, "tier": e.tier, "seed": e.seed, "level": e.check.Level, "coverage": cov,
		"wall_s": wall.Seconds(), "violations": e.violations,
	}
	if e.known > 0 {
		cov["known_findings_seen"] = e.known
	}
	if len(e.check.Assumptions) > 0 {
		doc["assumptions"] = e.check.Assumptions
	}
	bz, err := json.MarshalIndent(doc, "", " ")
	for err == nil && len(bz) > 60000 && len(e.samples) > 1 {
		e.samples = e.samples[:len(e.samples)/2]
		cov["samples"] = e.samples
		cov["units"] = len(e.units)
		bz, err = json.MarshalIndent(doc, "", " ")
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0755)
	os.WriteFile(filepath.Join(dir, e.prop+".json"), bz, 0644)
}
