package main

import (
	"regexp"
	"sort"
	"strings"
)

type raceReport struct {
	mine bool
	key  string
	text string
}

var frameRe = regexp.MustCompile(`^  ([^\s(].*)\(.*\)$`)

// parseRaces splits the log of the race detector. A report belongs to the code under test if one of
// the two accesses is made by a function of it or, further down, on behalf of it, and none of them
// by the harness itself.
func parseRaces(log string) []raceReport {
	var res []raceReport
	for _, block := range strings.Split(log, "==================") {
		if !strings.Contains(block, "WARNING: DATA RACE") {
			continue
		}
		var sections [][]string
		var cur []string
		for _, line := range strings.Split(block, "\n") {
			switch {
			case strings.HasPrefix(line, "Read at"), strings.HasPrefix(line, "Write at"),
				strings.HasPrefix(line, "Previous read at"), strings.HasPrefix(line, "Previous write at"),
				strings.HasPrefix(line, "Previous atomic"), strings.HasPrefix(line, "Atomic"):
				if cur != nil {
					sections = append(sections, cur)
				}
				cur = []string{}
			case strings.HasPrefix(line, "Goroutine "):
				if cur != nil {
					sections = append(sections, cur)
				}
				cur = nil
			default:
				if cur != nil {
					if m := frameRe.FindStringSubmatch(line); m != nil {
						cur = append(cur, m[1])
					}
				}
			}
		}
		if cur != nil {
			sections = append(sections, cur)
		}
		mine := false
		var tops []string
		for _, s := range sections {
			// the closest frame that is the harness or the code under test decides whose access it is
			who := ""
			for _, f := range s {
				if strings.HasPrefix(f, "main.") {
					who = "harness"
					break
				}
				if strings.HasPrefix(f, "github.com/sisu-network/dheart/") {
					who = strings.TrimPrefix(f, "github.com/sisu-network/dheart/")
					break
				}
			}
			if who != "" && who != "harness" {
				mine = true
			}
			tops = append(tops, who)
		}
		for _, w := range tops {
			if w == "harness" {
				mine = false
			}
		}
		// Whose the other access is, is not known: it may be the harness's.
		if strings.Contains(block, "failed to restore the stack") {
			mine = false
		}
		sort.Strings(tops)
		res = append(res, raceReport{mine: mine, key: strings.Join(tops, "+"), text: block})
	}
	return res
}
