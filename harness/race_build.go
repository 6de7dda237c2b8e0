//go:build race
// +build race

package main

import "runtime"

// raceOff and raceOn enclose what the harness synchronizes for itself: for the race detector, it does
// not order what the code under test does.
func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }
