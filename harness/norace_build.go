//go:build !race
// +build !race

package main

func raceOff() {}
func raceOn()  {}
