//go:build !race

package main

const raceBuild = false

func raceEnter() uintptr       { return 0 }
func raceLeave(uintptr)        {}
func raceStart()               {}
func raceJoin()                {}
func raceEnd()                 {}
func raceVerdict(r *RunResult) {}
