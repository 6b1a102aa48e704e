//go:build !race

package main

func raceRounds(a, b int) {}
