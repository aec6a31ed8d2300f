//go:build !race
// +build !race

package main

const vRace = false
