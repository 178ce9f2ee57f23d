//go:build race

package vrace

import "runtime"

// Enabled: this binary has the race detector.
const Enabled = true

// Hide: until Show, what the calling goroutine does is not taken for
// synchronisation by the race detector.
func Hide() { runtime.RaceDisable() }

// Show ends Hide.
func Show() { runtime.RaceEnable() }

// Count is the number of races reported so far in this process.
func Count() int { return runtime.RaceErrors() }
