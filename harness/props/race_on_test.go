//go:build race

package props

import "runtime"

// raceErrors is the number of data races the race detector has reported.
func raceErrors() int { return runtime.RaceErrors() }

const raceOn = true
