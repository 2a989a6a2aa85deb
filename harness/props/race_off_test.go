//go:build !race

package props

func raceErrors() int { return 0 }

const raceOn = false
