//go:build !race

package rt

const Race = false

func raceOff() {}
func raceOn()  {}

func RaceErrors() int { return 0 }
