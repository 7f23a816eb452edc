//go:build !race

package yield

func raceDisable()    {}
func raceEnable()     {}
func RaceErrors() int { return 0 }

const RaceBuild = false
