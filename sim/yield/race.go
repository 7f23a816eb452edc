//go:build race

package yield

import "runtime"

func raceDisable()    { runtime.RaceDisable() }
func raceEnable()     { runtime.RaceEnable() }
func RaceErrors() int { return runtime.RaceErrors() }

const RaceBuild = true
