//go:build !race

package vsched

import "unsafe"

const RaceEnabled = false

func raceDisable()                 {}
func raceEnable()                  {}
func RaceAcquire(_ unsafe.Pointer) {}
func RaceRelease(_ unsafe.Pointer) {}
func raceErrors() int              { return 0 }
