//go:build go1.21 && !race

package vsched

import "unsafe"

const Race = false

func raceDisable()                  {}
func raceEnable()                   {}
func Acquire(p unsafe.Pointer)      {}
func Release(p unsafe.Pointer)      {}
func ReleaseMerge(p unsafe.Pointer) {}
