package main

import "strings"

// raceRec tells which maps others used while a goroutine paused at a statement: using one of them
// in that statement, without a lock in between, is what the Go runtime ends the program for
// ("concurrent map writes"), as both could have been at it at once.
type raceRec struct {
	g      *gor
	paused bool
	open   bool // g is in the statement it paused at
	acc    map[*Map]uint8
}

// raceShut ends the statement.
func (m *M) raceShut() {
	if m.race != nil && m.race.open && m.g == m.race.g {
		m.race.open = false
	}
}

// mapAcc notes the use of a map.
func (m *M) mapAcc(mp *Map, write bool) {
	r := m.race
	if r == nil || mp == nil {
		return
	}
	if m.fr.fn.fn != nil && strings.Contains(m.p.fset.Position(m.fr.fn.fn.Pos()).Filename, "zz_verif") {
		return
	}
	switch {
	case r.paused && m.g != r.g:
		if write {
			r.acc[mp] |= 2
		} else {
			r.acc[mp] |= 1
		}
	case r.open && m.g == r.g:
		if a := r.acc[mp]; a&2 != 0 || write && a != 0 {
			if m.spec {
				panic(specAbort{})
			}
			m.violationAt("map-race", m.model, "concurrent use of a map")
		}
	}
}
