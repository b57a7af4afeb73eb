//go:build verifclock
// +build verifclock

package main

import "time"

// The clock of this binary can be set (built with an overlay of package time).

func init() {
	setClock = func(t time.Time) { time.VerifNow = func() time.Time { return t } }
	runClock = func(t time.Time, by time.Duration) {
		n := time.Duration(-1)
		time.VerifNow = func() time.Time { n++; return t.Add(n * by) }
	}
}
