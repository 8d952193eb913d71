package h

import (
	"math/big"

	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// durIs asserts that d is secs whole seconds and nanos (< 10^9) nanoseconds.
func durIs(d gost.Duration, secs uint64, nanos uint32, what string) {
	nd.Assert(uint64(d.AsSecs()) == secs, what+": AsSecs")
	nd.Assert(uint32(d.SubsecNanos()) == nanos, what+": SubsecNanos")
	nd.Assert(uint32(d.SubsecMicros()) == nanos/1000, what+": SubsecMicros")
	nd.Assert(uint32(d.SubsecMillis()) == nanos/1000000, what+": SubsecMillis")
	nd.Assert(bool(d.IsZero()) == (secs == 0 && nanos == 0), what+": IsZero")
	// the totals, from the mathematical value secs*10^9 + nanos
	total := func(perSec uint64, sub uint32) *big.Int {
		// secs*perSec as the sum of shifted addends
		r := new(big.Int)
		for i := uint(0); i < 32; i++ {
			if perSec>>i&1 == 1 {
				r.Add(r, new(big.Int).Lsh(new(big.Int).SetUint64(secs), i))
			}
		}
		return r.Add(r, new(big.Int).SetUint64(uint64(sub)))
	}
	nd.Assert(isU(d.AsMillis(), total(1000, nanos/1000000)), what+": AsMillis")
	nd.Assert(isU(d.AsMicros(), total(1000000, nanos/1000)), what+": AsMicros")
	nd.Assert(isU(d.AsNanos(), total(1000000000, nanos)), what+": AsNanos")
}

func H_C29_New() {
	nd.Bound("every number of seconds and every 32-bit number of nanoseconds")
	s, n := nd.U64("secs"), nd.U32("nanos")
	carry := uint64(n / 1000000000)
	var d gost.Duration
	p := nd.Catch(func() { d = gost.DurationNew(gost.U64(s), gost.U32(n)) })
	over := s > ^uint64(0)-carry
	nd.Assert(p == over, "DurationNew: panics exactly when the seconds overflow")
	if p {
		return
	}
	durIs(d, s+carry, n%1000000000, "DurationNew")
}

func H_C29_Secs() {
	nd.Bound("every 64-bit number of seconds")
	s := nd.U64("secs")
	durIs(gost.DurationFromSecs(gost.U64(s)), s, 0, "DurationFromSecs")
}

func H_C29_Millis() {
	nd.Bound("every 64-bit number of milliseconds")
	n := nd.U64("millis")
	durIs(gost.DurationFromMillis(gost.U64(n)), n/1000, uint32(n%1000)*1000000, "DurationFromMillis")
}

func H_C29_Micros() {
	nd.Bound("every 64-bit number of microseconds")
	n := nd.U64("micros")
	durIs(gost.DurationFromMicros(gost.U64(n)), n/1000000, uint32(n%1000000)*1000, "DurationFromMicros")
}

func H_C29_Nanos() {
	nd.Bound("every 64-bit number of nanoseconds")
	n := nd.U64("nanos")
	durIs(gost.DurationFromNanos(gost.U64(n)), n/1000000000, uint32(n%1000000000), "DurationFromNanos")
}

// building from a unit and reading the same unit back loses nothing
func H_C29_RoundTrip() {
	nd.Bound("every 64-bit count of each unit")
	n := nd.U64("n")
	w := bigU(0, n)
	switch nd.Choice("unit", 4) {
	case 0:
		nd.Assert(uint64(gost.DurationFromSecs(gost.U64(n)).AsSecs()) == n, "seconds back")
	case 1:
		nd.Lemma(n/1000*1000+n%1000 == n)
		nd.Assert(isU(gost.DurationFromMillis(gost.U64(n)).AsMillis(), w), "milliseconds back")
	case 2:
		nd.Assert(isU(gost.DurationFromMicros(gost.U64(n)).AsMicros(), w), "microseconds back")
	case 3:
		nd.Assert(isU(gost.DurationFromNanos(gost.U64(n)).AsNanos(), w), "nanoseconds back")
	}
}
