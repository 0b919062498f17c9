package cw

import (
	"github.com/ftl/digimodes/cw"
)

//verif:include keying.go
//verif:bound keyings of up to 2 (quick) / 3 (thorough) marks from a new decoder, marks and gaps of any length from a single sample to 400 samples (dit of 6 samples)

//verif:harness vHarness_history mode=arith merge=2 mapFork=1 p.n=2/3 budget=150/300
func vHarness_history() {
	k := vNewKeyer(48000, 512)
	n := vParam("n", 2)
	for i := 0; i < n; i++ {
		for _, on := range []bool{true, false} {
			if vChoose("single sample", 2) == 1 {
				k.d.Tick(on)
			} else {
				k.run(on, vTicks("length", 2, 400))
			}
			chars := 0
			for _, r := range k.out.s {
				if r != ' ' {
					chars++
				}
			}
			vAssert(chars <= i+1, "every character stands for at least one mark")
		}
	}
	k.run(false, 100000)
	for _, r := range k.out.s {
		_, ok := cw.Code[r]
		vAssert(ok || r == ' ' || r == unknownCharacter, "only characters of the table, spaces and the marker are written")
	}
	done := k.out.s
	k.run(false, 1000)
	k.d.stop()
	vAssert(k.out.s == done, "nothing is pending after a long pause")
	vReach("end")
}

//verif:harness vHarness_idle mode=arith merge=0 mapFork=1 budget=60
func vHarness_idle() {
	// what run does is what ticking does
	a, b := vNewKeyer(48000, 512), vNewKeyer(48000, 512)
	for _, on := range []bool{true, false, true, false} {
		n := 2 + vChoose("length", 2)*9 + vChoose("more", 2)*15
		a.run(on, ticks(n))
		for i := 0; i < n; i++ {
			b.d.Tick(on)
		}
		vAssert(a.out.s == b.out.s && a.d.ticks == b.d.ticks && a.d.decoding == b.d.decoding && a.d.currentChar == b.d.currentChar, "samples without an edge only advance the clock")
	}
	a.run(false, 300)
	for i := 0; i < 300; i++ {
		b.d.Tick(false)
	}
	vAssert(a.out.s == b.out.s, "samples without an edge only advance the clock")
	vReach("end")
}
