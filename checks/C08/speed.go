package cw

import "github.com/ftl/digimodes/cw"

//verif:include keying.go
//verif:include locked.go
//verif:bound one step (induction) from every locked state and every reported speed from 0 to 200 wpm: any speed with dits of 2.5 to 200 ticks, marks and gaps up to 10 percent off the standard timing, block sizes of 128 and 512 (quick) / 64 to 1024 (thorough) samples at 48 kHz; presets from 1 to 60 wpm; real-number semantics
//verif:assume a locked state as in C01

//verif:harness vHarness_mark mode=arith merge=2 mapFork=1 p.n=2/5 budget=100/400
func vHarness_mark() {
	bs := []int{512, 128, 64, 256, 1024}[vChoose("block size", vParam("n", 5))]
	l := ticks(vFloat64In("dit", 2.5, 200))
	k, _ := vLockedAt(l, bs)
	k.d.Tick(false)
	k.d.ticks += 10
	k.d.lastState, k.d.onStart = true, k.d.ticks
	before := vFloat64In("reported speed", 0, 200)
	k.d.wpm = before
	da := vChoose("da", 2) == 1
	n := ticks(1)
	if da {
		n = 3
	}
	k.d.ticks += vTicks("mark", n*(1-vJitter)*l, n*(1+vJitter)*l) - 1
	k.d.Tick(false)
	after := k.d.wpm
	if !da {
		vAssert(after == before, "a dit leaves the reported speed unchanged")
		vReach("dit")
		return
	}
	// half of the way to a speed whose dit is within the jitter: 60 seconds are 50 dits at one word per minute
	target := 2*after - before
	dit := float64(l) * float64(bs) / 48000 // seconds
	vAssert(vAnd(target*50*dit*(1-vJitter) <= 60.000001, target*50*dit*(1+vJitter) >= 59.999999), "each da moves the reported speed half of the way to the sent speed")
	vReach("da")
}

//verif:harness vHarness_gap mode=arith merge=2 mapFork=1 budget=60/300
func vHarness_gap() {
	l := ticks(vFloat64In("dit", 2.5, 200))
	k, _ := vLocked(l)
	k.d.appendSymbol(cw.Da)
	k.d.ticks += 10
	k.d.offStart, k.d.lastState, k.d.decoding = k.d.ticks, false, true
	before := vFloat64In("reported speed", 0, 200)
	k.d.wpm = before
	k.d.ticks += vTicks("gap", 1, 100*l)
	k.d.Tick(vChoose("ends", 2) == 1)
	vAssert(k.d.wpm == before, "a gap leaves the reported speed unchanged")
	vReach("end")
}

//verif:harness vHarness_preset conc=1 preempt=0 mode=arith merge=2 mapFork=1 native=0 budget=60
func vHarness_preset() {
	d := NewAudioDemodulator(&vText{}, 700, 48000, 512)
	vAssert(d.WPM() == 20, "a new demodulator reports the default speed")
	w := vInt("speed", 1, 60)
	d.PresetWPM(w)
	vAssert(d.WPM() == w, "the preset speed is the reported one")
	d.Close()
	vReach("end")
}

//verif:harness vHarness_first mode=arith merge=2 mapFork=1 p.n=2/3 budget=100/300
func vHarness_first() {
	// the preset speed is understood from the first character on
	bs := []int{64, 128, 256, 512}[vChoose("block size", 4)]
	k := vNewKeyer(48000, bs)
	w := []int{5, 8, 12, 16, 20, 25, 30, 38, 45}[vChoose("speed", 9)]
	k.d.presetWPM(w)
	u := ticks(vFloat64In("speed deviation", 0.9, 1.1) * 57600 / float64(w) / float64(bs))
	vAssume(u >= 2.5)
	n := vParam("n", 3)
	var char []bool
	for i := 0; i < n; i++ {
		da := vChoose("da", 2) == 1
		char = append(char, da)
		if da {
			k.run(true, 3*u)
		} else {
			k.run(true, u)
		}
		if i < n-1 {
			k.run(false, u)
		}
	}
	k.run(false, 3*u)
	k.d.Tick(true)
	vAssert(k.out.s == vChar(char), "the first character at the preset speed is decoded as it was keyed")
	vReach("end")
}
