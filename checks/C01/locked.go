package cw

//verif:include keying.go
//verif:include locked.go
//verif:bound one step (induction) from every locked state: any speed with dits of 2.5 to 200 ticks, marks and gaps up to 10 percent off the standard timing in both directions, real-valued durations, real-number semantics
//verif:assume a locked state: short estimate within 10 percent of the dit, long estimate within 10 percent of the das (or between the character and word gaps) seen, last duration one of them

//verif:harness vHarness_mark mode=arith merge=2 mapFork=1 budget=60/300
func vHarness_mark() {
	l := ticks(vFloat64In("dit", 2.5, 200))
	k, _ := vLocked(l)
	k.d.Tick(false)
	k.d.ticks += 10
	k.d.lastState, k.d.onStart = true, k.d.ticks
	da := vChoose("da", 2) == 1
	n := ticks(1)
	if da {
		n = 3
	}
	k.d.ticks += vTicks("mark", n*(1-vJitter)*l, n*(1+vJitter)*l) - 1
	k.d.Tick(false)
	k.d.Tick(false)
	k.d.stop()
	vAssert(k.out.s == vChar([]bool{da}), "a mark of one dit is a dit, one of three dits is a da")
	vAssert(vLockedOn(k, l), "the decoder stays locked")
	vReach("end")
}

//verif:harness vHarness_gap mode=arith merge=2 mapFork=1 budget=60/300
func vHarness_gap() {
	l := ticks(vFloat64In("dit", 2.5, 200))
	k, lastGap := vLocked(l)
	k.d.currentChar.append(toCWChar(vSymbol(true))[0])
	k.d.ticks += 10
	k.d.offStart, k.d.lastState, k.d.decoding = k.d.ticks, false, true
	gap := []int{1, 3, 7}[vChoose("gap", 3)]
	if lastGap > 1 && gap > 1 && lastGap != gap {
		return // see vHarness_single
	}
	k.d.ticks += vTicks("gap", ticks(gap)*(1-vJitter)*l, ticks(gap)*(1+vJitter)*l) - 1
	k.d.Tick(true)
	switch gap {
	case 1:
		vAssert(k.out.s == "", "a gap of one dit separates symbols")
	case 3:
		vAssert(k.out.s == "t", "a gap of three dits separates characters")
	case 7:
		vAssert(k.out.s == "t ", "a gap of seven dits separates words")
	}
	vAssert(vLockedOff(k, l, gap), "the decoder stays locked")
	k.d.stop()
	if gap == 1 {
		vAssert(k.out.s == "t", "a gap of one dit does not lose the symbols before")
	}
	vReach("end")
}
