package cw

//verif:bound one step (induction) from every valid state: any positive short and long estimate and any last duration

//verif:harness vHarness_step mode=arith merge=0 budget=60/200
func vHarness_step() {
	t := NewAdaptiveThreshold(10)
	t.low = ticks(vFloat64In("low", 0.001, 10000))
	t.high = ticks(vFloat64In("high", 0.001, 10000))
	t.last = ticks(vFloat64In("last", 0.001, 100000))
	vAssume(t.low <= t.high)
	t.updateThreshold()
	lo := ticks(vFloat64In("least", 0.001, 10000))
	hi := ticks(vFloat64In("most", 0.001, 100000))
	d := ticks(vFloat64In("duration", 0.001, 100000))
	vAssume(vAnd(lo <= t.low, lo <= t.last, lo <= d, t.high <= hi, t.last <= hi, d <= hi))
	l0, h0, g0, s0 := t.low, t.high, t.Get(), t.last
	t.Put(d, true)
	vAssert(vAnd(lo <= t.Low(), t.High() <= hi), "the estimates stay within what was observed and preset")
	vAssert(vAnd(0 < t.Low(), t.Low() <= t.High()), "the short estimate is positive and never exceeds the long one")
	vAssert(vAnd(t.Low() <= t.Get()+1e-6, t.Get() <= t.High()+1e-6), "the decision threshold lies between the estimates")
	if d >= 10*l0 {
		vAssert(vAnd(t.Low() == l0, t.High() == h0, t.Get() == g0, t.last == s0), "a duration of ten times the short estimate changes nothing")
	} else if vAnd(d < 2*s0, s0 < 2*d) {
		vAssert(vAnd(t.Low() == l0, t.High() == h0), "durations of similar length say nothing about the speed")
	} else {
		short := vIteFloat(d < s0, float64(d), float64(s0))
		long := vIteFloat(d < s0, float64(s0), float64(d))
		near := func(a ticks, b float64) bool { return vAnd(float64(a)-b < 1e-3, b-float64(a) < 1e-3) }
		vAssert(vAnd(near(t.Low(), 0.75*float64(l0)+0.25*short), near(t.High(), 0.75*float64(h0)+0.25*long)), "a short and a long duration move the estimates a quarter of the way")
	}
	vReach("end")
}
