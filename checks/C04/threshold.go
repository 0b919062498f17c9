package cw

//verif:bound sequences of up to 4 (quick) / 6 (thorough) durations 0.001..10000 ticks after any preset 0.5..500 ticks; real-number semantics (rounding and underflow are outside the claim)

//verif:harness vHarness_sequence mode=arith merge=2 p.n=4/6 budget=90/800
func vHarness_sequence() {
	preset := vFloat64In("preset", 0.5, 500)
	t := NewAdaptiveThreshold(1)
	switch vChoose("by", 2) {
	case 0:
		t = NewAdaptiveThreshold(ticks(preset))
	case 1:
		t.Put(30, true)
		t.Preset(ticks(preset))
	}
	vAssert(vAnd(t.Low() == ticks(preset), t.High() == ticks(3*preset)), "a preset starts with the one to three timing of the preset")
	lo, hi := ticks(preset), ticks(3*preset)
	for i := 0; i < vParam("n", 4); i++ {
		d := ticks(vFloat64In("duration", 0.001, 10000))
		l0, h0, g0 := t.Low(), t.High(), t.Get()
		t.Put(d, true)
		l, h, g := t.Low(), t.High(), t.Get()
		if d >= 10*l0 {
			vAssert(vAnd(l == l0, h == h0, g == g0), "a duration of ten times the short estimate changes nothing")
		} else {
			lo = ticks(vIteFloat(d < lo, float64(d), float64(lo)))
			hi = ticks(vIteFloat(d > hi, float64(d), float64(hi)))
		}
		vAssert(vAnd(lo <= l, h <= hi), "the estimates stay within what was observed and preset")
		vAssert(vAnd(0 < l, l <= h), "the short estimate is positive and never exceeds the long one")
		vAssert(vAnd(l-1e-6 <= g, g <= h+1e-6), "the decision threshold lies between the estimates")
	}
	vReach("end")
}

//verif:harness vHarness_between mode=arith merge=2 budget=30/100
func vHarness_between() {
	// the decision threshold clearly separates one to three timing of any speed
	l := ticks(vFloat64In("short", 2, 200))
	t := NewAdaptiveThreshold(l)
	vAssert(vAnd(1.5*l < t.Get(), t.Get() < 2*l), "the threshold separates short from long")
	vAssert(t.Ratio() == 3, "a preset has one to three timing")
	vReach("end")
}

//verif:harness vHarness_ignored mode=arith merge=2 p.n=2/3 budget=60/300
func vHarness_ignored() {
	// an ignored duration leaves no trace at all: what follows is treated as if it had not been there
	preset := ticks(vFloat64In("preset", 0.5, 500))
	a, b := NewAdaptiveThreshold(preset), NewAdaptiveThreshold(preset)
	d := ticks(vFloat64In("first", 0.001, 5000))
	a.Put(d, true)
	b.Put(d, true)
	long := ticks(vFloat64In("long", 0.001, 100000))
	vAssume(long >= 10*a.Low())
	a.Put(long, true)
	for i := 0; i < vParam("n", 2); i++ {
		d := ticks(vFloat64In("duration", 0.001, 5000))
		a.Put(d, true)
		b.Put(d, true)
		vAssert(vAnd(a.Low() == b.Low(), a.High() == b.High(), a.Get() == b.Get()), "an ignored duration leaves no trace")
	}
	vReach("end")
}
