package dsp

//verif:bound sequences of up to 10 (quick) / 24 (thorough) raw samples from the initial state, every threshold in -2..N+1, threshold changed before any sample
//verif:harness vHarness_debounce mode=exact merge=2 p.n=10/24 budget=40/600
func vHarness_debounce() {
	n := vParam("n", 10)
	t0 := vInt("threshold", -2, n+1)
	d := NewBoolDebouncer(t0)
	vAssert(d.Threshold() == t0, "the threshold is the configured one")
	threshold := t0
	run := 0
	last := false
	want := false
	for i := 0; i < n; i++ {
		if i > 0 {
			nt := vInt("newThreshold", -2, n+1)
			if vBool("change") {
				threshold = nt
				d.SetThreshold(nt)
			}
		}
		raw := vBool("raw")
		run = vIteInt(vOr(i == 0, raw != last), 1, run+1)
		last = raw
		stable := vOr(run >= threshold, threshold < 2)
		if stable {
			want = raw
		}
		got := d.Debounce(raw)
		vObserve("state", got)
		vAssert(got == want, "the debounced state follows exactly the stable raw state")
	}
	vReach("end")
}
