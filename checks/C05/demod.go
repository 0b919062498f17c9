package cw

//verif:bound demodulators with debounce 0 to 4: 3 (quick) / 5 (thorough) levels of any value before the reset, 4 / 6 after

type vLevels struct{ s string }

func (o *vLevels) Write(p []byte) (int, error) {
	o.s += string(p)
	return len(p), nil
}

//verif:harness vHarness_demod mode=arith merge=2 mapFork=1 p.n=3/5 p.m=4/6 budget=100/300
func vHarness_demod() {
	debounce := vChoose("debounce", 5)
	threshold := float32(vFloat64In("threshold", -50, 50))
	oa, ob := &vLevels{}, &vLevels{}
	a := NewSpectralDemodulator[float32, int](oa, 48000, 512)
	b := NewSpectralDemodulator[float32, int](ob, 48000, 512)
	a.SetSignalDebounce(debounce)
	b.SetSignalDebounce(debounce)
	for i := 0; i < vParam("n", 4); i++ {
		a.Tick(float32(vFloat64In("level", -100, 100)), threshold)
	}
	a.Reset()
	oa.s = ""
	m := vParam("m", 10)
	for i := 0; i < m; i++ {
		v := float32(vFloat64In("level", -100, 100))
		a.Tick(v, threshold)
		b.Tick(v, threshold)
		vAssert(a.decoder.lastState == b.decoder.lastState, "a reset demodulator keys as a new one")
	}
	for i := 0; i < 200; i++ {
		a.Tick(threshold-1, threshold)
		b.Tick(threshold-1, threshold)
	}
	vAssert(oa.s == ob.s, "a reset demodulator writes what a new one writes")
	vReach("end")
}
