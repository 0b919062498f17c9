package cw

//verif:include keying.go
//verif:include cwstate.go
//verif:bound reset after an arbitrary decoder state or after a keying of one mark (quick) / two marks (thorough) of any length, possibly left with the key down; afterwards up to two marks of any length from 2 to 400 samples or a single sample

// vSame keys the same thing into both decoders and compares what they write.
func vSame(a, b *vKeyer, n int) {
	if vChoose("pause", 2) == 1 {
		l := vTicks("length", 2, 400)
		a.run(false, l)
		b.run(false, l)
	}
	for i := 0; i < n; i++ {
		for _, on := range []bool{true, false} {
			if vChoose("single sample", 2) == 1 {
				a.d.Tick(on)
				b.d.Tick(on)
			} else {
				l := vTicks("length", 2, 400)
				a.run(on, l)
				b.run(on, l)
			}
			vAssert(a.out.s == b.out.s, "a reset decoder writes what a new one writes")
		}
	}
	a.run(false, 1000)
	b.run(false, 1000)
	vAssert(a.out.s == b.out.s, "a reset decoder writes what a new one writes")
}

//verif:harness vHarness_state mode=arith merge=2 mapFork=1 p.n=1/2 budget=100/300
func vHarness_state() {
	a, b := vNewKeyer(48000, 512), vNewKeyer(48000, 512)
	vAnyState(a)
	a.d.Reset()
	vSame(a, b, vParam("n", 1))
	vReach("end")
}

//verif:harness vHarness_history mode=arith merge=2 mapFork=1 p.n=1/2 budget=100/300
func vHarness_history() {
	a, b := vNewKeyer(48000, 512), vNewKeyer(48000, 512)
	for i := 0; i < vParam("n", 1); i++ {
		a.run(true, vTicks("mark", 2, 400))
		a.run(false, vTicks("gap", 2, 400))
	}
	if vChoose("key down", 2) == 1 {
		a.run(true, vTicks("mark", 2, 400))
	}
	a.d.Reset()
	a.out.s = ""
	vSame(a, b, 1)
	vReach("end")
}
