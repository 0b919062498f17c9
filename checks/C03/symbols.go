package cw

import "github.com/ftl/digimodes/cw"

//verif:include keying.go
//verif:bound every sequence of 1 to 8 pending symbols; keyed sequences of 1 to 10 symbols at any speed within 10 percent of the preset

//verif:harness vHarness_table mode=exact merge=2 mapFork=1 budget=60
func vHarness_table() {
	// whatever is pending becomes its character of the table or the marker
	k := vNewKeyer(48000, 512)
	n := 1 + vChoose("symbols", maxSymbolCount)
	var das []bool
	for i := 0; i < n; i++ {
		das = append(das, vChoose("da", 2) == 1)
		s := cw.Dit
		if das[i] {
			s = cw.Da
		}
		k.d.appendSymbol(s)
	}
	k.d.stop()
	vAssert(k.out.s == vChar(das), "a symbol sequence becomes its character of the table or the marker")
	k.d.stop()
	vAssert(k.out.s == vChar(das), "a character is written only once")
	vReach("end")
}

// vKey keys a character of n symbols, chosen freely, and returns its expected text.
func vKey(k *vKeyer, u ticks, n int) string {
	want := ""
	var das []bool
	for i := 0; i < n; i++ {
		da := vChoose("da", 2) == 1
		if len(das) == maxSymbolCount { // split
			want += vChar(das)
			das = nil
		}
		das = append(das, da)
		if da {
			k.run(true, 3*u)
		} else {
			k.run(true, u)
		}
		if i < n-1 {
			k.run(false, u)
		}
	}
	return want + vChar(das)
}

//verif:harness vHarness_keyed mode=arith merge=2 mapFork=1 p.n=4/5 budget=100/300
func vHarness_keyed() {
	k := vNewKeyer(48000, 512)
	u := ticks(vFloat64In("speed", 0.9, 1.1)) * 6
	n := 1 + vChoose("symbols", vParam("n", 4))
	want := vKey(k, u, n)
	k.run(false, 3*u)
	k.run(true, u)
	k.run(false, 300)
	vAssert(k.out.s == want+"e", "a keyed sequence becomes one character")
	vReach("end")
}

//verif:harness vHarness_long mode=exact merge=2 mapFork=1 p.n=10/10 budget=100/300
func vHarness_long() {
	k := vNewKeyer(48000, 512)
	n := 6 + vChoose("symbols", vParam("n", 10)-5)
	want := vKey(k, 6, n)
	k.run(false, 18)
	k.run(true, 6)
	k.run(false, 300)
	vAssert(k.out.s == want+"e", "a long sequence is split after eight symbols and none is lost")
	vReach("end")
}

//verif:harness vHarness_overlong mode=arith merge=2 mapFork=1 p.n=2/3 budget=100/300
func vHarness_overlong() {
	// one mark is overlong: alone, before, within or after its character
	k := vNewKeyer(48000, 512)
	u := ticks(6)
	overlong := vTicks("overlong", 60, 5000)
	n := vChoose("symbols", vParam("n", 2)+1)
	at := vChoose("position", n+1)
	vKey(k, u, 2)
	k.run(false, 300)
	k.out.s = ""
	for i := 0; i <= n; i++ {
		if i == at {
			k.run(true, overlong)
		} else if vChoose("da", 2) == 1 {
			k.run(true, 3*u)
		} else {
			k.run(true, u)
		}
		if i < n {
			k.run(false, u)
		}
	}
	k.run(false, 3*u)
	next := vKey(k, u, 2)
	k.run(false, 300)
	marker := string(unknownCharacter)
	if n == 0 {
		vAssert(k.out.s == " "+next || k.out.s == " "+marker+next, "an overlong mark on its own spoils nothing else")
	} else {
		vAssert(len(k.out.s) > len(next) && k.out.s[len(k.out.s)-len(next):] == next, "the character after an overlong mark is not affected")
		// a key held down longer than the decoder waits for ends the character before
		vAssert(vOr(overlong > 100, k.out.s == " "+marker+next), "an overlong mark spoils the character it is part of, and only that")
	}
	vReach("end")
}
