package cw

import "github.com/ftl/digimodes/cw"

//verif:include keying.go
//verif:bound texts of up to 3 (quick) / 4 (thorough) marks from a new decoder at its preset speed, with block sizes of 64 to 1024 samples at 48 kHz (dits of 3 to 45 ticks), every sequence of dits and das and of symbol, character and word gaps in which two different longer gaps do not follow each other directly; marks and gaps up to 10 percent off

func vSymbol(da bool) cw.Symbol {
	if da {
		return cw.Da
	}
	return cw.Dit
}

//verif:harness vHarness_text mode=arith merge=2 mapFork=1 p.n=3/4 budget=200/550
func vHarness_text() {
	bs := []int{64, 128, 256, 512, 1024}[vChoose("block size", 5)]
	k := vNewKeyer(48000, bs)
	l := ticks((2880 + bs - 1) / bs)
	n := vParam("n", 4)
	want := ""
	var char []bool
	last := 1
	u := ticks(vFloat64In("speed deviation", 0.9, 1.1)) * l
	for i := 0; i < n; i++ {
		da := vChoose("da", 2) == 1
		if da {
			k.run(true, 3*u)
		} else {
			k.run(true, u)
		}
		char = append(char, da)
		gap := []int{1, 3, 7}[vChoose("gap", 3)]
		if i == n-1 {
			gap = 7
		}
		if last > 1 && gap > 1 && last != gap {
			vAssume(false) // see vHarness_single
		}
		last = gap
		if gap > 1 {
			want += vChar(char)
			char = nil
		}
		if gap == 7 && i < n-1 {
			want += " "
		}
		if i == n-1 {
			k.run(false, 30*l)
		} else {
			k.run(false, ticks(gap)*u)
		}
	}
	vAssert(k.out.s == want, "a text in standard timing is decoded as it was keyed")
	vReach("end")
}

//verif:harness vHarness_single mode=arith merge=2 mapFork=1 p.n=4/5 budget=100/300
func vHarness_single() {
	// characters of a single symbol: character and word gaps follow each other directly
	n := vParam("n", 5)
	k := vNewKeyer(48000, 512)
	u := ticks(vFloat64In("speed deviation", 0.95, 1.05)) * 6
	want := ""
	last, changes := 0, 0
	for i := 0; i < n; i++ {
		da := i%2 == 0
		gap := 7
		if i < n-1 && vChoose("word ends", 2) == 0 {
			gap = 3
		}
		if last != 0 && gap != last && i < n-1 {
			changes++
		}
		last = gap
		vAssume(changes < 2) // see vHarness_alternating
		if da {
			k.run(true, 3*u)
		} else {
			k.run(true, u)
		}
		want += vChar([]bool{da})
		if i == n-1 {
			k.run(false, 200)
		} else {
			k.run(false, ticks(gap)*u)
		}
		if gap == 7 && i < n-1 {
			want += " "
		}
	}
	vAssert(k.out.s == want, "words of single-symbol characters are decoded as they were keyed")
	vReach("end")
}

//verif:harness vHarness_alternating mode=arith merge=2 mapFork=1 budget=60
func vHarness_alternating() {
	// "t et et": word and character gaps follow each other directly, at exactly 20 wpm
	k := vNewKeyer(48000, 512)
	for i, gap := range []ticks{42, 18, 42, 18, 200} {
		if i%2 == 0 {
			k.run(true, 18)
		} else {
			k.run(true, 6)
		}
		k.run(false, gap)
	}
	vAssert(k.out.s == "t et et", "the text t et et is decoded as it was keyed")
}
