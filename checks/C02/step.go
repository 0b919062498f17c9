package cw

import "github.com/ftl/digimodes/cw"

//verif:include keying.go
//verif:include cwstate.go
//verif:bound one sample (induction) from every valid decoder state: any timing estimates, clock, pending symbols (0 to 8; all dits or all das but the first), overlong-mark and key state; real-number semantics

//verif:harness vHarness_step mode=arith merge=2 mapFork=1 budget=100/300
func vHarness_step() {
	k := vNewKeyer(48000, 512)
	n := vAnyState(k)
	d := k.d
	wasOn, wasInvalid := d.lastState, d.currentCharInvalid
	pending := d.currentChar
	quiet := vAnd(!wasOn, d.ticks-d.offStart > 10*d.offThreshold.Get())
	state := vChoose("key", 2) == 1
	d.Tick(state)
	out := []rune(k.out.s)
	chars := 0
	for _, r := range out {
		if r == ' ' {
			continue
		}
		chars++
		if r != unknownCharacter {
			vAssert(toCWChar(cw.Code[r]...) == pending, "a character is written for exactly the symbols that were pending")
			vAssert(!wasInvalid, "a character with an overlong mark is not decoded")
		}
	}
	vAssert(chars <= 1 && len(out) <= 2, "at most one character and one space are written at a time")
	vAssert(chars == 0 || n > 0, "a character is only written for marks that were not written before")
	left := d.currentChar.len()
	if chars == 1 {
		vAssert(left == 0 || (left == 1 && wasOn && !state && n == maxSymbolCount), "the symbols written are no longer pending")
	} else {
		vAssert(left == n || (left == n+1 && wasOn && !state), "only the end of a mark adds a symbol")
	}
	vAssert(vOr(d.decoding, vAnd(left == 0, !d.currentCharInvalid)), "nothing is pending while nothing is being decoded")
	if !state && !wasOn {
		vAssert(vOr(!quiet, left == 0), "nothing is pending after a long pause")
	}
	vReach("end")
	if chars == 1 {
		vReach("written")
	}
	if len(out) == 2 {
		vReach("word")
	}
}

//verif:harness vHarness_quiet mode=arith merge=2 mapFork=1 budget=60
func vHarness_quiet() {
	// a long pause, then one sample more
	k := vNewKeyer(48000, 512)
	vAnyState(k)
	d := k.d
	vAssume(vAnd(!d.lastState, d.ticks-d.offStart > 10*d.offThreshold.Get()))
	d.Tick(false)
	k.out.s = ""
	low, high, last := d.offThreshold.Low(), d.onThreshold.High(), d.onThreshold.last
	d.Tick(false)
	d.stop()
	vAssert(k.out.s == "", "nothing more is written in a long pause")
	vAssert(vAnd(d.offThreshold.Low() == low, d.onThreshold.High() == high, d.onThreshold.last == last), "a pause does not change the timing estimates")
	vReach("end")
}
