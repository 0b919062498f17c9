package cw

import "github.com/ftl/digimodes/cw"

// vAnyState puts the decoder into an arbitrary valid state and returns the number of pending symbols.
func vAnyState(k *vKeyer) int {
	d := k.d
	for i, t := range []*AdaptiveThreshold{d.onThreshold, d.offThreshold} {
		name := []string{"on ", "off "}[i]
		t.low, t.high, t.last = ticks(vFloat64In(name+"low", 0.5, 10000)), ticks(vFloat64In(name+"high", 0.5, 10000)), ticks(vFloat64In(name+"last", 0.5, 100000))
		vAssume(t.low <= t.high)
		t.updateThreshold()
	}
	d.ticks = ticks(vFloat64In("now", 0, 1e6))
	d.onStart, d.offStart = ticks(vFloat64In("on since", 0, 1e6)), ticks(vFloat64In("off since", 0, 1e6))
	vAssume(vAnd(d.onStart <= d.ticks, d.offStart <= d.ticks))
	d.lastState = vChoose("key was down", 2) == 1
	d.decoding = vChoose("decoding", 2) == 1
	if d.decoding {
		d.currentCharInvalid = vChoose("overlong", 2) == 1
	}
	n := 0
	if d.decoding {
		n = vChoose("pending", maxSymbolCount+1)
		das := vChoose("das", 2) == 1
		for i := 0; i < n; i++ {
			if das && i > 0 {
				d.currentChar.append(cw.Da)
			} else {
				d.currentChar.append(cw.Dit)
			}
		}
	}
	return n
}
