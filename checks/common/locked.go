package cw

const vJitter = 0.1

// vLocked sets up a decoder that is locked on dits of l ticks.
func vLocked(l ticks) (k *vKeyer, lastGap int) {
	return vLockedAt(l, 512)
}

func vLockedAt(l ticks, blockSize int) (k *vKeyer, lastGap int) {
	k = vNewKeyer(48000, blockSize)
	on, off := k.d.onThreshold, k.d.offThreshold
	on.low, on.high, on.last = ticks(vFloat64In("on low", 1, 2000)), ticks(vFloat64In("on high", 1, 2000)), ticks(vFloat64In("last mark", 1, 2000))
	off.low, off.high, off.last = ticks(vFloat64In("off low", 1, 2000)), ticks(vFloat64In("off high", 1, 2000)), ticks(vFloat64In("last gap", 1, 2000))
	lastGap = []int{1, 3, 7}[vChoose("last gap", 3)]
	vAssume(vAnd(vLockedOn(k, l), vLockedOff(k, l, lastGap)))
	on.updateThreshold()
	off.updateThreshold()
	return k, lastGap
}

func vDits(x ticks, from, to float64, l ticks) bool {
	return vAnd(ticks(from*(1-vJitter))*l <= x, x <= ticks(to*(1+vJitter))*l)
}

func vLockedOn(k *vKeyer, l ticks) bool {
	on := k.d.onThreshold
	return vAnd(vDits(on.low, 1, 1, l), vDits(on.high, 3, 3, l), vOr(vDits(on.last, 1, 1, l), vDits(on.last, 3, 3, l)))
}

func vLockedOff(k *vKeyer, l ticks, last int) bool {
	off := k.d.offThreshold
	most := 7.001
	if last == 3 { // a character gap has just pulled the long estimate down
		most = 6.001
	}
	return vAnd(vDits(off.low, 1, 1, l), vDits(off.high, 3, most, l), vDits(off.last, float64(last), float64(last), l))
}
