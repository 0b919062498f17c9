package dsp

//verif:bound blocks of up to 5 (quick) / 7 (thorough) values, every section; integer values with exact machine arithmetic within +-10^6, every float32 value for the maximum; peaks with any bins and frequencies within +-10^9

//verif:harness vHarness_section mode=int merge=2 p.n=5/7 budget=60/200
func vHarness_section() {
	n := 1 + vChoose("size", vParam("n", 5))
	b := make(Block[int], n)
	for i := range b {
		b[i] = vInt("value", -1000000, 1000000)
	}
	from := vChoose("from", n)
	to := from + vChoose("to", n-from)
	sum := 0
	for i := from; i <= to; i++ {
		sum += b[i]
	}
	vAssert(b.Size() == n, "the size is the number of values")
	vAssert(b.Sum(from, to) == sum, "the sum is that of the section")
	vAssert(b.Mean(from, to) == sum/(to-from+1), "the mean is that of the section")
	sub := b.Subblock(from, to)
	vAssert(len(sub) == to-from+1, "the subblock is the section")
	for i := range sub {
		vAssert(sub[i] == b[from+i], "the subblock has the values of the section")
	}
	max, at := b.Max(from, to)
	vAssert(from <= at && at <= to, "the maximum is in the section")
	for i := from; i <= to; i++ {
		vAssert(b[i] <= max, "no value of the section is above the maximum")
	}
	vAssert(b[at] == max, "the maximum is at its index")
	vReach("end")
}

//verif:harness vHarness_max mode=exact merge=2 p.n=4/6 budget=60/200
func vHarness_max() {
	n := vChoose("size", vParam("n", 4)+1)
	b := make(FilterBlock, n)
	for i := range b {
		b[i] = vFloat32("sample")
		vAssume(b[i] == b[i])
	}
	max := b.Max()
	some := max == 0
	for _, v := range b {
		vAssert(vAnd(v <= max, -v <= max), "no sample is louder than the maximum")
		some = vOr(some, vOr(v == max, -v == max))
	}
	vAssert(some, "the maximum is that of a sample, or zero")
	vReach("end")
}

//verif:harness vHarness_peak mode=int merge=2 budget=60/200
func vHarness_peak() {
	p := Peak[float32, int]{From: vInt("from", 0, 100000), To: vInt("to", 0, 100000), FromFrequency: vInt("fromFrequency", -1000000000, 1000000000), ToFrequency: vInt("toFrequency", -1000000000, 1000000000)}
	vAssume(vAnd(p.From <= p.To, p.FromFrequency <= p.ToFrequency))
	bin := vInt("bin", -10, 100010)
	vAssert(p.Width() == p.To-p.From+1, "the width is the number of bins")
	vAssert(p.ContainsBin(bin) == vAnd(p.From <= bin, bin <= p.To), "a peak contains the bins of its range")
	vAssert(vAnd(p.From <= p.Center(), p.Center() <= p.To), "the center is within the peak")
	vAssert(vAnd(p.Center()-p.From <= p.To-p.Center(), p.To-p.Center() <= p.Center()-p.From+1), "the center is in the middle")
	vAssert(p.WidthHz() == p.ToFrequency-p.FromFrequency, "the width is the difference of the frequencies")
	c := p.CenterFrequency()
	vAssert(vAnd(c-p.FromFrequency <= p.ToFrequency-c, p.ToFrequency-c <= c-p.FromFrequency+1), "the center frequency is in the middle")
	vReach("end")
}
