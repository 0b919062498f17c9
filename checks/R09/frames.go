package rx

//verif:include receiver.go
//verif:include listener.go
//verif:stub github.com/ftl/hamradio/dxcc.LocalFilename = vNoFile
//verif:stub github.com/ftl/hamradio/scp.LocalFilename = vNoFile
//verif:stub (*github.com/ftl/sdrainer/dsp.FFT[T]).IQToSpectrumAndPSD = vStubFFT
//verif:bound blocks of 2 values, frames of 0 to 4 pairs of any content, any sample rates; up to 103 frames waiting; all interleavings of the data source, the processing loop and a stop with up to 3 (quick) / 4 (thorough) preemptions

func vReceiver() *Receiver[float32, int] {
	r := NewReceiver[float32, int]("x", StrainMode, new(manualClock))
	r.SetEdgeWidth(0)
	return r
}

//verif:harness vHarness_accept conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=0 p.n=3/4 budget=100/300
func vHarness_accept() {
	r := vReceiver()
	r.IQData(48000, make([]float32, 4))
	rate := vInt("rate", 1, 1<<20)
	r.Start(rate, 2)
	var want [][]float32
	for i := 0; i < vParam("n", 3); i++ {
		data := make([]float32, 2*vChoose("size", 5))
		for j := range data {
			data[j] = vFloat32("value")
		}
		got := vInt("incoming rate", 1, 1<<20)
		r.IQData(got, data)
		if len(data)/2 == 2 && got == rate {
			want = append(want, append([]float32(nil), data...))
		}
		clear(data) // the source reuses its buffer
		if vChoose("wait", 2) == 1 {
			vSettle()
		}
	}
	vSettle()
	r.Stop()
	r.IQData(rate, make([]float32, 4))
	vSettle()
	vAssert(len(vFrames) == len(want), "exactly the frames that fit are processed")
	for i := range want {
		vAssert(len(vFrames[i]) == len(want[i]), "a frame is processed completely")
		for j := range want[i] {
			vAssert(vOr(vFrames[i][j] == want[i][j], vAnd(vFrames[i][j] != vFrames[i][j], want[i][j] != want[i][j])), "a frame is processed with the values it was handed over with")
		}
	}
	vReach("end")
}

//verif:harness vHarness_full conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=0 budget=60
func vHarness_full() {
	// the data source is never blocked; what is accepted is processed in order
	r := vReceiver()
	r.Start(48000, 2)
	n := iqBufferSize + 3
	for i := 0; i < n; i++ {
		r.IQData(48000, []float32{float32(i), 0, 0, 0})
	}
	vSettle()
	vAssert(len(vFrames) >= iqBufferSize && len(vFrames) <= n, "frames are skipped only when too many are waiting")
	for i, f := range vFrames {
		vAssert(f[0] == float32(i), "the accepted frames are processed in order")
	}
	before := len(vFrames)
	r.IQData(48000, []float32{-1, 0, 0, 0})
	vSettle()
	vAssert(len(vFrames) == before+1 && vFrames[before][0] == -1, "frames are accepted again")
	r.Stop()
	vReach("end")
}

//verif:harness vHarness_schedule conc=1 preempt=3/4 mode=exact merge=0 mapFork=1 native=0 timers=1 budget=120/300
func vHarness_schedule() {
	r := vReceiver()
	r.Start(48000, 2)
	done := make(chan bool)
	go func() {
		buffer := make([]float32, 4)
		for i := 0; i < 4; i++ {
			buffer[0] = float32(i)
			r.IQData(48000, buffer)
			buffer[0] = -1
		}
		done <- true
	}()
	if vChoose("stop", 2) == 1 {
		r.Stop()
		n := len(vFrames)
		<-done
		vAssert(len(vFrames) == n, "a stopped receiver processes nothing")
	} else {
		<-done
		vSettle()
		vAssert(len(vFrames) == 4, "every accepted frame is processed")
		r.Stop()
	}
	for i, f := range vFrames {
		vAssert(f[0] == float32(i), "the frames are processed unaltered and in order")
	}
	vReach("end")
}
