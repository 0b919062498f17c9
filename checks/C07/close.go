package cw

//verif:include keying.go
//verif:include detect.go
//verif:stub (*github.com/ftl/sdrainer/dsp.Goertzel).Detect = vStubDetect
//verif:bound the processing loop, one or two closing callers and one caller changing and querying settings or writing samples, all interleavings with up to 2 or 3 (quick) / 3 or 4 (thorough) preemptions
//verif:assume the tone detector is replaced by a stand-in

//verif:harness vHarness_settings conc=1 preempt=2/3 mode=exact merge=0 mapFork=1 native=0 budget=120/300
func vHarness_settings() {
	d := NewAudioDemodulator(&vText{}, 100, 400, 4)
	done := make(chan int, 4)
	closers := 1 + vChoose("second close", 2)
	for i := 0; i < closers; i++ {
		go func() {
			d.Close()
			done <- 1
		}()
	}
	d.SetDebounceThreshold(7)
	got := d.DebounceThreshold()
	vAssert(got == 7 || got == 0, "a query returns the value that was set, or nothing after the close")
	for i := 0; i < closers; i++ {
		<-done
	}
	d.Close()
	d.SetMaxScale(3)
	vAssert(d.WPM() == 0, "a query after the close returns at once")
	vReach("end")
}

//verif:harness vHarness_query conc=1 preempt=3/4 mode=exact merge=0 mapFork=1 native=0 budget=120/300
func vHarness_query() {
	d := NewAudioDemodulator(&vText{}, 100, 400, 4)
	t := vInt("threshold", 0, 1000)
	go d.Write(make([]float32, 3))
	d.SetDebounceThreshold(t)
	vAssert(d.DebounceThreshold() == t, "a query returns the value that was set")
	d.Close()
	vAssert(vLiveGoroutines() <= 1, "the processing ends")
	vReach("end")
}

//verif:harness vHarness_write conc=1 preempt=3/4 mode=exact merge=0 mapFork=1 native=0 budget=120/300
func vHarness_write() {
	// more samples than the buffer takes
	d := NewAudioDemodulator(&vText{}, 100, 400, 1)
	done := make(chan bool)
	go func() {
		n, err := d.Write(make([]float32, 3))
		vAssert(n == 3 || err != nil, "an incomplete write is an error")
		done <- true
	}()
	d.Close()
	<-done
	vReach("end")
}
