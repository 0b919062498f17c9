package tci

import "time"

//verif:include tci.go
//verif:stub net.ResolveTCPAddr = vResolve
//verif:stub github.com/ftl/tci/client.KeepOpen = vKeepOpen
//verif:stub (*github.com/ftl/tci/client.notifier).Notify = vNotify
//verif:stub (*github.com/ftl/tci/client.Client).Connected = vConnectedNow
//verif:stub (*github.com/ftl/tci/client.Client).StartIQ = vStartIQ
//verif:stub (*github.com/ftl/tci/client.Client).StopIQ = vStopIQ
//verif:stub (*github.com/ftl/tci/client.Client).SetIQSampleRate = vSampleRate
//verif:stub (*github.com/ftl/tci/client.Client).AddSpot = vAddSpot
//verif:stub (*github.com/ftl/tci/client.Client).DeleteSpot = vDeleteSpot
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).AddReporter = vAddReporter
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).Start = vStart
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).Stop = vStopReceiver
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetEdgeWidth = vEdgeWidth
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetPeakThreshold = vThreshold
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetSignalDebounce = vDebounce
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetSilenceTimeout = vSilence
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetAttachmentTimeout = vAttachment
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetScope = vSetScope
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetCenterFrequency = vCenter
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetVFOOffset = vOffset
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).IQData = vIQData
//verif:bound up to 3 reports from two goroutines while the process is running and while it is closed: all interleavings with up to 2 (quick) / 3 (thorough) preemptions; 103 (quick) / 203 (thorough) reports that are waiting when it is closed or that are caused by closing it (one schedule)
//verif:assume the TCI client and the receiver are stand-ins: the receiver reports its deactivated listeners while it is stopped, from the stopping or another goroutine

//verif:harness vHarness_order conc=1 preempt=2/3 mode=exact merge=0 mapFork=1 native=0 timers=0 steps=2000000 budget=100/300
func vHarness_order() {
	vReset()
	spotter := &vSpotter{}
	p := vProcess(0, spotter)
	done := make(chan bool, 2)
	report := func(calls ...string) {
		for i, call := range calls {
			vReporter.CallsignSpotted("a", call, i)
		}
		done <- true
	}
	go report("a1a", "b1b")
	report("c1c")
	<-done
	<-done
	vSettle()
	calls := ""
	for _, r := range spotter.reports {
		calls += r.callsign + " "
	}
	vAssert(calls == "a1a b1b c1c " || calls == "a1a c1c b1b " || calls == "c1c a1a b1b ", "every report is handled once and in order")
	p.Close()
	vAssert(vLiveGoroutines() == 0, "nothing is left behind")
	vReach("end")
}

//verif:harness vHarness_close conc=1 preempt=2/3 mode=exact merge=0 mapFork=1 native=0 timers=0 steps=2000000 budget=100/300
func vHarness_close() {
	vReset()
	spotter := &vSpotter{}
	vQuiet(true)
	p := vProcess(0, spotter)
	vSettle()
	vQuiet(false)
	async := vBool("async")
	vOnStop = func() {
		if !async {
			vReporter.ListenerDeactivated("a", 1)
			return
		}
		stopped := make(chan bool)
		go func() {
			vReporter.ListenerDeactivated("a", 1)
			close(stopped)
		}()
		<-stopped
	}
	done := make(chan bool)
	go func() {
		vReporter.CallsignSpotted("a", "a1a", 1)
		vReporter.SpotTimeout("a", "a1a", 1)
		close(done)
	}()
	p.Close()
	p.Close()
	vAssert(!vStarted && !vStreaming[0], "the stream and the receiver are stopped")
	<-done
	vReporter.CallsignSpotted("a", "b1b", 1)
	vSettle()
	vAssert(len(spotter.reports) <= 2, "no report is handled twice")
	vAssert(vLiveGoroutines() == 0, "nothing is left behind")
	vReach("end")
}

//verif:harness vHarness_many conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=0 p.n=103/203 steps=2000000 budget=100/300
func vHarness_many() {
	vReset()
	vQuiet(true)
	spotter := &vBusySpotter{release: make(chan bool)}
	p := vProcess(0, spotter)
	vSettle()
	n := vParam("n", 103)
	async := vBool("async")
	vOnStop = func() {
		stopped := make(chan bool)
		report := func() {
			for i := 0; i < n; i++ {
				vReporter.ListenerDeactivated("a", 1)
			}
			close(stopped)
		}
		if async {
			go report()
		} else {
			report()
		}
		<-stopped
	}
	done := make(chan bool)
	if vBool("busy") {
		go func() {
			for i := 0; i < n; i++ {
				vReporter.CallsignSpotted("a", "a1a", i)
			}
			close(done)
		}()
		vSettle()
		if vBool("wait") {
			close(spotter.release)
			vSettle()
			vAssert(len(spotter.reports) == n, "every report is handled once")
			for i, f := range spotter.reports {
				vAssert(f == i, "the reports are handled in order")
			}
			spotter.release = make(chan bool)
		}
	} else {
		close(done)
	}
	closed := make(chan bool)
	spotter.closing = true
	go func() {
		p.Close()
		close(closed)
	}()
	vSettle()
	close(spotter.release)
	<-closed
	vAssert(!vStarted && !vStreaming[0], "the stream and the receiver are stopped")
	<-done
	vSettle()
	vAssert(vLiveGoroutines() == 0, "nothing is left behind")
	vReach("end")
}

// vBusySpotter takes no spot before it is released.
type vBusySpotter struct {
	release chan bool
	reports []int
	active  int
	closing bool // the process is being closed
}

func (s *vBusySpotter) Spot(callsign string, frequency float64, msg string, timestamp time.Time) {
	s.active++
	vAssert(s.active == 1 || s.closing, "the reports are handled one after another")
	<-s.release
	s.active--
	s.reports = append(s.reports, int(frequency))
}
