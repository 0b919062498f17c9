package tci

import (
	"net"
	"time"

	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/scope"
)

//verif:include tci.go
//verif:stub net.ResolveTCPAddr = vResolve
//verif:stub github.com/ftl/tci/client.KeepOpen = vKeepOpen
//verif:stub (*github.com/ftl/tci/client.notifier).Notify = vNotify
//verif:stub (*github.com/ftl/tci/client.Client).Connected = vConnectedNow
//verif:stub (*github.com/ftl/tci/client.Client).StartIQ = vStartIQ
//verif:stub (*github.com/ftl/tci/client.Client).StopIQ = vStopIQ
//verif:stub (*github.com/ftl/tci/client.Client).SetIQSampleRate = vSampleRate
//verif:stub (*github.com/ftl/tci/client.Client).AddSpot = vAddSpot
//verif:stub (*github.com/ftl/tci/client.Client).DeleteSpot = vDeleteSpot
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).AddReporter = vAddReporter
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).Start = vStart
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).Stop = vStopReceiver
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetEdgeWidth = vEdgeWidth
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetPeakThreshold = vThreshold
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetSignalDebounce = vDebounce
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetSilenceTimeout = vSilence
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetAttachmentTimeout = vAttachment
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetScope = vSetScope
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetCenterFrequency = vCenter
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetVFOOffset = vOffset
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).IQData = vIQData
//verif:bound every port; every sequence of 5 (quick) / 6 (thorough) settings, connects and disconnects with any positive values; every sequence of 4 (quick) / 5 (thorough) reports of 2 listeners and 2 callsigns with any frequencies, for every combination of the show flags
//verif:assume the TCI client and the receiver are stand-ins that record what they are given; one schedule (the schedules are the subject of X02)

//verif:harness vHarness_host mode=exact merge=0 native=0 steps=2000000 budget=60
func vHarness_host() {
	vReset()
	port := vInt("port", 0, 65535)
	vHostPort = port
	_, err := New("host", 0, rx.StrainMode, nil, nil, false)
	vAssert(err == nil && vDialled != nil, "the process is created")
	vAssert(vDialled.IP.Equal(net.IPv4(127, 0, 0, 1)), "the client connects to the given host")
	vAssert(vDialled.Port == port || port == 0 && vDialled.Port == 40001, "the client connects to the given port, or to the default one")
	vReach("end")
}

//verif:harness vHarness_settings conc=1 preempt=0 mode=arith merge=0 mapFork=1 native=0 timers=0 p.n=5/6 steps=2000000 budget=100/300
func vHarness_settings() {
	vQuiet(true)
	vReset()
	p := vProcess(0, nil)
	var want [4]int
	var wantScope scope.Scope
	ever := false
	for i, n := 0, vParam("n", 4); i < n; i++ {
		what := vChoose("what", 6)
		switch v := vInt("value", 1, 1000000); what {
		case 0:
			p.SetThreshold(v)
			want[0] = v
		case 1:
			p.SetSignalDebounce(v)
			want[1] = v
		case 2:
			p.SetSilenceTimeout(time.Duration(v))
			want[2] = v
		case 3:
			p.SetAttachmentTimeout(time.Duration(v))
			want[3] = v
		case 4:
			wantScope = scope.NewNullScope()
			p.SetScope(wantScope)
		case 5:
			if vIsConnected {
				vDisconnect()
			} else {
				vConnect()
				ever = true
			}
		}
		vSettle()
		if vIsConnected {
			vAssert(vStarted && vStreaming[0], "the receiver gets data while the device is connected")
			vAssert(vDeviceRate == vStartRate, "the device delivers what the receiver works with")
			for j := range want {
				vAssert(vSettings[j] == want[j], "every setting is applied")
			}
			vAssert(wantScope == nil || vScope == wantScope, "the scope is applied")
		} else if !ever {
			vAssert(vSettings == [4]int{}, "nothing is applied before the device is connected")
		}
	}
	vReach("end")
}

//verif:harness vHarness_reports conc=1 preempt=0 mode=arith merge=0 mapFork=1 native=0 timers=0 p.n=4/5 steps=2000000 budget=100/300
func vHarness_reports() {
	vQuiet(true)
	vReset()
	spotter := &vSpotter{}
	p := vProcess(0, spotter)
	vConnect()
	listeners, spots := vBool("listeners"), vBool("spots")
	p.SetShow(listeners, spots)
	var shown []vSpot
	hide := func(name string) {
		for i, s := range shown {
			if s.name == name {
				shown = append(append([]vSpot{}, shown[:i]...), shown[i+1:]...)
				return
			}
		}
	}
	var reports []vReport
	ids, calls := []string{"l1", "l2"}, []string{"aa1aa", "bb2bb"}
	for i, n := 0, vParam("n", 3); i < n; i++ {
		frequency := vInt("frequency", 0, 1000000000)
		k := vChoose("which", 2)
		id, call := ids[k], calls[k]
		switch vChoose("report", 5) {
		case 0:
			vReporter.ListenerActivated(id, frequency)
			if listeners {
				hide(id)
				shown = append(shown, vSpot{id, frequency})
			}
		case 1:
			vReporter.ListenerDeactivated(id, frequency)
			hide(id)
		case 2:
			vReporter.CallsignSpotted(id, call, frequency)
			reports = append(reports, vReport{call, float64(frequency)})
			if spots {
				hide(">" + call + "<")
				shown = append(shown, vSpot{">" + call + "<", frequency})
			}
		case 3:
			vReporter.SpotTimeout(id, call, frequency)
			hide(">" + call + "<")
		case 4:
			vReporter.CallsignDecoded(id, call, frequency, 1, 1)
		}
	}
	vSettle()
	vAssert(len(vSpots) == len(shown), "the device shows exactly the active listeners and spots")
	for i, s := range shown {
		vAssert(vSpots[i].name == s.name, "the device shows the spot")
		vAssert(vSpots[i].frequency == s.frequency, "the spot is at its frequency")
	}
	vAssert(len(spotter.reports) == len(reports), "every spotted callsign is forwarded once")
	for i, r := range reports {
		vAssert(spotter.reports[i].callsign == r.callsign, "the callsign is forwarded")
		vAssert(spotter.reports[i].frequency == r.frequency, "the frequency is forwarded")
	}
	p.Close()
	vAssert(!vStarted && !vStreaming[0], "the stream and the receiver are stopped")
	vReach("end")
}
