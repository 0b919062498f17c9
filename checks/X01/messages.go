package tci

import (
	tci "github.com/ftl/tci/client"
)

//verif:include tci.go
//verif:stub net.ResolveTCPAddr = vResolve
//verif:stub github.com/ftl/tci/client.KeepOpen = vKeepOpen
//verif:stub (*github.com/ftl/tci/client.notifier).Notify = vNotify
//verif:stub (*github.com/ftl/tci/client.Client).Connected = vConnectedNow
//verif:stub (*github.com/ftl/tci/client.Client).StartIQ = vStartIQ
//verif:stub (*github.com/ftl/tci/client.Client).StopIQ = vStopIQ
//verif:stub (*github.com/ftl/tci/client.Client).SetIQSampleRate = vSampleRate
//verif:stub (*github.com/ftl/tci/client.Client).AddSpot = vAddSpot
//verif:stub (*github.com/ftl/tci/client.Client).DeleteSpot = vDeleteSpot
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).AddReporter = vAddReporter
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).Start = vStart
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).Stop = vStopReceiver
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetEdgeWidth = vEdgeWidth
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetPeakThreshold = vThreshold
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetSignalDebounce = vDebounce
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetSilenceTimeout = vSilence
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetAttachmentTimeout = vAttachment
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetScope = vSetScope
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetCenterFrequency = vCenter
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).SetVFOOffset = vOffset
//verif:stub (*github.com/ftl/sdrainer/rx.Receiver[T, F]).IQData = vIQData
//verif:bound every transceiver number, VFO A and B and frequency; sequences of 3 (quick) / 4 (thorough) messages; IQ blocks of 8 to 24 (quick) / 40 (thorough) arbitrary values
//verif:assume the TCI client and the receiver are stand-ins that record what they are given

//verif:harness vHarness_messages conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=0 p.n=3/4 p.size=3/5 steps=2000000 budget=100/300
func vHarness_messages() {
	vQuiet(true)
	vReset()
	trx := vInt32("trx")
	vProcess(int(trx), nil)
	vConnect()
	vSettle()
	vAssert(vStreaming[int(trx)], "the data of the selected transceiver is requested")
	var data []float32
	var centers, offsets []int
	for i, n := 0, vParam("n", 3); i < n; i++ {
		of := vInt32("of")
		mine := of == trx
		switch vChoose("message", 3) {
		case 0:
			f := vInt32("frequency")
			vDeviceListener.SetDDS(int(of), int(f))
			if mine {
				centers = append(centers, int(f))
			}
		case 1:
			f := vInt32("frequency")
			vfo := tci.VFOA
			if vBool("second") {
				vfo = tci.VFOB
			}
			vDeviceListener.SetIF(int(of), vfo, int(f))
			if mine && vfo == tci.VFOA {
				offsets = append(offsets, int(f))
			}
		case 2:
			block := make([]float32, 8*(1+vChoose("size", vParam("size", 3))))
			for j := range block {
				block[j] = vFloat32("value")
			}
			parts := len(vParts)
			vDeviceListener.IQData(int(of), 48000, block)
			for _, p := range vParts[parts:] {
				vAssert(len(p) == len(vParts[parts]) && len(p)%2 == 0, "the parts are equal")
			}
			if mine {
				data = append(data, block...)
			}
			for j := range block { // the buffer is used again
				block[j] = 0
			}
		}
	}
	vSettle()
	vAssert(len(vCenters) == len(centers), "the center frequency is set for the selected transceiver only")
	for i, f := range centers {
		vAssert(vCenters[i] == f, "the center frequency is set")
	}
	vAssert(len(vOffsets) == len(offsets), "the VFO is set for the selected transceiver and its first VFO only")
	for i, f := range offsets {
		vAssert(vOffsets[i] == f, "the VFO is set")
	}
	for _, p := range vParts {
		vAssert(len(p) <= len(data), "no data of other transceivers is passed on")
		for j, v := range p {
			vAssert(vOr(v == data[j], vAnd(v != v, data[j] != data[j])), "the data is passed on in order")
		}
		data = data[len(p):]
	}
	for _, r := range vRates {
		vAssert(r == 48000, "the sample rate is passed on")
	}
	vAssert(len(data) == 0, "all data is passed on")
	vReach("end")
}
