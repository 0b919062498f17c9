package tci

import (
	"net"
	"time"
	"unsafe"

	tci "github.com/ftl/tci/client"

	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/scope"
)

// The device: stand-ins for the TCI client and for the receiver.

// vDevice is what the TCI client gives the process.
type vDevice interface {
	Connected(connected bool)
	SetDDS(trx int, frequency int)
	SetIF(trx int, vfo tci.VFO, frequency int)
	IQData(trx int, sampleRate tci.IQSampleRate, data []float32)
}

type vSpot struct {
	name      string
	frequency int
}

type vReport struct {
	callsign  string
	frequency float64
}

var (
	vDeviceListener vDevice
	vIsConnected    bool
	vStreaming      map[int]bool
	vSpots          []vSpot // what the device shows

	vReporter rx.Reporter[int]
	vStarted  bool
	vParts    [][]float32
	vRates    []int
	vCenters  []int
	vOffsets  []int
	vSettings [4]int // threshold, debounce, silence and attachment timeout
	vScope    scope.Scope
	vOnStop   func()

	vHostPort   = 40001 // of the resolved address
	vDialled    *net.TCPAddr
	vDeviceRate int // the device was told to deliver
	vStartRate  int // the receiver was started with
)

func vReset() {
	vDeviceListener, vIsConnected, vStreaming, vSpots = nil, false, map[int]bool{}, nil
	vReporter, vStarted, vParts, vRates, vCenters, vOffsets = nil, false, nil, nil, nil, nil
	vSettings, vScope, vOnStop = [4]int{}, nil, nil
	vHostPort, vDialled, vDeviceRate, vStartRate = 40001, nil, 0, 0
}

func vConnect() {
	vIsConnected = true
	vDeviceListener.Connected(true)
}

func vDisconnect() {
	vIsConnected = false
	vDeviceListener.Connected(false)
}

func vResolve(network, address string) (*net.TCPAddr, error) {
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: vHostPort}, nil
}

func vKeepOpen(host *net.TCPAddr, retryInterval time.Duration, trace bool, listeners ...interface{}) *tci.Client {
	vDialled = host
	c := &tci.Client{}
	c.MinIFFrequency, c.MaxIFFrequency = -20000, 20000
	return c
}

func vNotify(n unsafe.Pointer, listener interface{}) { vDeviceListener = listener.(vDevice) }
func vConnectedNow(c *tci.Client) bool               { return vIsConnected }
func vStartIQ(c *tci.Client, trx int) error {
	vStreaming[trx] = true
	return nil
}
func vStopIQ(c *tci.Client, trx int) error {
	vStreaming[trx] = false
	return nil
}
func vSampleRate(c *tci.Client, rate tci.IQSampleRate) error {
	vDeviceRate = int(rate)
	return nil
}

func vAddSpot(c *tci.Client, callsign string, mode tci.Mode, frequency int, color tci.ARGB, text string) error {
	vDeleteSpot(c, callsign)
	vSpots = append(vSpots, vSpot{callsign, frequency})
	return nil
}

func vDeleteSpot(c *tci.Client, callsign string) error {
	for i, s := range vSpots {
		if s.name == callsign {
			vSpots = append(append([]vSpot{}, vSpots[:i]...), vSpots[i+1:]...)
			break
		}
	}
	return nil
}

type vReceiver = rx.Receiver[float32, int]

func vAddReporter(r *vReceiver, reporter rx.Reporter[int]) {
	if vReporter == nil {
		vReporter = reporter
	}
}
func vStart(r *vReceiver, sampleRate int, blockSize int) { vStarted, vStartRate = true, sampleRate }
func vStopReceiver(r *vReceiver) {
	vStarted = false
	if vOnStop != nil {
		vOnStop()
	}
}
func vEdgeWidth(r *vReceiver, width int)              {}
func vThreshold(r *vReceiver, threshold float32)      { vSettings[0] = int(threshold) }
func vDebounce(r *vReceiver, debounce int)            { vSettings[1] = debounce }
func vSilence(r *vReceiver, timeout time.Duration)    { vSettings[2] = int(timeout) }
func vAttachment(r *vReceiver, timeout time.Duration) { vSettings[3] = int(timeout) }
func vSetScope(r *vReceiver, s scope.Scope)           { vScope = s }
func vCenter(r *vReceiver, frequency int)             { vCenters = append(vCenters, frequency) }
func vOffset(r *vReceiver, frequency int)             { vOffsets = append(vOffsets, frequency) }
func vIQData(r *vReceiver, sampleRate int, data []float32) {
	vRates = append(vRates, sampleRate)
	vParts = append(vParts, append([]float32{}, data...))
}

// vSpotter records the spots.
type vSpotter struct {
	reports []vReport
}

func (s *vSpotter) Spot(callsign string, frequency float64, msg string, timestamp time.Time) {
	s.reports = append(s.reports, vReport{callsign, frequency})
}

func vProcess(trx int, spotter Spotter) *Process {
	p, err := New("localhost:40001", trx, rx.StrainMode, spotter, nil, false)
	vAssert(err == nil && vDeviceListener != nil, "the process is created")
	return p
}
