package rx

import (
	"errors"
	"time"

	"github.com/ftl/hamradio/dxcc"
	"github.com/ftl/hamradio/scp"
)

//verif:stub github.com/ftl/hamradio/dxcc.LocalFilename = vDXCCFilename
//verif:stub github.com/ftl/hamradio/dxcc.Update = vDXCCUpdate
//verif:stub github.com/ftl/hamradio/dxcc.LoadLocal = vDXCCLoad
//verif:stub (github.com/ftl/hamradio/dxcc.Prefixes).Find = vDXCCFind
//verif:stub github.com/ftl/hamradio/scp.LocalFilename = vSCPFilename
//verif:stub github.com/ftl/hamradio/scp.Update = vSCPUpdate
//verif:stub github.com/ftl/hamradio/scp.LoadLocal = vSCPLoad
//verif:stub (github.com/ftl/hamradio/scp.Database).FindStrings = vSCPFind
//verif:bound every combination of failures of finding, updating, loading and searching the country prefixes and the contest callsigns; four decodes of one callsign, with or without a portable suffix, that is known or not known to either list
//verif:assume the library functions that find, download, load and search the reference data are replaced by stand-ins that fail as chosen

var (
	vErr                      = errors.New("not available")
	vDXCCOk, vSCPOk           bool // loaded
	vKnownPrefix, vKnownCall  bool
	vSCPFailed                bool
	vDXCCLoadOk, vSCPLoadOk   bool
	vDXCCNameOk, vSCPNameOk   bool
	vDXCCUpdateO, vSCPUpdateO bool
)

func vDXCCFilename() (string, error) {
	if !vDXCCNameOk {
		return "", vErr
	}
	return "cty.dat", nil
}
func vSCPFilename() (string, error) {
	if !vSCPNameOk {
		return "", vErr
	}
	return "MASTER.SCP", nil
}
func vDXCCUpdate(url, name string) (bool, error) {
	if !vDXCCUpdateO {
		return false, vErr
	}
	return true, nil
}
func vSCPUpdate(url, name string) (bool, error) {
	if !vSCPUpdateO {
		return false, vErr
	}
	return true, nil
}
func vDXCCLoad(name string) (*dxcc.Prefixes, error) {
	if !vDXCCLoadOk {
		return nil, vErr
	}
	vDXCCOk = true
	return dxcc.NewPrefixes(), nil
}
func vSCPLoad(name string) (*scp.Database, error) {
	if !vSCPLoadOk {
		return nil, vErr
	}
	vSCPOk = true
	return new(scp.Database), nil
}
func vDXCCFind(p dxcc.Prefixes, s string) ([]dxcc.Prefix, bool) {
	return nil, vKnownPrefix
}
func vSCPFind(d scp.Database, s string) ([]string, error) {
	if vSCPFailed {
		return nil, vErr
	}
	if vKnownCall {
		return []string{s}, nil
	}
	return nil, nil
}

type vSeen struct{ decoded, spotted, weight int }

func (c *vSeen) CallsignDecoded(callsign string, count int, weight int) {
	c.decoded++
	c.weight = weight
}
func (c *vSeen) CallsignSpotted(callsign string) { c.spotted++ }
func (c *vSeen) SpotTimeout(callsign string)     {}

//verif:harness vHarness_missing conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 steps=2000000 budget=100/300
func vHarness_missing() {
	vDXCCNameOk, vSCPNameOk = vBool("prefix file found"), vBool("contest file found")
	vDXCCUpdateO, vSCPUpdateO = vBool("prefixes updated"), vBool("contest calls updated")
	vDXCCLoadOk, vSCPLoadOk = vBool("prefixes loaded"), vBool("contest calls loaded")
	vKnownPrefix, vKnownCall, vSCPFailed = vBool("known prefix"), vBool("known call"), vBool("search fails")
	seen := &vSeen{}
	p := NewTextProcessor(nil, WallClock, seen)
	p.Restart()
	text := []byte([]string{" dl1abc ", " k1a/p "}[vChoose("callsign", 2)])
	weight := 0
	if vSCPOk && vKnownCall && !vSCPFailed {
		weight = 1
	}
	vAssert(vDXCCOk || !vDXCCNameOk || !vDXCCLoadOk, "available country prefixes are used")
	vAssert(vSCPOk || !vSCPNameOk || !vSCPLoadOk, "available contest callsigns are used")
	rejected := vDXCCOk && !vKnownPrefix
	for i := 1; i <= 4; i++ {
		p.Write(text)
		vSettle()
		if rejected {
			vAssert(seen.decoded == 0, "an unknown prefix is rejected")
			continue
		}
		vAssert(seen.decoded == i, "a callsign is collected without the reference data")
		vAssert(seen.weight == weight, "only a known contest call has extra weight")
		vAssert(seen.spotted == max(0, i+weight-2), "a callsign is spotted without the reference data")
	}
	p.Stop()
	vReach("end")
}

//verif:harness vHarness_listener conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 steps=2000000 budget=100/300
func vHarness_listener() {
	// nothing is available: a listener works
	clock := new(manualClock)
	clock.Set(time.Now())
	l := NewListener[float32, int]("x", nil2{}, clock, vNull{}, 48000, 512)
	vAssert(!l.Attached(), "a listener is created without the reference data")
	vReach("end")
}

type nil2 struct{}

func (nil2) Write(b []byte) (int, error) { return len(b), nil }

type vNull struct{}

func (vNull) ListenerActivated(string, int)                 {}
func (vNull) ListenerDeactivated(string, int)               {}
func (vNull) CallsignDecoded(string, string, int, int, int) {}
func (vNull) CallsignSpotted(string, string, int)           {}
func (vNull) SpotTimeout(string, string, int)               {}
