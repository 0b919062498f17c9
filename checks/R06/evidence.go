package rx

import (
	"errors"
	"time"

	"github.com/ftl/hamradio/callsign"
	"github.com/ftl/hamradio/scp"
)

//verif:include listener.go
//verif:stub github.com/ftl/hamradio/dxcc.LocalFilename = vNoFile
//verif:stub github.com/ftl/hamradio/scp.LocalFilename = vNoFile
//verif:bound every history of 6 (quick) / 7 (thorough) decodes of three callsigns, and one decode (induction) after any number of earlier decodes of three callsigns, each of them a known contest call or not, in every map iteration order (fixed order for the histories)
//verif:assume the contest callsigns are given by a stand-in

type vSpot struct {
	what, call    string
	count, weight int
}

type vSpots struct{ all []vSpot }

func (c *vSpots) CallsignDecoded(callsign string, count int, weight int) {
	c.all = append(c.all, vSpot{"decoded", callsign, count, weight})
}
func (c *vSpots) CallsignSpotted(callsign string) {
	c.all = append(c.all, vSpot{"spotted", callsign, 0, 0})
}
func (c *vSpots) SpotTimeout(callsign string) { c.all = append(c.all, vSpot{"timeout", callsign, 0, 0}) }

// vSimilar returns what is found for a callsign that is not known itself.
func vSimilar(s string) ([]string, error) {
	switch vChoose("similar", 5) {
	case 0:
		return nil, errors.New("not found")
	case 1:
		return []string{}, nil
	case 2:
		return []string{s + "A", s + "B", s}, nil
	case 3:
		return []string{s[:len(s)-1], "X" + s}, nil
	}
	return []string{"N0CALL", s}, nil
}

// vContest knows one contest callsign.
type vContest string

func (c vContest) FindStrings(s string) ([]string, error) {
	if s == string(c) {
		return []string{s, "N0CALL"}, nil
	}
	return []string{s + "A", s}, nil
}
func (c vContest) Find(s string) ([]scp.Match, error) { return nil, nil }

// vKnown knows any of the callsigns.
type vKnown struct{ weight [3]int }

func (c *vKnown) FindStrings(s string) ([]string, error) {
	for i, name := range vNames {
		if s == name && c.weight[i] == 1 {
			return []string{s, "N0CALL"}, nil
		}
	}
	return vSimilar(s)
}
func (c *vKnown) Find(s string) ([]scp.Match, error) { return nil, nil }

var vNames = [3]string{"DL1ABC", "K1A", "G4FON/p"}

// vCheckDecode checks the reports of one decode of the given callsign.
func vCheckDecode(r *vSpots, got int, evidence *[3]int, count *[3]int, last *int) {
	count[got]++
	evidence[got]++
	vAssert(len(r.all) > 0 && r.all[0].what == "decoded" && r.all[0].call == vNames[got], "every decode is reported")
	vAssert(r.all[0].count == count[got], "every decode is reported with its running count")
	vAssert(r.all[0].weight == evidence[got]-count[got], "every decode is reported with its weight")
	top := max(evidence[0], evidence[1], evidence[2])
	rest := r.all[1:]
	if top < 3 {
		vAssert(len(rest) == 0, "nothing is spotted without enough evidence")
		return
	}
	best := -1
	for i, name := range vNames {
		if len(rest) > 0 && rest[len(rest)-1].what == "spotted" && rest[len(rest)-1].call == name {
			best = i
		}
	}
	vAssert(best >= 0, "a callsign is spotted when there is enough evidence")
	vAssert(evidence[best] == top, "the spotted callsign is always one with the most evidence")
	if *last >= 0 && best != *last {
		vAssert(len(rest) == 2 && rest[0].what == "timeout" && rest[0].call == vNames[*last], "a replaced callsign is reported to have timed out once")
		vAssert(evidence[best] > evidence[*last], "a callsign is replaced only when another one has strictly more evidence")
	} else {
		vAssert(len(rest) == 1, "there is no timeout without a replacement")
	}
	*last = best
}

func vText(i int) []byte { return []byte([]string{" dl1abc ", " k1a ", " g4fon/p "}[i]) }

//verif:harness vHarness_history conc=1 preempt=0 mode=exact merge=0 mapFork=1 steps=2000000 p.n=6/7 budget=200/600
func vHarness_history() {
	clock := new(manualClock)
	clock.Set(time.Now())
	r := &vSpots{}
	p := NewTextProcessor(nil, clock, r)
	contest := vChoose("contest", 2)
	p.scpFinder = vContest("NOBODY")
	var evidence, count [3]int
	if contest == 1 {
		p.scpFinder = vContest(vNames[0])
		evidence[0] = 1
	}
	p.Restart()
	last := -1
	for i := 0; i < vParam("n", 6); i++ {
		got := vChoose("callsign", 3)
		r.all = nil
		p.Write(vText(got))
		vSettle()
		if contest == 1 && count[0] == 0 && got != 0 {
			evidence[0] = 0 // not decoded yet
			vCheckDecode(r, got, &evidence, &count, &last)
			evidence[0] = 1
			continue
		}
		vCheckDecode(r, got, &evidence, &count, &last)
	}
	p.Stop()
	vReach("end")
}

//verif:harness vHarness_step conc=1 preempt=0 mode=exact merge=0 steps=2000000 budget=100/300
func vHarness_step() {
	clock := new(manualClock)
	clock.Set(time.Now())
	r := &vSpots{}
	p := NewTextProcessor(nil, clock, r)
	p.Restart()
	var evidence, count [3]int
	last := -1
	top := 0
	known := &vKnown{}
	p.scpFinder = known
	for i, name := range vNames {
		count[i] = vInt("count", 0, 1<<40)
		weight := vInt("weight", 0, 1)
		known.weight[i] = weight
		if count[i] == 0 {
			continue
		}
		evidence[i] = count[i] + weight
		call, err := callsign.Parse(name)
		vAssume(err == nil)
		p.collectedCallsigns[call.String()] = collectedCallsign{call: call, count: count[i], weight: weight}
		top = max(top, evidence[i])
	}
	if top >= 3 {
		last = vChoose("spotted", 3)
		vAssume(evidence[last] == top)
		p.lastBestMatch = callsign.MustParse(vNames[last])
	}
	got := vChoose("callsign", 3)
	if count[got] == 0 {
		evidence[got] = known.weight[got]
	}
	p.Write(vText(got))
	vSettle()
	vCheckDecode(r, got, &evidence, &count, &last)
	p.Stop()
	vReach("end")
}
