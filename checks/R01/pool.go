package rx

import (
	"fmt"

	"github.com/ftl/sdrainer/dsp"
)

//verif:bound pools of 1 to 3 listeners, every sequence of 5 (quick) / 6 (thorough) bind, release and reset operations, including the release of listeners that were released before or never belonged to the pool, attached or not

type vNoReports struct{ activated, deactivated int }

func (r *vNoReports) ListenerActivated(string, int)   { r.activated++ }
func (r *vNoReports) ListenerDeactivated(string, int) { r.deactivated++ }
func (r *vNoReports) CallsignDecoded(string, string, int, int, int) {
}
func (r *vNoReports) CallsignSpotted(string, string, int) {}
func (r *vNoReports) SpotTimeout(string, string, int)     {}

//verif:harness vHarness_pool mode=exact merge=0 p.n=5/6 budget=120/300
func vHarness_pool() {
	size := 1 + vChoose("size", 3)
	reports := &vNoReports{}
	factory := func(id string) *Listener[float32, int] {
		return &Listener[float32, int]{id: id, clock: WallClock, reporter: reports, textProcessor: &TextProcessor{}}
	}
	pool := NewListenerPool[float32, int](size, "x", factory)
	vAssert(pool.Size() == size, "the pool has the configured size")
	ids := map[string]bool{}
	for i := 1; i <= size; i++ {
		ids[fmt.Sprintf("x%d", i)] = true
	}
	bound := map[*Listener[float32, int]]bool{}
	issued := []*Listener[float32, int]{factory("x1")} // a foreign one
	check := func() {
		n := 0
		seen := map[string]bool{}
		pool.ForEach(func(l *Listener[float32, int]) {
			n++
			vAssert(bound[l], "exactly the listeners that were bound and not released are bound")
			vAssert(ids[l.ID()] && !seen[l.ID()], "all bound listeners have distinct identities of the pool")
			seen[l.ID()] = true
		})
		vAssert(n == len(bound) && n <= size, "never more than the configured number of listeners is bound")
		vAssert(pool.Available() == (n < size), "a listener is available exactly if fewer than the configured number is bound")
		first, ok := pool.First()
		vAssert(ok == (n > 0) && (!ok || bound[first]), "the first listener is a bound one")
	}
	bind := func() {
		l, ok := pool.BindNext()
		vAssert(ok == (len(bound) < size), "binding succeeds exactly if fewer than the configured number is bound")
		if ok {
			bound[l] = true
			issued = append(issued, l)
		}
	}
	for i := 0; i < vParam("n", 5); i++ {
		switch op := vChoose("operation", 3+len(issued)); op {
		case 0:
			bind()
		case 1:
			pool.Reset()
			clear(bound)
		case 2:
			if len(issued) > 1 {
				issued[len(issued)-1].peak = &dsp.Peak[float32, int]{}
			}
		default:
			l := issued[op-3]
			pool.Release(l)
			delete(bound, l)
		}
		check()
	}
	pool.Release(issued...)
	clear(bound)
	check()
	for i := 0; i < size+1; i++ {
		bind()
	}
	check()
	vReach("end")
}

//verif:harness vHarness_ids mode=exact merge=0 budget=60
func vHarness_ids() {
	n := vChoose("size", 5)
	p := NewIDPool(n, "id")
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		id, ok := p.Pop()
		vAssert(ok && !seen[id], "every identity is given out once")
		seen[id] = true
	}
	_, ok := p.Pop()
	vAssert(!ok, "no identity is given out twice")
	vReach("end")
}
