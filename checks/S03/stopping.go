package scope

import (
	"errors"
	"time"
)

//verif:include scope.go
//verif:stub net.ResolveTCPAddr = vResolve
//verif:stub net.Listen = vListen
//verif:stub google.golang.org/grpc.NewServer = vNewServer
//verif:stub (*google.golang.org/grpc.Server).RegisterService = vRegister
//verif:stub (*google.golang.org/grpc.Server).Serve = vServe
//verif:stub (*google.golang.org/grpc.Server).Stop = vHalt
//verif:stub (*google.golang.org/grpc.Server).GracefulStop = vHalt
//verif:stub github.com/golang/protobuf/proto.RegisterType = vRegisterMessage
//verif:stub github.com/golang/protobuf/proto.RegisterMapType = vRegisterType
//verif:stub github.com/golang/protobuf/proto.RegisterFile = vRegisterFile
//verif:bound a running scope server with one viewer that may be stuck and that is stopped while two frames are shown, or while a new viewer connects: all interleavings with up to 2 (quick) / 3 (thorough) preemptions; while both happens or it is stopped twice at the same time: 0 / 1 preemptions
//verif:bound a server that is starting or fails to listen while a viewer connects and frames are shown or it is stopped: all interleavings with up to 1 / 2 preemptions
//verif:assume the network is a stand-in: opening a connection fails or succeeds at once, stopping the server ends all its connections

func vShow(s *ScopeServer, done chan bool) {
	s.ShowTimeFrame(&TimeFrame{Frame: Frame{Stream: "a", Timestamp: time.Unix(1, 0)}})
	s.ShowSpectralFrame(&SpectralFrame{Frame: Frame{Stream: "b", Timestamp: time.Unix(2, 0)}})
	done <- true
}

// vStopping stops a running server with one viewer.
func vStopping(shows, opens, stops int) {
	vQuiet(true)
	vNetwork()
	s := NewScopeServer("localhost:")
	vAssert(s.Start() == nil, "the server starts")
	vSettle()
	vAssert(s.Active(), "the server is active")
	viewer := vNewStream()
	viewer.stuck = vBool("stuck")
	go viewer.open()
	vSettle()
	vAssert(viewer.opened, "the viewer is connected")
	vQuiet(false)

	done := make(chan bool, 4)
	for i := 0; i < shows; i++ {
		go vShow(s, done)
	}
	late := make([]*vStream, opens)
	for i := range late {
		late[i] = vNewStream()
		go late[i].open()
	}
	for i := 0; i < stops; i++ {
		go func() {
			s.Stop()
			done <- true
		}()
	}
	for i := 0; i < shows+stops; i++ {
		<-done
	}
	vSettle()
	vAssert(!s.Active(), "the server is not active any more")
	vAssert(viewer.ended, "all viewers are disconnected")
	for _, v := range late {
		vAssert(v.ended, "nobody waits for a connection")
	}
	vAssert(vListeners == 0, "nobody can connect any more")
	vAssert(vLiveGoroutines() == 0, "nothing is left behind")
	vShow(s, done)
	s.Stop()
	vReach("end")
}

//verif:harness vHarness_show conc=1 mode=exact merge=0 mapFork=1 native=0 timers=0 steps=2000000 budget=100/400 preempt=2/3
func vHarness_show() { vStopping(1, 0, 1) }

//verif:harness vHarness_twice conc=1 mode=exact merge=0 mapFork=1 native=0 timers=0 steps=2000000 budget=100/400 preempt=0/1
func vHarness_twice() { vStopping(1, 0, 2) }

//verif:harness vHarness_open conc=1 mode=exact merge=0 mapFork=1 native=0 timers=0 steps=2000000 budget=100/400 preempt=2/3
func vHarness_open() { vStopping(0, 1, 1) }

//verif:harness vHarness_all conc=1 mode=exact merge=0 mapFork=1 native=0 timers=0 steps=2000000 budget=100/400 preempt=0/1
func vHarness_all() { vStopping(1, 1, 1) }

//verif:harness vHarness_start conc=1 preempt=1/2 mode=exact merge=0 mapFork=1 native=0 timers=0 steps=2000000 budget=150/600
func vHarness_start() {
	vNetwork()
	if vBool("fails") {
		vListenError = errors.New("address in use")
	}
	s := NewScopeServer("localhost:")
	vAssert(s.Start() == nil, "the server starts")
	done := make(chan bool, 4)
	viewer := vNewStream()
	go viewer.open()
	if !vBool("shows") {
		go func() {
			s.Stop()
			s.Addr()
			done <- true
		}()
	} else {
		go vShow(s, done)
	}
	<-done
	vSettle()
	if vListenError != nil {
		vAssert(!s.Active(), "a server that cannot listen is not active")
	} else if s.Active() {
		vShow(s, done)
		s.Stop()
		vSettle()
	}
	vAssert(!s.Active(), "the server is not active any more")
	vAssert(viewer.ended, "all viewers are disconnected")
	vAssert(vListeners == 0, "nobody can connect any more")
	vAssert(vLiveGoroutines() == 0, "nothing is left behind")
	vReach("end")
}
