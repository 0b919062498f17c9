package scope

import (
	"fmt"

	"github.com/ftl/sdrainer/scope/pb"
)

//verif:include scope.go
//verif:stub net.ResolveTCPAddr = vResolve
//verif:stub net.Listen = vListen
//verif:stub google.golang.org/grpc.NewServer = vNewServer
//verif:stub (*google.golang.org/grpc.Server).RegisterService = vRegister
//verif:stub (*google.golang.org/grpc.Server).Serve = vServe
//verif:stub (*google.golang.org/grpc.Server).Stop = vHalt
//verif:stub (*google.golang.org/grpc.Server).GracefulStop = vHalt
//verif:stub github.com/golang/protobuf/proto.RegisterType = vRegisterMessage
//verif:stub github.com/golang/protobuf/proto.RegisterMapType = vRegisterType
//verif:stub github.com/golang/protobuf/proto.RegisterFile = vRegisterFile
//verif:bound up to 3 viewers that register before any of 4 (quick) / 5 (thorough) frames and take all waiting frames or none after each of them; buffers of up to 2 (quick) / 3 (thorough) frames
//verif:assume the network is a stand-in; one schedule (the schedules are the subject of S03)

func vFrame(i int) *pb.Frame {
	return &pb.Frame{Frame: &pb.Frame_TimeFrame{TimeFrame: &pb.TimeFrame{StreamId: fmt.Sprint(i)}}}
}

//verif:harness vHarness_viewers conc=1 preempt=0 mode=exact merge=0 mapFork=1 native=0 timers=0 p.n=3/3 p.k=4/5 p.size=2/3 steps=2000000 budget=150/400
func vHarness_viewers() {
	vQuiet(true)
	vNetwork()
	size := 1 + vChoose("size", vParam("size", 2))
	server, err := newGRPCServer("localhost:", size)
	vAssert(err == nil, "the server is created")
	go server.Start()
	vSettle()
	n, k := vParam("n", 3), vParam("k", 3)
	viewers := make([]chan *pb.Frame, n)
	joins := make([]int, n)
	waiting := make([][]string, n)
	dropped := make([]bool, n)
	for j := range viewers {
		joins[j] = vInt("joins", 0, k)
	}
	take := func(j int) {
		for _, want := range waiting[j] {
			frame, open := <-viewers[j]
			vAssert(open && frame.GetTimeFrame().StreamId == want, "the viewer gets every frame in order")
		}
		waiting[j] = nil
		select {
		case frame, open := <-viewers[j]:
			vAssert(frame == nil && !open, "the viewer gets no other frame")
			vAssert(dropped[j], "the viewer stays connected")
		default:
			vAssert(!dropped[j], "a viewer without room is disconnected")
		}
	}
	for i := 0; i < k; i++ {
		for j := range viewers {
			if joins[j] == i {
				viewers[j] = server.getFrameStream()
			}
		}
		server.SendFrame(vFrame(i))
		vSettle()
		for j := range viewers {
			if joins[j] > i {
				continue
			}
			if len(waiting[j]) >= size {
				dropped[j] = true
			}
			if !dropped[j] {
				waiting[j] = append(waiting[j], fmt.Sprint(i))
			}
			if vBool("takes") {
				take(j)
			}
		}
	}
	for j := range viewers {
		if joins[j] < k {
			take(j)
		}
	}
	server.Stop()
	vSettle()
	for j := range viewers {
		if joins[j] < k && !dropped[j] {
			_, open := <-viewers[j]
			vAssert(!open, "all viewers are disconnected when the server stops")
		}
	}
	vReach("end")
}
