package scope

import (
	"context"
	"errors"
	"net"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/runtime/protoiface"

	"github.com/ftl/sdrainer/scope/pb"
)

// The network: stand-ins for packages net and grpc. The server delivers messages to its streams as they are.

var (
	vImpl        any
	vDesc        *grpc.ServiceDesc
	vServing     bool
	vQuit        chan struct{}
	vHalted      bool
	vListenError error
	vStreams     []*vStream
	vListeners   int
)

func vNetwork() {
	vImpl, vDesc = nil, nil
	vServing, vHalted = false, false
	vListenError = nil
	vStreams = nil
	vListeners = 0
}

func vResolve(network, address string) (*net.TCPAddr, error) {
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 35369}, nil
}

type vListener struct{}

func (l *vListener) Accept() (net.Conn, error) { return nil, net.ErrClosed }
func (l *vListener) Addr() net.Addr            { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 35369} }
func (l *vListener) Close() error {
	vListeners--
	return nil
}

func vListen(network, address string) (net.Listener, error) {
	if vListenError != nil {
		return nil, vListenError
	}
	vListeners++
	return &vListener{}, nil
}

func vNewServer(opt ...grpc.ServerOption) *grpc.Server {
	vServing, vHalted = false, false
	vQuit = make(chan struct{})
	return &grpc.Server{}
}

func vRegister(s *grpc.Server, desc *grpc.ServiceDesc, impl any) {
	vDesc, vImpl = desc, impl
}

func vServe(s *grpc.Server, l net.Listener) error {
	if vHalted {
		l.Close()
		return grpc.ErrServerStopped
	}
	vServing = true
	<-vQuit
	l.Close()
	return nil
}

func vHalt(s *grpc.Server) {
	if vHalted {
		return
	}
	vHalted, vServing = true, false
	for _, stream := range vStreams {
		stream.cancel()
	}
	close(vQuit)
}

// vStream is both ends of the connection between the server and a viewer.
type vStream struct {
	done     chan struct{}
	canceled bool
	frames   []*pb.Frame // what the viewer got
	stuck    bool        // the viewer takes no more frames
	broken   bool        // sending fails
	opened   bool
	ended    bool
	deliver  chan *pb.Frame // where the frames go to if not nil
}

func vNewStream() *vStream { return &vStream{done: make(chan struct{})} }

func (s *vStream) cancel() {
	if !s.canceled {
		s.canceled = true
		close(s.done)
	}
}

// open connects the viewer with the server, if it is running, and returns when the stream ends.
func (s *vStream) open() {
	if vServing && !s.canceled {
		s.opened = true
		vStreams = append(vStreams, s)
		vDesc.Streams[0].Handler(vImpl, s)
	}
	s.ended = true
	if s.deliver != nil {
		close(s.deliver)
	}
}

func (s *vStream) SendMsg(m any) error {
	if s.canceled {
		return context.Canceled
	}
	if s.stuck {
		<-s.done
		return context.Canceled
	}
	if s.broken {
		return errors.New("the connection is broken")
	}
	s.frames = append(s.frames, m.(*pb.Frame))
	if s.deliver != nil {
		select {
		case s.deliver <- m.(*pb.Frame):
		case <-s.done:
		}
	}
	return nil
}

func (s *vStream) SetHeader(metadata.MD) error  { return nil }
func (s *vStream) SendHeader(metadata.MD) error { return nil }
func (s *vStream) SetTrailer(metadata.MD)       {}

func (s *vStream) RecvMsg(m any) error { return nil }

func (s *vStream) Context() context.Context { return s }

func (s *vStream) Deadline() (time.Time, bool) { return time.Time{}, false }
func (s *vStream) Done() <-chan struct{}       { return s.done }
func (s *vStream) Value(key any) any           { return nil }
func (s *vStream) Err() error {
	if s.canceled {
		return context.Canceled
	}
	return nil
}

func vRegisterMessage(m protoiface.MessageV1, name string) {}
func vRegisterType(v any, name string)                     {}
func vRegisterFile(name string, b []byte)                  {}

// The client's side: a connection whose streams are served by a viewer of the running server.

func vDial(target string, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
	return &grpc.ClientConn{}, nil
}

func vDialClose(c *grpc.ClientConn) error {
	for _, s := range vStreams {
		s.cancel()
	}
	return nil
}

type vClientStream struct {
	*vStream
}

func vNewClientStream(c *grpc.ClientConn, ctx context.Context, desc *grpc.StreamDesc, method string, opts ...grpc.CallOption) (grpc.ClientStream, error) {
	s := vNewStream()
	s.deliver = make(chan *pb.Frame, 8)
	go s.open()
	return vClientStream{s}, nil
}

func (s vClientStream) CloseSend() error             { return nil }
func (s vClientStream) Header() (metadata.MD, error) { return nil, nil }
func (s vClientStream) Trailer() metadata.MD         { return nil }
func (s vClientStream) SendMsg(m any) error          { return nil }
func (s vClientStream) RecvMsg(m any) error {
	frame, open := <-s.deliver
	if !open {
		return errors.New("the connection is closed")
	}
	m.(*pb.Frame).Frame = frame.Frame
	return nil
}

func vCredentials() credentials.TransportCredentials { return nil }
